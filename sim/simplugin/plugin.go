// Package plugin is the simulated replacement of hashicorp/go-plugin:
// a plugin is a simulated process of its own that can die at any time.
package plugin

import (
	"errors"
	"os/exec"
	"time"
	"unsafe"

	"verif.local/sim/simfilepath"
	"verif.local/sim/simrpc"
	"verif.local/sim/simrt"
)

// HandshakeConfig is exchanged at start.
type HandshakeConfig struct {
	ProtocolVersion  uint
	MagicCookieKey   string
	MagicCookieValue string
}

// MuxBroker is not used.
type MuxBroker struct{}

// Plugin gives the two ends of a connection.
type Plugin interface {
	Server(*MuxBroker) (interface{}, error)
	Client(*MuxBroker, *rpc.Client) (interface{}, error)
}

// PluginSet is a set of plugins.
type PluginSet = map[string]Plugin

// Protocol is the wire protocol.
type Protocol string

// Protocols.
const (
	ProtocolNetRPC Protocol = "netrpc"
	ProtocolGRPC   Protocol = "grpc"
)

// ClientConfig configures a client.
type ClientConfig struct {
	HandshakeConfig
	Plugins          map[string]Plugin
	Cmd              *exec.Cmd
	Logger           interface{}
	Managed          bool
	StartTimeout     time.Duration
	AllowedProtocols []Protocol
	AutoMTLS         bool
}

// ServeConfig configures a plugin process.
type ServeConfig struct {
	HandshakeConfig
	Plugins map[string]Plugin
	Logger  interface{}
}

// ClientProtocol is a connection to a plugin.
type ClientProtocol interface {
	Close() error
	Dispense(string) (interface{}, error)
	Ping() error
}

// Client manages a plugin process.
type Client struct {
	cfg  *ClientConfig
	conn *conn
}

type conn struct {
	cfg  *ClientConfig
	proc *simrt.Proc
}

// Discover finds plugin files.
func Discover(glob, dir string) ([]string, error) {
	return filepath.Glob(filepath.Join(dir, glob))
}

// NewClient creates a client.
func NewClient(c *ClientConfig) *Client { return &Client{cfg: c} }

// Start is what the world's "pluginmain" hook must be.
type Start = func(path string) func()

// Client starts the plugin process and connects to it.
func (c *Client) Client() (ClientProtocol, error) {
	if c.conn != nil {
		return c.conn, nil
	}
	t := simrt.Cur()
	if t == nil {
		return nil, errors.New("no simulation")
	}
	w := t.World()
	path := c.cfg.Cmd.Path
	h, _ := w.Ext.Get("pluginmain").(Start)
	var main func()
	if h != nil {
		main = h(path)
	}
	if main == nil {
		return nil, errors.New("fork/exec " + path + ": no such file or directory")
	}
	p := w.NewProc("plugin:" + path)
	all, _ := w.Ext.Get("pluginall").([]*simrt.Proc)
	w.Ext.Set("pluginall", append(all, p))
	par := t.Proc
	par.OnDeath = append(par.OnDeath, func() {
		if !p.Dead {
			// Nobody ended it, so it would live on.
			p.Env.Set("orphan", true)
			p.Kill()
		}
	})
	started := new([8]byte)
	simrt.RaceRelease(unsafe.Pointer(started))
	t.Do("plugin.start", func() {
		if w.Fault(t, "P.start", 2, path) == 1 {
			p.Kill()
			return
		}
		w.StartProc(p, "plugin:"+path, func() {
			simrt.RaceAcquire(unsafe.Pointer(started))
			main()
		})
	})
	t.WaitFor("plugin.wait", func() bool { return p.Dead || p.Env.Get("serving") != nil })
	if p.Dead {
		return nil, errors.New("plugin exited before we could connect")
	}
	simrt.RaceAcquire(p.SyncPtr())
	c.conn = &conn{c.cfg, p}
	l, _ := w.Ext.Get("pluginprocs").([]*simrt.Proc)
	w.Ext.Set("pluginprocs", append(l, p))
	return c.conn, nil
}

// Kill ends the plugin process.
func (c *Client) Kill() {
	if c.conn != nil {
		p := c.conn.proc
		if t := simrt.Cur(); t != nil {
			t.Do("plugin.kill", p.Kill)
		}
	}
}

// Exited tells whether the process has ended.
func (c *Client) Exited() bool { return c.conn == nil || c.conn.proc.Dead }

func (c *conn) Close() error { return nil }

func (c *conn) Ping() error {
	if t := simrt.Cur(); t != nil {
		t.Point("ping")
	}
	if c.proc.Dead {
		return rpc.ErrShutdown
	}
	return nil
}

func (c *conn) Dispense(name string) (interface{}, error) {
	pl := c.cfg.Plugins[name]
	srv, _ := c.proc.Env.Get("serving").(map[string]Plugin)
	if pl == nil || srv[name] == nil {
		return nil, errors.New("unknown plugin type: " + name)
	}
	impl, err := srv[name].Server(nil)
	if err != nil {
		return nil, err
	}
	return pl.Client(nil, &rpc.Client{Srv: &rpc.Server{Proc: c.proc, Impl: impl, Name: filepath.Base(c.proc.Name)}})
}

// Serve serves the plugins of the calling process until it is killed.
func Serve(opts *ServeConfig) {
	t := simrt.Cur()
	if t == nil {
		return
	}
	simrt.RaceRelease(t.Proc.SyncPtr())
	t.Do("plugin.serve", func() { t.Proc.Env.Set("serving", opts.Plugins) })
	t.WaitFor("plugin.serving", func() bool { return t.Dead() })
}

// CleanupClients does nothing.
func CleanupClients() {}
