// Package rpc is the simulated replacement of net/rpc as far as the
// plugin protocol uses it: arguments and results are gob-encoded, the
// call is served by a task of the plugin's process, and the call fails
// if that process dies.
package rpc

import (
	"bytes"
	"encoding/gob"
	"errors"
	"io"
	"reflect"
	"strings"
	"unsafe"

	"verif.local/sim/simrt"
)

// ServerError is an error returned by the remote side.
type ServerError string

func (e ServerError) Error() string { return string(e) }

// ErrShutdown is returned when the connection is gone.
var ErrShutdown = errors.New("connection is shut down")

// Server is the remote side.
type Server struct {
	Proc *simrt.Proc
	Impl interface{}
	Name string
}

// Client is the local side.
type Client struct {
	Srv    *Server
	closed bool
}

// Close closes the connection.
func (c *Client) Close() error { c.closed = true; return nil }

// Call calls a method of the remote object.
func (c *Client) Call(method string, args interface{}, reply interface{}) error {
	t := simrt.Cur()
	if c == nil || c.closed || t == nil {
		return ErrShutdown
	}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(args); err != nil {
		return err
	}
	w := t.World()
	var out bytes.Buffer
	var rerr error
	done := false
	p := c.Srv.Proc
	n := t.Inc("prpc")
	dead := false
	// sync1 and sync2 order the call, its service and the return.
	var sync1, sync2 [8]byte
	simrt.RaceRelease(unsafe.Pointer(&sync1))
	t.Do("rpc.send", func() {
		if w.Fault(t, "P.kill", 2, c.Srv.Name+" "+method) == 1 {
			p.Kill()
		}
		if p.Dead {
			dead = true
			return
		}
		kill := w.Fault(t, "P.killafter", 2, c.Srv.Name+" "+method) == 1
		w.Spawn(p, "plug:"+c.Srv.Name+":"+t.Name+"."+itoa(int(n)), func() {
			simrt.RaceAcquire(p.SyncPtr())
			simrt.RaceAcquire(unsafe.Pointer(&sync1))
			m := reflect.ValueOf(c.Srv.Impl).MethodByName(method[strings.LastIndex(method, ".")+1:])
			at := m.Type().In(0)
			av := reflect.New(at)
			err := gob.NewDecoder(&b).DecodeValue(av)
			rv := reflect.New(m.Type().In(1).Elem())
			if err == nil {
				r := m.Call([]reflect.Value{av.Elem(), rv})
				err, _ = r[0].Interface().(error)
			}
			pt := simrt.Cur()
			var enc error
			if err == nil {
				enc = gob.NewEncoder(&out).EncodeValue(rv)
			}
			simrt.RaceRelease(unsafe.Pointer(&sync2))
			pt.Do("rpc.reply", func() {
				if kill {
					p.Kill()
					return
				}
				if err != nil {
					rerr = ServerError(err.Error())
				} else if enc != nil {
					rerr = enc
				}
				done = true
			})
		})
	})
	if !dead {
		t.WaitFor("rpc.recv", func() bool { return done || p.Dead })
	}
	if !done {
		return io.ErrUnexpectedEOF
	}
	simrt.RaceAcquire(unsafe.Pointer(&sync2))
	if rerr != nil {
		return rerr
	}
	return gob.NewDecoder(&out).Decode(reply)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
