// Package grpc is the simulated replacement of google.golang.org/grpc:
// the generated service code and the server's handlers are the real
// ones, every message is marshalled and unmarshalled, each request is
// served by a task of its own, and the seeded scheduler decides
// delays, losses and cut connections.  Where either end uses TLS the
// real handshake decides whether there is a connection.
package grpc

import (
	"context"
	"errors"
	"net"
	"strings"
	"time"
	"unsafe"

	"github.com/golang/protobuf/proto"
	std "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/keepalive"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/tap"

	"verif.local/sim/simrt"
)

// ServerOption configures a server.
type ServerOption interface{ apply(*Server) }

type optFn func(*Server)

func (f optFn) apply(s *Server) { f(s) }

// EmptyServerOption does nothing.
type EmptyServerOption struct{}

func (EmptyServerOption) apply(*Server) {}

var none = optFn(func(*Server) {})

// Options that only concern the transport are accepted and ignored.
func Creds(c credentials.TransportCredentials) ServerOption {
	return optFn(func(s *Server) { s.creds = c })
}
func MaxRecvMsgSize(m int) ServerOption              { return none }
func MaxSendMsgSize(m int) ServerOption              { return none }
func MaxMsgSize(m int) ServerOption                  { return none }
func MaxConcurrentStreams(n uint32) ServerOption     { return none }
func ConnectionTimeout(d time.Duration) ServerOption { return none }
func NumStreamWorkers(n uint32) ServerOption         { return none }
func ReadBufferSize(s int) ServerOption              { return none }
func WriteBufferSize(s int) ServerOption             { return none }
func InitialWindowSize(s int32) ServerOption         { return none }
func InitialConnWindowSize(s int32) ServerOption     { return none }
func MaxHeaderListSize(s uint32) ServerOption        { return none }
func HeaderTableSize(s uint32) ServerOption          { return none }
func StatsHandler(h stats.Handler) ServerOption      { return none }
func InTapHandle(h tap.ServerInHandle) ServerOption  { return none }
func KeepaliveParams(kp keepalive.ServerParameters) ServerOption {
	return none
}
func KeepaliveEnforcementPolicy(kep keepalive.EnforcementPolicy) ServerOption {
	return none
}
func UnknownServiceHandler(h std.StreamHandler) ServerOption               { return none }
func StreamInterceptor(i std.StreamServerInterceptor) ServerOption         { return none }
func ChainStreamInterceptor(i ...std.StreamServerInterceptor) ServerOption { return none }

// UnaryInterceptor installs an interceptor.
func UnaryInterceptor(i std.UnaryServerInterceptor) ServerOption {
	return optFn(func(s *Server) { s.ints = append([]std.UnaryServerInterceptor{i}, s.ints...) })
}

// ChainUnaryInterceptor installs interceptors.
func ChainUnaryInterceptor(i ...std.UnaryServerInterceptor) ServerOption {
	return optFn(func(s *Server) { s.ints = append(s.ints, i...) })
}

// Server is a simulated gRPC server.
type Server struct {
	sync1 [8]byte
	sync2 [8]byte
	proc  *simrt.Proc
	ints  []std.UnaryServerInterceptor
	creds credentials.TransportCredentials
	names []string
	descs []*std.ServiceDesc
	impls []interface{}

	addr     string
	serving  bool
	stopping bool
	cut      bool // connections are closed while requests are served
	busy     int
}

// NewServer creates a server.
func NewServer(opt ...ServerOption) *Server {
	s := &Server{proc: simrt.ProcOf()}
	for _, o := range opt {
		o.apply(s)
	}
	return s
}

// RegisterService registers an implementation.
func (s *Server) RegisterService(sd *std.ServiceDesc, ss interface{}) {
	s.names = append(s.names, sd.ServiceName)
	s.descs = append(s.descs, sd)
	s.impls = append(s.impls, ss)
}

// GetServiceInfo is not needed by the simulated systems.
func (s *Server) GetServiceInfo() map[string]std.ServiceInfo { return nil }

// Serve accepts requests until the server is stopped.
func (s *Server) Serve(l net.Listener) error {
	t := simrt.Cur()
	simrt.RaceRelease(unsafe.Pointer(&s.sync1))
	t.Do("grpc.serve", func() {
		if s.stopping {
			return
		}
		s.addr = l.Addr().String()
		s.serving = true
		t.World().Ext.Set("srv:"+s.addr, s)
	})
	if !s.serving {
		return std.ErrServerStopped
	}
	t.WaitFor("grpc.serving", func() bool { return s.cut || s.stopping && s.busy == 0 })
	s.serving = false
	return nil
}

// Ready tells whether the server of process p accepts requests.
func (s *Server) Ready(p *simrt.Proc) bool { return s.proc == p && s.serving && !s.stopping }

// GracefulStop stops accepting and waits for the running requests.
func (s *Server) GracefulStop() {
	t := simrt.Cur()
	t.Do("grpc.stop", func() { s.stopping = true })
	t.WaitFor("grpc.drain", func() bool { return s.busy == 0 })
	simrt.RaceAcquire(unsafe.Pointer(&s.sync2))
}

// Stop stops at once: connections are closed, and nobody waits for
// the requests that are being served.
func (s *Server) Stop() {
	simrt.Cur().Do("grpc.cut", func() { s.stopping, s.cut = true, true })
}

type ctxKey int

const (
	keyMethod ctxKey = iota
	keyCall
)

// Method returns the method of a server context.
func Method(ctx context.Context) (string, bool) {
	m, ok := ctx.Value(keyMethod).(string)
	return m, ok
}

// SetHeader and friends are accepted and ignored.
func SetHeader(ctx context.Context, md metadata.MD) error  { return nil }
func SendHeader(ctx context.Context, md metadata.MD) error { return nil }
func SetTrailer(ctx context.Context, md metadata.MD) error { return nil }

// ServerTransportStreamFromContext knows nothing.
func ServerTransportStreamFromContext(ctx context.Context) std.ServerTransportStream { return nil }

// Call is the simulator's view of one request.
type Call struct {
	Method    string
	Delivered bool // a handler task was started
	Finished  bool // the handler returned
	Err       error
	sync1     [8]byte // what the client did before the server's work
	sync2     [8]byte // what the server did before the answer arrives
	Cut       bool    // the client did not wait for the answer
	Resp      []byte
	Srv       *Server
	TLS       bool   // went over TLS
	Peer      []byte // the server's certificate
}

// WithCall makes Invoke record what happens in c.
func WithCall(ctx context.Context, c *Call) context.Context {
	return context.WithValue(ctx, keyCall, c)
}

// DialOption configures a connection.
type DialOption interface{}

type dialFn func(*ClientConn)

// WithInsecure does without TLS.
func WithInsecure() DialOption { return dialFn(func(c *ClientConn) { c.insecure = true }) }

// WithTransportCredentials uses TLS.
func WithTransportCredentials(c credentials.TransportCredentials) DialOption {
	return dialFn(func(cc *ClientConn) { cc.creds = c })
}

// Direct is for the simulation's own requests, which reach any server.
func Direct() DialOption { return dialFn(func(c *ClientConn) { c.direct = true }) }

// Other dial options.
func WithBlock() DialOption                                                { return nil }
func WithTimeout(d time.Duration) DialOption                               { return nil }
func WithUserAgent(s string) DialOption                                    { return nil }
func WithAuthority(s string) DialOption                                    { return nil }
func WithDefaultCallOptions(o ...std.CallOption) DialOption                { return nil }
func WithKeepaliveParams(kp keepalive.ClientParameters) DialOption         { return nil }
func WithPerRPCCredentials(c credentials.PerRPCCredentials) DialOption     { return nil }
func WithUnaryInterceptor(f std.UnaryClientInterceptor) DialOption         { return nil }
func WithChainUnaryInterceptor(f ...std.UnaryClientInterceptor) DialOption { return nil }

// ClientConn is a simulated connection.
type ClientConn struct {
	target   string
	closed   bool
	insecure bool
	direct   bool
	creds    credentials.TransportCredentials
	peers    map[*Server]*session
}

type session struct {
	err  error
	tls  bool
	peer []byte
}

// Dial connects lazily, like the real one.
func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	cc := &ClientConn{target: target, peers: map[*Server]*session{}}
	for _, o := range opts {
		if f, ok := o.(dialFn); ok {
			f(cc)
		}
	}
	switch {
	case cc.direct:
	case cc.creds == nil && !cc.insecure:
		return nil, errors.New("grpc: no transport security set (use grpc.WithInsecure() explicitly or set credentials)")
	case cc.creds != nil && cc.insecure:
		return nil, errors.New("grpc: the credentials require transport level security (use grpc.WithTransportCredentials() to set)")
	}
	return cc, nil
}

// connect does what is necessary before requests can be sent to s.
func (cc *ClientConn) connect(s *Server) *session {
	if x := cc.peers[s]; x != nil && x.err == nil {
		return x
	}
	x := &session{}
	cc.peers[s] = x
	switch {
	case cc.direct:
	case cc.creds == nil && s.creds == nil:
	case cc.creds == nil:
		x.err = status.Error(codes.Unavailable, "simulated: connection closed")
	case s.creds == nil:
		x.err = status.Error(codes.Unavailable, "connection error: desc = \"transport: authentication handshake failed: tls: first record does not look like a TLS handshake\"")
	default:
		info, err := handshake(cc.creds, s.creds, cc.target)
		if err != nil {
			x.err = status.Error(codes.Unavailable, "connection error: desc = \"transport: authentication handshake failed\"")
			break
		}
		if t, ok := info.(credentials.TLSInfo); ok {
			x.tls = true
			if len(t.State.PeerCertificates) > 0 {
				x.peer = t.State.PeerCertificates[0].Raw
			}
		}
	}
	return x
}

// DialContext connects lazily.
func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	return Dial(target, opts...)
}

// Close closes the connection.
func (cc *ClientConn) Close() error { cc.closed = true; return nil }

// Target returns the target.
func (cc *ClientConn) Target() string { return cc.target }

// NewStream is not supported.
func (cc *ClientConn) NewStream(ctx context.Context, desc *std.StreamDesc, method string, opts ...std.CallOption) (std.ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "no streams")
}

// Invoke sends a request.
func Invoke(ctx context.Context, method string, args, reply interface{}, cc *ClientConn, opts ...std.CallOption) error {
	return cc.Invoke(ctx, method, args, reply, opts...)
}

// An Observer is told about every request of a process that has one
// in its environment, and gets to know the answer.
type Observer func(target, method string, md metadata.MD, args, reply proto.Message, c *Call) func(error)

// Invoke sends a request and waits for the answer.
func (cc *ClientConn) Invoke(ctx context.Context, method string, args, reply interface{}, opts ...std.CallOption) error {
	if t := simrt.Cur(); t != nil && t.Proc != nil {
		if o, ok := t.Proc.Env.Get("observer").(Observer); ok {
			c, _ := ctx.Value(keyCall).(*Call)
			if c == nil {
				c = &Call{}
				ctx = WithCall(ctx, c)
			}
			md, _ := metadata.FromOutgoingContext(ctx)
			end := o(cc.target, method, md, args.(proto.Message), reply.(proto.Message), c)
			err := cc.invoke(ctx, method, args, reply)
			end(err)
			return err
		}
	}
	return cc.invoke(ctx, method, args, reply)
}

func (cc *ClientConn) invoke(ctx context.Context, method string, args, reply interface{}) error {
	t := simrt.Cur()
	if t == nil {
		return status.Error(codes.Unavailable, "no simulation")
	}
	if cc.closed {
		return std.ErrClientConnClosing
	}
	w := t.World()
	c, _ := ctx.Value(keyCall).(*Call)
	if c == nil {
		c = &Call{}
	}
	c.Method = method
	b, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		return status.Error(codes.Internal, err.Error())
	}
	md, _ := metadata.FromOutgoingContext(ctx)
	if d := w.Fault(t, "N.delay", 4, method); d != 0 {
		t.SleepFor([...]int64{0, 1e6, 50e6, 3e9}[d])
	}
	lost := w.Fault(t, "N.lost", 4, method)
	if lost == 1 {
		t.SleepFor(5e9)
		return status.Error(codes.Unavailable, "simulated: request lost")
	}
	n := t.Inc("calls")
	hctx, cancel := context.WithCancel(context.Background())
	defer func() {
		if c.Cut {
			cancel()
		}
	}()
	if dl, ok := ctx.Deadline(); ok {
		hctx, _ = context.WithDeadline(hctx, dl)
	}
	hctx = metadata.NewIncomingContext(hctx, md.Copy())
	hctx = peer.NewContext(hctx, &peer.Peer{Addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000}})
	hctx = context.WithValue(hctx, keyMethod, method)
	simrt.RaceRelease(unsafe.Pointer(&c.sync1))
	find := func() *Server {
		target := cc.target
		if a, ok := w.Ext.Get("alias:" + target).(string); ok && !cc.direct {
			target = a
		}
		s, _ := w.Ext.Get("srv:" + target).(*Server)
		if s == nil || s.proc.Dead || !s.serving || s.stopping {
			return nil
		}
		return s
	}
	if !cc.direct {
		var s *Server
		t.Do("net.connect", func() { s = find() })
		if s != nil {
			x := cc.connect(s)
			if x.err != nil {
				return x.err
			}
			c.TLS, c.Peer = x.tls, x.peer
		}
	}
	t.Do("net.send", func() {
		s := find()
		if s == nil || !cc.direct && cc.peers[s] == nil {
			return
		}
		c.Srv = s
		c.Delivered = true
		s.busy++
		name := "h:" + t.Name
		if n > 1 {
			name += "." + itoa(int(n))
		}
		w.Spawn(s.proc, name, func() { s.handle(hctx, c, method, b) })
	})
	if !c.Delivered {
		return status.Error(codes.Unavailable, "simulated: connection refused")
	}
	if lost == 2 {
		// The connection is cut while the request is served.
		c.Cut = true
		t.Point("net.cut")
		return status.Error(codes.Unavailable, "simulated: connection cut")
	}
	t.WaitFor("net.recv", func() bool { return c.Finished || c.Srv.cut || c.Srv.proc.Dead || ctx.Err() != nil })
	if !c.Finished {
		if ctx.Err() != nil {
			c.Cut = true
			return status.FromContextError(ctx.Err()).Err()
		}
		return status.Error(codes.Unavailable, "simulated: connection lost")
	}
	simrt.RaceAcquire(unsafe.Pointer(&c.sync2))
	if lost == 3 {
		c.Cut = true
		return status.Error(codes.Unavailable, "simulated: response lost")
	}
	if c.Err != nil {
		// Only code and message travel.
		st, ok := status.FromError(c.Err)
		if !ok {
			return status.Error(codes.Unknown, c.Err.Error())
		}
		return status.Error(st.Code(), st.Message())
	}
	return proto.Unmarshal(c.Resp, reply.(proto.Message))
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func (s *Server) handle(ctx context.Context, c *Call, method string, b []byte) {
	simrt.RaceAcquire(unsafe.Pointer(&s.sync1))
	simrt.RaceAcquire(unsafe.Pointer(&c.sync1))
	t := simrt.Cur()
	defer func() {
		if !t.Dead() {
			simrt.RaceReleaseMerge(unsafe.Pointer(&s.sync2))
		}
	}()
	resp, err := s.dispatch(ctx, method, b)
	var rb []byte
	if err == nil {
		m, ok := resp.(proto.Message)
		if !ok {
			err = status.Error(codes.Internal, "grpc: error while marshaling: not a proto.Message")
		} else if rb, err = proto.Marshal(m); err != nil {
			err = status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
		}
	}
	simrt.RaceRelease(unsafe.Pointer(&c.sync2))
	t.Do("net.reply", func() {
		c.Resp, c.Err, c.Finished = rb, err, true
		s.busy--
	})
}

func (s *Server) dispatch(ctx context.Context, method string, b []byte) (interface{}, error) {
	p := strings.Split(strings.TrimPrefix(method, "/"), "/")
	if len(p) != 2 {
		return nil, status.Error(codes.Unimplemented, "malformed method name")
	}
	for i, n := range s.names {
		if n != p[0] {
			continue
		}
		for _, md := range s.descs[i].Methods {
			if md.MethodName != p[1] {
				continue
			}
			var in std.UnaryServerInterceptor
			if len(s.ints) > 0 {
				in = chain(s.ints)
			}
			return md.Handler(s.impls[i], ctx, func(v interface{}) error {
				if err := proto.Unmarshal(b, v.(proto.Message)); err != nil {
					return status.Errorf(codes.Internal, "grpc: error unmarshalling request: %v", err)
				}
				return nil
			}, in)
		}
	}
	return nil, status.Error(codes.Unimplemented, "unknown method")
}

func chain(ints []std.UnaryServerInterceptor) std.UnaryServerInterceptor {
	return func(ctx context.Context, req interface{}, info *std.UnaryServerInfo, h std.UnaryHandler) (interface{}, error) {
		next := h
		for i := len(ints) - 1; i >= 0; i-- {
			in, n := ints[i], next
			next = func(ctx context.Context, req interface{}) (interface{}, error) { return in(ctx, req, info, n) }
		}
		return next(ctx, req)
	}
}

// Dead tells whether the server's process has ended.
func (s *Server) Dead() bool { return s.proc.Dead }
