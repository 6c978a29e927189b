package grpc

import (
	"context"
	"io"
	"net"
	"time"

	"google.golang.org/grpc/credentials"

	"verif.local/sim/simrt"
)

// wire is one end of a buffered connection.
type wire struct {
	in, out chan []byte
	rest    []byte
	shut    bool
}

func newWire() (*wire, *wire) {
	a, b := make(chan []byte, 4096), make(chan []byte, 4096)
	return &wire{in: a, out: b}, &wire{in: b, out: a}
}

func (w *wire) Read(b []byte) (int, error) {
	if len(w.rest) == 0 {
		x, ok := <-w.in
		if !ok {
			return 0, io.EOF
		}
		w.rest = x
	}
	n := copy(b, w.rest)
	w.rest = w.rest[n:]
	return n, nil
}

func (w *wire) Write(b []byte) (int, error) {
	if w.shut {
		return 0, io.ErrClosedPipe
	}
	w.out <- append([]byte(nil), b...)
	return len(b), nil
}

func (w *wire) Close() error {
	if !w.shut {
		w.shut = true
		close(w.out)
	}
	return nil
}

func (w *wire) LocalAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (w *wire) RemoteAddr() net.Addr             { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (w *wire) SetDeadline(time.Time) error      { return nil }
func (w *wire) SetReadDeadline(time.Time) error  { return nil }
func (w *wire) SetWriteDeadline(time.Time) error { return nil }

// handshake lets the real TLS implementations of both ends talk, which
// takes no simulated time.  Nothing random in it is visible outside.
func handshake(c, s credentials.TransportCredentials, target string) (info credentials.AuthInfo, err error) {
	a, b := newWire()
	done := make(chan struct{}, 2)
	go func() {
		simrt.Detach()
		defer func() { done <- struct{}{} }()
		defer b.Close()
		x, _, err := s.ServerHandshake(b)
		if err == nil {
			x.Read(make([]byte, 1)) // ends when the client is done
		}
	}()
	go func() {
		simrt.Detach()
		defer func() { done <- struct{}{} }()
		defer a.Close()
		_, info, err = c.ClientHandshake(context.Background(), target, a)
	}()
	<-done
	<-done
	return
}
