// Package grpc: connections are names, the transport is a direct call.
package grpc

import (
	"errors"
	"net"
	"sync"

	"github.com/si-co/vpir-code/vpstub/context"
)

type CallOption interface{}
type DialOption interface{}
type ServerOption interface{}
type UnaryServerInterceptor interface{}

type ClientConnInterface interface {
	Target() string
}

type ClientConn struct{ target string }

func (c *ClientConn) Target() string { return c.target }
func (c *ClientConn) Close() error   { return nil }

func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	return &ClientConn{target}, nil
}
func Dial(target string, opts ...DialOption) (*ClientConn, error) { return &ClientConn{target}, nil }

func UseCompressor(string) CallOption                 { return nil }
func MaxCallRecvMsgSize(int) CallOption               { return nil }
func MaxCallSendMsgSize(int) CallOption               { return nil }
func WaitForReady(bool) CallOption                    { return nil }
func WithBlock() DialOption                           { return nil }
func WithInsecure() DialOption                        { return nil }
func WithTransportCredentials(interface{}) DialOption { return nil }
func WithDefaultCallOptions(...CallOption) DialOption { return nil }
func MaxRecvMsgSize(int) ServerOption                 { return nil }
func MaxSendMsgSize(int) ServerOption                 { return nil }
func MaxConcurrentStreams(uint32) ServerOption        { return nil }
func NumStreamWorkers(uint32) ServerOption            { return nil }
func Creds(interface{}) ServerOption                  { return nil }

// Server: requests run in goroutines of their own. GracefulStop refuses new
// requests and waits for those in progress; Stop refuses new ones and cancels
// those in progress.
type Server struct {
	mu       sync.Mutex
	stopping bool
	n        int
	idle     chan struct{}
	serving  chan struct{}
	done     chan struct{}
	cancels  []context.CancelFunc
}

var ErrServerStopped = errors.New("grpc: the server has been stopped")
var ErrRefused = errors.New("grpc: refused")

func NewServer(opts ...ServerOption) *Server {
	return &Server{idle: make(chan struct{}, 100), serving: make(chan struct{}, 1), done: make(chan struct{}, 1)}
}

func (s *Server) Serve(l net.Listener) error {
	s.serving <- struct{}{}
	<-s.done
	return nil
}

// Ready waits until the server is serving.
func (s *Server) Ready() { <-s.serving }

func (s *Server) begin(c context.CancelFunc) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.stopping {
		return false
	}
	s.n++
	s.cancels = append(s.cancels, c)
	return true
}

func (s *Server) end() {
	s.mu.Lock()
	s.n--
	if s.stopping && s.n == 0 {
		s.idle <- struct{}{}
	}
	s.mu.Unlock()
}

// Do runs a request as the transport would: refused once the server is stopping.
func (s *Server) Do(ctx context.Context, f func(ctx context.Context)) bool {
	c, cancel := context.WithCancel(ctx)
	if !s.begin(cancel) {
		return false
	}
	f(c)
	s.end()
	return true
}

func (s *Server) stop() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.stopping {
		s.stopping = true
		s.done <- struct{}{}
	}
	return s.n == 0
}

func (s *Server) GracefulStop() {
	if !s.stop() {
		<-s.idle
	}
}

func (s *Server) Stop() {
	s.stop()
	for _, c := range s.cancels {
		c()
	}
}
