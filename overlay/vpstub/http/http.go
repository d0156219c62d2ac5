package http

import (
	"errors"

	"github.com/si-co/vpir-code/vpstub/context"
)

type ResponseWriter interface{}
type Request struct{}
type Handler interface{}
type Server struct {
	Addr    string
	Handler Handler
}

var ErrServerClosed = errors.New("http: Server closed")

func (s *Server) ListenAndServe() error                     { return nil }
func (s *Server) Shutdown(context.Context) error            { return nil }
func (s *Server) Close() error                              { return nil }
func HandleFunc(p string, h func(ResponseWriter, *Request)) {}
