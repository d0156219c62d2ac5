// Package http: requests are handed to the handlers by direct calls.
package http

import (
	"errors"
	"io"
	"net"

	"github.com/si-co/vpir-code/vpstub/context"
)

const (
	StatusOK                  = 200
	StatusBadRequest          = 400
	StatusNotFound            = 404
	StatusMethodNotAllowed    = 405
	StatusInternalServerError = 500
	StatusBadGateway          = 502
	StatusServiceUnavailable  = 503
	MethodGet                 = "GET"
	MethodPost                = "POST"
)

var ErrServerClosed = errors.New("http: Server closed")

type Header map[string][]string

func (h Header) Get(k string) string {
	if v := h[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}
func (h Header) Set(k, v string) { h[k] = []string{v} }
func (h Header) Add(k, v string) { h[k] = append(h[k], v) }

// Values are url.Values.
type Values map[string][]string

func (v Values) Get(k string) string {
	if x := v[k]; len(x) > 0 {
		return x[0]
	}
	return ""
}
func (v Values) Set(k, x string)   { v[k] = []string{x} }
func (v Values) Has(k string) bool { _, ok := v[k]; return ok }

type URL struct{ Path, RawQuery string }

type Request struct {
	Method, RemoteAddr string
	URL                *URL
	Header             Header
	Form, PostForm     Values
	Body               io.Reader
	// Sent is what ParseForm finds.
	Sent Values
	ctx  context.Context
}

func (r *Request) ParseForm() error {
	r.PostForm, r.Form = r.Sent, r.Sent
	return nil
}
func (r *Request) PostFormValue(k string) string { r.ParseForm(); return r.PostForm.Get(k) }
func (r *Request) FormValue(k string) string     { r.ParseForm(); return r.Form.Get(k) }
func (r *Request) UserAgent() string             { return "" }
func (r *Request) Context() context.Context {
	if r.ctx == nil {
		return context.Background()
	}
	return r.ctx
}
func (r *Request) WithContext(c context.Context) *Request {
	x := *r
	x.ctx = c
	return &x
}

type ResponseWriter interface {
	Header() Header
	Write([]byte) (int, error)
	WriteHeader(int)
}

// Recorder is a response.
type Recorder struct {
	H    Header
	Code int
	Body []byte
}

func (r *Recorder) Header() Header { return r.H }
func (r *Recorder) Write(p []byte) (int, error) {
	r.WriteHeader(StatusOK)
	r.Body = append(r.Body, p...)
	return len(p), nil
}
func (r *Recorder) WriteHeader(c int) {
	if r.Code == 0 {
		r.Code = c
	}
}

func Error(w ResponseWriter, s string, code int) {
	w.WriteHeader(code)
	w.Write([]byte(s + "\n"))
}
func NotFound(w ResponseWriter, r *Request) { Error(w, "404 page not found", StatusNotFound) }

type Handler interface{ ServeHTTP(ResponseWriter, *Request) }
type HandlerFunc func(ResponseWriter, *Request)

func (f HandlerFunc) ServeHTTP(w ResponseWriter, r *Request) { f(w, r) }

// ServeMux: exact paths, then "/".
type ServeMux struct{ h map[string]Handler }

func NewServeMux() *ServeMux { return &ServeMux{map[string]Handler{}} }

var DefaultServeMux = NewServeMux()

func (m *ServeMux) Handle(p string, h Handler) { m.h[p] = h }
func (m *ServeMux) HandleFunc(p string, h func(ResponseWriter, *Request)) {
	m.h[p] = HandlerFunc(h)
}
func (m *ServeMux) ServeHTTP(w ResponseWriter, r *Request) {
	h := m.h[r.URL.Path]
	if h == nil {
		h = m.h["/"]
	}
	if h == nil {
		NotFound(w, r)
		return
	}
	h.ServeHTTP(w, r)
}
func Handle(p string, h Handler)                            { DefaultServeMux.Handle(p, h) }
func HandleFunc(p string, h func(ResponseWriter, *Request)) { DefaultServeMux.HandleFunc(p, h) }

type FileSystem interface{}

func FS(f interface{}) FileSystem     { return nil }
func FileServer(f FileSystem) Handler { return HandlerFunc(NotFound) }

type Server struct {
	Addr     string
	Handler  Handler
	ErrorLog interface{}
}

// OnServe gets the handler of a server that starts; the server ends when it
// returns.
var OnServe func(Handler)

func (s *Server) Serve(l net.Listener) error {
	h := s.Handler
	if h == nil {
		h = DefaultServeMux
	}
	OnServe(h)
	return ErrServerClosed
}
func (s *Server) ListenAndServe() error          { return s.Serve(nil) }
func (s *Server) Shutdown(context.Context) error { return nil }
func (s *Server) Close() error                   { return nil }
func Serve(l net.Listener, h Handler) error      { return (&Server{Handler: h}).Serve(l) }
func ListenAndServe(a string, h Handler) error   { return (&Server{Handler: h}).Serve(nil) }
