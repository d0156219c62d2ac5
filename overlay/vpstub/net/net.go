package net

import rn "net"

type Listener = rn.Listener
type Addr = rn.Addr
type Conn = rn.Conn

type addr struct{ s string }

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return a.s }

type listener struct{ a addr }

func (l *listener) Accept() (Conn, error) { select {} }
func (l *listener) Close() error          { return nil }
func (l *listener) Addr() Addr            { return l.a }

// Listening is the address listened on last.
var Listening string

func Listen(network, address string) (Listener, error) {
	Listening = address
	return &listener{addr{address}}, nil
}

func SplitHostPort(hostport string) (string, string, error) {
	for i := range hostport {
		if hostport[i] == ':' {
			return hostport[:i], hostport[i+1:], nil
		}
	}
	return "", "", &rn.AddrError{Err: "missing port in address", Addr: hostport}
}
func JoinHostPort(h, p string) string { return h + ":" + p }
