// Package log: output is dropped, Fatal* ends the program (panics with vp.Exit).
package log

import (
	"fmt"
	"io"
	"os"

	"github.com/si-co/vpir-code/vp"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct{ w io.Writer }

func out(s string) {
	if os.Getenv("VP_LOG") != "" {
		fmt.Println("LOG", s)
	}
}
func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w} }
func Default() *Logger                                 { return &Logger{} }

func Print(v ...interface{})            {}
func Printf(f string, v ...interface{}) {}
func Println(v ...interface{})          {}
func Fatal(v ...interface{})            { panic(vp.Exit{Msg: "log.Fatal"}) }
func Fatalf(f string, v ...interface{}) { panic(vp.Exit{Msg: f}) }
func Fatalln(v ...interface{})          { panic(vp.Exit{Msg: "log.Fatalln"}) }
func Panic(v ...interface{})            { panic("log.Panic") }
func Panicf(f string, v ...interface{}) { panic("log.Panicf: " + f) }
func Panicln(v ...interface{})          { panic("log.Panicln") }
func SetOutput(w io.Writer)             {}
func SetPrefix(s string)                {}
func SetFlags(f int)                    {}
func Flags() int                        { return 0 }
func Prefix() string                    { return "" }
func Writer() io.Writer                 { return nil }
func Output(d int, s string) error      { return nil }

func (l *Logger) Print(v ...interface{})            {}
func (l *Logger) Printf(f string, v ...interface{}) {}
func (l *Logger) Println(v ...interface{})          {}
func (l *Logger) Fatal(v ...interface{})            { panic(vp.Exit{Msg: "log.Fatal"}) }
func (l *Logger) Fatalf(f string, v ...interface{}) { panic(vp.Exit{Msg: f}) }
func (l *Logger) Fatalln(v ...interface{})          { panic(vp.Exit{Msg: "log.Fatalln"}) }
func (l *Logger) Panic(v ...interface{})            { panic("log.Panic") }
func (l *Logger) Panicf(f string, v ...interface{}) { panic("log.Panicf") }
func (l *Logger) SetOutput(w io.Writer)             {}
func (l *Logger) SetPrefix(s string)                {}
func (l *Logger) SetFlags(f int)                    {}
