// Package os: files live in memory.
package os

import (
	"errors"
	"io"
	"io/fs"
	"sort"
	"time"
)

const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	PathSeparator = '/'
)

type FileMode = fs.FileMode
type FileInfo = fs.FileInfo
type DirEntry = fs.DirEntry

const (
	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir
)

var (
	ErrNotExist = errors.New("file does not exist")
	ErrExist    = errors.New("file already exists")
	ErrInvalid  = errors.New("invalid argument")
	Args        = []string{"program"}
	Stdin       = &File{d: &data{}}
	Stdout      = &File{d: &data{}}
	Stderr      = &File{d: &data{}}
)

type data struct{ b []byte }

var files = map[string]*data{}

type File struct {
	name   string
	d      *data
	pos    int
	app    bool
	closed bool
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d, ok := files[name]
	if !ok {
		if flag&O_CREATE == 0 {
			return nil, ErrNotExist
		}
		d = &data{}
		files[name] = d
	} else if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
		return nil, ErrExist
	}
	if flag&O_TRUNC != 0 {
		d.b = nil
	}
	return &File{name: name, d: d, app: flag&O_APPEND != 0}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Sync() error  { return nil }
func (f *File) Close() error {
	if f.closed {
		return ErrInvalid
	}
	f.closed = true
	return nil
}
func (f *File) Read(p []byte) (int, error) {
	if f.closed {
		return 0, ErrInvalid
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.d.b) {
		return 0, io.EOF
	}
	n := copy(p, f.d.b[f.pos:])
	f.pos += n
	return n, nil
}
func (f *File) Write(p []byte) (int, error) {
	if f.closed {
		return 0, ErrInvalid
	}
	if f.app {
		f.pos = len(f.d.b)
	}
	n := copy(f.d.b[f.pos:], p)
	f.d.b = append(f.d.b, p[n:]...)
	f.pos += len(p)
	return len(p), nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func ReadFile(name string) ([]byte, error) {
	d, ok := files[name]
	if !ok {
		return nil, ErrNotExist
	}
	return append([]byte(nil), d.b...), nil
}
func WriteFile(name string, b []byte, perm FileMode) error {
	files[name] = &data{append([]byte(nil), b...)}
	return nil
}
func Remove(name string) error {
	if _, ok := files[name]; !ok {
		return ErrNotExist
	}
	delete(files, name)
	return nil
}
func RemoveAll(name string) error               { delete(files, name); return nil }
func MkdirAll(name string, perm FileMode) error { return nil }
func Mkdir(name string, perm FileMode) error    { return nil }
func IsNotExist(err error) bool                 { return err == ErrNotExist }
func IsExist(err error) bool                    { return err == ErrExist }
func Getenv(string) string                      { return "" }
func Exit(code int)                             { panic("os.Exit") }
func Rename(a, b string) error {
	d, ok := files[a]
	if !ok {
		return ErrNotExist
	}
	delete(files, a)
	files[b] = d
	return nil
}

type info struct {
	name string
	n    int
}

func (i info) Name() string            { return i.name }
func (i info) Size() int64             { return int64(i.n) }
func (i info) Mode() FileMode          { return 0644 }
func (i info) Type() FileMode          { return 0 }
func (i info) ModTime() time.Time      { return time.Time{} }
func (i info) IsDir() bool             { return false }
func (i info) Sys() interface{}        { return nil }
func (i info) Info() (FileInfo, error) { return i, nil }

func Stat(name string) (FileInfo, error) {
	d, ok := files[name]
	if !ok {
		return nil, ErrNotExist
	}
	return info{name, len(d.b)}, nil
}

func list(dir string) []info {
	var out []info
	for n, d := range files {
		if len(n) > len(dir)+1 && n[:len(dir)] == dir && n[len(dir)] == '/' {
			out = append(out, info{n[len(dir)+1:], len(d.b)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func ReadDir(dir string) ([]DirEntry, error) {
	var out []DirEntry
	for _, i := range list(dir) {
		out = append(out, i)
	}
	return out, nil
}

// Infos lists a directory for the ioutil stub.
func Infos(dir string) []FileInfo {
	var out []FileInfo
	for _, i := range list(dir) {
		out = append(out, i)
	}
	return out
}

type Signal interface {
	String() string
	Signal()
}
type sig string

func (s sig) String() string { return string(s) }
func (s sig) Signal()        {}

var (
	Interrupt Signal = sig("interrupt")
	Kill      Signal = sig("kill")
)

func Setenv(k, v string) error        { return nil }
func LookupEnv(string) (string, bool) { return "", false }
func Getpid() int                     { return 1 }
func Hostname() (string, error)       { return "localhost", nil }
