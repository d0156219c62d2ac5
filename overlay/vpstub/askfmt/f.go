// Package fmt: the verbs the programs use, also on unknown text; what is
// printed is kept.
package fmt

import (
	"errors"
	"io"

	"github.com/si-co/vpir-code/vpstub/os"
)

// Printed is what was printed.
var Printed []string

type Stringer interface{ String() string }

func show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return x
	case []byte:
		return string(x)
	case error:
		return x.Error()
	case Stringer:
		return x.String()
	case uint32:
		return digits(uint64(x))
	case int:
		if x < 0 {
			return "-" + digits(uint64(-x))
		}
		return digits(uint64(x))
	case int64:
		if x < 0 {
			return "-" + digits(uint64(-x))
		}
		return digits(uint64(x))
	case uint64:
		return digits(x)
	}
	return "?"
}

func digits(v uint64) string {
	s := ""
	for ok := true; ok; ok = v > 0 {
		s = string(rune('0'+v%10)) + s
		v /= 10
	}
	return s
}

func Sprintf(f string, args ...interface{}) string {
	out := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 == len(f) {
			out += f[i : i+1]
			continue
		}
		for i++; i+1 < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == '.' || f[i] >= '0' && f[i] <= '9'); i++ {
		}
		switch {
		case f[i] == '%':
			out += "%"
		case k < len(args):
			out += show(args[k])
			k++
		}
	}
	return out
}

func Sprint(args ...interface{}) string {
	out := ""
	for _, a := range args {
		out += show(a)
	}
	return out
}

func Sprintln(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += show(a)
	}
	return out + "\n"
}

func Println(args ...interface{}) (int, error) {
	Printed = append(Printed, Sprintln(args...))
	return 0, nil
}
func Print(args ...interface{}) (int, error) {
	Printed = append(Printed, Sprint(args...))
	return 0, nil
}
func Printf(f string, args ...interface{}) (int, error) {
	Printed = append(Printed, Sprintf(f, args...))
	return 0, nil
}
func Errorf(f string, args ...interface{}) error { return errors.New(Sprintf(f, args...)) }

func write(w interface{}, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		Printed = append(Printed, s)
		return len(s), nil
	}
	return w.(io.Writer).Write([]byte(s))
}

func Fprintf(w interface{}, f string, args ...interface{}) (int, error) {
	return write(w, Sprintf(f, args...))
}
func Fprint(w interface{}, args ...interface{}) (int, error)   { return write(w, Sprint(args...)) }
func Fprintln(w interface{}, args ...interface{}) (int, error) { return write(w, Sprintln(args...)) }
func Scanln(a ...interface{}) (int, error)                     { return 0, errors.New("no input") }
