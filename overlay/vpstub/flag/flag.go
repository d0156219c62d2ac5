package flag

// Values are the flags given on the command line.
var Values = map[string]interface{}{}

func Int(name string, v int, usage string) *int {
	if x, ok := Values[name].(int); ok {
		v = x
	}
	return &v
}
func Bool(name string, v bool, usage string) *bool {
	if x, ok := Values[name].(bool); ok {
		v = x
	}
	return &v
}
func String(name string, v string, usage string) *string {
	if x, ok := Values[name].(string); ok {
		v = x
	}
	return &v
}
func IntVar(p *int, name string, v int, usage string)          { *p = *Int(name, v, usage) }
func BoolVar(p *bool, name string, v bool, usage string)       { *p = *Bool(name, v, usage) }
func StringVar(p *string, name string, v string, usage string) { *p = *String(name, v, usage) }
func Parse()                                                   {}
func Parsed() bool                                             { return true }
func NArg() int                                                { return 0 }
func Args() []string                                           { return nil }
