// Package survey: questions answered from a script.
package survey

import "github.com/si-co/vpir-code/vp"

type Prompt interface{}
type Select struct {
	Message string
	Options []string
	Default interface{}
	Help    string
}
type Input struct{ Message, Default, Help string }
type Confirm struct {
	Message string
	Default bool
}
type AskOpt interface{}

// Script holds the answers still to be given; Shown the messages so far.
var (
	Script []string
	Shown  []string
)

var Required = func(interface{}) error { return nil }

type validator struct{ f func(interface{}) error }

func WithValidator(f func(interface{}) error) AskOpt { return validator{f} }

func AskOne(p Prompt, response interface{}, opts ...AskOpt) error {
	var options []string
	switch x := p.(type) {
	case *Select:
		Shown = append(Shown, x.Message)
		options = x.Options
	case *Input:
		Shown = append(Shown, x.Message)
	}
	r, ok := response.(*string)
	if !ok {
		// a pause
		return nil
	}
	a := Script[0]
	Script = Script[1:]
	for _, o := range opts {
		if v, ok := o.(validator); ok {
			if err := v.f(a); err != nil {
				return err
			}
		}
	}
	if options != nil {
		found := false
		for _, o := range options {
			found = found || o == a
		}
		vp.Assert(found, "the option is offered")
	}
	*r = a
	return nil
}
