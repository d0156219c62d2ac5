// Package server: the servers of lib/server behind their interface, with a
// scratch buffer as the real ones have.
package server

import (
	"errors"

	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpstub/srvlib/database"
)

type Server interface {
	AnswerBytes([]byte) ([]byte, error)
	DBInfo() *database.Info
}

type Echo struct {
	Kind    string
	ID      byte
	Records *database.Bytes
	Keys    *database.DB
	scratch []byte
}
type PIR = Echo
type PredicatePIR = Echo
type PredicateAPIR = Echo

// Last is the server made last and Info what it says of its database.
var (
	Last *Echo
	Info *database.Info
)

func make1(kind string, r *database.Bytes, k *database.DB, id byte) *Echo {
	Last = &Echo{Kind: kind, ID: id, Records: r, Keys: k, scratch: make([]byte, 1)}
	return Last
}

func NewPIR(db *database.Bytes, cores ...int) *Echo    { return make1("linear", db, nil, 0) }
func NewPIRTwo(db *database.Bytes, cores ...int) *Echo { return make1("two", db, nil, 0) }
func NewPredicatePIR(db *database.DB, id byte, cores ...int) *Echo {
	return make1("predicate", nil, db, id)
}
func NewPredicateAPIR(db *database.DB, id byte, cores ...int) *Echo {
	return make1("authenticated predicate", nil, db, id)
}

func (e *Echo) DBInfo() *database.Info {
	if Info != nil {
		return Info
	}
	return &database.Info{Merkle: &database.Merkle{}}
}

// AnswerBytes: one byte q gives q+1; anything else is refused.
func (e *Echo) AnswerBytes(q []byte) ([]byte, error) {
	if len(q) != 1 {
		return nil, errors.New("malformed query")
	}
	vp.Yield()
	return []byte{q[0] + 1}, nil
}
