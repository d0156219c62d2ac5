// Package pgp: what the client program asks lib/pgp for, recorded.
package pgp

import "errors"

type Entity struct {
	Block []byte
	Email string
}

// Missing says that the block has no key for the email.
var Missing bool

// Last is the entity that was found last.
var Last *Entity

func RecoverKeyFromBlock(block []byte, email string) (*Entity, error) {
	if Missing {
		return nil, errors.New("no key with the given email id is found")
	}
	Last = &Entity{append([]byte{}, block...), email}
	return Last, nil
}

func ArmorKey(e *Entity) (string, error) {
	if e != Last {
		return "another key", nil
	}
	return "the key", nil
}
