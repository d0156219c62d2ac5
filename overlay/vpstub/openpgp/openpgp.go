// Package openpgp: entities are serialized as a header naming them, followed by
// Size arbitrary bytes. The selection of the primary identity is the library's own.
package openpgp

import (
	"errors"
	"io"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
)

const (
	PublicKeyType  = "PGP PUBLIC KEY BLOCK"
	PrivateKeyType = "PGP PRIVATE KEY BLOCK"
)

type Entity struct {
	PrimaryKey  *packet.PublicKey
	PrivateKey  *packet.PrivateKey
	Identities  map[string]*Identity
	Revocations []*packet.Signature
	Subkeys     []Subkey

	ID   int // of the stub: which key it is
	Size int // of the stub: bytes of its serialization, at least Header
}

type Identity struct {
	Name          string
	UserId        *packet.UserId
	SelfSignature *packet.Signature
	Signatures    []*packet.Signature
}

type Subkey struct {
	PublicKey  *packet.PublicKey
	PrivateKey *packet.PrivateKey
	Sig        *packet.Signature
}

type EntityList []*Entity

func (e *Entity) PrimaryIdentity() *Identity {
	var latestIdentity *Identity
	var primaryIdentity *Identity
	for _, ident := range e.Identities {
		if latestIdentity == nil || latestIdentity.SelfSignature.CreationTime.Before(ident.SelfSignature.CreationTime) ||
			(latestIdentity.SelfSignature.CreationTime.Equal(ident.SelfSignature.CreationTime) && latestIdentity.Name > ident.Name) {
			latestIdentity = ident
		}
		if ident.SelfSignature.IsPrimaryId != nil && *ident.SelfSignature.IsPrimaryId {
			if primaryIdentity == nil || primaryIdentity.SelfSignature.CreationTime.Before(ident.SelfSignature.CreationTime) ||
				(primaryIdentity.SelfSignature.CreationTime.Equal(ident.SelfSignature.CreationTime) && primaryIdentity.Name > ident.Name) {
				primaryIdentity = ident
			}
		}
	}
	if primaryIdentity != nil {
		return primaryIdentity
	}
	return latestIdentity
}

// Header is the length of the header of a serialized entity.
const Header = 4

// World lists the keys there are.
var World []*Entity

// Bytes is the serialization of a key.
func (e *Entity) Bytes() []byte {
	b := make([]byte, e.Size)
	b[0], b[1], b[2], b[3] = 0x99, byte(e.ID), byte(e.Size>>8), byte(e.Size)
	for i := Header; i < len(b); i++ {
		b[i] = byte(e.ID*7 + i)
	}
	return b
}

func (e *Entity) Serialize(w io.Writer) error {
	_, err := w.Write(e.Bytes())
	return err
}

// ReadKeyRing parses entities one after the other.
func ReadKeyRing(r io.Reader) (EntityList, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	var el EntityList
	for len(b) > 0 {
		if len(b) < Header || b[0] != 0x99 || int(b[1]) >= len(World) {
			return el, errors.New("openpgp: malformed packet")
		}
		e := World[int(b[1])]
		if n := int(b[2])<<8 | int(b[3]); n != e.Size || len(b) < n {
			return el, errors.New("openpgp: malformed packet")
		}
		b = b[e.Size:]
		c := *e
		el = append(el, &c)
	}
	return el, nil
}

// NewKey adds a key to the world.
func NewKey(created time.Time, revoked bool, size int, ids ...*Identity) *Entity {
	e := &Entity{PrimaryKey: &packet.PublicKey{CreationTime: created}, Identities: map[string]*Identity{}, ID: len(World), Size: size}
	if revoked {
		e.Revocations = []*packet.Signature{{}}
	}
	for _, i := range ids {
		e.Identities[i.Name] = i
	}
	World = append(World, e)
	return e
}

// NewIdentity makes an identity with the given address.
func NewIdentity(name, email string, signed time.Time, primary bool) *Identity {
	i := &Identity{Name: name, UserId: &packet.UserId{Id: name, Email: email}, SelfSignature: &packet.Signature{CreationTime: signed}}
	if primary {
		t := true
		i.SelfSignature.IsPrimaryId = &t
	}
	return i
}
