package pgp

import (
	"bytes"
	"os"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/vp"
)

var vpEmails = []string{"a@x.org", "A@x.org", "b@x.org", ""}

func vpTime(name string) time.Time { return time.Unix(int64(vp.U64Max(name, 4000000000)), 0) }

// vpEmail is the address a directory lists the key under: that of the primary
// identity or, if it has none, the first non-empty one, in lower case.
func vpEmail(e *openpgp.Entity) string {
	p := e.PrimaryIdentity().UserId.Email
	if p == "" {
		for _, i := range e.Identities {
			if m := i.UserId.Email; m != "" && (p == "" || m < p) {
				p = m
			}
		}
	}
	return strings.ToLower(p)
}

func vpKey(emails, size int) *openpgp.Entity {
	one := vpEmails[vp.Case("email", emails)]
	return openpgp.NewKey(vpTime("created"), vp.Case("revoked", 2) == 1, size, openpgp.NewIdentity("one", one, time.Unix(1000, 0), false))
}

// vpTwo: a key with two identities, one of which may be marked as the primary one.
func vpTwo(size int) *openpgp.Entity {
	p := vp.Case("primary", 3)
	// without a mark the identity signed last is the primary one
	signed := int64(1000)
	if p == 0 && vp.Case("signed", 2) == 1 {
		signed++
	}
	n := len(vpEmails)
	one := openpgp.NewIdentity("one", vpEmails[vp.Case("email", n-1)+1], time.Unix(signed, 0), p == 1)
	two := openpgp.NewIdentity("two", vpEmails[n-1-vp.Case("email", 3)], time.Unix(1000, 0), p == 2)
	return openpgp.NewKey(vpTime("created"), false, size, one, two)
}

func vpFile(name string, es ...*openpgp.Entity) {
	var b []byte
	for _, e := range es {
		b = append(b, e.Bytes()...)
	}
	os.WriteFile(name, b, 0o644)
}

// VPSelect: of the usable keys of an address the most recently created one is
// kept, whatever their order and the file they are in.
func VPSelect() {
	openpgp.World = nil
	n := vp.Cfg("keys", 3)
	var keys []*openpgp.Entity
	for i := 0; i < n; i++ {
		if i < vp.Cfg("two", 0) {
			keys = append(keys, vpTwo(openpgp.Header))
		} else {
			keys = append(keys, vpKey(vp.Cfg("emails", 4), openpgp.Header))
		}
	}
	cut := vp.Case("cut", n+1)
	vpFile("d/one", keys[:cut]...)
	vpFile("d/two", keys[cut:]...)
	vp.MapOrder(true)
	m, err := AnalyzeKeyDump([]string{"d/one", "d/two"})
	vp.MapOrder(false)
	vp.Assert(err == nil, "a well-formed dump is accepted")
	want := map[string]bool{}
	for _, k := range keys {
		e := vpEmail(k)
		if len(k.Revocations) > 0 || e == "" {
			continue
		}
		want[e] = true
		got := m[e]
		vp.Assert(got != nil, "every address with a usable key is listed")
		vp.Assert(!got.PrimaryKey.CreationTime.Before(k.PrimaryKey.CreationTime), "the most recently created usable key is kept")
	}
	vp.Assert(len(m) == len(want), "only addresses with a usable key are listed")
	for e, k := range m {
		vp.Assert(want[e], "only addresses with a usable key are listed")
		vp.Assert(len(k.Revocations) == 0 && vpEmail(keys[k.ID]) == e && k.PrimaryKey.CreationTime.Equal(keys[k.ID].PrimaryKey.CreationTime), "a key is listed under its own address")
	}
	vp.Reach("end")
}

// VPDisk: the keys written to disk are read back unchanged; those that are
// too large are left out.
func VPDisk() {
	openpgp.World = nil
	n := vp.Cfg("keys", 2)
	sizes := []int{openpgp.Header, 9, 8192, 8193}
	dir := "data"
	for round := 0; round < vp.Cfg("rounds", 2); round++ {
		m := map[string]*openpgp.Entity{}
		fit := 0
		for i := 0; i < n-round; i++ {
			e := []string{"a@x.org", "b@x.org", "c@x.org"}[i]
			k := openpgp.NewKey(time.Unix(1, 0), false, sizes[vp.Case("size", vp.Cfg("sizes", 4))], openpgp.NewIdentity("i", e, time.Unix(1, 0), false))
			m[e] = k
			if k.Size <= 8192 {
				fit++
			}
		}
		vp.MapOrder(true)
		err := WriteKeysOnDisk(dir, m)
		vp.MapOrder(false)
		vp.Assert(err == nil, "the keys are written")
		files, err := GetAllFiles(dir)
		vp.Assert(err == nil && len(files) == 1, "there is one file")
		keys, err := LoadKeysFromDisk(files)
		vp.Assert(err == nil, "the keys are read back")
		vp.Assert(len(keys) == fit, "as many keys are read as were written")
		seen := map[string]bool{}
		for _, k := range keys {
			e := m[k.ID]
			vp.Assert(e != nil && !seen[k.ID], "each key once, under its address")
			seen[k.ID] = true
			vp.Assert(bytes.Equal(k.Packet, e.Bytes()), "a key's bytes are unchanged")
		}
		el, err := LoadAndParseKeys(files)
		vp.Assert(err == nil && len(el) == len(keys), "every key is parsed")
		for i := range el {
			vp.Assert(el[i].ID == m[keys[i].ID].ID, "in the order in which they are on disk")
		}
		// several files are read one after the other
		both, err := LoadKeysFromDisk([]string{files[0], files[0]})
		vp.Assert(err == nil && len(both) == 2*fit, "the keys of all files are read")
		for i := range both {
			vp.Assert(both[i].ID == keys[i%fit].ID, "the keys of all files in order")
		}
	}
	vp.Reach("end")
}

// VPRecover: a key recovered from a record has the requested primary address.
func VPRecover() {
	openpgp.World = nil
	n := vp.Cfg("keys", 2)
	var block []byte
	var keys []*openpgp.Entity
	for i := 0; i < n; i++ {
		var k *openpgp.Entity
		if i < vp.Cfg("two", 1) {
			k = vpTwo(openpgp.Header + i)
		} else {
			k = vpKey(len(vpEmails), openpgp.Header+i)
		}
		keys = append(keys, k)
		block = append(block, k.Bytes()...)
	}
	damaged := false
	if n := vp.Case("damage", vp.Cfg("damage", 1)); n > 0 {
		damaged = true
		switch n {
		case 1:
			block = block[:len(block)-1]
		case 2:
			block = append(block, 0x80)
		case 3:
			block = nil
		}
	}
	id := vpEmails[vp.Case("query", 3)]
	vp.MapOrder(true)
	e, err := RecoverKeyFromBlock(block, id)
	vp.MapOrder(false)
	if err == nil {
		vp.Assert(e != nil && vpEmail(keys[e.ID]) == id, "the key has the requested address")
		vp.Reach("found")
		s, err := ArmorKey(e)
		vp.Assert(err == nil && s == string(keys[e.ID].Bytes()), "the key is unchanged")
	} else {
		vp.Assert(e == nil, "no key along with an error")
		for _, k := range keys {
			vp.Assert(damaged || vpEmail(k) != id, "a key that is there is found")
		}
		vp.Reach("refused")
	}
}
