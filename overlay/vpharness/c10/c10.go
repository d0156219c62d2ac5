// Package c10: discrete-log retrieval.
package c10

import (
	"encoding/binary"
	"errors"
	"io"
	"math/big"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpstub/crypto"
)

// ---------- a group: vectors of numbers modulo 2^32, one dimension for the
// generator and one for every message hashed to the group, so that messages
// are hashed to independent elements as in the generic group model. (Neither
// the code nor the property divides by scalars, so the order of the group
// does not have to be prime.) An element is encoded by a tag byte and its
// coefficients, the identity by one byte, as in circl's curves.

const (
	tag  = 2
	dims = 5
	size = 1 + 4*dims
)

type vgroup struct {
	seen    []string
	scalars []uint32 // if not empty, what RandomScalar returns first
	drawn   int
}

type elem struct {
	g *vgroup
	v [dims]uint32
}

type scal struct {
	g *vgroup
	v uint32
}

func (g *vgroup) Params() *group.Params {
	return &group.Params{ElementLength: size, CompressedElementLength: size, ScalarLength: 4}
}
func (g *vgroup) NewElement() group.Element { return &elem{g: g} }
func (g *vgroup) NewScalar() group.Scalar   { return &scal{g: g} }
func (g *vgroup) Identity() group.Element   { return &elem{g: g} }
func (g *vgroup) Generator() group.Element {
	e := &elem{g: g}
	e.v[0] = 1
	return e
}
func (g *vgroup) Order() group.Scalar                       { return &scal{g: g} }
func (g *vgroup) RandomElement(rnd io.Reader) group.Element { return g.Generator() }
func (g *vgroup) RandomScalar(rnd io.Reader) group.Scalar {
	v := vp.U32("scalar")
	vp.Assume(v != 0)
	g.scalars = append(g.scalars, v)
	return &scal{g: g, v: v}
}
func (g *vgroup) RandomNonZeroScalar(rnd io.Reader) group.Scalar { return g.RandomScalar(rnd) }
func (g *vgroup) HashToElement(msg, dst []byte) group.Element {
	e := &elem{g: g}
	m := string(msg) + "|" + string(dst)
	for i := range g.seen {
		if g.seen[i] == m {
			e.v[i+1] = 1
			return e
		}
	}
	g.seen = append(g.seen, m)
	e.v[len(g.seen)] = 1
	return e
}
func (g *vgroup) HashToElementNonUniform(msg, dst []byte) group.Element {
	return g.HashToElement(msg, dst)
}
func (g *vgroup) HashToScalar(msg, dst []byte) group.Scalar { panic("not modelled") }

func (e *elem) Group() group.Group                { return e.g }
func (e *elem) Set(x group.Element) group.Element { e.v = x.(*elem).v; return e }
func (e *elem) Copy() group.Element               { return &elem{e.g, e.v} }
func (e *elem) IsIdentity() bool                  { return e.equal(&elem{}) }
func (e *elem) IsEqual(x group.Element) bool      { return e.equal(x.(*elem)) }
func (e *elem) CMov(b int, x group.Element) group.Element {
	if b == 1 {
		e.v = x.(*elem).v
	}
	return e
}
func (e *elem) CSelect(b int, x, y group.Element) group.Element {
	if b == 1 {
		e.v = x.(*elem).v
	} else {
		e.v = y.(*elem).v
	}
	return e
}
func (e *elem) equal(x *elem) bool {
	r := true
	for i := range e.v {
		r = vp.And(r, e.v[i] == x.v[i])
	}
	return r
}
func (e *elem) Add(x, y group.Element) group.Element {
	a, b := x.(*elem).v, y.(*elem).v
	for i := range e.v {
		e.v[i] = a[i] + b[i]
	}
	return e
}
func (e *elem) Dbl(x group.Element) group.Element { return e.Add(x, x) }
func (e *elem) Neg(x group.Element) group.Element {
	a := x.(*elem).v
	for i := range e.v {
		e.v[i] = -a[i]
	}
	return e
}
func (e *elem) Mul(x group.Element, s group.Scalar) group.Element {
	a, k := x.(*elem).v, s.(*scal).v
	for i := range e.v {
		e.v[i] = a[i] * k
	}
	return e
}
func (e *elem) MulGen(s group.Scalar) group.Element { return e.Mul(e.g.Generator(), s) }
func (e *elem) MarshalBinary() ([]byte, error)      { return e.MarshalBinaryCompress() }
func (e *elem) MarshalBinaryCompress() ([]byte, error) {
	if e.IsIdentity() {
		return []byte{0}, nil
	}
	out := make([]byte, size)
	for i, c := range e.v {
		binary.BigEndian.PutUint32(out[1+4*i:], c)
	}
	out[0] = tag
	return out, nil
}
func (e *elem) UnmarshalBinary(in []byte) error {
	if len(in) == 0 {
		return errors.New("no bytes")
	}
	if len(in) != size {
		if len(in) == 1 && in[0] == 0 {
			e.v = [dims]uint32{}
			return nil
		}
		return errors.New("wrong length")
	}
	v, ok := decode(in)
	if !ok || (&elem{v: v}).IsIdentity() {
		return errors.New("not an element")
	}
	e.v = v
	return nil
}

// decode returns the coefficients in an encoded element and whether it is
// one.
func decode(in []byte) (v [dims]uint32, ok bool) {
	for i := range v {
		v[i] = binary.BigEndian.Uint32(in[1+4*i:])
	}
	nonzero := false
	for _, b := range in[1:size] {
		nonzero = vp.Or(nonzero, b != 0)
	}
	return v, vp.Or(vp.And(in[0] == 0, !nonzero), vp.And(in[0] == tag, nonzero))
}

func (s *scal) Group() group.Group                { return s.g }
func (s *scal) Set(x group.Scalar) group.Scalar   { s.v = x.(*scal).v; return s }
func (s *scal) Copy() group.Scalar                { return &scal{s.g, s.v} }
func (s *scal) IsZero() bool                      { return s.v == 0 }
func (s *scal) IsEqual(x group.Scalar) bool       { return s.v == x.(*scal).v }
func (s *scal) SetUint64(x uint64) group.Scalar   { s.v = uint32(x); return s }
func (s *scal) SetBigInt(b *big.Int) group.Scalar { panic("not modelled") }
func (s *scal) CMov(b int, x group.Scalar) group.Scalar {
	if b == 1 {
		s.v = x.(*scal).v
	}
	return s
}
func (s *scal) CSelect(b int, x, y group.Scalar) group.Scalar {
	if b == 1 {
		s.v = x.(*scal).v
	} else {
		s.v = y.(*scal).v
	}
	return s
}
func (s *scal) Add(x, y group.Scalar) group.Scalar {
	s.v = x.(*scal).v + y.(*scal).v
	return s
}
func (s *scal) Sub(x, y group.Scalar) group.Scalar {
	s.v = x.(*scal).v - y.(*scal).v
	return s
}
func (s *scal) Mul(x, y group.Scalar) group.Scalar {
	s.v = x.(*scal).v * y.(*scal).v
	return s
}
func (s *scal) Neg(x group.Scalar) group.Scalar { s.v = -x.(*scal).v; return s }
func (s *scal) Inv(x group.Scalar) group.Scalar { panic("not modelled") }
func (s *scal) MarshalBinary() ([]byte, error) {
	out := make([]byte, 4)
	binary.BigEndian.PutUint32(out, s.v)
	return out, nil
}
func (s *scal) UnmarshalBinary(in []byte) error {
	if len(in) != 4 {
		return errors.New("wrong length")
	}
	s.v = binary.BigEndian.Uint32(in)
	return nil
}

// ---------- databases

// tape hands out arbitrary bytes.
type tape struct{}

func (tape) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = vp.Byte("tape")
	}
	return len(p), nil
}

// literal builds a database of any shape the way the constructor does.
func literal(g *vgroup, rows, cols int) *database.Elliptic {
	entries := make([]byte, rows*cols)
	for i := range entries {
		entries[i] = vp.Byte("entry") & 1
	}
	digests := make([]group.Element, rows)
	for i := range digests {
		d := &elem{g: g}
		for j := 0; j < cols; j++ {
			h := database.HashIndexToGroup(uint64(j), g).(*elem)
			for k := range d.v {
				d.v[k] += h.v[k] * uint32(entries[i*cols+j])
			}
		}
		digests[i] = d
	}
	sub, err := database.MarshalGroupElements(digests, size)
	vp.Assert(err == nil, "the row digests are encoded")
	h := crypto.BLAKE2b_256
	w := h.New()
	w.Write(sub)
	return &database.Elliptic{
		Entries: entries,
		Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1,
			Auth: &database.Auth{Digest: w.Sum(nil), SubDigests: sub, ElementSize: size, Group: g, Hash: h}},
	}
}

func build(g *vgroup) *database.Elliptic {
	if n := vp.Cfg("n", 0); n > 0 {
		return database.CreateRandomEllipticWithDigest(tape{}, n, g, vp.Cfg("square", 1) == 1)
	}
	return literal(g, vp.Cfg("r", 2), vp.Cfg("c", 2))
}

// VPCorrect: an honest answer gives the stored bit.
func VPCorrect() {
	g := &vgroup{}
	db := build(g)
	info := db.Info
	c := client.NewDH(utils.RandomPRG(), &info)
	s := server.NewDH(db)
	for q := 0; q < vp.Cfg("queries", 1); q++ {
		i := vp.Case("index", db.NumRows*db.NumColumns)
		query, err := c.QueryBytes(i)
		vp.Assert(err == nil, "the query is made")
		a, err := s.AnswerBytes(query)
		vp.Assert(err == nil, "the query is answered")
		res, err := c.ReconstructBytes(a)
		vp.Assert(err == nil, "the honest answer is accepted")
		b, ok := res.(byte)
		vp.Assert(vp.And(ok, b == db.Entries[i]), "the result is the stored bit")
	}
	vp.Reach("end")
}

// VPVerify: an answer is accepted exactly if in every row, without the blinded
// row digest, it is the identity or the retrieval element.
func VPVerify() {
	g := &vgroup{}
	db := build(g)
	rows, cols := db.NumRows, db.NumColumns
	info := db.Info
	c := client.NewDH(utils.RandomPRG(), &info)
	i := vp.Case("index", rows*cols)
	ix, iy := i/cols, i%cols
	query, err := c.QueryBytes(i)
	vp.Assert(vp.And(err == nil, len(query) == cols*size), "the query is made")
	// the blinding scalar and the retrieval element, from the query
	h := make([]*elem, cols)
	for j := range h {
		h[j] = database.HashIndexToGroup(uint64(j), g).(*elem)
	}
	dim := func(j int) int {
		for k := range h[j].v {
			if h[j].v[k] == 1 {
				return k
			}
		}
		panic("not a unit vector")
	}
	q := make([][dims]uint32, cols)
	for j := range q {
		q[j], _ = decode(query[j*size:])
	}
	other := (iy + 1) % cols
	r := q[other][dim(other)]
	ht := q[iy]
	ht[dim(iy)] = ht[dim(iy)] - r
	vp.Assert(ht[dim(iy)] != 0, "the retrieval element is not the identity")

	a := vp.Bytes("answer", rows*size)
	valid := true
	var one bool
	for k := 0; k < rows; k++ {
		v, ok := decode(a[k*size:])
		var m [dims]uint32
		for d := range m {
			e := uint32(0)
			for j := 0; j < cols; j++ {
				e += h[j].v[d] * uint32(db.Entries[k*cols+j])
			}
			m[d] = v[d] - r*e
		}
		zero, is := true, true
		for d := range m {
			zero = vp.And(zero, m[d] == 0)
			is = vp.And(is, m[d] == ht[d])
		}
		valid = vp.And(valid, vp.And(ok, vp.Or(zero, is)))
		if k == ix {
			one = is
		}
	}
	in := append([]byte{}, a...)
	res, err := c.ReconstructBytes(in)
	if err != nil {
		vp.Assert(!valid, "a consistent answer is accepted")
		vp.Reach("rejected")
		return
	}
	b, ok := res.(byte)
	vp.Assert(ok, "a byte is returned")
	vp.Assert(vp.And(valid, (b == 1) == one), "only consistent answers are accepted, with the bit of the queried row")
	vp.Assert(b <= 1, "the result is a bit")
	vp.Reach("accepted")
}

// VPRefuse: a client starts only from row digests that hash to the digest.
func VPRefuse() {
	g := &vgroup{}
	db := build(g)
	info := db.Info
	auth := *db.Auth
	info.Auth = &auth
	sub := vp.Bytes("sub", len(auth.SubDigests))
	honest := vp.Case("which", 2)
	same := true
	if honest == 0 {
		auth.SubDigests = sub
		same = vp.EqBytes(auth.SubDigests, db.SubDigests)
	} else {
		// a digest of any length, shorter and longer ones included
		n := len(auth.Digest)
		lens := []int{n, 0, 1, n - 1, n + 1, 2 * n}
		auth.Digest = vp.Bytes("digest", lens[vp.Case("len", len(lens))])
		if vp.Bool("prefix") {
			// the worst case: they agree as far as they go
			copy(auth.Digest, db.Digest)
		}
		same = len(auth.Digest) == n
		if same {
			same = vp.EqBytes(auth.Digest, db.Digest)
		}
	}
	c, _ := vp.Caught(func() { client.NewDH(utils.RandomPRG(), &info) })
	vp.Assert(c == !same, "a client starts exactly if the row digests hash to the digest")
	vp.Reach("end")
}

// VPMalformed: any bytes as an answer (property C04).
func VPMalformed() {
	g := &vgroup{}
	rows := vp.Cfg("r", 1)
	db := literal(g, rows, 2)
	info := db.Info
	c := client.NewDH(utils.RandomPRG(), &info)
	_, err := c.QueryBytes(vp.Case("index", rows*2))
	vp.Assert(err == nil, "the query is made")
	lens := []int{0, 1, size - 1, size, size + 1, 2*size - 1, 2 * size, 2*size + 1, 3 * size}
	a := vp.Bytes("answer", lens[vp.Case("len", len(lens))])
	var res interface{}
	crashed, _ := vp.Caught(func() { res, err = c.ReconstructBytes(a) })
	vp.Assert(!crashed, "the discrete-log client does not crash")
	_, ok := res.(byte)
	vp.Assert(vp.Or(err != nil, ok), "a value or an error is returned")
	if len(a) != rows*size {
		vp.Assert(err != nil, "an answer of another length gives an error")
	}
	vp.Reach("end")
}
