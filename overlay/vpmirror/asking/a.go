// Package asking: questions about keys and records, and servers to answer
// them (property C20).
package asking

import (
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
	"golang.org/x/crypto/blake2b"
	"google.golang.org/grpc/credentials"
)

// ---------- what C05 shows of the function shares (and C12 of the elements)

func generate(_ fss.Fss, a []bool, b []uint32) []fss.FssKeyEq2P {
	keys := make([]fss.FssKeyEq2P, 2)
	for i := range keys {
		k := &keys[i]
		k.SInit = append(make([]byte, 15), byte(i))
		for _, x := range a {
			k.CW = append(k.CW, []byte{byte(vp.Ite32(x, 1, 0))})
		}
		k.FinalCW = append([]uint32(nil), b...)
	}
	return keys
}

func evaluate(_ fss.Fss, num byte, k fss.FssKeyEq2P, x []bool, out []uint32) {
	vp.Assert(len(x) == len(k.CW), "the points have the length of the hidden input")
	vp.Assert(num == k.SInit[15], "each server evaluates the key made for its number")
	eq := true
	for i := range x {
		eq = vp.And(eq, x[i] == (k.CW[i][0] == 1))
	}
	eq = vp.Decide(eq)
	for j := range out {
		r := (0x6f3a91c5 + uint32(j)*0x1f123bb5) % field.ModP
		if num == 0 && eq {
			r = (r + k.FinalCW[j]) % field.ModP
		}
		if num == 0 {
			out[j] = r
		} else {
			out[j] = field.ModP - r
		}
	}
}

func element(_ interface{ Read([]byte) (int, error) }) uint32 {
	return uint32(vp.U64Max("alpha", uint64(field.ModP)-1))
}

var algos = []struct {
	name string
	id   byte
}{{"RSA", 1}, {"ElGamal", 16}, {"DSA", 17}, {"ECDH", 18}, {"ECDSA", 19}}

func ends(s, m []byte, last bool) bool {
	if len(s) < len(m) {
		return false
	}
	if last {
		return vp.EqBytes(s[len(s)-len(m):], m)
	}
	return vp.EqBytes(s[:len(m)], m)
}

func sameBits(a, b []bool) bool {
	eq := true
	for i := range a {
		eq = vp.And(eq, a[i] == b[i])
	}
	return eq
}

func sum16(b []byte) []byte {
	h := blake2b.Sum256(b)
	return h[:16]
}

func Digits(v uint32) string {
	s := ""
	for ok := true; ok; ok = v > 0 {
		s = string(rune('0'+v%10)) + s
		v /= 10
	}
	return s
}

const (
	Whole = iota
	Prefix
	Suffix
	Algorithm
	Average
	AveragePrefix
)

// Question is a predicate over the keys of two servers, and its answer.
type Question struct {
	Kind       int
	Text, Algo string
	Avg        bool
	Count, Sum uint32 // of the matching keys; of their ages
	Servers    []server.Server
}

// Want is the answer in digits.
func (q *Question) Want() string {
	if q.Avg {
		return Digits(q.Sum / q.Count)
	}
	return Digits(q.Count)
}

// Ask makes up keys and a question of a kind about them.
func Ask(kind, n int, auth bool) *Question {
	vp.Contract("(github.com/si-co/vpir-code/lib/fss.Fss).GenerateTreePF", generate)
	vp.Contract("(github.com/si-co/vpir-code/lib/fss.Fss).EvaluatePF", evaluate)
	vp.Contract("github.com/si-co/vpir-code/lib/field.RandElementWithPRG", element)
	emails, ids := make([][]byte, n), make([]byte, n)
	match := make([]bool, n)
	// created in the middle of the years 2010, 2013, ...; now it is 2023
	years := make([]int, n)
	for i := range emails {
		l := 2
		switch kind {
		case Algorithm:
		case Whole:
			l = 2 + vp.Case("len", 2)
		default:
			l = 1 + vp.Case("len", 3)
		}
		emails[i] = vp.Bytes("email", l)
		ids[i] = vp.Byte("algo")
		years[i] = 2010 + 3*i
	}
	m := vp.Bytes("match", 2)
	q := &Question{Kind: kind, Text: string(m), Avg: kind == Average || kind == AveragePrefix}
	switch kind {
	case Whole:
		for i := range emails {
			if match[i] = vp.Case("same", 2) == 1; match[i] {
				emails[i] = m
				continue
			}
			if len(emails[i]) == len(m) {
				vp.Assume(!vp.EqBytes(emails[i], m))
			}
			// no collision of the truncated hash
			vp.Assume(!sameBits(utils.ByteToBits(sum16(emails[i])), utils.ByteToBits(sum16(m))))
		}
	case Algorithm:
		a := algos[vp.Case("which", len(algos))]
		q.Algo = a.name
		for i := range ids {
			match[i] = ids[i] == a.id
		}
	default:
		for i := range emails {
			match[i] = ends(emails[i], m, kind == Suffix || kind == Average)
		}
	}
	// one path for every set of matching keys
	for i := range match {
		is := match[i]
		if kind != Whole {
			is = vp.Case("matches", 2) == 1
			vp.Assume(match[i] == is)
		}
		if is {
			q.Count++
			q.Sum += uint32(2023 - years[i])
		}
	}
	for k := 0; k < 2; k++ {
		db := database.NewKeysDB(database.Info{NumColumns: n, Merkle: &database.Merkle{Root: []byte{0}}})
		for i := range emails {
			db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{
				UserId:       &packet.UserId{Email: string(emails[i])},
				CreationTime: time.Date(years[i], 6, 1, 0, 0, 0, 0, time.UTC),
				PubKeyAlgo:   packet.PublicKeyAlgorithm(ids[i]),
			})
		}
		if auth {
			q.Servers = append(q.Servers, server.NewPredicateAPIR(db, byte(k)))
		} else {
			q.Servers = append(q.Servers, server.NewPredicatePIR(db, byte(k)))
		}
	}
	return q
}

// records are records ended by the padding signal.
type records struct{ bl int }

func (r records) Read(p []byte) (int, error) {
	copy(p, vp.Bytes("rec", len(p)))
	for i := r.bl - 1; i < len(p); i += r.bl {
		p[i] = 0x80
	}
	return len(p), nil
}

// Records makes up a database of records and n servers for it.
func Records(n int, auth bool, rows, cols int) (*database.Bytes, []server.Server) {
	const bl = RecordLen + 1
	var db *database.Bytes
	if auth {
		db = database.CreateRandomMerkle(records{bl}, rows*cols*bl*8, rows, bl)
	} else {
		db = database.CreateRandomBytes(records{bl}, rows*cols*bl*8, rows, bl)
	}
	var s []server.Server
	for i := 0; i < n; i++ {
		if n == 2 {
			s = append(s, server.NewPIRTwo(db))
		} else {
			s = append(s, server.NewPIR(db))
		}
	}
	return db, s
}

// RecordLen is the length of the records, without padding.
const RecordLen = 2

// ID makes up an id and says where its record is.
func ID(db *database.Bytes) (string, int) {
	n := db.NumRows * db.NumColumns
	id := string(vp.Bytes("id", 3))
	at := vp.Case("position", n)
	vp.Assume(int(database.HashToIndex(id, n)) == at)
	pgp.Missing = vp.Case("missing", 2) == 1
	return id, at
}

// Found checks that the key found last is that of an id.
func Found(db *database.Bytes, id string, at int) {
	e := pgp.Last
	vp.Assert(e != nil && len(e.Email) == len(id) && vp.EqBytes([]byte(e.Email), []byte(id)), "the key of the id is looked for")
	want := db.Entries[at*db.BlockSize : at*db.BlockSize+RecordLen]
	vp.Assert(len(e.Block) == len(want), "the record has its length, without padding and proof")
	vp.Assert(vp.EqBytes(e.Block, want), "the record is the one at the position of the id")
}

// Serve connects servers to addresses.
func Serve(addr []string, s []server.Server) {
	at := func(target string) server.Server {
		for i := range s {
			if target == addr[i] {
				return s[i]
			}
		}
		vp.Assert(false, "only the servers of the configuration are asked")
		return nil
	}
	proto.OnQuery = func(target string, b []byte) ([]byte, error) { return at(target).AnswerBytes(b) }
	proto.OnInfo = func(target string) (*proto.DatabaseInfoResponse, error) {
		d := at(target).DBInfo()
		return &proto.DatabaseInfoResponse{
			NumRows: uint32(d.NumRows), NumColumns: uint32(d.NumColumns), BlockLength: uint32(d.BlockSize),
			PirType: d.PIRType, Root: d.Root, ProofLen: uint32(d.ProofLen),
		}, nil
	}
}

// Certificates replaces the loading of certificates.
func Certificates() {
	vp.Contract("github.com/si-co/vpir-code/lib/utils.LoadServersCertificates", func() (credentials.TransportCredentials, error) { return nil, nil })
}
