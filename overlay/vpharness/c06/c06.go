// Package c06: predicate queries return the plaintext count or average.
package c06

import (
	"github.com/si-co/vpir-code/vpstub/time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
	"golang.org/x/crypto/blake2b"
)

// ---------- what C05 shows of the function shares

func generate(_ fss.Fss, a []bool, b []uint32) []fss.FssKeyEq2P {
	seed := vp.Bytes("seed", 15)
	keys := make([]fss.FssKeyEq2P, 2)
	for i := range keys {
		k := &keys[i]
		k.SInit = append(append([]byte(nil), seed...), byte(i))
		for _, x := range a {
			k.CW = append(k.CW, []byte{byte(vp.Ite32(x, 1, 0))})
		}
		k.FinalCW = append([]uint32(nil), b...)
	}
	return keys
}

func bit(b byte) bool { return b == 1 }

func evaluate(_ fss.Fss, num byte, k fss.FssKeyEq2P, x []bool, out []uint32) {
	vp.Assert(len(x) == len(k.CW), "the points have the length of the hidden input")
	eq := true
	pt := make([]byte, len(x))
	for i := range x {
		eq = vp.And(eq, x[i] == bit(k.CW[i][0]))
		pt[i] = byte(vp.Ite32(x[i], 1, 0))
	}
	eq = vp.Decide(eq)
	for j := range out {
		r := (0x6f3a91c5 + uint32(j)*0x1f123bb5) % field.ModP
		if vp.Cfg("shares", 1) == 1 {
			u := vp.UF("share", 4, k.SInit[:15], pt, []byte{byte(j)})
			r = uint32(u[0]&0x7f)<<24 | uint32(u[1])<<16 | uint32(u[2])<<8 | uint32(u[3])
			r = vp.Ite32(r == field.ModP, 0, r)
		}
		if k.SInit[15] == 0 && eq {
			r = (r + k.FinalCW[j]) % field.ModP
		}
		if num == 0 {
			out[j] = r
		} else {
			out[j] = field.ModP - r
		}
	}
}

// ---------- the calendar

const firstYear, lastYear = 2008, 2036

func start(year int) int64 { // of the year, in seconds
	days := int64(0)
	for y := 1970; y < year; y++ {
		days += 365
		if y%4 == 0 {
			days++
		}
	}
	return days * 86400
}

// yearOf stands for (time.Time).Year.
func yearOf(t time.Time) int {
	_, off := t.Zone()
	return yearAt(t.Unix() + int64(off))
}

func yearAt(sec int64) int {
	y := firstYear - 1
	for k := firstYear; k <= lastYear+1; k++ {
		y = vp.IteInt(sec >= start(k), k, y)
	}
	return y
}

type prg struct{}

func (prg) Read(p []byte) (int, error) {
	q := vp.Bytes("rnd", len(p))
	for i := 0; i+4 <= len(q); i += 4 {
		// a draw of the modulus would be repeated (see C12)
		vp.Assume(uint32(q[i]&0x7f)<<24|uint32(q[i+1])<<16|uint32(q[i+2])<<8|uint32(q[i+3]) != field.ModP)
	}
	copy(p, q)
	return len(p), nil
}

var zones = []int{0, 7200, -18000, 46800, 1845}

type key struct {
	email []byte
	sec   int64
	algo  byte
}

func makeDB(keys []key, zone int) *database.DB {
	db := database.NewKeysDB(database.Info{NumColumns: len(keys)})
	for _, k := range keys {
		t := time.Unix(k.sec, 0).UTC()
		if zone != 0 {
			t = t.In(time.FixedZone("zone", zone))
		}
		db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{
			UserId:       &packet.UserId{Email: string(k.email)},
			CreationTime: t,
			PubKeyAlgo:   packet.PublicKeyAlgorithm(k.algo),
		})
	}
	return db
}

const (
	whole = iota
	prefix
	suffix
	algorithm
	created
	conjunction
	average
	averagePrefix
	yearQuery
)

var algos = []struct {
	name string
	id   byte
}{{"RSA", 1}, {"ElGamal", 16}, {"DSA", 17}, {"ECDH", 18}, {"ECDSA", 19}}

func sameBits(a, b []bool) bool {
	eq := true
	for i := range a {
		eq = vp.And(eq, a[i] == b[i])
	}
	return eq
}

func sum16(b []byte) []byte {
	h := blake2b.Sum256(b)
	return h[:16]
}

// VPPredicate: arbitrary keys and an arbitrary predicate of one kind.
func VPPredicate() {
	vp.Contract("(github.com/si-co/vpir-code/lib/fss.Fss).GenerateTreePF", generate)
	vp.Contract("(github.com/si-co/vpir-code/lib/fss.Fss).EvaluatePF", evaluate)
	vp.Contract("(time.Time).Year", yearOf)
	kind, n := vp.Cfg("kind", 0), vp.Cfg("keys", 2)
	auth := vp.Cfg("auth", 1) == 1
	keys := make([]key, n)
	for i := range keys {
		l := 2
		if kind != algorithm && kind != created && kind != yearQuery {
			l = vp.Cfg("minlen", 0) + vp.Case("len", vp.Cfg("lens", 4))
		}
		keys[i].email = vp.Bytes("email", l)
		lo := uint64(start(firstYear)) + 86400
		if y := vp.Cfg("years", 0); y > 0 {
			// one path for every year
			k := firstYear + 2 + 7*vp.Case("year", y)
			keys[i].sec = start(k) + int64(vp.U64Max("sec", uint64(start(k+1)-start(k)-1)))
		} else {
			keys[i].sec = int64(lo + vp.U64Max("sec", uint64(start(lastYear+1))-lo-2*86400))
		}
		keys[i].algo = vp.Byte("algo")
	}
	var info *query.Info
	var cq *query.ClientFSS
	match := make([]bool, n)
	switch kind {
	case whole:
		info = &query.Info{Target: query.UserId}
		m := vp.Bytes("match", 2)
		cq = info.ToEmailClientFSS(string(m))
		for i := range keys {
			if vp.Case("same", 2) == 1 {
				keys[i].email = m
			} else {
				vp.Assume(!vp.EqBytes(keys[i].email, m))
				// no collision of the truncated hash
				vp.Assume(!sameBits(utils.ByteToBits(sum16(keys[i].email)), utils.ByteToBits(sum16(m))))
			}
			match[i] = vp.EqBytes(keys[i].email, m)
		}
	case prefix, suffix, average, averagePrefix:
		m := vp.Bytes("match", 1+vp.Cfg("long", 0))
		info = &query.Info{Target: query.UserId, FromStart: len(m)}
		if kind == suffix || kind == average {
			info.FromStart, info.FromEnd = 0, len(m)
		}
		if kind == average || kind == averagePrefix {
			info.And, info.Avg = true, true
			cq = info.ToAvgClientFSS(string(m))
		} else {
			cq = info.ToEmailClientFSS(string(m))
		}
		for i, k := range keys {
			match[i] = ends(k.email, m, kind == suffix || kind == average)
		}
	case algorithm:
		info = &query.Info{Target: query.PubKeyAlgo}
		a := algos[vp.Case("which", len(algos))]
		cq = info.ToPKAClientFSS(a.name)
		for i, k := range keys {
			match[i] = k.algo == a.id
		}
	case created:
		info = &query.Info{Target: query.CreationTime}
		s := start(firstYear) + int64(vp.U64Max("when", uint64(start(lastYear)-start(firstYear))))
		w := time.Unix(s, 0).In(time.FixedZone("mine", zones[vp.Case("myzone", 3)]))
		id, err := info.IdForCreationTime(w)
		vp.Assert(err == nil, "id of a time")
		cq = &query.ClientFSS{Info: info, Input: id}
		for i, k := range keys {
			match[i] = k.sec == s
		}
	case yearQuery:
		info = &query.Info{Target: query.CreationTime}
		cq = info.ToCreationTimeClientFSS("2019")
		for i, k := range keys {
			// the instant a year stands for
			match[i] = k.sec == time.Date(2019, 0, 0, 0, 0, 0, 0, time.UTC).Unix()
		}
	case conjunction:
		m := vp.Bytes("match", 1+vp.Cfg("long", 0))
		info = &query.Info{Target: query.UserId, FromEnd: len(m), And: true}
		when := start(firstYear) + int64(vp.U64Max("when", uint64(start(lastYear)-start(firstYear))))
		y, err := info.IdForYearCreationTime(time.Unix(when, 0))
		vp.Assert(err == nil, "id of a year")
		id, ok := info.IdForEmail(string(m))
		vp.Assert(ok, "id of an email")
		cq = &query.ClientFSS{Info: info, Input: append(y, id...)}
		for i, k := range keys {
			match[i] = vp.And(yearAt(k.sec) == yearAt(when), ends(k.email, m, true))
		}
	}
	// one path for every set of matching keys
	for i := range match {
		m := vp.Case("matches", 2) == 1
		vp.Assume(match[i] == m)
		match[i] = m
	}
	// the two servers keep the times in different zones
	z := vp.Case("zone", vp.Cfg("zones", 1))
	dbs := []*database.DB{makeDB(keys, zones[z]), makeDB(keys, zones[(2*z+1)%5])}
	var res uint32
	var err error
	if auth {
		c := client.NewPredicateAPIR(prg{}, &dbs[0].Info)
		s := []*server.PredicateAPIR{server.NewPredicateAPIR(dbs[0], 0), server.NewPredicateAPIR(dbs[1], 1)}
		if vp.Cfg("bytes", 0) == 1 {
			in, e := cq.Encode()
			vp.Assert(e == nil, "encode")
			qs, e := c.QueryBytes(in, 2)
			vp.Assert(e == nil, "query")
			ans := make([][]byte, 2)
			for i := range s {
				ans[i], e = s[i].AnswerBytes(qs[i])
				vp.Assert(e == nil, "answer")
			}
			var x interface{}
			x, err = c.ReconstructBytes(ans)
			res, _ = x.(uint32)
		} else {
			qs := c.Query(cq, 2)
			res, err = c.Reconstruct([][]uint32{s[0].Answer(qs[0]), s[1].Answer(qs[1])})
		}
	} else {
		c := client.NewPredicatePIR(prg{}, &dbs[0].Info)
		s := []*server.PredicatePIR{server.NewPredicatePIR(dbs[0], 0), server.NewPredicatePIR(dbs[1], 1)}
		if vp.Cfg("bytes", 0) == 1 {
			in, e := cq.Encode()
			vp.Assert(e == nil, "encode")
			qs, e := c.QueryBytes(in, 2)
			vp.Assert(e == nil, "query")
			ans := make([][]byte, 2)
			for i := range s {
				ans[i], e = s[i].AnswerBytes(qs[i])
				vp.Assert(e == nil, "answer")
			}
			var x interface{}
			x, err = c.ReconstructBytes(ans)
			res, _ = x.(uint32)
		} else {
			qs := c.Query(cq, 2)
			res, err = c.Reconstruct([][]uint32{s[0].Answer(qs[0]), s[1].Answer(qs[1])})
		}
	}
	count, years := uint32(0), uint32(0)
	now := time.Now().UTC().Year()
	for i, k := range keys {
		m := match[i]
		if kind == average || kind == averagePrefix {
			age := now - yearAt(k.sec)
			m = vp.And(m, age >= 0)
			years += vp.Ite32(m, uint32(age), 0)
		}
		count += vp.Ite32(m, 1, 0)
	}
	if kind == average || kind == averagePrefix {
		if count == 0 {
			vp.Assert(err != nil, "no average of no matches")
			vp.Reach("none")
			return
		}
		vp.Assert(err == nil, "the honest answer is accepted")
		vp.Assert(res == years/count, "the average age of the matching keys")
	} else {
		vp.Assert(err == nil, "the honest answer is accepted")
		vp.Assert(res == count, "the number of matching keys")
	}
	vp.Reach("end")
}

func ends(s, m []byte, last bool) bool {
	if len(s) < len(m) {
		return false
	}
	if last {
		return vp.EqBytes(s[len(s)-len(m):], m)
	}
	return vp.EqBytes(s[:len(m)], m)
}
