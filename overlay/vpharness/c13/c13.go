// Package c13: every key placed in the directory can be found by its email.
package c13

import (
	"encoding/gob"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpstub/os"
)

type prg struct{}

func (prg) Read(p []byte) (int, error) {
	copy(p, vp.Bytes("rnd", len(p)))
	return len(p), nil
}

func write(file string, keys []*pgp.Key) {
	f, err := os.Create(file)
	vp.Assert(err == nil, "create")
	enc := gob.NewEncoder(f)
	for _, k := range keys {
		vp.Assert(enc.Encode(k) == nil, "encode")
	}
	vp.Assert(f.Close() == nil, "close")
}

func build(merkle bool, files []string, rebalanced bool) *database.Bytes {
	var db *database.Bytes
	var err error
	if merkle {
		db, err = database.GenerateRealKeyMerkle(files, rebalanced)
	} else {
		db, err = database.GenerateRealKeyBytes(files, rebalanced)
	}
	vp.Assert(err == nil, "directory is built")
	return db
}

func email(i int) string { return string([]byte{byte('a' + i), '@', 'x'}) }

var perms = [][]int{{2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}, {0, 1, 2}}

// VPDirectory: "keys" keys, three of them (or fewer) of arbitrary contents in
// arbitrary buckets and loaded in any order, possibly from two files.
func VPDirectory() {
	n := vp.Cfg("keys", 20)
	merkle, rebalanced := vp.Cfg("merkle", 0) == 1, vp.Cfg("square", 0) == 1
	free := vp.Cfg("free", 3)
	if n < free {
		free = n
	}
	var keys []*pgp.Key
	for i := 0; i < n; i++ {
		p := []byte{byte(i + 1)}
		if i < free {
			p = vp.Bytes("pkt", 1+i%2)
		}
		keys = append(keys, &pgp.Key{ID: email((i*7 + 3) % n), Packet: p})
	}
	// the number of buckets does not depend on the contents
	table := n / 10
	if table == 0 {
		table = 1
	}
	rows, cols := database.CalculateNumRowsAndColumns(table, rebalanced)
	size := rows * cols
	bucket := make([]int, n)
	for i, k := range keys {
		if i < free {
			bucket[i] = vp.Case("bucket", size)
		} else {
			bucket[i] = i % (1 + size/2)
		}
		vp.Assume(int(database.HashToIndex(k.ID, size)) == bucket[i])
	}
	write("a", keys)
	db := build(merkle, []string{"a"}, rebalanced)
	vp.Assert(db.NumRows*db.NumColumns == size, "number of buckets")
	if vp.Cfg("order", 0) == 1 && free == 3 {
		// the same keys in another order and in two files
		pm := perms[vp.Case("perm", vp.Cfg("perms", 2))]
		other := append([]*pgp.Key(nil), keys[free:]...)
		write("b", []*pgp.Key{keys[pm[0]]})
		write("c", append(other, keys[pm[1]], keys[pm[2]]))
		db2 := build(merkle, []string{"c", "b"}, rebalanced)
		vp.Assert(db2.BlockSize == db.BlockSize && len(db2.Entries) == len(db.Entries), "same sizes whatever the order of loading")
		vp.Assert(vp.EqBytes(db2.Entries, db.Entries), "same contents whatever the order of loading")
		for i := range db.BlockLengths {
			vp.Assert(db.BlockLengths[i] == db2.BlockLengths[i], "same record lengths whatever the order of loading")
		}
		vp.Reach("end")
		return
	}
	// a client looks a bucket up
	b := vp.Case("lookup", size)
	c := client.NewPIR(prg{}, &db.Info)
	q := c.Query(b, 3)
	var answers [][]byte
	for i := range q {
		answers = append(answers, server.NewPIR(db).Answer(q[i]))
	}
	res, err := c.Reconstruct(answers)
	vp.Assert(err == nil, "reconstruction")
	got := database.UnPadBlock(res)
	// the keys of the bucket by decreasing email
	var want []byte
	last := "~"
	for range keys {
		best := -1
		for i, k := range keys {
			if k.ID < last && (best < 0 || keys[best].ID < k.ID) {
				best = i
			}
		}
		if bucket[best] == b {
			want = append(want, keys[best].Packet...)
		}
		last = keys[best].ID
	}
	vp.Assert(vp.EqBytes(got, want), "the record of a bucket is the bytes of its keys")
	vp.Reach("end")
}

// VPPad: padding is inverted exactly.
func VPPad() {
	l := vp.Case("len", vp.Cfg("max", 4)+1)
	rec := vp.Bytes("rec", l)
	bl := 1 + vp.Case("bl", 5)
	in := append([]byte(nil), rec...)
	p := database.PadBlock(in[:l:l], bl)
	vp.Assert(len(p)%bl == 0 && len(p) > l, "a whole number of blocks")
	vp.Assert(vp.EqBytes(database.UnPadBlock(p), rec), "padding is inverted")
	in = append([]byte(nil), rec...)
	s := database.PadWithSignalByte(in[:l:l])
	vp.Assert(vp.EqBytes(database.UnPadBlock(s), rec), "the signal byte is removed")
	z := append(append([]byte(nil), s...), make([]byte, vp.Case("zeros", 4))...)
	vp.Assert(vp.EqBytes(database.UnPadBlock(z), rec), "the signal byte and the zeros after it are removed")
	vp.Assert(len(database.UnPadBlock(make([]byte, bl))) == 0, "an empty record has no contents")
	vp.Reach("end")
}
