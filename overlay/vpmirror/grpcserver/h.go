package grpcserver

import (
	"bytes"
	"context"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
)

func vpServe(s server.Server) *vpirServer {
	v := &vpirServer{Server: s, queryChan: make(chan queryWrapper, 10)}
	go v.startWorker()
	return v
}

func vpDB() *database.DB {
	db := database.NewKeysDB(database.Info{NumColumns: 1})
	db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{
		UserId:       &packet.UserId{Email: "ab"},
		CreationTime: time.Unix(1500000000, 0).UTC(),
		PubKeyAlgo:   1,
	})
	return db
}

type vpClientI interface {
	QueryBytes(in []byte, n int) ([][]byte, error)
}

func vpMake() (func() server.Server, vpClientI) {
	db := vpDB()
	if vp.Cfg("auth", 0) == 1 {
		return func() server.Server { return server.NewPredicateAPIR(db, 0) }, client.NewPredicateAPIR(utils.RandomPRG(), &db.Info)
	}
	return func() server.Server { return server.NewPredicatePIR(db, 0) }, client.NewPredicatePIR(utils.RandomPRG(), &db.Info)
}

// VPConcurrent: requests in progress at the same time get the answers they
// would get alone.
func VPConcurrent() {
	n := vp.Cfg("clients", 2)
	mk, c := vpMake()
	qs := make([][]byte, n)
	want := make([][]byte, n)
	algos := []string{"RSA", "DSA", "RSA"}
	for i := range qs {
		in, err := (&query.Info{Target: query.PubKeyAlgo}).ToPKAClientFSS(algos[i]).Encode()
		vp.Assert(err == nil, "encodes")
		q, err := c.QueryBytes(in, 2)
		vp.Assert(err == nil, "query")
		qs[i] = q[0]
		a, err := mk().AnswerBytes(append([]byte(nil), qs[i]...))
		vp.Assert(err == nil, "answer")
		want[i] = a
	}
	s := vpServe(mk())
	type reply struct {
		i   int
		a   []byte
		err error
	}
	done := make(chan reply, n)
	vp.Races(true)
	vp.Sched(true)
	for i := 0; i < n; i++ {
		go func(i int) {
			r, err := s.Query(context.Background(), &proto.QueryRequest{Query: qs[i]})
			if err != nil {
				done <- reply{i, nil, err}
				return
			}
			done <- reply{i, r.GetAnswer(), nil}
		}(i)
	}
	for i := 0; i < n; i++ {
		r := <-done
		vp.Assert(r.err == nil, "each request is answered")
		vp.Assert(len(r.a) == len(want[r.i]) && bytes.Equal(r.a, want[r.i]), "each request gets the answer it would get alone")
	}
	vp.Sched(false)
	vp.Races(false)
	vp.Reach("end")
}
