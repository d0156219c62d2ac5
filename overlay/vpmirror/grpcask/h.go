package grpcask

import (
	"context"
	"flag"

	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpmirror/asking"
)

func vpAddr(i int) string { return "10.0.0." + string(rune('9'-i)) + ":5000" }

// vpClient is the program with the given flags and n servers.
func vpClient(n int, s []server.Server, fl map[string]interface{}) *localClient {
	asking.Certificates()
	for k, v := range fl {
		flag.Values[k] = v
	}
	lc := &localClient{ctx: context.Background(), config: &utils.Config{}, prg: utils.RandomPRG(), flags: parseFlags()}
	for i := 0; i < n; i++ {
		lc.config.Addresses = append(lc.config.Addresses, vpAddr(i))
	}
	if s != nil {
		asking.Serve(lc.config.Addresses, s)
	}
	return lc
}

// VPPredicate: the program run with the flags of a predicate gives the count
// (or the average age) of the matching keys of the servers.
func VPPredicate() {
	auth := vp.Cfg("auth", 0) == 1
	fl := map[string]interface{}{"scheme": "complexPIR", "target": "email"}
	if auth {
		fl["scheme"] = "complexVPIR"
	}
	q := asking.Ask(vp.Cfg("kind", 0), vp.Cfg("keys", 2), auth)
	fl["id"] = q.Text
	switch q.Kind {
	case asking.Prefix, asking.AveragePrefix:
		fl["from-start"] = len(q.Text)
	case asking.Suffix, asking.Average:
		fl["from-end"] = len(q.Text)
	case asking.Algorithm:
		fl["target"], fl["id"] = "algo", q.Algo
	}
	if q.Avg {
		fl["and"], fl["avg"] = true, true
	}
	lc := vpClient(2, q.Servers, fl)
	vp.MapOrder(true)
	vp.Assert(lc.connectToServers() == nil, "connects")
	out, err := lc.exec()
	if q.Avg && q.Count == 0 {
		vp.Assert(err != nil, "no average of no matches")
		vp.Reach("none")
		return
	}
	vp.Assert(err == nil, "the question is answered")
	vp.Assert(out == q.Want(), "the program gives the count or average asked for")
	vp.Reach("end")
}

// VPRetrieve: the program looks for the key of an id in the record at the
// position of the id, and nowhere else.
func VPRetrieve() {
	n, auth := vp.Cfg("servers", 3), vp.Cfg("auth", 0) == 1
	scheme := "pointPIR"
	if auth {
		scheme = "pointVPIR"
	}
	db, s := asking.Records(n, auth, vp.Cfg("rows", 2), vp.Cfg("cols", 2))
	id, at := asking.ID(db)
	lc := vpClient(n, s, map[string]interface{}{"scheme": scheme, "id": id})
	vp.MapOrder(true)
	vp.Assert(lc.connectToServers() == nil, "connects")
	out, err := lc.exec()
	if pgp.Missing {
		vp.Assert(err != nil && out == "", "no key, no result")
		vp.Reach("missing")
		return
	}
	vp.Assert(err == nil, "the key is found")
	vp.Assert(out == "the key", "the key found is the result")
	asking.Found(db, id, at)
	vp.Reach("end")
}

// VPRefuse: a question that the program does not know is refused, before
// anything about it is sent.
func VPRefuse() {
	names := []string{"", "it", "dpf", "pointpir", "complexPIR", "complexVPIR"}
	scheme := names[vp.Case("scheme", len(names))]
	fl := map[string]interface{}{"scheme": scheme, "id": "a", "target": "emails"}
	sent := 0
	proto.OnQuery = func(string, []byte) ([]byte, error) { sent++; return nil, nil }
	proto.OnInfo = func(string) (*proto.DatabaseInfoResponse, error) {
		return &proto.DatabaseInfoResponse{NumRows: 1, NumColumns: 1, BlockLength: 1}, nil
	}
	lc := vpClient(2, nil, fl)
	vp.Assert(lc.connectToServers() == nil, "connects")
	out, err := lc.exec()
	vp.Assert(err != nil && (out == "" || out == "0"), "an unknown scheme or target is refused")
	vp.Assert(sent == 0, "nothing is sent")
	vp.Reach("end")
}
