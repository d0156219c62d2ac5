package grpcmain

import (
	"context"
	"flag"
	"net"
	"os"
	"os/signal"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
)

// VPStart runs the server program (property C20): it serves the scheme it is
// started for and says truthfully which database it has.
func VPStart() {
	schemes := []string{"pointPIR", "pointVPIR", "complexPIR", "complexVPIR"}
	k := vp.Case("scheme", len(schemes))
	n := 2
	if k < 2 {
		n += vp.Case("more", 3)
	}
	id := vp.Case("id", n)
	files := 1 + vp.Case("files", 3)
	utils.Addresses = []string{"127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3", "127.0.0.1:4"}[:n]
	flag.Values["id"] = id
	flag.Values["files"] = files
	flag.Values["scheme"] = schemes[k]
	if vp.Case("experiment", 2) == 1 {
		flag.Values["experiment"] = true
		flag.Values["cores"] = 4
	}
	info := &database.Info{
		NumRows: int(vp.U32("rows")), NumColumns: int(vp.U32("columns")), BlockSize: int(vp.U32("size")),
		PIRType: []string{"", "classical", "merkle"}[vp.Case("type", 3)],
		Merkle:  &database.Merkle{Root: vp.Bytes("root", 3), ProofLen: int(vp.U32("proof"))},
	}
	server.Info = info
	end := make(chan struct{}, 1)
	go func() {
		main()
		end <- struct{}{}
	}()
	for proto.Transport == nil {
		vp.Yield()
	}
	proto.Transport.Ready()
	s := server.Last
	vp.Assert(s != nil, "there is a server")
	vp.Assert(net.Listening == utils.Addresses[id], "the server is found at its own address")
	switch {
	case k >= 2:
		kind := "predicate"
		if k == 3 {
			kind = "authenticated predicate"
		}
		vp.Assert(s.Kind == kind && s.Keys == database.Keys, "the predicate schemes are served from the keys")
		vp.Assert(int(s.ID) == id, "a predicate server has the number it is started with")
	case n == 2:
		vp.Assert(s.Kind == "two", "two servers take compressed queries")
	default:
		vp.Assert(s.Kind == "linear", "more than two servers take uncompressed queries")
	}
	if k == 0 {
		vp.Assert(s.Records == database.Records, "the plain scheme is served from plain records")
	}
	if k == 1 {
		vp.Assert(s.Records == database.Proofs, "the authenticated scheme is served from records with proofs")
	}
	all, _ := pgp.GetAllFiles("")
	same := len(database.Files) == files
	for i := 0; same && i < files; i++ {
		same = database.Files[i] == all[i]
	}
	vp.Assert(same, "the database is made of the files asked for")
	r, err := proto.Service.DatabaseInfo(context.Background(), &proto.DatabaseInfoRequest{})
	vp.Assert(err == nil, "the database is described")
	vp.Assert(vp.And(r.GetNumRows() == uint32(info.NumRows), r.GetNumColumns() == uint32(info.NumColumns)), "dimensions")
	vp.Assert(vp.And(r.GetBlockLength() == uint32(info.BlockSize), r.GetProofLen() == uint32(info.ProofLen)), "lengths")
	vp.Assert(r.GetPirType() == info.PIRType && len(r.GetRoot()) == 3 && vp.EqBytes(r.GetRoot(), info.Root), "scheme and root")
	// it answers what the server answers
	q := vp.Bytes("q", 1)
	a, err := proto.Service.Query(context.Background(), &proto.QueryRequest{Query: q})
	vp.Assert(err == nil && len(a.GetAnswer()) == 1 && a.GetAnswer()[0] == q[0]+1, "answers")
	signal.Deliver(os.Interrupt)
	<-end
	vp.Reach("end")
}
