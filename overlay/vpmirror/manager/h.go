package manager

import (
	"bytes"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
	"google.golang.org/grpc/credentials"
)

func vpClient(n int) *Actor {
	vp.Contract("github.com/si-co/vpir-code/lib/utils.LoadServersCertificates", func() (credentials.TransportCredentials, error) { return nil, nil })
	config := utils.Config{}
	for i := 0; i < n; i++ {
		config.Addresses = append(config.Addresses, vpAddr(i))
	}
	vp.MapOrder(true)
	m := NewManager(config, nil)
	a, err := m.Connect()
	vp.Assert(err == nil, "connects")
	return &a
}

func vpAddr(i int) string { return "10.0.0." + string(rune('9'-i)) + ":5000" }

func vpRun(a *Actor, q [][]byte) [][]byte { return a.RunQueries(q) }
func vpInfo(a *Actor) *database.Info {
	infos, err := a.GetDBInfos()
	if err != nil {
		panic(vp.Exit{Msg: "refused"})
	}
	return &infos[0]
}

// VPDispatch: share j goes to server j only, every answer comes back once.
func VPDispatch() {
	n := vp.Cfg("servers", 2)
	lc := vpClient(n)
	q := make([][]byte, n)
	for i := range q {
		q[i] = vp.Bytes("q", 1+i)
	}
	got := make([][]byte, n)
	times := make([]int, n)
	ans := make([][]byte, n)
	for i := range ans {
		ans[i] = append(vp.Bytes("a", 1), byte(i))
	}
	proto.OnQuery = func(target string, b []byte) ([]byte, error) {
		for i := range q {
			if target == vpAddr(i) {
				got[i] = b
				times[i]++
				return ans[i], nil
			}
		}
		vp.Assert(false, "only the servers of the configuration are asked")
		return nil, nil
	}
	vp.Sched(true)
	out := vpRun(lc, q)
	vp.Sched(false)
	vp.Assert(len(out) == n, "one answer per server")
	seen := make([]int, n)
	for i := range q {
		vp.Assert(times[i] == 1, "each server is asked once")
		vp.Assert(len(got[i]) == len(q[i]) && bytes.Equal(got[i], q[i]), "server j gets share j")
		vp.Assert(len(out[i]) == 2, "answers are unchanged")
		k := int(out[i][1])
		seen[k]++
		vp.Assert(out[i][0] == ans[k][0], "answers are unchanged")
	}
	for i := range seen {
		vp.Assert(seen[i] == 1, "every server's answer is used once")
	}
	vp.Reach("end")
}

func vpDesc(name string) *proto.DatabaseInfoResponse {
	d := &proto.DatabaseInfoResponse{
		NumRows: vp.U32(name), NumColumns: vp.U32(name), BlockLength: vp.U32(name), ProofLen: vp.U32(name),
	}
	if vp.Choose(name+"type", 2) == 1 {
		d.PirType = "merkle"
	}
	d.Root = vp.Bytes(name+"root", vp.Choose(name+"rootlen", 3))
	return d
}

func vpSame(a, b *proto.DatabaseInfoResponse) bool {
	if a.PirType != b.PirType || len(a.Root) != len(b.Root) {
		return false
	}
	return vp.And(vp.And(vp.And(a.NumRows == b.NumRows, a.NumColumns == b.NumColumns), vp.And(a.BlockLength == b.BlockLength, a.ProofLen == b.ProofLen)), vp.EqBytes(a.Root, b.Root))
}

// VPInfo: the client goes on exactly if all servers describe one database.
func VPInfo() {
	n := vp.Cfg("servers", 2)
	lc := vpClient(n)
	ds := make([]*proto.DatabaseInfoResponse, n)
	for i := range ds {
		ds[i] = vpDesc("d")
	}
	proto.OnInfo = func(target string) (*proto.DatabaseInfoResponse, error) {
		for i := range ds {
			if target == vpAddr(i) {
				return ds[i], nil
			}
		}
		return nil, nil
	}
	same := true
	for i := range ds {
		same = vp.And(same, vpSame(ds[0], ds[i]))
	}
	var info *database.Info
	refused, v := vp.Caught(func() { info = vpInfo(lc) })
	if refused {
		_, exit := v.(vp.Exit)
		vp.Assert(exit, "different descriptions are refused in an orderly way")
		vp.Assert(!same, "equal descriptions are accepted")
		vp.Reach("refused")
		return
	}
	vp.Assert(same, "the client goes on only if all servers describe the same database")
	vp.Assert(vp.And(uint32(info.NumRows) == ds[0].NumRows, vp.And(uint32(info.NumColumns) == ds[0].NumColumns, uint32(info.BlockSize) == ds[0].BlockLength)), "the dimensions used are those described")
	vp.Assert(info.PIRType == ds[0].PirType && uint32(info.ProofLen) == ds[0].ProofLen && len(info.Root) == len(ds[0].Root) && vp.EqBytes(info.Root, ds[0].Root), "the scheme and root used are those described")
	vp.Reach("accepted")
}
