package grpcmain

import (
	"context"
	"flag"
	"os"
	"os/signal"

	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/vp"
)

type vpReply struct {
	refused bool // by the transport: the server is stopping
	ans     []byte
	err     error
	gone    bool // the client gave up
}

func vpAsk(q []byte, giveUp bool) *vpReply {
	r := &vpReply{gone: giveUp}
	ctx := context.Background()
	ok := proto.Transport.Do(ctx, func(ctx context.Context) {
		if giveUp {
			context.Expire(ctx)
		}
		resp, err := proto.Service.Query(ctx, &proto.QueryRequest{Query: q})
		r.err = err
		if err == nil {
			r.ans = resp.GetAnswer()
		}
	})
	r.refused = !ok
	return r
}

func vpCheck(r *vpReply, q []byte, late bool) {
	if r.refused {
		vp.Assert(late, "a running server takes requests")
		return
	}
	if len(q) != 1 {
		vp.Assert(r.err != nil, "a malformed query is refused")
		return
	}
	if r.err != nil {
		vp.Assert(r.gone || late, "a request is answered")
		return
	}
	vp.Assert(len(r.ans) == 1 && r.ans[0] == q[0]+1, "each request gets its own answer")
}

func vpQuery(i int) []byte {
	if vp.Case("malformed", 2) == 1 {
		return nil
	}
	return vp.Bytes("q", 1)
}

// VPServer runs the server program: requests of several clients (some
// malformed, some abandoned by their client), then a shutdown while the last
// requests are in progress.
func VPServer() {
	n := vp.Cfg("clients", 2)
	schemes := []string{"pointPIR", "pointVPIR", "complexPIR", "complexVPIR"}
	flag.Values["id"] = 0
	flag.Values["scheme"] = schemes[vp.Cfg("scheme", 0)]
	end := make(chan struct{}, 1)
	go func() {
		main()
		end <- struct{}{}
	}()
	for proto.Transport == nil {
		vp.Yield()
	}
	proto.Transport.Ready()
	qs := make([][]byte, n)
	give := make([]bool, n)
	for i := range qs {
		qs[i] = vpQuery(i)
		give[i] = vp.Case("abandoned", 2) == 1
	}
	done := make(chan int, n)
	rs := make([]*vpReply, n)
	stop := vp.Cfg("stop", 0) == 1
	vp.Sched(true)
	for i := 0; i < n; i++ {
		go func(i int) {
			rs[i] = vpAsk(qs[i], give[i])
			done <- i
		}(i)
	}
	if stop {
		signal.Deliver(os.Interrupt)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	if !stop {
		// whatever happened before, the server still answers
		r := vpAsk([]byte{7}, false)
		vpCheck(r, []byte{7}, false)
		signal.Deliver(os.Interrupt)
	}
	<-end
	vp.Sched(false)
	for i := 0; i < n; i++ {
		vpCheck(rs[i], qs[i], stop)
	}
	vp.Reach("end")
}
