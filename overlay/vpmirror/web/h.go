package web

import (
	"errors"
	"net/http"

	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpmirror/asking"
)

// vpPost runs the program and sends it one form.
func vpPost(path string, form http.Values) *http.Recorder {
	asking.Certificates()
	r := &http.Recorder{H: http.Header{}}
	served := false
	http.OnServe = func(h http.Handler) {
		served = true
		h.ServeHTTP(r, &http.Request{Method: "POST", URL: &http.URL{Path: path}, Header: http.Header{}, Sent: form})
	}
	main()
	vp.Assert(served, "the program serves")
	return r
}

func vpContains(b []byte, s string) bool {
	for i := 0; i+len(s) <= len(b); i++ {
		if string(b[i:i+len(s)]) == s {
			return true
		}
	}
	return false
}

// vpForm is the page and the form for a question.
func vpForm(q *asking.Question) (string, http.Values) {
	switch q.Kind {
	case asking.Prefix:
		return "/count/email", http.Values{"position": {"begin"}, "text": {q.Text}}
	case asking.Suffix:
		return "/count/email", http.Values{"position": {"end"}, "text": {q.Text}}
	}
	return "/count/algo", http.Values{"algo": {q.Algo}}
}

// VPCount: the page gives the count of the matching keys of the servers.
func VPCount() {
	q := asking.Ask(vp.Cfg("kind", 1), vp.Cfg("keys", 2), true)
	asking.Serve(staticComplexConfig.Addresses, q.Servers)
	r := vpPost(vpForm(q))
	vp.Assert(r.Code == 200, "the question is answered")
	vp.Assert(string(r.Body) == "count: "+q.Want(), "the page gives the count asked for")
	vp.Reach("end")
}

// VPFail: if the answers are not accepted, no count is given.
func VPFail() {
	q := asking.Ask(vp.Cfg("kind", 1), vp.Cfg("keys", 1), true)
	asking.Serve(staticComplexConfig.Addresses, q.Servers)
	ask := proto.OnQuery
	bad := vp.Case("server", 2)
	proto.OnQuery = func(target string, b []byte) ([]byte, error) {
		a, err := ask(target, b)
		if target == staticComplexConfig.Addresses[bad] {
			// the tag is altered, or the answer is cut off
			if vp.Case("cut", 2) == 1 {
				return a[:len(a)-4], nil
			}
			a[len(a)-1] ^= byte(1 + vp.Case("bit", 2))
		}
		return a, err
	}
	path, form := vpForm(q)
	if vp.Cfg("year", 0) == 1 {
		path, form = "/count/timestamp", http.Values{"year": {"2020"}}
	}
	r := vpPost(path, form)
	vp.Assert(r.Code >= 400, "the page says that it failed")
	vp.Assert(!vpContains(r.Body, "count:"), "no count is given if the answers are not accepted")
	vp.Reach("end")
}

// VPRetrieve: the page gives the key for an email from the record at its
// position.
func VPRetrieve() {
	auth := vp.Cfg("auth", 0) == 1
	db, s := asking.Records(2, auth, vp.Cfg("rows", 1), vp.Cfg("cols", 2))
	id, at := asking.ID(db)
	asking.Serve(staticPointConfig.Addresses, s)
	r := vpPost("/retrieve", http.Values{"email": {id}})
	vp.Assert(r.Code == 200, "the question is answered")
	if pgp.Missing {
		vp.Assert(string(r.Body) == "key not found in block", "no key, no result")
		vp.Reach("missing")
		return
	}
	vp.Assert(string(r.Body) == "the key", "the key found is the result")
	asking.Found(db, id, at)
	vp.Reach("end")
}

// VPForms: incomplete forms and unknown positions are refused, and nothing is
// sent.
func VPForms() {
	sent := 0
	proto.OnQuery = func(string, []byte) ([]byte, error) { sent++; return nil, errors.New("asked") }
	proto.OnInfo = func(string) (*proto.DatabaseInfoResponse, error) {
		sent++
		return nil, errors.New("asked")
	}
	var _ server.Server
	forms := []struct {
		path string
		form http.Values
	}{
		{"/retrieve", http.Values{}},
		{"/retrieve", http.Values{"email": {""}}},
		{"/count/email", http.Values{"position": {"begin"}}},
		{"/count/email", http.Values{"position": {"begin"}, "text": {""}}},
		{"/count/email", http.Values{"text": {"a"}}},
		{"/count/email", http.Values{"position": {"middle"}, "text": {"a"}}},
		{"/count/algo", http.Values{}},
		{"/count/timestamp", http.Values{}},
	}
	f := forms[vp.Case("form", len(forms))]
	var r *http.Recorder
	crashed, _ := vp.Caught(func() { r = vpPost(f.path, f.form) })
	vp.Assert(!crashed, "the program goes on")
	vp.Assert(r.Code >= 400 && sent == 0, "an incomplete form is refused")
	vp.Reach("end")
}
