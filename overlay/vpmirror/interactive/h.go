package interactive

import (
	"fmt"

	"github.com/AlecAivazis/survey/v2"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpmirror/asking"
)

// vpTalk runs the program with the answers of a user, who then leaves.
func vpTalk(answers ...string) (refused bool) {
	asking.Certificates()
	survey.Script = append(answers, "👉 exit")
	_, v := vp.Caught(main)
	_, refused = v.(vp.Exit)
	return refused
}

func vpContains(b, s string) bool {
	for i := 0; i+len(s) <= len(b); i++ {
		if b[i:i+len(s)] == s {
			return true
		}
	}
	return false
}

// VPStats: the program shows the count or average of the matching keys of the
// servers.
func VPStats() {
	q := asking.Ask(vp.Cfg("kind", 1), vp.Cfg("keys", 2), true)
	asking.Serve(staticComplexConfig.Addresses, q.Servers)
	script := []string{"🔎 Get stats"}
	if q.Avg {
		script = append(script, "📆 Get average lifetime based on email")
	} else {
		script = append(script, "✌️ Count emails")
	}
	switch q.Kind {
	case asking.Prefix:
		script = append(script, "email", "begin with", q.Text)
	case asking.Suffix:
		script = append(script, "email", "end with", q.Text)
	case asking.AveragePrefix:
		script = append(script, "begin with", q.Text)
	case asking.Average:
		script = append(script, "end with", q.Text)
	case asking.Algorithm:
		script = append(script, "algo", q.Algo)
	}
	refused := vpTalk(script...)
	shown := ""
	for _, m := range survey.Shown {
		if len(m) >= 9 && m[:9] == "Result of" {
			shown += m
		}
	}
	if q.Avg && q.Count == 0 {
		vp.Assert(refused && shown == "", "no average of no matches")
		vp.Reach("none")
		return
	}
	vp.Assert(!refused && len(survey.Script) == 0, "the question is answered")
	want := ": " + q.Want() + ".\n Type enter to continue."
	vp.Assert(len(shown) > len(want) && shown[len(shown)-len(want):] == want, "the program shows the count or average asked for")
	vp.Reach("end")
}

// VPKey: the program shows the key for an email from the record at its
// position.
func VPKey() {
	auth := vp.Cfg("auth", 0) == 1
	db, s := asking.Records(2, auth, vp.Cfg("rows", 1), vp.Cfg("cols", 2))
	id, at := asking.ID(db)
	asking.Serve(staticPointConfig.Addresses, s)
	refused := vpTalk("📦 Download a key", id)
	vp.Assert(!refused && len(survey.Script) == 0, "the question is answered")
	var _ = fmt.Printed
	shown := false
	for _, p := range fmt.Printed {
		shown = shown || vpContains(p, "the key")
	}
	if pgp.Missing {
		vp.Assert(!shown, "no key, no result")
		vp.Reach("missing")
		return
	}
	vp.Assert(shown, "the key found is shown")
	asking.Found(db, id, at)
	vp.Reach("end")
}
