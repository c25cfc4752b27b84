package props

import (
	"errors"
	"fmt"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// iworld is an index on some storage with its reference model.
type iworld struct {
	f       fat
	c       *hx.Case
	box     *hx.Box
	idp     *hx.IDP
	keys    key.Keys
	x       index.SecureIndex
	peer    *index.SecureIndex        // another instance on the same storage
	m       map[string]map[string]int // keyword -> identifier -> times
	kws     []string
	ids     []string
	limit   int
	ok      int
	refused int
	deleted int // occurrences deleted
}

func newIndex(f fat, c *hx.Case, box *hx.Box, keys key.Keys) *iworld {
	w := &iworld{f: f, c: c, box: box, idp: hx.NewIDP(), keys: keys, m: map[string]map[string]int{}, limit: 5000}
	w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: id.ScopeIndex, Groups: map[string]id.AccessGroup{}}
	w.restart()
	return w
}

func (w *iworld) restart() {
	w.box.Restart()
	w.x, w.peer = w.instance(), nil
}

func (w *iworld) instance() index.SecureIndex {
	kp := key.NewStatic(w.keys)
	x, err := index.NewSecureIndex(bg, &kp, w.box.P, w.idp)
	if err != nil {
		w.f.Fatalf("NewSecureIndex: %v", err)
	}
	return x
}

// turn lets the other instance on the same storage make the next calls.
func (w *iworld) turn() {
	if w.peer == nil {
		x := w.instance()
		w.peer = &x
	}
	w.x, *w.peer = *w.peer, w.x
}

func (w *iworld) predict(tok string) outcome {
	i, ok := w.idp.Tokens[tok]
	if !ok {
		return unauthenticated
	}
	if !hasScope(i.Scopes, id.ScopeIndex) {
		return unauthorized
	}
	return succeeds
}

func (w *iworld) run(what string, tok string, reads bool, call func() error) outcome {
	w.f.Helper()
	want := w.predict(tok)
	var before hx.Snap
	if w.box.St != nil {
		before = w.box.St.Snapshot()
		w.box.St.Begin(w.limit)
	}
	err := call()
	w.c.Logf("%s -> %v", what, short(err))
	switch want {
	case succeeds:
		w.ok++
		if err != nil {
			w.f.Fatalf("%s fails: %v", what, err)
		}
	case unauthenticated:
		w.refused++
		if !errors.Is(err, index.ErrNotAuthenticated) {
			w.f.Fatalf("%s with a token that is not accepted: got error %v, want not authenticated", what, err)
		}
	default:
		w.refused++
		if !errors.Is(err, index.ErrNotAuthorized) {
			w.f.Fatalf("%s without the index scope: got error %v, want not authorized", what, err)
		}
	}
	if before != nil {
		if want != succeeds && w.box.St.Calls > 0 {
			w.f.Fatalf("%s is refused but accesses storage", what)
		}
		w.box.St.Begin(0)
		if want != succeeds || reads {
			if d := before.Diff(w.box.St.Snapshot()); len(d) > 0 {
				w.f.Fatalf("%s changes stored record %v", what, d[0])
			}
		}
	}
	return want
}

func (w *iworld) add(tok, kw, ident string) {
	w.f.Helper()
	if w.run(fmt.Sprintf("add(%s, %s, %s)", hx.Short(tok), hx.Short(kw), hx.Short(ident)), tok, false, func() error { return w.x.Add(bg, tok, kw, ident) }) == succeeds {
		if w.m[kw] == nil {
			w.m[kw] = map[string]int{}
		}
		w.m[kw][ident]++
	}
}

func (w *iworld) del(tok, kw, ident string) {
	w.f.Helper()
	if w.run(fmt.Sprintf("delete(%s, %s, %s)", hx.Short(tok), hx.Short(kw), hx.Short(ident)), tok, false, func() error { return w.x.Delete(bg, tok, kw, ident) }) == succeeds {
		w.deleted += w.m[kw][ident]
		delete(w.m[kw], ident)
	}
}

func count(ids []string) map[string]int {
	m := map[string]int{}
	for _, i := range ids {
		m[i]++
	}
	return m
}

func (w *iworld) search(tok, kw string) {
	w.f.Helper()
	var got []string
	what := fmt.Sprintf("search(%s, %s)", hx.Short(tok), hx.Short(kw))
	if w.run(what, tok, true, func() (err error) { got, err = w.x.Search(bg, tok, kw); return }) != succeeds {
		if len(got) > 0 {
			w.f.Fatalf("%s is refused but returns %q", what, got)
		}
		return
	}
	w.same(what, kw, got)
	for i := range got {
		got[i] = "overwritten"
	}
}

func (w *iworld) same(what, kw string, got []string) {
	w.f.Helper()
	g := count(got)
	for i, n := range w.m[kw] {
		if g[i] != n {
			w.f.Fatalf("%s returns %s %d times, want %d (all: %s)", what, hx.Short(i), g[i], n, names(got))
		}
	}
	for i, n := range g {
		if w.m[kw][i] != n {
			w.f.Fatalf("%s returns %s %d times, want %d (all: %s)", what, hx.Short(i), n, w.m[kw][i], names(got))
		}
	}
}

func (w *iworld) total() int {
	n := 0
	for _, m := range w.m {
		for _, k := range m {
			n += k
		}
	}
	return n
}

func (w *iworld) audit() {
	w.f.Helper()
	for _, kw := range w.kws {
		w.search("t", kw)
	}
	if w.box.St != nil {
		if n := w.box.St.Snapshot().Count(io.DataTypeSealedNode); n != w.total() || n != w.box.St.Len() {
			w.f.Fatalf("%d entries exist but %d index records are stored", w.total(), n)
		}
	}
}

// present draws an identifier that is there under kw, if possible.
func (w *iworld) present(rt *rapid.T, kw string) string {
	if l := sortedKeys(w.m[kw]); len(l) > 0 && hx.IntRange(0, 4).Draw(rt, "present") > 0 {
		return hx.SampledFrom(l).Draw(rt, "id")
	}
	return hx.SampledFrom(w.ids).Draw(rt, "id")
}

func (w *iworld) step(rt *rapid.T) {
	kw := hx.SampledFrom(w.kws).Draw(rt, "kw")
	if hx.Chance(rt, 4, "instance") {
		w.c.Logf("the other instance")
		w.c.Label("two instances")
		w.turn()
	}
	switch hx.IntRange(0, 19).Draw(rt, "step") {
	case 0, 1, 2, 3, 4, 5, 6, 7, 8:
		w.add("t", kw, hx.SampledFrom(w.ids).Draw(rt, "id"))
	case 9, 10, 11, 12, 13, 14:
		w.del("t", kw, w.present(rt, kw))
	case 15, 16, 17:
		w.search("t", kw)
	case 18:
		w.c.Logf("restart")
		w.restart()
	default:
		w.audit()
	}
}
