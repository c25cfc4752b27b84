package props

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/io"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C16: one failed storage call in an index operation.

type xop struct{ kind, kw, ident string }

func (p xop) String() string {
	return fmt.Sprintf("%s %s %s", p.kind, hx.Short(p.kw), hx.Short(p.ident))
}

type xworld struct {
	*iworld
	st   *hx.Store
	open []xop // failed operations that may be repeated
	hits int
}

func newXWorld(f fat, c *hx.Case) *xworld {
	box := hx.NewBox("store")
	w := &xworld{iworld: newIndex(f, c, box, keysOf(16)), st: box.St}
	return w
}

func multiset(m map[string]int) string {
	var out []string
	for k, n := range m {
		if n > 0 {
			out = append(out, fmt.Sprintf("%q x%d", k, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func (w *xworld) found(what, kw string) map[string]int {
	w.f.Helper()
	w.st.Begin(2000)
	ids, err := w.x.Search(bg, "t", kw)
	w.st.Begin(0)
	if err != nil {
		w.f.Fatalf("%s: searching %q fails once storage works again: %v", what, kw, err)
	}
	return count(ids)
}

// others checks all keywords.
func (w *xworld) others(what string) {
	w.f.Helper()
	for _, kw := range w.kws {
		if got := multiset(w.found(what, kw)); got != multiset(w.m[kw]) {
			w.f.Fatalf("%s: searching %q finds %s, want %s", what, kw, got, multiset(w.m[kw]))
		}
	}
}

func (w *xworld) set(kw, ident string, n int) {
	if w.m[kw] == nil {
		w.m[kw] = map[string]int{}
	}
	w.m[kw][ident] = n
}

func (w *xworld) do(cx context.Context, p xop) (ids []string, err error) {
	switch p.kind {
	case "add":
		err = w.x.Add(cx, "t", p.kw, p.ident)
	case "delete":
		err = w.x.Delete(cx, "t", p.kw, p.ident)
	case "search":
		ids, err = w.x.Search(cx, "t", p.kw)
	}
	return
}

// apply performs the operation with storage call n failing (0: none).
func (w *xworld) apply(p xop, n int, mode hx.Fault) (failed bool) {
	w.f.Helper()
	what := p.String()
	if mode != hx.NoFault {
		what = fmt.Sprintf("%v with storage call %d %s", p, n, hx.FaultNames[mode])
	}
	before := w.st.Snapshot()
	w.st.Begin(2000)
	told := w.st.FaultAt(n, mode)
	var ids []string
	var err error
	cx := w.st.Ctx()
	stopped := hx.Stopped(func() { ids, err = w.do(cx, p) })
	w.st.Hook = nil
	w.st.Begin(0)
	at, _, fired, first := told()
	diff := before.Diff(w.st.Snapshot())
	failed = stopped || err != nil
	w.c.Logf("%s (%s) -> %v%s", what, at, short(err), map[bool]string{true: " stopped"}[stopped])
	if fired && failed {
		w.c.NonTrivial()
		w.hits++
		w.c.Label(p.kind + "/" + at + "/" + hx.FaultNames[mode])
	}
	if stopped {
		w.restart()
	}
	if !fired && failed {
		w.f.Fatalf("%s fails although no storage call failed: %v", what, err)
	}
	if failed && len(ids) > 0 {
		w.f.Fatalf("%s fails but returns %d identifiers", what, len(ids))
	}
	if fired && first && failed && len(diff) > 0 {
		w.f.Fatalf("%s: the first write failed, yet stored records changed: %v", what, diff)
	}
	for _, k := range diff {
		if k.Type != io.DataTypeSealedNode {
			w.f.Fatalf("%s changed a record of another type: %v", what, k)
		}
	}
	have := w.m[p.kw][p.ident]
	switch p.kind {
	case "search":
		if len(diff) > 0 {
			w.f.Fatalf("%s changed stored records", what)
		}
		if !failed && multiset(count(ids)) != multiset(w.m[p.kw]) {
			w.f.Fatalf("%s finds %s, want %s", what, multiset(count(ids)), multiset(w.m[p.kw]))
		}
	case "add":
		now := w.found("after "+what, p.kw)[p.ident]
		if now != have+1 && (now != have || !failed) {
			w.f.Fatalf("%s (%v): identifier was there %d times, is now there %d times", what, err, have, now)
		}
		w.set(p.kw, p.ident, now)
	case "delete":
		now := w.found("after "+what, p.kw)[p.ident]
		if now != 0 && !failed {
			w.f.Fatalf("%s succeeds but the identifier is still there %d times", what, now)
		}
		if now > have {
			w.f.Fatalf("%s: identifier was there %d times, is now there %d times", what, have, now)
		}
		w.set(p.kw, p.ident, now)
		if !failed && len(before)-len(w.st.Snapshot()) < have {
			w.f.Fatalf("%s succeeds, but of %d entries it removes %d from storage", what, have, len(before)-len(w.st.Snapshot()))
		}
	}
	w.others("after " + what)
	return
}

// retry repeats a failed deletion.
func (w *xworld) retry(p xop) {
	w.f.Helper()
	if p.kind == "add" {
		return // would be one more addition
	}
	w.c.Logf("repeat %v", p)
	w.apply(p, 0, hx.NoFault)
}

func TestC16(t *testing.T) {
	hx.EnumAll(t, "each", "chains of up to four entries (thorough: six) with up to three identifiers in every arrangement; the deletion of one, an addition or a search with each of its storage calls failing in each of five ways; then emptying the chain in either order and adding again; non-trivial: the fault occurred", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			var chains []string
			cause := 0
			if hx.Thorough() {
				chains = words("ab", 6)
			}
			for n := 0; n <= 4; n++ {
				chains = append(chains, words("abc", n)...)
			}
			for _, chain := range chains {
				for _, p := range []xop{{"delete", "kw", "a"}, {"add", "kw", "d"}, {"add", "kw", "a"}, {"search", "kw", ""}} {
					if p.kind == "delete" && !strings.Contains(chain, "a") && chain != "b" {
						continue
					}
					calls := len(chain) + 4
					if p.kind == "delete" {
						calls = 4*len(chain) + 2
					}
					for n := 1; n <= calls; n++ {
						for mode := hx.Rejected; mode <= hx.LastFault; mode++ {
							for _, order := range []string{"dcba", "abcd", "bcda"} {
								if len(chain) >= 3 && mode >= hx.Stop && order != "abcd" || len(chain) >= 4 && !hx.Thorough() && (order != "abcd" || mode != hx.Rejected) {
									continue
								}
								cause++
								fail := hx.FaultErrs[cause%len(hx.FaultErrs)]
								do(fmt.Sprintf("chain %q, %v, call %d %s (%v), then deleting %s", chain, p, n, hx.FaultNames[mode], fail, order), false, func(tb testing.TB, c *hx.Case) {
									w := newXWorld(tb, c)
									w.kws, w.st.Err = []string{"kw", "kx"}, fail
									w.apply(xop{"add", "kx", "a"}, 0, hx.NoFault)
									for _, x := range chain {
										w.add("t", "kw", string(x))
									}
									if w.apply(p, n, mode) {
										w.retry(p)
									}
									for _, x := range order {
										w.apply(xop{"delete", "kw", string(x)}, 0, hx.NoFault)
									}
									for i := 0; i < 3; i++ {
										w.apply(xop{"add", "kw", "new"}, 0, hx.NoFault)
									}
								})
							}
						}
					}
				}
			}
		})
	hx.EnumAll(t, "errors", "a deletion from, an addition to and a search of a chain with every storage call failing with each of a list of errors (cancellations, timeouts, end of file, lookalikes of the library's own); non-trivial: the fault occurred", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, p := range []xop{{"delete", "kw", "a"}, {"add", "kw", "d"}, {"search", "kw", ""}} {
				for n := 1; n <= 14; n++ {
					for _, fail := range hx.FaultErrs {
						for _, mode := range []hx.Fault{hx.Rejected, hx.LostAck} {
							for wrap := 0; wrap < 2; wrap++ {
								do(fmt.Sprintf("%v, call %d %s (%v), wrapped errors %d", p, n, hx.FaultNames[mode], fail, wrap), false, func(tb testing.TB, c *hx.Case) {
									w := newXWorld(tb, c)
									w.kws, w.st.Err, w.st.Wrap = []string{"kw", "kx"}, fail, wrap == 1
									w.apply(xop{"add", "kx", "a"}, 0, hx.NoFault)
									for _, x := range "bacab" {
										w.add("t", "kw", string(x))
									}
									if w.apply(p, n, mode) {
										w.retry(p)
									}
									w.apply(xop{"delete", "kw", "a"}, 0, hx.NoFault)
									w.apply(xop{"add", "kw", "new"}, 0, hx.NoFault)
								})
							}
						}
					}
				}
			}
		})
	hx.Check(t, "histories", hx.Opt{Quick: 8000, Thorough: 400000,
		Rule: "histories of additions, deletions and searches of up to 30 steps on up to three keywords, with up to half of the operations having a drawn storage call fail in a drawn way; searches of every keyword compared with the model after each step; non-trivial: at least one fault occurred"},
		func(rt *rapid.T, c *hx.Case) {
			w := newXWorld(rt, c)
			w.st.Wrap = rapid.Bool().Draw(rt, "wrap")
			w.kws = hx.Names(rt, hx.IntRange(1, 3).Draw(rt, "keywords"), "kw")
			ids := hx.Names(rt, hx.IntRange(1, 4).Draw(rt, "identifiers"), "id")
			rate := hx.IntRange(2, 6).Draw(rt, "rate")
			for n := hx.IntRange(3, 30).Draw(rt, "steps"); n > 0; n-- {
				p := xop{hx.SampledFrom([]string{"add", "add", "delete", "delete", "search"}).Draw(rt, "kind"), hx.SampledFrom(w.kws).Draw(rt, "kw"), hx.SampledFrom(ids).Draw(rt, "id")}
				if w.total() > 12 {
					p.kind = "delete"
				}
				mode, at := hx.NoFault, 0
				if hx.Chance(rt, rate, "fault") {
					mode = hx.Fault(hx.IntRange(1, int(hx.LastFault)).Draw(rt, "mode"))
					w.st.Err = hx.SampledFrom(hx.FaultErrs).Draw(rt, "error")
					size := 0
					for _, k := range w.m[p.kw] {
						size += k
					}
					at = hx.IntRange(1, 2*size+3).Draw(rt, "call")
				}
				if w.apply(p, at, mode) && hx.Chance(rt, 2, "repeat") {
					w.retry(p)
				}
			}
		})
}

// words are all words of length n over the letters.
func words(letters string, n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for _, w := range words(letters, n-1) {
		for _, l := range letters {
			out = append(out, w+string(l))
		}
	}
	return out
}
