package props

import (
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/io"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// rawKeywords are byte strings that trimming, cutting or conversion to UTF-8, UTF-16, another case
// or a C string would make equal.
var rawKeywords = []string{"", "?", "\ufffd", "\xff", "\xfe", "\x80", "\xc3", "\xc3\xa9", "\xe9", "\xa9", "e\u0301", "\xef\xbf\xbd", "\xef\xbf", "\xef", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xc1\xa1", "a",
	"\x00", "\x00\x00", "\xff\xff", "\ufffd\ufffd", "??", " ", "\t", "\u00a0", "\xa0", "\ufeff", "\xfe\xff", "\x1f", "\x7f", "\\xff", "\\ufffd", "%FF", "%ff", "/w==", "_w", "ff", "FF", "k\xffk", "k?k", "k\ufffdk", "kk"}

func TestC09(t *testing.T) {
	nt := func(w *iworld, c *hx.Case) {
		if w.deleted > 0 && w.total() > 0 {
			c.NonTrivial()
		}
	}
	hx.Check(t, "history", hx.Opt{Quick: 12000, Thorough: 600000,
		Rule: "histories of adding, deleting and searching for closely related UTF-8 keywords and identifiers (with repetitions) and re-creating the index, all keywords compared with the multiset model and the number of stored records with the number of entries; non-trivial: entries were deleted and entries remain"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox(hx.SampledFrom([]string{"store", "store", "store", "wrapped", "mem", "proxy"}).Draw(rt, "kind")), keysOf(hx.Uint64Range(0, 9).Draw(rt, "keys")))
			w.kws = hx.Names(rt, hx.IntRange(1, 6).Draw(rt, "nkw"), "kw")
			w.ids = hx.Names(rt, hx.IntRange(1, 5).Draw(rt, "nid"), "ids")
			for n := hx.IntRange(3, 40).Draw(rt, "steps"); n > 0; n-- {
				w.step(rt)
			}
			w.audit()
			nt(w, c)
		})
	hx.Check(t, "bolt", hx.Opt{Quick: 120, Thorough: 8000, Rule: "the same on the bolt provider; non-trivial: the same"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox("bolt"), keysOf(9))
			defer w.box.Close()
			w.kws = hx.Names(rt, hx.IntRange(1, 4).Draw(rt, "nkw"), "kw")
			w.ids = hx.Names(rt, hx.IntRange(1, 5).Draw(rt, "nid"), "ids")
			for n := hx.IntRange(3, 25).Draw(rt, "steps"); n > 0; n-- {
				w.step(rt)
			}
			w.audit()
			nt(w, c)
		})
	hx.Check(t, "bytes", hx.Opt{Quick: 2400, Thorough: 150000,
		Rule: "the same with keywords of any bytes, most of them not valid UTF-8 and many of which careless conversion would make equal; non-trivial: entries were deleted and entries remain"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox(hx.SampledFrom([]string{"store", "mem", "proxy"}).Draw(rt, "kind")), keysOf(hx.Uint64Range(0, 9).Draw(rt, "keys")))
			seen := map[string]bool{}
			some := hx.SampledFrom(rawKeywords).Draw(rt, "prefix")
			for n := hx.IntRange(2, 7).Draw(rt, "nkw"); n > 0; n-- {
				kw := hx.SampledFrom(rawKeywords).Draw(rt, "kw")
				if rapid.Bool().Draw(rt, "prefixed") {
					kw = some + kw
				}
				if !seen[kw] {
					seen[kw] = true
					w.kws = append(w.kws, kw)
				}
			}
			w.ids = []string{"a", "b", "\ufffd"}
			for n := hx.IntRange(3, 30).Draw(rt, "steps"); n > 0; n-- {
				w.step(rt)
			}
			w.audit()
			nt(w, c)
		})
	hx.Enum(t, "raw keywords", "entries under each of a list of byte strings that careless conversion would make equal, all searched, then deleted one after the other", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			do("all at once", true, func(tb testing.TB, c *hx.Case) {
				w := newIndex(tb, c, hx.NewBox("store"), keysOf(9))
				seen := map[string]bool{}
				for _, kw := range rawKeywords {
					for _, kw := range []string{kw, "k" + kw, kw + "k"} {
						if !seen[kw] {
							seen[kw] = true
							w.kws = append(w.kws, kw)
							w.add("t", kw, fmt.Sprintf("%x", kw))
						}
					}
				}
				w.audit()
				for i, kw := range w.kws {
					w.del("t", kw, fmt.Sprintf("%x", kw))
					if i%16 == 0 {
						w.audit()
					}
				}
				w.audit()
			})
		})
	hx.EnumAll(t, "related", "for strings of several kinds and each of some hundred strings made from them (longer, shorter, one character changed, other spellings and encodings): entries of both as identifiers of one keyword and as keywords, deleted one after the other, everything searched after each step; non-trivial: all", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, base := range hx.RelationBases {
				for i, rel := range hx.Relations(base) {
					a, b := base, rel
					if i%2 == 1 {
						a, b = b, a
					}
					do(fmt.Sprintf("%s and %s", hx.Short(a), hx.Short(b)), true, func(tb testing.TB, c *hx.Case) {
						c.Logf("%q", b)
						w := newIndex(tb, c, hx.NewBox("store"), keysOf(9))
						w.kws = []string{"k", a, b}
						if a == "k" || b == "k" {
							w.kws = []string{"another", a, b}
						}
						k := w.kws[0]
						w.add("t", k, a)
						w.add("t", k, b)
						w.add("t", k, a)
						w.add("t", a, "in a")
						w.add("t", b, "in b")
						w.audit()
						w.del("t", a, "in b")
						w.del("t", k, a)
						w.audit()
						w.add("t", b, a)
						w.add("t", k, a)
						w.del("t", k, b)
						w.del("t", a, "in a")
						w.audit()
						w.del("t", b, a)
						w.del("t", k, b)
						w.audit()
					})
				}
			}
		})
	hx.Check(t, "runs", hx.Opt{Quick: 4000, Thorough: 150000,
		Rule: "a chain built of runs of equal and different identifiers, then deletions of drawn identifiers one after the other with additions in between; non-trivial: entries were deleted and entries remain"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox("store"), keysOf(9))
			w.kws = []string{"k", "k2"}
			w.ids = []string{"a", "b", "c", "A", "a "}
			for round := hx.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
				for n := hx.IntRange(1, 6).Draw(rt, "runs"); n > 0; n-- {
					ident := hx.SampledFrom(w.ids).Draw(rt, "id")
					for k := hx.IntRange(1, 4).Draw(rt, "len"); k > 0; k-- {
						w.add("t", "k", ident)
					}
				}
				w.add("t", "k2", "a")
				for n := hx.IntRange(1, 4).Draw(rt, "dels"); n > 0; n-- {
					w.del("t", "k", w.present(rt, "k"))
					w.audit()
				}
			}
			nt(w, c)
		})
	hx.Check(t, "long", hx.Opt{Quick: 16, Thorough: 400,
		Rule: "one keyword with hundreds of entries (counters beyond one byte), then deletions at drawn positions; non-trivial: more than 130 entries"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox("store"), keysOf(9))
			w.limit = 100000
			w.kws = hx.Names(rt, 2, "kw")
			n := hx.IntRange(120, hx.Scale(320, 900)).Draw(rt, "n")
			some := hx.IntRange(1, 60).Draw(rt, "distinct")
			for i := 0; i < n; i++ {
				w.add("t", w.kws[0], fmt.Sprint("id", i%some))
			}
			if n > 130 {
				c.NonTrivial()
			}
			w.audit()
			for k := hx.IntRange(1, 6).Draw(rt, "dels"); k > 0; k-- {
				w.del("t", w.kws[0], fmt.Sprint("id", hx.IntRange(0, some).Draw(rt, "which")))
				w.add("t", w.kws[0], "id0")
				w.audit()
			}
		})
	hx.Check(t, "aged", hx.Opt{Quick: 40, Thorough: 400,
		Rule: "a short chain kept alive through hundreds to thousands of additions and deletions, so that its counters grow; non-trivial: more than 130 additions"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox("store"), keysOf(9))
			w.kws = []string{"k", "l"}
			w.add("t", "l", "x")
			n := hx.IntRange(100, hx.Scale(400, 20000)).Draw(rt, "n")
			if n > 130 {
				c.NonTrivial()
			}
			span := hx.IntRange(1, 3).Draw(rt, "span")
			look := hx.IntRange(5, 60).Draw(rt, "look")
			for i := 0; i < n; i++ {
				w.add("t", "k", fmt.Sprint(i))
				if i >= span {
					w.del("t", "k", fmt.Sprint(i-span))
				}
				if i%look == 0 {
					w.audit()
				}
			}
			w.audit()
		})
	hx.EnumAll(t, "very long", "one keyword with up to 20000 entries (thorough: 300000; built with an independent encoder of the stored format) with identifiers all equal, alternating or all different; searched, added to, one identifier deleted, and searched again", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, n := range []int{60, 110, 150, 300, 520, 1100, 2100, 5000, hx.Scale(20000, 300000)} {
				for _, distinct := range []int{1, 2, 7, n} {
					do(fmt.Sprintf("%d entries, %d different", n, distinct), true, func(tb testing.TB, c *hx.Case) {
						w := newIndex(tb, c, hx.NewBox("store"), keysOf(9))
						w.limit, w.kws = 0, []string{"k", "l"}
						rnd := hx.NewRnd(3)
						w.m["k"], w.m["l"] = map[string]int{}, map[string]int{}
						for i := 0; i < n; i++ {
							ident := fmt.Sprint("id", i%distinct)
							label, rec := hx.EncodeNode(rnd, w.keys.IEK, "k", ident, uint64(i), uint64(i+1))
							w.box.St.Set(hx.Key{ID: string(label), Type: io.DataTypeSealedNode}, rec)
							w.m["k"][ident]++
						}
						w.add("t", "l", "id0")
						w.audit()
						w.add("t", "k", "new")
						w.add("t", "k", "id0")
						w.audit()
						w.del("t", "k", fmt.Sprint("id", distinct/2))
						w.audit()
						w.del("t", "k", "new")
						w.add("t", "k", fmt.Sprint("id", n/2))
						w.audit()
					})
				}
			}
		})
	hx.Check(t, "old counters", hx.Opt{Quick: 3000, Thorough: 150000,
		Rule: "a chain whose counters are drawn from the whole range an old index can have (built with an independent encoder of the stored format), then a history on it; non-trivial: some counter above 127"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox("store"), keysOf(9))
			w.kws = []string{"k", "l"}
			w.ids = []string{"a", "b", "c"}
			rnd := hx.NewRnd(3)
			at := uint64(0)
			w.m["k"] = map[string]int{}
			for n := hx.IntRange(1, 5).Draw(rt, "n"); n > 0; n-- {
				gap := uint64(1)
				switch hx.IntRange(0, 3).Draw(rt, "gap") {
				case 0:
					gap = hx.SampledFrom([]uint64{127, 128, 126, 255, 256, 16383, 16384, 65535, 65536, 2097151, 1 << 31, 1 << 32, 1<<53 - 2, 1 << 53, 1<<53 + 1, 1 << 56}).Draw(rt, "edge")
				case 1:
					gap = 1 + hx.Uint64Range(0, 1<<40).Draw(rt, "any")>>hx.IntRange(0, 39).Draw(rt, "shift")
				}
				ident := hx.SampledFrom(w.ids).Draw(rt, "id")
				if at+gap > 127 {
					c.NonTrivial()
				}
				label, rec := hx.EncodeNode(rnd, w.keys.IEK, "k", ident, at, at+gap)
				w.box.St.Set(hx.Key{ID: string(label), Type: io.DataTypeSealedNode}, rec)
				c.Logf("entry %s at %d, next %d", ident, at, at+gap)
				w.m["k"][ident]++
				at += gap
			}
			w.audit()
			for n := hx.IntRange(1, 12).Draw(rt, "steps"); n > 0; n-- {
				w.step(rt)
			}
			w.audit()
		})
}
