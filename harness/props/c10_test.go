package props

import (
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func TestC10(t *testing.T) {
	argumentsC10(t)
	hx.Check(t, "history", hx.Opt{Quick: 12000, Thorough: 600000,
		Rule: "histories of index calls by identities with drawn scopes and groups, identities changing, unknown tokens; non-trivial: at least one call accepted and one refused"},
		func(rt *rapid.T, c *hx.Case) {
			w := newIndex(rt, c, hx.NewBox(hx.SampledFrom([]string{"store", "store", "wrapped"}).Draw(rt, "kind")), keysOf(10))
			w.kws, w.ids = []string{"k", "l"}, []string{"a", "b"}
			toks := []string{"t", "token-0", "token-1", "token-2"}
			ident := func() *id.Identity {
				i := &id.Identity{ID: hx.SampledFrom([]string{"u", "v", ""}).Draw(rt, "id"), Scopes: drawScope(rt, "scopes"), Groups: map[string]id.AccessGroup{}}
				for _, g := range hx.Subset(rt, []string{"g", "h", "u"}, 2, "groups") {
					i.Groups[g] = id.AccessGroup{ID: g, Scopes: drawScope(rt, "gscopes")}
				}
				return i
			}
			for _, tok := range toks[1:] {
				w.idp.Tokens[tok] = ident()
			}
			for n := hx.IntRange(4, 30).Draw(rt, "steps"); n > 0; n-- {
				tok := hx.SampledFrom(toks).Draw(rt, "tok")
				if hx.IntRange(0, 9).Draw(rt, "bad") == 0 {
					tok = hx.SampledFrom(badTokens[:5]).Draw(rt, "badtok")
				}
				if hx.Chance(rt, 4, "instance") {
					w.turn()
				}
				kw, i := hx.SampledFrom(w.kws).Draw(rt, "kw"), hx.SampledFrom(w.ids).Draw(rt, "id")
				switch hx.IntRange(0, 8).Draw(rt, "step") {
				case 0, 1, 2:
					w.add(tok, kw, i)
				case 3, 4:
					w.del(tok, kw, i)
				case 5, 6:
					w.search(tok, kw)
				case 7:
					if tok != "t" {
						if rapid.Bool().Draw(rt, "drop") && w.idp.Tokens[tok] != nil {
							delete(w.idp.Tokens, tok)
						} else {
							w.idp.Tokens[tok] = ident()
						}
						c.Logf("identity of %s changed", tok)
					}
				default:
					w.restart()
				}
			}
			if w.ok > 0 && w.refused > 0 {
				c.NonTrivial()
			}
			w.audit()
		})
	hx.EnumAll(t, "many", "very many index calls in a row by one instance, all refused or all accepted, after which callers with the scope succeed and others do not", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			n := hx.Scale(1500, 40000)
			for _, tok := range []string{"t", "weak", "unknown"} {
				for _, call := range []string{"search", "add", "delete", "all"} {
					do(fmt.Sprintf("%d times %s by %s", n, call, tok), true, func(tb testing.TB, c *hx.Case) {
						w := newIndex(tb, c, hx.NewBox("store"), keysOf(10))
						w.kws = []string{"k", "l"}
						w.idp.Tokens["weak"] = &id.Identity{ID: "weak", Scopes: allScopes &^ id.ScopeIndex, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: allScopes}}}
						w.add("t", "k", "a")
						for i := 0; i < n; i++ {
							what := call
							if call == "all" {
								what = []string{"search", "add", "delete"}[i%3]
							}
							switch what {
							case "search":
								w.search(tok, "k")
							case "add":
								w.add(tok, "k", "b")
								if tok == "t" {
									w.del(tok, "k", "b")
								}
							default:
								w.del(tok, "k", "b")
							}
						}
						for _, tok := range []string{"t", "weak", "unknown", "t"} {
							w.search(tok, "k")
							w.add(tok, "l", "c")
							w.del(tok, "l", "c")
							w.search(tok, "l")
						}
						w.audit()
					})
				}
			}
		})
	hx.Enum(t, "scopes", "every scope set of the caller (512) x scopes of its group (none, index, all) x call, on an index with entries", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for s := 0; s < 512; s++ {
				for _, gs := range []id.Scope{0, id.ScopeIndex, allScopes} {
					do(fmt.Sprintf("scopes %x, group %x", s, uint64(gs)), true, func(tb testing.TB, c *hx.Case) {
						w := newIndex(tb, c, hx.NewBox("store"), keysOf(10))
						w.kws = []string{"k"}
						w.add("t", "k", "a")
						w.idp.Tokens["x"] = &id.Identity{ID: "x", Scopes: id.Scope(s), Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: gs}}}
						w.search("x", "k")
						w.add("x", "k", "b")
						w.del("x", "k", "a")
						w.del("x", "k", "nothing")
						w.search("x", "empty")
						w.audit()
					})
				}
			}
		})
}
