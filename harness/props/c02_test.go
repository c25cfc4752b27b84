package props

import (
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func TestC02(t *testing.T) {
	argumentsC02(t)
	hx.Check(t, "history", hx.Opt{Quick: 16000, Thorough: 600000,
		Rule: ruleHistory + "identities have drawn scopes and groups and change during the history; non-trivial: at least 4 calls succeeded and 4 were refused"},
		func(rt *rapid.T, c *hx.Case) {
			w := newWorld(rt, c, hx.NewBox(hx.SampledFrom([]string{"store", "store", "wrapped"}).Draw(rt, "kind")), keysOf(7))
			w.maxSize = 40
			w.setup(rt, hx.IntRange(3, 7).Draw(rt, "names"), 4)
			n := hx.IntRange(5, 40).Draw(rt, "steps")
			for i := 0; i < n; i++ {
				w.step(rt, weights{encrypt: 3, update: 3, decrypt: 4, remove: 1, getacl: 3, add: 3, rem: 2, auth: 3, ident: 5, restart: 1})
			}
			w.audit()
			if w.ok >= 4 && w.refused >= 4 {
				c.NonTrivial()
			}
		})

	hx.EnumAll(t, "many", "very many calls in a row by one instance, all refused or all accepted, after which entitled callers succeed and others do not", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			n := hx.Scale(3000, 100000)
			run := func(name string, f func(w *world, o *objM, i int)) {
				do(fmt.Sprintf("%d times: %s", n, name), true, func(tb testing.TB, c *hx.Case) {
					w := newWorld(tb, c, hx.NewBox("store"), keysOf(8))
					none := map[string]id.AccessGroup{}
					w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: allScopes}}}
					w.idp.Tokens["stranger"] = &id.Identity{ID: "s", Scopes: allScopes, Groups: none}
					w.idp.Tokens["weak"] = &id.Identity{ID: "u", Scopes: 0, Groups: none}
					o := w.encrypt("t", []byte("content"), []byte("ad"), []string{"g"})
					for i := 0; i < n; i++ {
						f(w, o, i)
						if len(w.objs) > 4 {
							w.objs = w.objs[:1]
						}
					}
					for _, tok := range []string{"t", "stranger", "weak", "unknown", "t"} {
						w.decrypt(tok, o)
						w.update(tok, o, []byte("new"), nil)
						w.getACL(tok, o)
						w.authorize(tok, o)
						w.changeACL(tok, o, true, []string{"h"})
						w.changeACL(tok, o, false, []string{"h"})
						w.encrypt(tok, []byte("another"), nil, nil)
					}
					w.audit()
				})
			}
			for _, tok := range []string{"t", "stranger", "weak", "unknown"} {
				run("decrypt by "+tok, func(w *world, o *objM, i int) { w.decrypt(tok, o) })
				run("update by "+tok, func(w *world, o *objM, i int) { w.update(tok, o, []byte{byte(i)}, nil) })
				run("get access by "+tok, func(w *world, o *objM, i int) { w.getACL(tok, o) })
				run("authorize by "+tok, func(w *world, o *objM, i int) { w.authorize(tok, o) })
				run("change access by "+tok, func(w *world, o *objM, i int) { w.changeACL(tok, o, i%2 == 0, []string{"h"}) })
				run("encrypt and delete by "+tok, func(w *world, o *objM, i int) {
					if tok == "t" {
						o = w.encrypt(tok, []byte("x"), nil, nil)
					}
					w.remove(tok, o)
				})
			}
		})

	hx.EnumAll(t, "numbers", "callers in up to 3000 groups and access lists with up to 3000 entries, none or one of them in common at a drawn place, that one with or without the required scope", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, groups := range []int{0, 1, 9, 17, 33, 65, 130, 260, 520, 1030, 3000} {
				for _, list := range []int{1, 9, 17, 33, 65, 130, 260, 520, 1030, 3000} {
					for common := 0; common < 4; common++ {
						do(fmt.Sprintf("%d groups, list of %d, common %d", groups, list, common), common != 0, func(tb testing.TB, c *hx.Case) {
							w := newWorld(tb, c, hx.NewBox("store"), keysOf(8))
							i := &id.Identity{ID: "caller", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
							for k := 0; k < groups; k++ {
								g := fmt.Sprintf("mine %d", k)
								i.Groups[g] = id.AccessGroup{ID: g, Scopes: allScopes}
							}
							var acl []string
							for k := 0; k < list; k++ {
								acl = append(acl, fmt.Sprintf("theirs %d", k))
							}
							// 0: nothing in common, 1: a group, 2: the same without the scopes, 3: the caller
							at := (groups*7 + list*3) % list
							switch common {
							case 1, 2:
								acl[at] = fmt.Sprintf("mine %d", groups/2)
								if groups > 0 {
									s := id.Scope(allScopes)
									if common == 2 {
										s = 0
									}
									i.Groups[acl[at]] = id.AccessGroup{ID: acl[at], Scopes: s}
								}
							case 3:
								acl[at] = "caller"
							}
							w.idp.Tokens["t"] = i
							w.idp.Tokens["creator"] = &id.Identity{ID: "creator", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
							o := w.encrypt("creator", []byte("content"), []byte("ad"), acl)
							w.decrypt("t", o)
							w.update("t", o, []byte("new"), nil)
							w.getACL("t", o)
							w.authorize("t", o)
							w.changeACL("t", o, true, []string{"h"})
							w.changeACL("t", o, false, []string{"h"})
							w.audit()
							w.remove("t", o)
							w.audit()
						})
					}
				}
			}
		})

	// Every combination, for every call, of: what the caller's own scopes are relative to the one
	// required, whether the caller is listed, and for each of two groups whether it is listed and
	// what its scopes are.
	hx.Enum(t, "combinations", "every call x caller scopes {only the required one, all but it, all, none} x caller listed or not x for each of two groups: absent, or listed or not with scopes {only required, all but it, none}", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			calls := []struct {
				name string
				need id.Scope
				call func(w *world, o *objM)
			}{
				{"update", id.ScopeUpdate, func(w *world, o *objM) { w.update("t", o, []byte("new"), []byte("new ad")) }},
				{"decrypt", id.ScopeDecrypt, func(w *world, o *objM) { w.decrypt("t", o) }},
				{"delete", id.ScopeDelete, func(w *world, o *objM) { w.remove("t", o) }},
				{"get access", id.ScopeGetAccessGroups, func(w *world, o *objM) { w.getACL("t", o) }},
				{"add to access", id.ScopeModifyAccessGroups, func(w *world, o *objM) { w.changeACL("t", o, true, []string{"x"}) }},
				{"remove from access", id.ScopeModifyAccessGroups, func(w *world, o *objM) { w.changeACL("t", o, false, []string{"g1"}) }},
				{"authorize", id.ScopeGetAccessGroups, func(w *world, o *objM) { w.authorize("t", o) }},
			}
			for _, c := range calls {
				scopes := []id.Scope{c.need, allScopes &^ c.need, allScopes, 0}
				for _, own := range scopes {
					for listed := 0; listed < 2; listed++ {
						for g1 := 0; g1 < 7; g1++ {
							for g2 := 0; g2 < 7; g2++ {
								do(fmt.Sprintf("%s by caller with scopes %x listed %d, g1 %d, g2 %d", c.name, uint64(own), listed, g1, g2), true, func(tb testing.TB, cs *hx.Case) {
									w := newWorld(tb, cs, hx.NewBox("store"), keysOf(8))
									acl := []string{}
									i := &id.Identity{ID: "caller", Scopes: own, Groups: map[string]id.AccessGroup{}}
									if listed == 1 {
										acl = append(acl, "caller")
									}
									for n, g := range []int{g1, g2} {
										name := fmt.Sprintf("g%d", n+1)
										if g == 0 { // listed but not one of the caller's groups
											acl = append(acl, name)
											continue
										}
										i.Groups[name] = id.AccessGroup{ID: name, Scopes: []id.Scope{c.need, allScopes &^ c.need, 0}[(g-1)%3]}
										if g > 3 {
											acl = append(acl, name)
										}
									}
									w.idp.Tokens["t"] = i
									w.idp.Tokens["creator"] = &id.Identity{ID: "creator", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
									o := w.encrypt("creator", []byte("content"), []byte("ad"), acl)
									c.call(w, o)
									w.audit()
								})
							}
						}
					}
				}
			}
		})

	hx.Enum(t, "encrypt", "encrypt with every subset of the nine scopes; and with group scopes instead of own ones", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for s := id.Scope(0); s <= allScopes; s++ {
				do(fmt.Sprintf("scopes %x", uint64(s)), true, func(tb testing.TB, cs *hx.Case) {
					w := newWorld(tb, cs, hx.NewBox("store"), keysOf(8))
					w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: s, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: allScopes}}}
					w.encrypt("t", []byte("x"), nil, []string{"g"})
					w.idp.Tokens["all"] = &id.Identity{ID: "v", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
					o := w.encrypt("all", []byte("x"), nil, []string{"u"})
					w.update("t", o, []byte("y"), []byte("z"))
					w.decrypt("t", o)
					w.getACL("t", o)
					w.authorize("t", o)
					w.changeACL("t", o, true, []string{"w"})
					w.changeACL("t", o, false, []string{"w"})
					w.remove("t", o)
				})
			}
		})
}
