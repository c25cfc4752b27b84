package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func TestC03(t *testing.T) {
	hx.Check(t, "history", hx.Opt{Quick: 14000, Thorough: 500000,
		Rule: ruleHistory + "mostly access list changes with closely related UTF-8 identifiers, list and content read after each; non-trivial: at least 3 successful changes of list or content"},
		func(rt *rapid.T, c *hx.Case) {
			w := newWorld(rt, c, hx.NewBox(hx.SampledFrom([]string{"store", "store", "mem"}).Draw(rt, "kind")), keysOf(9))
			w.maxSize = 60
			w.setup(rt, hx.IntRange(3, 12).Draw(rt, "names"), 3)
			n := hx.IntRange(5, 30).Draw(rt, "steps")
			for i := 0; i < n; i++ {
				k := len(w.objs)
				w.step(rt, weights{encrypt: 2, update: 2, decrypt: 1, getacl: 1, add: 6, rem: 5, ident: 1, restart: 1})
				if k > 0 && hx.IntRange(0, 2).Draw(rt, "look") == 0 {
					w.audit()
				}
			}
			w.audit()
			for _, o := range w.objs { // each identifier in play is judged on its own
				for _, p := range w.pool {
					w.as(id.Identity{ID: p, Scopes: allScopes}, func(tok string) { w.authorize(tok, o) })
				}
			}
			if w.wrote >= 3 {
				c.NonTrivial()
			}
		})
	hx.Check(t, "large", hx.Opt{Quick: 200, Thorough: 6000,
		Rule: "access lists of hundreds to thousands of identifiers, built and reduced in drawn portions; non-trivial: more than 100 identifiers"},
		func(rt *rapid.T, c *hx.Case) {
			w := newWorld(rt, c, hx.NewBox("store"), keysOf(9))
			w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
			some := func(label string, max int) []string {
				from, n := hx.IntRange(0, 3000).Draw(rt, label), hx.Size(rt, max, label+"-n")
				kind := hx.IntRange(0, 2).Draw(rt, label+"-kind")
				out := make([]string, n)
				for i := range out {
					switch kind {
					case 0:
						out[i] = fmt.Sprintf("g%d", from+i)
					case 1:
						out[i] = fmt.Sprintf("%08x-9dad-11d1-80b4-%012x", from+i, i)
					default:
						out[i] = hx.Long(i, 20)
					}
				}
				return out
			}
			o := w.encrypt("t", []byte("p"), []byte("a"), some("first", 1200))
			for i := hx.IntRange(1, 6).Draw(rt, "changes"); i > 0; i-- {
				if rapid.Bool().Draw(rt, "add") {
					w.changeACL("t", o, true, some("add", 1200))
				} else {
					gs := some("rem", 800)
					if hx.IntRange(0, 9).Draw(rt, "self") > 0 {
						for j := range gs {
							if gs[j] == "u" {
								gs[j] = "v"
							}
						}
					}
					w.changeACL("t", o, false, gs)
				}
				if len(o.acl) > 100 {
					c.NonTrivial()
				}
				w.getACL("t", o)
				w.update("t", o, []byte(fmt.Sprint(i)), nil)
				w.audit()
			}
		})
	hx.EnumAll(t, "related", "for identifiers of several kinds and each of some hundred identifiers made from them (longer, shorter, one character changed, other spellings and encodings): one or both on the list, added and removed one after the other, the list read and access tried by both, as caller and as group, after each step; non-trivial: all", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, base := range hx.RelationBases {
				for i, rel := range hx.Relations(base) {
					a, b := base, rel
					if i%2 == 1 {
						a, b = b, a
					}
					do(fmt.Sprintf("%s and %s", hx.Short(a), hx.Short(b)), true, func(tb testing.TB, c *hx.Case) {
						c.Logf("%q", b)
						relatedGroups(tb, a, b)
					})
				}
			}
		})
	hx.Check(t, "direct", hx.Opt{Quick: 8000, Thorough: 400000,
		Rule: "access lists handled directly: identifiers added, removed and looked for in drawn portions, the list sealed and unsealed in between, against a set; non-trivial: at least two changes and one unsealing"},
		func(rt *rapid.T, c *hx.Case) {
			cr, err := crypto.NewAESCryptor(keyOf(9, "direct"))
			if err != nil {
				hx.Bug("cryptor: %v", err)
			}
			pool := hx.Names(rt, hx.IntRange(1, 8).Draw(rt, "names"), "pool")
			wrapped := hx.Bytes(uint64(len(pool)), hx.IntRange(0, 60).Draw(rt, "dek"), 0)
			list, model := data.NewAccess(cloneBytes(wrapped)), map[string]bool{}
			changes, opened := 0, 0
			for i := hx.IntRange(2, 14).Draw(rt, "steps"); i > 0; i-- {
				some := hx.Subset(rt, pool, 5, "some")
				given := cloneStrings(some)
				switch op := hx.SampledFrom([]string{"add", "add", "remove", "contains", "seal"}).Draw(rt, "op"); op {
				case "add":
					list.AddGroups(given...)
					for _, s := range some {
						model[s] = true
					}
					changes++
					c.Logf("add %q", some)
				case "remove":
					list.RemoveGroups(given...)
					for _, s := range some {
						delete(model, s)
					}
					changes++
					c.Logf("remove %q", some)
				case "contains":
					want := true
					for _, s := range some {
						want = want && model[s]
					}
					if got := list.ContainsGroups(given...); got != want {
						rt.Fatalf("ContainsGroups(%q) of %v: %v", some, model, got)
					}
				case "seal":
					oid := uuid.UUID(hx.Bytes(uint64(i), 16, 0))
					sealed, err := list.Seal(oid, &cr)
					if err != nil {
						rt.Fatalf("Seal: %v", err)
					}
					back, err := sealed.Unseal(&cr)
					if err != nil {
						rt.Fatalf("Unseal: %v", err)
					}
					list = back
					opened++
					c.Logf("sealed and unsealed")
				}
				for j := range given {
					if given[j] != some[j] {
						rt.Fatalf("the identifiers passed have become %q, were %q", given, some)
					}
				}
				got := list.GetGroups()
				for g := range got {
					if !model[g] {
						rt.Fatalf("the list has %q, which it should not; it should be %v", g, model)
					}
				}
				if len(got) != len(model) {
					rt.Fatalf("the list is %v, should be %v", got, model)
				}
				for _, p := range pool {
					if list.ContainsGroups(p) != model[p] {
						rt.Fatalf("ContainsGroups(%q) is %v", p, !model[p])
					}
				}
				if !bytes.Equal(list.WrappedDEK, wrapped) {
					rt.Fatalf("the wrapped key of the list has become %x, was %x", list.WrappedDEK, wrapped)
				}
			}
			if changes >= 2 && opened > 0 {
				c.NonTrivial()
			}
		})
}

// relatedGroups puts a and b on and off an access list.
func relatedGroups(f fat, a, b string) {
	f.Helper()
	w := newWorld(f, &hx.Case{}, hx.NewBox("store"), keysOf(3))
	const owner = "the owner of it all"
	id0 := func(who string, groups ...string) *id.Identity {
		i := &id.Identity{ID: who, Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
		for _, g := range groups {
			i.Groups[g] = id.AccessGroup{ID: g, Scopes: allScopes}
		}
		return i
	}
	w.idp.Tokens = map[string]*id.Identity{"o": id0(owner), "a": id0(a), "b": id0(b), "in a": id0("a member", a), "in b": id0("a member", b)}
	var oid uuid.UUID
	look := func(what string, list ...string) {
		f.Helper()
		want := map[string]bool{owner: true}
		for _, g := range list {
			want[g] = true
		}
		got, err := w.d.GetAccessGroups(bg, "o", oid)
		if err != nil || !sameSet(got, want) {
			f.Fatalf("%s: the list is %v (%v), want %v", what, got, err, want)
		}
		for tok, g := range map[string]string{"a": a, "b": b, "in a": a, "in b": b} {
			if _, err := w.d.Decrypt(bg, tok, oid); (err == nil) != want[g] {
				f.Fatalf("%s: the list is %v; decryption by %q (%s): %v", what, want, g, tok, err)
			}
		}
	}
	must := func(err error) {
		f.Helper()
		if err != nil {
			f.Fatalf("the owner is refused: %v", err)
		}
	}
	var err error
	oid, err = w.d.Encrypt(bg, "o", &data.Object{Plaintext: []byte("content")}, a)
	must(err)
	look("encrypted for the first", a)
	must(w.d.RemoveGroupsFromAccess(bg, "o", oid, b))
	look("the second removed", a)
	must(w.d.AddGroupsToAccess(bg, "o", oid, b))
	look("the second added", a, b)
	must(w.d.RemoveGroupsFromAccess(bg, "o", oid, a))
	look("the first removed", b)
	must(w.d.AddGroupsToAccess(bg, "o", oid, a, b, a))
	look("both added", a, b)
	must(w.d.RemoveGroupsFromAccess(bg, "o", oid, b, a))
	look("both removed")
}
