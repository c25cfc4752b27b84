package props

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/gofrs/uuid"
	"verif/harness/hx"
)

// callers in all degrees of entitlement to an object with "g" on its list, none of them fully entitled but "t".
func degrees(w *world) []string {
	none := map[string]id.AccessGroup{}
	in := func(s id.Scope, gs ...string) map[string]id.AccessGroup {
		m := map[string]id.AccessGroup{}
		for _, g := range gs {
			m[g] = id.AccessGroup{ID: g, Scopes: s}
		}
		return m
	}
	w.idp.Tokens = map[string]*id.Identity{
		"t":        {ID: "u", Scopes: allScopes, Groups: none},
		"stranger": {ID: "s", Scopes: allScopes, Groups: in(allScopes, "h", "i")},
		"weak":     {ID: "u", Scopes: 0, Groups: in(allScopes, "g")},
		"index":    {ID: "u", Scopes: id.ScopeIndex, Groups: none},
		"idle":     {ID: "m", Scopes: allScopes, Groups: in(0, "g")},
		"member":   {ID: "m", Scopes: allScopes, Groups: in(allScopes, "g", "h")},
		"":         {ID: "v", Scopes: allScopes, Groups: none},
	}
	return []string{"t", "stranger", "weak", "index", "idle", "member", "", "unknown", " ", "t "}
}

func argumentsC02(t *testing.T) {
	hx.EnumAll(t, "arguments", "callers entitled and not (unknown, without scopes, not listed, listed only through a group without scopes) x every call with special arguments: no groups, empty and repeated ones, ones on the list, the caller's own; empty, large and unchanged contents; unknown and all-zero identifiers; non-trivial: all", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			lists := [][]string{nil, {}, {""}, {"", ""}, {"g"}, {"g", "g"}, {"u"}, {"s"}, {"m"}, {"v"}, {"h"}, {"i", "h"}, {"u", "g"}, {strings.Repeat("x", 70000)}, {"\x00"}, {"*"}, {"all"}, {"public"}, {"everyone"}, {"anonymous"}, {"root", "admin"}}
			many := make([]string, 3000)
			for i := range many {
				many[i] = fmt.Sprintf("group %d", i)
			}
			lists = append(lists, many)
			pts := [][]byte{nil, {}, {0}, []byte("content"), []byte("Content"), make([]byte, 64), hx.Bytes(5, 300000, 0)}
			oids := []uuid.UUID{uuid.Nil, uuid.NamespaceDNS, uuid.FromBytesOrNil([]byte("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"))}
			run := func(name string, f func(w *world, tok string, o *objM)) {
				for at, tok := range []string{"t", "stranger", "weak", "index", "idle", "member", "", "unknown", " ", "t "} {
					do(fmt.Sprintf("%s by %q", name, tok), true, func(tb testing.TB, c *hx.Case) {
						w := newWorld(tb, c, hx.NewBox([]string{"store", "wrapped"}[at%2]), keysOf(8))
						w.maxSize = 1 << 20
						degrees(w)
						o := w.encrypt("t", []byte("content"), []byte("ad"), []string{"g"})
						f(w, tok, o)
						if name[0] == '!' { // an identifier nobody made
							o = w.objs[0]
						}
						for _, by := range []string{tok, "member", "stranger"} {
							w.decrypt(by, o)
							w.getACL(by, o)
						}
						w.audit()
					})
				}
			}
			for n, gs := range lists {
				for _, add := range []bool{true, false} {
					run(fmt.Sprintf("list %d, adding: %v", n, add), func(w *world, tok string, o *objM) { w.changeACL(tok, o, add, gs) })
				}
				run(fmt.Sprintf("list %d, encryption", n), func(w *world, tok string, o *objM) { w.encrypt(tok, []byte("x"), nil, gs) })
			}
			for n, pt := range pts {
				for m, ad := range pts {
					run(fmt.Sprintf("contents %d and %d", n, m), func(w *world, tok string, o *objM) { w.update(tok, o, pt, ad) })
					run(fmt.Sprintf("contents %d and %d, encryption", n, m), func(w *world, tok string, o *objM) { w.encrypt(tok, pt, ad, nil) })
				}
			}
			for n, oid := range oids {
				for m, call := range []func(w *world, tok string, o *objM){
					func(w *world, tok string, o *objM) { w.decrypt(tok, o) },
					func(w *world, tok string, o *objM) { w.update(tok, o, nil, nil) },
					func(w *world, tok string, o *objM) { w.getACL(tok, o) },
					func(w *world, tok string, o *objM) { w.authorize(tok, o) },
					func(w *world, tok string, o *objM) { w.changeACL(tok, o, true, nil) },
					func(w *world, tok string, o *objM) { w.changeACL(tok, o, false, []string{"g"}) },
					func(w *world, tok string, o *objM) { w.remove(tok, o) },
				} {
					run(fmt.Sprintf("! identifier %d, call %d", n, m), func(w *world, tok string, _ *objM) { call(w, tok, &objM{oid: oid, gone: true, acl: map[string]bool{}}) })
				}
			}
		})
}

func argumentsC10(t *testing.T) {
	hx.EnumAll(t, "arguments", "callers without the index scope and unknown ones x every call with special keywords and identifiers (empty, of one character, not UTF-8, very long), in use and not; non-trivial: all", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			kws := append([]string{"", "k", "K", "\x00", "*", "%", ".", "/", "all", "public", "null", "{}", "k*", strings.Repeat("k", 70000)}, rawKeywords...)
			seen := map[string]bool{}
			for _, kw := range kws {
				if seen[kw] {
					continue
				}
				seen[kw] = true
				for _, ident := range []string{"", "a", "*", kw, strings.Repeat("i", 70000)} {
					do(fmt.Sprintf("%q, %s", hx.Short(kw), hx.Short(ident)), true, func(tb testing.TB, c *hx.Case) {
						for used := 0; used < 2; used++ {
							w := newIndex(tb, c, hx.NewBox("store"), keysOf(10))
							w.kws = []string{"in use"}
							w.add("t", "in use", "a")
							if used == 1 {
								w.kws = append(w.kws, kw)
								w.add("t", kw, strings.ToValidUTF8(ident, "?"))
								w.add("t", kw, "b")
							}
							all := map[string]id.AccessGroup{"g": {ID: "g", Scopes: allScopes}, "u": {ID: "u", Scopes: allScopes}, "": {Scopes: allScopes}}
							w.idp.Tokens["weak"] = &id.Identity{ID: "u", Scopes: allScopes &^ id.ScopeIndex, Groups: all}
							w.idp.Tokens["none"] = &id.Identity{Groups: all}
							w.idp.Tokens[""] = &id.Identity{ID: "", Scopes: allScopes &^ id.ScopeIndex}
							for _, tok := range []string{"weak", "none", "", "unknown", "t ", kw, ident} {
								if tok == "t" {
									continue
								}
								w.search(tok, kw)
								w.add(tok, kw, ident)
								w.del(tok, kw, ident)
								w.search(tok, "in use")
							}
							w.audit()
						}
					})
				}
			}
		})
}

// relatedIdentity runs f on identifiers of users and groups and others made from them.
func relatedIdentity(t *testing.T, what string, f func(tb testing.TB, a, b string)) {
	hx.EnumAll(t, "related", what, true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := uint64(0); n < 8; n++ {
			u := uuid.FromBytesOrNil(hx.Bytes(700+n, 16, 0))
			u.SetVersion(uuid.V4)
			u.SetVariant(uuid.VariantRFC4122)
			a := u.String()
			for _, b := range hx.Relations(a) {
				if b == "" {
					continue
				}
				do(fmt.Sprintf("%s and %s", hx.Short(a), hx.Short(b)), true, func(tb testing.TB, c *hx.Case) {
					c.Logf("%q", b)
					f(tb, a, b)
				})
			}
		}
	})
}

func relatedC08(t *testing.T) {
	cfg := saKeysOf(8)
	relatedIdentity(t, "for group identifiers and each of some hundred identifiers made from them (longer, shorter, one character changed, other spellings and encodings), with such a group, where it can be one, and without: a member of the one names the other, alone and beside its own; non-trivial: all", func(f testing.TB, a, b string) {
		for exists := 0; exists < 2; exists++ {
			if exists == 1 && uuid.FromStringOrNil(b).String() != b {
				continue
			}
			rnd := hx.NewRnd(8)
			st := hx.NewStore()
			put := func(k string, ty io.DataType, b []byte) {
				if err := st.Put(bg, []byte(k), ty, b); err != nil {
					f.Fatalf("%v", err)
				}
			}
			put(a, typeGroup, hx.EncodeGroup(rnd, cfg.GEK, a, hx.GroupVal{Scopes: 7}))
			theirs := map[string]struct{}{}
			want := map[string]id.AccessGroup{}
			if exists == 1 {
				theirs[b] = struct{}{}
				want[b] = id.AccessGroup{ID: b, Scopes: 9}
				put(b, typeGroup, hx.EncodeGroup(rnd, cfg.GEK, b, hx.GroupVal{Scopes: 9}))
			}
			caller, other := uuid.UUID(hx.Bytes(91, 16, 0)).String(), uuid.UUID(hx.Bytes(92, 16, 0)).String()
			put(caller, typeUser, hx.EncodeUser(rnd, cfg.UEK, caller, hx.UserVal{Scopes: 1, Groups: map[string]struct{}{a: {}}}))
			put(other, typeUser, hx.EncodeUser(rnd, cfg.UEK, other, hx.UserVal{Scopes: 2, Groups: theirs}))
			tok := func(uid string) string { return hx.EncodeToken(rnd, cfg.TEK, []byte(uid), time.Now().Add(time.Hour)) }
			s, err := id.NewStandalone(cfg, st)
			if err != nil {
				f.Fatalf("%v", err)
			}
			mine := tok(caller)
			before := st.Snapshot()
			for _, uid := range []string{other, caller} {
				for _, gids := range [][]string{{b}, {a, b}, {b, a}} {
					for _, add := range []bool{true, false} {
						call := s.AddUserToGroups
						if !add {
							call = s.RemoveUserFromGroups
						}
						if call(bg, mine, uid, gids...) == nil {
							f.Fatalf("a member of %q names %q: accepted (adding: %v)", a, gids, add)
						}
						if d := before.Diff(st.Snapshot()); len(d) > 0 {
							f.Fatalf("a member of %q names %q: refused, but %v changed", a, gids, d[0])
						}
					}
				}
			}
			look := func(what, uid string, scopes id.Scope, want map[string]id.AccessGroup) {
				i, err := s.GetIdentity(bg, tok(uid))
				same := err == nil && i.ID == uid && i.Scopes == scopes && len(i.Groups) == len(want)
				for g := range want {
					same = same && i.Groups[g] == want[g]
				}
				if !same {
					f.Fatalf("%s: %+v (%v), want groups %v", what, i, err, want)
				}
			}
			look("at first", other, 2, want)
			if err := s.AddUserToGroups(bg, mine, other, a); err != nil {
				f.Fatalf("a member of %q is refused: %v", a, err)
			}
			want[a] = id.AccessGroup{ID: a, Scopes: 7}
			look("put in", other, 2, want)
			if err := s.RemoveUserFromGroups(bg, mine, other, a); err != nil {
				f.Fatalf("a member of %q is refused: %v", a, err)
			}
			delete(want, a)
			look("taken out", other, 2, want)
			look("the caller", caller, 1, map[string]id.AccessGroup{a: {ID: a, Scopes: 7}})
		}
	})
}

func relatedC07(t *testing.T) {
	cfg := saKeysOf(7)
	st := hx.NewStore()
	s, err := id.NewStandalone(cfg, st)
	if err != nil {
		t.Fatalf("%v", err)
	}
	uid, pw, err := s.NewUser(bg, allScopes)
	if err != nil {
		t.Fatalf("%v", err)
	}
	rec, err := st.Get(bg, []byte(uid), typeUser)
	if err != nil {
		t.Fatalf("%v", err)
	}
	val, err := hx.DecodeUser(cfg.UEK, uid, rec)
	if err != nil {
		t.Fatalf("%v", err)
	}
	relatedIdentity(t, "for user identifiers and each of some hundred identifiers made from them: login, password change and tokens with an identifier nobody has are refused, and deleting it leaves the user alone; non-trivial: all", func(f testing.TB, a, b string) {
		rnd := hx.NewRnd(7)
		st := hx.NewStore()
		if err := st.Put(bg, []byte(a), typeUser, hx.EncodeUser(rnd, cfg.UEK, a, val)); err != nil {
			f.Fatalf("%v", err)
		}
		s, err := id.NewStandalone(cfg, st)
		if err != nil {
			f.Fatalf("%v", err)
		}
		tok := func(uid string) string { return hx.EncodeToken(rnd, cfg.TEK, []byte(uid), time.Now().Add(time.Hour)) }
		before := st.Snapshot()
		if _, _, err := s.LoginUser(bg, b, pw); err == nil {
			f.Fatalf("the user is %q, and %q is logged in", a, b)
		}
		if _, err := s.ChangeUserPassword(bg, b, pw); err == nil {
			f.Fatalf("the user is %q, and the password of %q is changed", a, b)
		}
		if i, err := s.GetIdentity(bg, tok(b)); err == nil {
			f.Fatalf("the user is %q, and the token of %q gives %q", a, b, i.ID)
		}
		if err := s.DeleteUser(bg, tok(b), a); err == nil {
			f.Fatalf("the user is %q, and the token of %q deletes it", a, b)
		}
		_ = s.DeleteUser(bg, tok(a), b)
		if d := before.Diff(st.Snapshot()); len(d) > 0 {
			f.Fatalf("the user is %q; calls for %q changed %v", a, b, d[0])
		}
		if i, err := s.GetIdentity(bg, tok(a)); err != nil || i.ID != a {
			f.Fatalf("the token of %q gives %q, %v", a, i.ID, err)
		}
	})
	hx.EnumAll(t, "related passwords", "each of some hundred strings made from a user's password (longer, shorter, one character changed, other spellings and encodings) is refused; non-trivial: all", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n, p := range hx.Relations(pw) {
			if strings.TrimRight(p, "\x00") == pw {
				continue // the same to PBKDF2
			}
			do(fmt.Sprintf("password %d", n), true, func(f testing.TB, c *hx.Case) {
				if _, _, err := s.LoginUser(bg, uid, p); err == nil {
					f.Fatalf("the password is %q, and %q logs in", pw, p)
				}
			})
		}
	})
}
