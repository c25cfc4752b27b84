package props

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

var identityTypes = []io.DataType{id.DataTypeSealedUser, id.DataTypeSealedGroup}

// saPast is everything that was ever legitimately true of the users.
type saPast struct {
	pws    map[string]map[string]bool
	scopes map[string]id.Scope
	sets   map[string]map[string]map[string]bool // uid -> encoded set -> set
	groups map[string]id.Scope
}

func encodeSet(s map[string]bool) string {
	return strings.Join(sortedKeys(s), ",")
}

func (p *saPast) add(uid string, set map[string]bool) {
	if p.sets[uid] == nil {
		p.sets[uid] = map[string]map[string]bool{}
	}
	if len(p.sets[uid]) > 2000 {
		return
	}
	c := map[string]bool{}
	for g := range set {
		c[g] = true
	}
	p.sets[uid][encodeSet(c)] = c
}

func (p *saPast) change(uid string, add bool, gids []string) {
	var news []map[string]bool
	for _, s := range p.sets[uid] {
		c := map[string]bool{}
		for g := range s {
			c[g] = true
		}
		for _, g := range gids {
			if add {
				c[g] = true
			} else {
				delete(c, g)
			}
		}
		news = append(news, c)
	}
	for _, s := range news {
		p.add(uid, s)
	}
}

// tamperBase is a store with the history of a few users: passwords changed, groups made.
type tamperBase struct {
	cfg  id.StandaloneConfig
	snap hx.Snap
	past *saPast
	seen []hx.Snap
	uids []string
	gids []string
	toks []string
	pws  []string // every password ever issued
}

func newTamperBase(t *testing.T) *tamperBase {
	b := &tamperBase{cfg: saKeysOf(21), past: &saPast{map[string]map[string]bool{}, map[string]id.Scope{}, map[string]map[string]map[string]bool{}, map[string]id.Scope{}}}
	cryptotest.SetGlobalRandom(t, hx.Seed())
	synctest.Test(t, func(t *testing.T) {
		w := newSA(t, &hx.Case{}, hx.NewBox("store"), b.cfg)
		sc := []id.Scope{allScopes, id.ScopeEncrypt | id.ScopeDecrypt, 0}
		for i, s := range sc {
			u := w.newUser(s)
			b.seen = append(b.seen, w.box.St.Snapshot())
			b.past.pws[u.uid] = map[string]bool{u.pw: true}
			b.pws = append(b.pws, u.pw)
			b.past.scopes[u.uid] = s
			b.uids = append(b.uids, u.uid)
			if i < 2 {
				w.change(u.uid, u.pw)
				b.past.pws[u.uid][u.pw] = true
				b.pws = append(b.pws, u.pw)
			}
			b.seen = append(b.seen, w.box.St.Snapshot())
			b.toks = append(b.toks, w.login(u.uid, u.pw).s)
		}
		note := func() {
			b.seen = append(b.seen, w.box.St.Snapshot())
			for _, u := range w.users {
				b.past.add(u.uid, u.groups)
			}
		}
		note()
		for i, s := range []id.Scope{allScopes, id.ScopeDecrypt, 0} {
			g := w.newGroup(b.toks[i], s)
			b.gids = append(b.gids, g.gid)
			b.past.groups[g.gid] = s
			note()
		}
		w.membership(true, b.toks[0], b.uids[1], b.gids[:1])
		note()
		w.membership(true, b.toks[1], b.uids[0], b.gids[1:2])
		note()
		w.membership(false, b.toks[0], b.uids[1], b.gids[:1])
		note()
		b.snap = w.box.St.Snapshot()
	})
	return b
}

func TestC05(t *testing.T) {
	base := newTamperBase(t)
	hx.Check(t, "identity", hx.Opt{Quick: 10000, Thorough: 800000,
		Rule: "a recorded history of 3 users and 3 groups, tampered with in rounds (bytes, fields, swaps between users, groups and kinds, replays, records made with other keys), each round followed by resolving every token and by membership changes and group creation; non-trivial: some token still resolves or some change succeeds"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) { tamperIdentity(rt, c, base, false) })
		})
	hx.Check(t, "login", hx.Opt{Quick: 240, Thorough: 24000,
		Rule: "the same, followed by logins and password changes with every password ever issued to anyone; non-trivial: some login succeeds"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) { tamperIdentity(rt, c, base, true) })
		})
	hx.EnumAll(t, "forged", "user and group records that need no key to be made (in the clear, under keys stored next to them, under constant or derivable keys), followed by resolving every token, by membership changes and by logins", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) { forgedIdentity(t, do, base) })
	hx.EnumAll(t, "related identifiers", "the record of a user copied to identifiers made from the user's: every beginning and end, every one-character change, longer ones, other spellings of the same UUID; logging in there with the user's password, changing it and changing memberships must fail", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for n, uid := range base.uids[:2] {
				rel := []string{"", uid + uid, uid + "\x00", "\x00" + uid, uid + " ", " " + uid, uid + "\n", "\ufeff" + uid, uid + "/" + base.uids[1-n], base.uids[1-n] + "/" + uid, uid + "0", "0" + uid, uid + strings.Repeat("x", 500),
					strings.ToUpper(uid), strings.ReplaceAll(uid, "-", ""), "{" + uid + "}", "urn:uuid:" + uid, strings.ReplaceAll(uid, "-", "_"), strings.ReplaceAll(uid, "-", " "), uid[:18] + base.uids[1-n][18:], base.uids[1-n][:18] + uid[18:]}
				for i := 1; i < len(uid); i++ {
					rel = append(rel, uid[:i], uid[i:])
				}
				for i := 0; i < len(uid); i++ {
					b := []byte(uid)
					b[i] ^= 1
					rel = append(rel, string(b), uid[:i]+uid[i+1:], uid[:i]+strings.ToUpper(uid[i:]))
				}
				for _, other := range rel {
					if other == uid {
						continue
					}
					for _, renamed := range []bool{false, true} {
						do(fmt.Sprintf("user %d at %q, renamed: %v", n, other, renamed), true, func(tb testing.TB, c *hx.Case) {
							synctest.Test(tb.(*testing.T), func(t *testing.T) {
								st := hx.NewStore()
								st.Restore(base.snap)
								rec := base.snap[hx.Key{ID: uid, Type: id.DataTypeSealedUser}]
								if renamed {
									rec = bytes.ReplaceAll(rec, []byte(strconv.Quote(uid)), hx.Raw(other))
								}
								st.Set(hx.Key{ID: other, Type: id.DataTypeSealedUser}, rec)
								s, err := id.NewStandalone(base.cfg, st)
								if err != nil {
									t.Fatalf("%v", err)
								}
								for pw := range base.past.pws[uid] {
									if tok, _, err := s.LoginUser(bg, other, pw); err == nil {
										got, err := s.GetIdentity(bg, tok)
										t.Fatalf("%q, whom nobody created, logs in with the record of %q, as %q (%v)", other, uid, got.ID, err)
									}
									if _, err := s.ChangeUserPassword(bg, other, pw); err == nil {
										t.Fatalf("the password of %q, whom nobody created, was changed", other)
									}
								}
								if s.AddUserToGroups(bg, base.toks[0], other, base.gids[0]) == nil || s.RemoveUserFromGroups(bg, base.toks[0], other, base.gids[0]) == nil {
									t.Fatalf("the groups of %q, whom nobody created, were changed", other)
								}
							})
						})
					}
				}
			}
		})
	hx.Enum(t, "every-bit", "every single bit of one user record and one group record flipped in turn, and every pair of records exchanged, then every token resolved", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			check := func(tb testing.TB, st *hx.Store) {
				synctest.Test(tb.(*testing.T), func(t *testing.T) {
					s, err := id.NewStandalone(base.cfg, st)
					if err != nil {
						t.Fatalf("%v", err)
					}
					for n, tok := range base.toks {
						got, err := s.GetIdentity(bg, tok)
						if err == nil {
							base.past.judge(t, base.uids[n], got)
						}
					}
				})
			}
			for _, k := range []hx.Key{{ID: base.uids[0], Type: id.DataTypeSealedUser}, {ID: base.gids[1], Type: id.DataTypeSealedGroup}} {
				for i := 0; i < 8*len(base.snap[k]); i++ {
					do(fmt.Sprintf("type %d bit %d", k.Type, i), true, func(tb testing.TB, c *hx.Case) {
						st := hx.NewStore()
						st.Restore(base.snap)
						b := cloneBytes(base.snap[k])
						b[i/8] ^= 1 << (i % 8)
						st.Set(k, b)
						check(tb, st)
					})
				}
			}
			for _, k := range base.snap.Keys() {
				for _, l := range base.snap.Keys() {
					do(fmt.Sprintf("%v takes %v", k, l), true, func(tb testing.TB, c *hx.Case) {
						st := hx.NewStore()
						st.Restore(base.snap)
						st.Set(k, base.snap[l])
						check(tb, st)
						st.Set(l, base.snap[k])
						check(tb, st)
					})
				}
			}
		})
}

func forgedIdentity(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case)), base *tamperBase) {
	rnd := hx.NewRnd(77)
	all := map[string]struct{}{}
	for _, g := range base.gids {
		all[g] = struct{}{}
	}
	sh := append([]byte("saltsalt"), hx.RefPBKDF2("forged", []byte("saltsalt"))...)
	val := hx.UserVal{SaltAndHash: sh, Scopes: 511, Groups: all}
	try := func(how string, recs map[hx.Key][]byte, logins bool) {
		do(how, true, func(tb testing.TB, c *hx.Case) {
			synctest.Test(tb.(*testing.T), func(t *testing.T) {
				st := hx.NewStore()
				st.Restore(base.snap)
				for k, b := range recs {
					st.Set(k, b)
				}
				before := st.Snapshot()
				s, err := id.NewStandalone(base.cfg, st)
				if err != nil {
					t.Fatalf("%v", err)
				}
				for n, tok := range base.toks {
					got, err := s.GetIdentity(bg, tok)
					if _, forged := recs[hx.Key{ID: base.uids[n], Type: id.DataTypeSealedUser}]; err == nil && forged {
						t.Fatalf("a forged user resolves to %v", got)
					}
					if err == nil {
						base.past.judge(t, base.uids[n], got)
					}
				}
				for u, uid := range base.uids {
					k := hx.Key{ID: uid, Type: id.DataTypeSealedUser}
					if recs[k] == nil {
						continue
					}
					if logins {
						if _, _, err := s.LoginUser(bg, uid, "forged"); err == nil {
							t.Fatalf("login with the password of a forged record")
						}
						if _, err := s.ChangeUserPassword(bg, uid, "forged"); err == nil {
							t.Fatalf("password changed with that of a forged record")
						}
					}
					for n, tok := range base.toks {
						if s.AddUserToGroups(bg, tok, uid, base.gids[n]) == nil {
							t.Fatalf("user %d with a forged record added to a group by user %d", u, n)
						}
						if s.RemoveUserFromGroups(bg, tok, uid, base.gids[n]) == nil {
							t.Fatalf("user %d with a forged record removed from a group by user %d", u, n)
						}
						if n == u {
							if _, err := s.NewGroup(bg, tok, 1); err == nil {
								t.Fatalf("group made by a user with a forged record")
							}
						}
					}
				}
				if d := before.Diff(st.Snapshot()); len(d) > 0 {
					t.Fatalf("refused calls change storage: %v", d)
				}
			})
		})
	}
	for n, uid := range base.uids[:2] {
		k := hx.Key{ID: uid, Type: id.DataTypeSealedUser}
		try(fmt.Sprintf("user %d: plain", n), map[hx.Key][]byte{k: hx.Raw(map[string]any{"UID": uid, "SaltAndHash": sh, "Scopes": 511, "Groups": all})}, true)
		for _, f := range hx.Forgeries(rnd, val, uid) {
			try(fmt.Sprintf("user %d: %s", n, f.How), map[hx.Key][]byte{k: hx.Raw(hx.UserRec{UID: uid, Ciphertext: f.CT, WrappedKey: f.Wrapped})}, n == 0)
		}
		for _, f := range hx.Forgeries(rnd, val, "") {
			try(fmt.Sprintf("user %d without identifier: %s", n, f.How), map[hx.Key][]byte{k: hx.Raw(hx.UserRec{Ciphertext: f.CT, WrappedKey: f.Wrapped})}, false)
		}
	}
	for _, scopes := range []uint64{511, 1} {
		for _, gid := range base.gids {
			k := hx.Key{ID: gid, Type: id.DataTypeSealedGroup}
			try("group: plain", map[hx.Key][]byte{k: hx.Raw(map[string]any{"GID": gid, "Scopes": scopes})}, false)
			for _, f := range hx.Forgeries(rnd, hx.GroupVal{Scopes: scopes}, gid) {
				try("group: "+f.How, map[hx.Key][]byte{k: hx.Raw(hx.GroupRec{GID: gid, Ciphertext: f.CT, WrappedKey: f.Wrapped})}, false)
			}
		}
	}
	// users and groups nobody ever made
	ghost := "0b6a4c7e-7d55-4e13-9df3-6a4f8a0a3f10"
	for _, f := range hx.Forgeries(rnd, val, ghost) {
		try("unknown user: "+f.How, map[hx.Key][]byte{{ID: ghost, Type: id.DataTypeSealedUser}: hx.Raw(hx.UserRec{UID: ghost, Ciphertext: f.CT, WrappedKey: f.Wrapped})}, false)
		do("unknown user logs in: "+f.How, true, func(tb testing.TB, c *hx.Case) {
			st := hx.NewStore()
			st.Restore(base.snap)
			st.Set(hx.Key{ID: ghost, Type: id.DataTypeSealedUser}, hx.Raw(hx.UserRec{UID: ghost, Ciphertext: f.CT, WrappedKey: f.Wrapped}))
			s, err := id.NewStandalone(base.cfg, st)
			if err != nil {
				tb.Fatalf("%v", err)
			}
			if _, _, err := s.LoginUser(bg, ghost, "forged"); err == nil {
				tb.Fatalf("login as a user nobody made")
			}
		})
	}
}

// judge says whether a resolved identity is one the user once had.
func (p *saPast) judge(f fat, uid string, got id.Identity) {
	f.Helper()
	if got.ID != uid {
		f.Fatalf("the token of %s resolves to %q", uid, got.ID)
	}
	if got.Scopes != p.scopes[uid] {
		f.Fatalf("user %s created with scopes %x resolves with %x", uid, uint64(p.scopes[uid]), uint64(got.Scopes))
	}
	set := map[string]bool{}
	for gid, g := range got.Groups {
		set[gid] = true
		if g.ID != gid {
			f.Fatalf("group %q carries identifier %q", gid, g.ID)
		}
		s, ok := p.groups[gid]
		if !ok {
			f.Fatalf("user %s resolves with group %q, which never existed", uid, gid)
		}
		if s != g.Scopes {
			f.Fatalf("group %s created with scopes %x resolves with %x", gid, uint64(s), uint64(g.Scopes))
		}
	}
	if _, ok := p.sets[uid][encodeSet(set)]; !ok {
		f.Fatalf("user %s resolves with groups %q, a set it never had", uid, sortedKeys(set))
	}
}

func (p *saPast) clone() *saPast {
	q := &saPast{map[string]map[string]bool{}, p.scopes, map[string]map[string]map[string]bool{}, map[string]id.Scope{}}
	for u, m := range p.pws {
		q.pws[u] = map[string]bool{}
		for k := range m {
			q.pws[u][k] = true
		}
	}
	for u, m := range p.sets {
		for _, s := range m {
			q.add(u, s)
		}
	}
	for g, s := range p.groups {
		q.groups[g] = s
	}
	return q
}

func tamperIdentity(rt *rapid.T, c *hx.Case, base *tamperBase, logins bool) {
	st := hx.NewStore()
	adv := hx.NewTamper(st)
	for _, sn := range base.seen {
		st.Restore(sn)
		adv.Observe()
	}
	st.Restore(base.snap)
	rnd := hx.NewRnd(5)
	for _, k := range []uint64{777, 21} { // unknown keys; the keys of other purposes
		other := saKeysOf(k)
		uek, gek := other.GEK, other.UEK
		if k == 777 {
			uek, gek = other.UEK, other.GEK
		} else {
			// what the adversary could have got sealed under the other purpose's key is only what is
			// stored; forging under it is beyond its power
			uek, gek = make([]byte, 32), make([]byte, 32)
		}
		for i, u := range base.uids {
			adv.Foreign[id.DataTypeSealedUser] = append(adv.Foreign[id.DataTypeSealedUser],
				hx.EncodeUser(rnd, uek, u, hx.UserVal{SaltAndHash: make([]byte, 40), Scopes: 511, Groups: map[string]struct{}{base.gids[i]: {}}}))
			adv.Foreign[id.DataTypeSealedGroup] = append(adv.Foreign[id.DataTypeSealedGroup], hx.EncodeGroup(rnd, gek, base.gids[i], hx.GroupVal{Scopes: 511}))
		}
	}
	every := map[string]struct{}{}
	for _, g := range base.gids {
		every[g] = struct{}{}
	}
	for i, u := range base.uids {
		for _, f := range hx.Forgeries(rnd, hx.UserVal{SaltAndHash: make([]byte, 40), Scopes: 511, Groups: every}, u) {
			adv.Foreign[id.DataTypeSealedUser] = append(adv.Foreign[id.DataTypeSealedUser], hx.Raw(hx.UserRec{UID: u, Ciphertext: f.CT, WrappedKey: f.Wrapped}))
		}
		for _, f := range hx.Forgeries(rnd, hx.GroupVal{Scopes: 511}, base.gids[i]) {
			adv.Foreign[id.DataTypeSealedGroup] = append(adv.Foreign[id.DataTypeSealedGroup], hx.Raw(hx.GroupRec{GID: base.gids[i], Ciphertext: f.CT, WrappedKey: f.Wrapped}))
		}
	}
	s, err := id.NewStandalone(base.cfg, st)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	past := base.past.clone()
	uids, gids := base.uids, cloneStrings(base.gids)
	name := func(x string) string {
		for i, u := range uids {
			if u == x {
				return fmt.Sprintf("user%d", i)
			}
		}
		for i, g := range gids {
			if g == x {
				return fmt.Sprintf("group%d", i)
			}
		}
		return hx.Short(x)
	}
	toks := map[string]string{} // token -> owner
	var tokList []string
	for i, t := range base.toks {
		toks[t] = uids[i]
		tokList = append(tokList, t)
	}
	resolve := func(tok string) {
		got, err := s.GetIdentity(bg, tok)
		if err != nil {
			c.Label("resolving fails")
			if got.ID != "" || got.Scopes != 0 || len(got.Groups) > 0 {
				rt.Fatalf("failed call returns identity %v", got)
			}
			return
		}
		c.Label("resolves")
		c.NonTrivial()
		past.judge(rt, toks[tok], got)
	}
	for round := hx.IntRange(1, 4).Draw(rt, "rounds"); round > 0; round-- {
		for k := hx.IntRange(1, 3).Draw(rt, "mods"); k > 0; k-- {
			what := adv.Act(rt, identityTypes)
			for i, u := range uids {
				what = strings.ReplaceAll(what, fmt.Sprintf("%x", u), fmt.Sprintf("user%d", i))
			}
			for i, g := range gids {
				what = strings.ReplaceAll(what, fmt.Sprintf("%x", g), fmt.Sprintf("group%d", i))
			}
			c.Logf("adversary: %s", what)
		}
		for _, t := range tokList {
			resolve(t)
		}
		if logins {
			for n := hx.IntRange(1, 3).Draw(rt, "logins"); n > 0; n-- {
				uid := hx.SampledFrom(uids).Draw(rt, "uid")
				pw := hx.SampledFrom(base.pws).Draw(rt, "pw")
				if hx.IntRange(0, 3).Draw(rt, "change") == 0 {
					npw, err := s.ChangeUserPassword(bg, uid, pw)
					c.Logf("change password of %s with password %s: %v", name(uid), hx.Short(pw), short(err))
					if err == nil {
						c.NonTrivial()
						if !past.pws[uid][pw] {
							rt.Fatalf("password of %s changed with a password it never had", name(uid))
						}
						past.pws[uid][npw] = true
						adv.Observe()
					}
					continue
				}
				tok, _, err := s.LoginUser(bg, uid, pw)
				c.Logf("login %s with password %s: %v", name(uid), hx.Short(pw), short(err))
				if err != nil {
					c.Label("login fails")
					continue
				}
				c.Label("login succeeds")
				c.NonTrivial()
				if !past.pws[uid][pw] {
					rt.Fatalf("%s logs in with a password it never had", name(uid))
				}
				if toks[tok] == "" {
					tokList = append(tokList, tok)
				}
				toks[tok] = uid
				resolve(tok)
			}
			continue
		}
		for n := hx.IntRange(0, 3).Draw(rt, "changes"); n > 0; n-- {
			tok := hx.SampledFrom(tokList).Draw(rt, "tok")
			caller := toks[tok]
			if hx.IntRange(0, 5).Draw(rt, "what") == 0 {
				sc := drawScope(rt, "scopes")
				gid, err := s.NewGroup(bg, tok, sc)
				c.Logf("new group by %s: %v", name(caller), short(err))
				if err == nil {
					past.groups[gid] = sc
					gids = append(gids, gid)
					past.change(caller, true, []string{gid})
					c.NonTrivial()
				}
				adv.Observe()
				continue
			}
			add := rapid.Bool().Draw(rt, "add")
			uid := hx.SampledFrom(uids).Draw(rt, "uid")
			gs := hx.Subset(rt, gids, 2, "gids")
			var err error
			before := st.Snapshot()
			if add {
				err = s.AddUserToGroups(bg, tok, uid, gs...)
			} else {
				err = s.RemoveUserFromGroups(bg, tok, uid, gs...)
			}
			diff := before.Diff(st.Snapshot())
			c.Logf("membership add=%v of %s by %s: %v", add, name(uid), name(caller), short(err))
			if err != nil {
				if len(diff) > 0 {
					rt.Fatalf("failed membership change changes record %v", diff[0])
				}
				continue
			}
			c.NonTrivial()
			ok := false
			for _, set := range past.sets[caller] {
				all := true
				for _, g := range gs {
					all = all && set[g]
				}
				ok = ok || all
			}
			if !ok {
				rt.Fatalf("membership of %d groups changed by a caller that was never in all of them", len(gs))
			}
			for _, k := range diff {
				if k != (hx.Key{ID: uid, Type: id.DataTypeSealedUser}) {
					rt.Fatalf("membership change of %s changes record %v", name(uid), k)
				}
			}
			past.change(uid, add, gs)
			adv.Observe()
		}
		for _, t := range tokList {
			resolve(t)
		}
	}
}
