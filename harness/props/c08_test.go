package props

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// drawGIDs draws identifiers to name as groups: groups, but also users' and unknown identifiers.
func (w *saWorld) drawGIDs(rt *rapid.T, tok string) []string {
	var pool, own []string
	for _, g := range w.groups {
		pool = append(pool, g.gid)
	}
	if t := w.valid(tok); t != nil {
		own = sortedKeys(t.u.groups)
	}
	switch k := hx.IntRange(0, 9).Draw(rt, "gids"); {
	case k < 5 && len(own) > 0:
		pool = own
	case k == 9:
		for _, u := range w.users {
			pool = append(pool, u.uid)
		}
		pool = append(pool, "", "nobody")
	case k == 8:
		if t := w.valid(tok); t != nil { // own groups and one thing more
			x := append(cloneStrings(own), t.u.uid)
			for i := len(x) - 1; i > 0; i-- {
				j := hx.IntRange(0, i).Draw(rt, "shuffle")
				x[i], x[j] = x[j], x[i]
			}
			return x
		}
	}
	if len(pool) == 0 {
		pool = []string{w.users[0].uid}
	}
	return hx.Subset(rt, pool, 3, "gid")
}

func drawScopes(rt *rapid.T) []id.Scope {
	out := make([]id.Scope, hx.IntRange(0, 4).Draw(rt, "nscopes"))
	for i := range out {
		out[i] = drawScope(rt, "scope")
	}
	if hx.Chance(rt, 8, "long list") { // of few different ones, and then one more
		few := append(out, 1<<hx.IntRange(0, 63).Draw(rt, "bit"))
		out = nil
		for n := hx.IntRange(5, 140).Draw(rt, "long"); n > 0; n-- {
			out = append(out, few[n%len(few)])
		}
		out = append(out, 1<<hx.IntRange(0, 63).Draw(rt, "last"))
	}
	return out
}

func TestC08(t *testing.T) {
	relatedC08(t)
	allButOne(t)
	veryMany(t)
	base := newSABase(t, saKeysOf(8), []id.Scope{allScopes}, []id.Scope{id.ScopeDecrypt, id.ScopeEncrypt}, []id.Scope{}, []id.Scope{id.ScopeIndex, 1 << 40})
	hx.Check(t, "history", hx.Opt{Quick: 9000, Thorough: 400000,
		Rule: "histories of group creation and membership changes by 2-4 users on lists of groups, own, others' and unknown identifiers, with deletions, restarts, forged and expired tokens; every identity is compared with the model after every few steps; non-trivial: at least 2 membership changes accepted and one refused"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				w := base.world(rt, c, hx.IntRange(2, 4).Draw(rt, "users"), hx.SampledFrom([]string{"store", "store", "store", "wrapped", "mem"}).Draw(rt, "kind"))
				members(rt, w, hx.IntRange(4, 25).Draw(rt, "steps"))
				if w.member >= 2 && w.refused > 0 {
					c.NonTrivial()
				}
			})
		})
	hx.Check(t, "bolt", hx.Opt{Quick: 160, Thorough: 8000,
		Rule: "the same on the bolt provider; non-trivial: the same"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				w := base.world(rt, c, 3, "bolt")
				defer w.box.Close()
				members(rt, w, hx.IntRange(4, 12).Draw(rt, "steps"))
				if w.member >= 2 && w.refused > 0 {
					c.NonTrivial()
				}
			})
		})
	hx.Check(t, "creation", hx.Opt{Quick: 240, Thorough: 16000,
		Rule: "users created with drawn lists of scopes, who create groups with drawn lists of scopes, then log in and are resolved; non-trivial: all"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				c.NonTrivial()
				w := base.world(rt, c, 1, hx.SampledFrom(saKinds).Draw(rt, "kind"))
				defer w.box.Close()
				u := w.newUser(drawScopes(rt)...)
				tok := w.login(u.uid, u.pw)
				for n := hx.IntRange(1, 5).Draw(rt, "groups"); n > 0; n-- {
					g := w.newGroup(tok.s, drawScopes(rt)...)
					if rapid.Bool().Draw(rt, "share") {
						w.membership(true, tok.s, w.users[0].uid, []string{g.gid})
					}
				}
				w.audit()
			})
		})
	hx.Check(t, "many", hx.Opt{Quick: 120, Thorough: 5000,
		Rule: "users in up to a few hundred groups, put in and taken out in drawn portions; non-trivial: more than 30 groups"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				w := base.world(rt, c, 2, "store")
				n := hx.IntRange(5, hx.Scale(90, 400)).Draw(rt, "groups")
				if n > 30 {
					c.NonTrivial()
				}
				var all []string
				for i := 0; i < n; i++ {
					all = append(all, w.newGroup(w.toks[0].s, drawScope(rt, "scope")).gid)
				}
				for i := hx.IntRange(1, 4).Draw(rt, "changes"); i > 0; i-- {
					a := hx.IntRange(0, n).Draw(rt, "from")
					b := hx.IntRange(a, n).Draw(rt, "to")
					w.membership(rapid.Bool().Draw(rt, "add"), w.toks[hx.IntRange(0, 1).Draw(rt, "by")].s, w.users[1].uid, all[a:b])
				}
				w.audit()
			})
		})
}

// allButOne checks lists of groups of which the caller is in all but one.
func allButOne(t *testing.T) {
	hx.EnumAll(t, "all but one", "callers add and remove others and themselves, naming k groups of which they are in all but the one at a position: every position for k to 12, some for 40 and 200; and naming k groups they are in", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		cfg := saKeysOf(8)
		one := func(k, at int) {
			do(fmt.Sprintf("%d groups, not in number %d", k, at), true, func(f testing.TB, c *hx.Case) {
				rnd := hx.NewRnd(uint64(k*1000 + at))
				caller, other := uuid.UUID(hx.Bytes(91, 16, 0)).String(), uuid.UUID(hx.Bytes(92, 16, 0)).String()
				var gids []string
				all, most := map[string]struct{}{}, map[string]struct{}{}
				for i := 0; i < k; i++ {
					g := uuid.UUID(hx.Bytes(uint64(2000+i), 16, 0)).String()
					gids = append(gids, g)
					if all[g] = struct{}{}; i != at {
						most[g] = struct{}{}
					}
				}
				tok := hx.EncodeToken(rnd, cfg.TEK, []byte(caller), time.Now().Add(time.Hour))
				for _, groups := range []map[string]struct{}{{}, most, all} { // those the other is in
					for _, add := range []bool{true, false} {
						for _, self := range []bool{false, true} {
							st := hx.NewStore()
							put := func(k string, ty io.DataType, b []byte) {
								if err := st.Put(bg, []byte(k), ty, b); err != nil {
									f.Fatalf("%v", err)
								}
							}
							for _, g := range gids {
								put(g, typeGroup, hx.EncodeGroup(rnd, cfg.GEK, g, hx.GroupVal{Scopes: 7}))
							}
							put(caller, typeUser, hx.EncodeUser(rnd, cfg.UEK, caller, hx.UserVal{Scopes: 1, Groups: most}))
							put(other, typeUser, hx.EncodeUser(rnd, cfg.UEK, other, hx.UserVal{Scopes: 2, Groups: groups}))
							s, err := id.NewStandalone(cfg, st)
							if err != nil {
								f.Fatalf("%v", err)
							}
							call, uid, want := s.AddUserToGroups, other, all
							if !add {
								call, want = s.RemoveUserFromGroups, nil
							}
							if self {
								uid = caller
							}
							before := st.Snapshot()
							err = call(bg, tok, uid, gids...)
							if at < k && at >= 0 {
								if err == nil {
									f.Fatalf("accepted (adding: %v, oneself: %v)", add, self)
								}
								if d := before.Diff(st.Snapshot()); len(d) > 0 {
									f.Fatalf("refused, but %v changed", d[0])
								}
								continue
							}
							if err != nil {
								f.Fatalf("refused (adding: %v, oneself: %v): %v", add, self, err)
							}
							i, err := s.GetIdentity(bg, hx.EncodeToken(rnd, cfg.TEK, []byte(uid), time.Now().Add(time.Hour)))
							if err != nil || len(i.Groups) != len(want) {
								f.Fatalf("%d groups afterwards, %v", len(i.Groups), err)
							}
						}
					}
				}
			})
		}
		for k := 1; k <= 12; k++ {
			for at := -1; at < k; at++ {
				one(k, at)
			}
		}
		for _, k := range []int{16, 17, 33, 40, 65, 200} {
			for _, at := range []int{-1, 0, 1, 7, 8, 15, 16, 31, 32, k / 2, k - 2, k - 1} {
				if at < k {
					one(k, at)
				}
			}
		}
	})
}

// veryMany checks users whose records, stored earlier, hold n groups.
func veryMany(t *testing.T) {
	hx.EnumAll(t, "very many", "users who are in n groups, for n around every power of two up to 2048 (thorough: 16384), put in one more group and taken out of a few", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		cfg := saKeysOf(8)
		for p := 4; p <= hx.Scale(2048, 16384); p *= 2 {
			for n := p - 1; n <= p+1; n++ {
				n := n
				do(fmt.Sprintf("%d groups", n), true, func(f testing.TB, c *hx.Case) {
					st, rnd := hx.NewStore(), hx.NewRnd(uint64(n))
					uid, own := uuid.UUID(hx.Bytes(81, 16, 0)).String(), uuid.UUID(hx.Bytes(82, 16, 0)).String()
					want := map[string]id.AccessGroup{}
					put := func(k string, ty io.DataType, b []byte) {
						if err := st.Put(bg, []byte(k), ty, b); err != nil {
							f.Fatalf("%v", err)
						}
					}
					u, v := hx.UserVal{Scopes: uint64(allScopes), Groups: map[string]struct{}{}}, hx.UserVal{Scopes: uint64(allScopes), Groups: map[string]struct{}{}}
					var gids []string
					for i := 0; i <= n; i++ {
						g := uuid.UUID(hx.Bytes(uint64(1000+i), 16, 0)).String()
						s := id.Scope(i)
						put(g, typeGroup, hx.EncodeGroup(rnd, cfg.GEK, g, hx.GroupVal{Scopes: uint64(s)}))
						if gids = append(gids, g); i < n {
							u.Groups[g] = struct{}{}
						}
						v.Groups[g] = struct{}{}
						want[g] = id.AccessGroup{ID: g, Scopes: s}
					}
					put(uid, typeUser, hx.EncodeUser(rnd, cfg.UEK, uid, u))
					put(own, typeUser, hx.EncodeUser(rnd, cfg.UEK, own, v))
					far := time.Now().Add(time.Hour)
					tok, owner := hx.EncodeToken(rnd, cfg.TEK, []byte(uid), far), hx.EncodeToken(rnd, cfg.TEK, []byte(own), far)
					s, err := id.NewStandalone(cfg, st)
					if err != nil {
						f.Fatalf("%v", err)
					}
					check := func(what string) {
						got, err := s.GetIdentity(bg, tok)
						if err != nil || got.ID != uid || got.Scopes != allScopes || !reflect.DeepEqual(got.Groups, want) {
							f.Fatalf("%s: %q in %d groups, %v; want %d groups", what, got.ID, len(got.Groups), err, len(want))
						}
					}
					last := gids[n]
					with := want[last]
					delete(want, last)
					check("before")
					for _, by := range []string{tok, owner} {
						if err := s.AddUserToGroups(bg, by, uid, last); (err == nil) != (by == owner) {
							f.Fatalf("AddUserToGroups: %v", err)
						}
					}
					want[last] = with
					check("with one more")
					if err := s.RemoveUserFromGroups(bg, tok, uid, gids[0], gids[n/2], last); err != nil {
						f.Fatalf("RemoveUserFromGroups: %v", err)
					}
					for _, g := range []string{gids[0], gids[n/2], last} {
						delete(want, g)
					}
					check("with some less")
					g, err := s.NewGroup(bg, tok, id.ScopeIndex)
					if err != nil {
						f.Fatalf("NewGroup: %v", err)
					}
					want[g] = id.AccessGroup{ID: g, Scopes: id.ScopeIndex}
					check("with a new one")
				})
			}
		}
	})
}

func members(rt *rapid.T, w *saWorld, n int) {
	for ; n > 0; n-- {
		w.turn(rt)
		tok := w.drawTok(rt)
		switch hx.IntRange(0, 19).Draw(rt, "step") {
		case 0, 1, 2:
			w.newGroup(tok, drawScopes(rt)...)
		case 3, 4, 5, 6, 7, 8, 9:
			w.membership(true, tok, w.drawUID(rt), w.drawGIDs(rt, tok))
		case 10, 11, 12, 13, 14:
			w.membership(false, tok, w.drawUID(rt), w.drawGIDs(rt, tok))
		case 15:
			if hx.IntRange(0, 3).Draw(rt, "del") == 0 {
				w.deleteUser(tok, w.drawUID(rt))
			}
		case 16:
			w.c.Logf("restart")
			w.restart()
		case 17:
			if hx.IntRange(0, 3).Draw(rt, "time") == 0 {
				w.passTime(rt)
			}
		default:
			w.audit()
		}
	}
	w.audit()
}
