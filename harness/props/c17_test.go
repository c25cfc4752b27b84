package props

import (
	"fmt"
	"testing"
	"testing/synctest"

	"github.com/cybercryptio/d1-lib/v2/id"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C17: one failed storage call in a user or group operation.

type iop struct {
	kind   string
	caller int // user whose token is used, for the calls that take one
	target int
	gids   []string
}

type iworld17 struct {
	*saWorld
	st    *hx.Store
	hash  map[string]string // salt and hash stored for each user
	lost  map[string]bool   // users whose password was changed without the new one being told
	oldPw map[string][]string
}

func newIWorld17(f fat, c *hx.Case, base *saBase) *iworld17 {
	w := &iworld17{saWorld: base.world(f, c, len(base.users), "store"), hash: map[string]string{}, lost: map[string]bool{}, oldPw: map[string][]string{}}
	w.st = w.box.St
	for _, u := range w.users {
		w.hash[u.uid] = w.stored(u.uid)
	}
	return w
}

// stored is the password hash in the user's record.
func (w *iworld17) stored(uid string) string {
	w.f.Helper()
	b, ok := w.st.Peek(hx.Key{ID: uid, Type: id.DataTypeSealedUser})
	if !ok {
		w.f.Fatalf("no record of %s is stored", w.name(uid))
	}
	v, err := hx.DecodeUser(w.cfg.UEK, uid, b)
	if err != nil {
		w.f.Fatalf("the stored record of %s cannot be read: %v", w.name(uid), err)
	}
	return string(v.SaltAndHash)
}

func (p iop) name(w *iworld17) string {
	return fmt.Sprintf("%s by user%d for user%d %s", p.kind, p.caller, p.target, w.nameAll(p.gids))
}

// logins checks every user's password for real.
func (w *iworld17) logins(what string) {
	w.f.Helper()
	for _, u := range w.users {
		if u.gone {
			continue
		}
		_, _, err := w.s.LoginUser(bg, u.uid, u.pw)
		if w.lost[u.uid] == (err == nil) {
			w.f.Fatalf("%s: %s logs in with the password last told: %v (password changed without the new one being told: %v)", what, w.name(u.uid), err, w.lost[u.uid])
		}
		for _, o := range w.oldPw[u.uid] {
			if _, _, err := w.s.LoginUser(bg, u.uid, o); err == nil {
				w.f.Fatalf("%s: %s logs in with a replaced password", what, w.name(u.uid))
			}
		}
	}
}

func (w *iworld17) tok(u int) string { return w.toks[u].s }

// apply performs the operation with storage call n failing (0: none).
func (w *iworld17) apply(p iop, n int, mode hx.Fault) (failed bool) {
	w.f.Helper()
	what := p.name(w)
	if mode != hx.NoFault {
		what += fmt.Sprintf(" with storage call %d %s", n, hx.FaultNames[mode])
	}
	caller, u := w.users[p.caller], w.users[p.target]
	pw := u.pw
	if w.lost[u.uid] {
		pw = "unknown"
	}
	// is the call to succeed when storage works?
	ok := true
	switch p.kind {
	case "new user":
	case "login", "change":
		ok = !u.gone && !w.lost[u.uid]
	case "identity", "new group", "delete":
		ok = !caller.gone
	default:
		ok = !caller.gone && !u.gone
		for _, g := range p.gids {
			ok = ok && caller.groups[g]
		}
	}
	before := w.st.Snapshot()
	w.st.Begin(5000)
	told := w.st.FaultAt(n, mode)
	var err error
	var out []string
	var ident id.Identity
	cx := w.st.Ctx()
	stopped := hx.Stopped(func() {
		var a, b string
		switch p.kind {
		case "new user":
			a, b, err = w.s.NewUser(cx, id.ScopeEncrypt, id.ScopeIndex)
		case "login":
			a, _, err = w.s.LoginUser(cx, u.uid, pw)
		case "change":
			a, err = w.s.ChangeUserPassword(cx, u.uid, pw)
		case "identity":
			ident, err = w.s.GetIdentity(cx, w.tok(p.caller))
		case "new group":
			a, err = w.s.NewGroup(cx, w.tok(p.caller), id.ScopeDelete, id.ScopeUpdate)
		case "delete":
			err = w.s.DeleteUser(cx, w.tok(p.caller), u.uid)
		case "add":
			err = w.s.AddUserToGroups(cx, w.tok(p.caller), u.uid, cloneStrings(p.gids)...)
		case "remove":
			err = w.s.RemoveUserFromGroups(cx, w.tok(p.caller), u.uid, cloneStrings(p.gids)...)
		}
		for _, s := range []string{a, b} {
			if s != "" {
				out = append(out, s)
			}
		}
	})
	w.st.Hook = nil
	w.st.Begin(0)
	at, _, fired, first := told()
	diff := before.Diff(w.st.Snapshot())
	failed = stopped || err != nil
	w.c.Logf("%s (%s) -> %v%s", what, at, short(err), map[bool]string{true: " stopped"}[stopped])
	if fired && failed {
		w.c.NonTrivial()
		w.c.Label(p.kind + "/" + at + "/" + hx.FaultNames[mode])
	}
	if stopped {
		w.restart()
	}
	if !fired && failed == ok {
		w.f.Fatalf("%s: %v, expected success: %v", what, err, ok)
	}
	if !failed && !ok {
		w.f.Fatalf("%s succeeds, must be refused", what)
	}
	if failed && (len(out) > 0 || ident.ID != "" || ident.Scopes != 0 || len(ident.Groups) > 0) {
		w.f.Fatalf("%s fails but returns %v %v", what, out, ident)
	}
	if failed && fired && first && len(diff) > 0 {
		w.f.Fatalf("%s: the first write failed, yet stored records changed: %v", what, diff)
	}
	changed := map[string]bool{}
	for _, k := range diff {
		changed[k.ID] = true
		if k.Type != id.DataTypeSealedUser && k.Type != id.DataTypeSealedGroup {
			w.f.Fatalf("%s changed a record of another kind: %v", what, k)
		}
	}
	// what each user may have become
	after := func(x *userM) map[string]bool {
		m := map[string]bool{}
		for g := range x.groups {
			m[g] = true
		}
		if x == u && ok {
			for _, g := range p.gids {
				if p.kind == "add" {
					m[g] = true
				} else if p.kind == "remove" {
					delete(m, g)
				}
			}
		}
		return m
	}
	var made string
	if n := map[string]int{"new user": 2, "new group": 1, "change": 1}[p.kind]; !failed {
		for i := 0; i < n; i++ {
			if i >= len(out) || out[i] == "" {
				w.f.Fatalf("%s reports success and returns %q", what, out)
			}
		}
	}
	switch p.kind {
	case "new user":
		if !failed {
			nu := &userM{uid: out[0], pw: out[1], scopes: id.ScopeEncrypt | id.ScopeIndex, groups: map[string]bool{}}
			tok, _, err := w.s.LoginUser(bg, nu.uid, nu.pw)
			if err != nil {
				w.f.Fatalf("%s succeeds but the user cannot log in: %v", what, err)
			}
			w.users = append(w.users, nu)
			w.toks = append(w.toks, &tokM{s: tok, u: nu})
			w.hash[nu.uid] = w.stored(nu.uid)
		}
	case "new group":
		if !failed {
			made = out[0]
			w.groups = append(w.groups, &groupM{gid: made, scopes: id.ScopeDelete | id.ScopeUpdate})
			caller.groups[made] = true
		} else if ok {
			// the group may have come into being and the caller may be in it
			if got, err := w.s.GetIdentity(bg, w.tok(p.caller)); err == nil && len(got.Groups) == len(caller.groups)+1 {
				for g := range got.Groups {
					if !caller.groups[g] {
						if w.group(g) != nil {
							w.f.Fatalf("%s: the caller is now in %s", what, w.name(g))
						}
						w.groups = append(w.groups, &groupM{gid: g, scopes: id.ScopeDelete | id.ScopeUpdate})
						caller.groups[g] = true
					}
				}
			}
		}
	case "delete":
		if !failed {
			u.gone = true
		} else if len(diff) > 0 {
			u.gone = true // completely, as is checked below
		}
	case "change":
		if !failed {
			w.oldPw[u.uid] = append(w.oldPw[u.uid], u.pw)
			if out[0] == u.pw {
				w.f.Fatalf("%s: the new password is the old one", what)
			}
			u.pw, w.hash[u.uid] = out[0], w.stored(u.uid)
		} else if ok && w.stored(u.uid) != w.hash[u.uid] {
			w.lost[u.uid] = true
			w.hash[u.uid] = w.stored(u.uid)
		}
	case "identity":
		if !failed {
			w.same(what, ident, caller)
		}
	case "add", "remove":
		if !failed {
			u.groups = after(u)
		} else if got, err := w.s.GetIdentity(bg, w.tok(p.target)); err == nil && !u.gone && len(got.Groups) == len(after(u)) {
			all := true
			for g := range got.Groups {
				all = all && after(u)[g]
			}
			if all {
				u.groups = after(u)
			}
		}
	}
	// now everyone must be exactly as the model has it
	for i, x := range w.users {
		got, err := w.s.GetIdentity(bg, w.tok(i))
		if x.gone {
			if err == nil {
				w.f.Fatalf("after %s: %s is deleted but still resolves", what, w.name(x.uid))
			}
			continue
		}
		if err != nil {
			w.f.Fatalf("after %s: %s no longer resolves: %v", what, w.name(x.uid), err)
		}
		w.same("after "+what, got, x)
		if w.stored(x.uid) != w.hash[x.uid] {
			w.f.Fatalf("after %s: the stored password hash of %s has changed", what, w.name(x.uid))
		}
	}
	return failed && fired
}

func TestC17(t *testing.T) {
	base := newSABase(t, saKeysOf(17), []id.Scope{allScopes}, []id.Scope{id.ScopeDecrypt, id.ScopeIndex}, nil)
	// three users; user 0 and 1 share two groups, user 0 is in a third, user 2 in none
	setup := func(w *iworld17) {
		w.apply(iop{kind: "new group"}, 0, hx.NoFault)
		w.apply(iop{kind: "new group"}, 0, hx.NoFault)
		w.apply(iop{kind: "new group"}, 0, hx.NoFault)
		w.apply(iop{kind: "add", target: 1, gids: []string{w.groups[0].gid, w.groups[1].gid}}, 0, hx.NoFault)
	}
	hx.EnumAll(t, "each", "every operation with every one of its storage calls failing in each of five ways, for oneself and for others, with one or more groups, followed by a retry; every user's identity and password compared afterwards; non-trivial: the fault occurred", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			cause := 0
			for _, kind := range []string{"new user", "login", "change", "identity", "new group", "delete", "add", "remove"} {
				hashes := kind == "new user" || kind == "login" || kind == "change"
				for who := 0; who < 9; who++ {
					if hashes && who%4 != 0 || kind == "new user" && who > 0 {
						continue
					}
					for _, gs := range [][]int{{}, {0}, {2}, {0, 1}, {0, 0}, {1, 2, 0}} {
						if len(gs) > 0 && kind != "add" && kind != "remove" {
							continue
						}
						for n := 1; n <= 10; n++ {
							if hashes && n > 3 {
								break
							}
							for mode := hx.Rejected; mode <= hx.LastFault; mode++ {
								cause++
								fail := hx.FaultErrs[cause%len(hx.FaultErrs)]
								do(fmt.Sprintf("%s by %d for %d, groups %v, call %d %s (%v)", kind, who/3, who%3, gs, n, hx.FaultNames[mode], fail), false, func(tb testing.TB, c *hx.Case) {
									synctest.Test(tb.(*testing.T), func(t *testing.T) {
										w := newIWorld17(t, c, base)
										w.st.Err = fail
										setup(w)
										p := iop{kind: kind, caller: who / 3, target: who % 3}
										for _, g := range gs {
											p.gids = append(p.gids, w.groups[g].gid)
										}
										if w.apply(p, n, mode) {
											if w.lost[w.users[p.target].uid] == false {
												w.apply(p, 0, hx.NoFault)
											}
										}
										if hashes {
											w.logins("at the end")
										}
									})
								})
							}
						}
					}
				}
			}
		})
	hx.EnumAll(t, "errors", "every operation with every one of its storage calls failing with each of a list of errors (cancellations, timeouts, end of file, lookalikes of the library's own), followed by a retry; every user compared afterwards; non-trivial: the fault occurred", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, kind := range []string{"new user", "login", "change", "identity", "new group", "delete", "add", "remove"} {
				hashes := kind == "new user" || kind == "login" || kind == "change"
				for n := 1; n <= 8 && !(hashes && n > 2); n++ {
					for i, fail := range hx.FaultErrs {
						for _, mode := range []hx.Fault{hx.Rejected, hx.LostAck} {
							if hashes && mode == hx.LostAck && i > 4 {
								continue
							}
							do(fmt.Sprintf("%s, call %d %s (%v)", kind, n, hx.FaultNames[mode], fail), false, func(tb testing.TB, c *hx.Case) {
								synctest.Test(tb.(*testing.T), func(t *testing.T) {
									w := newIWorld17(t, c, base)
									w.st.Err, w.st.Wrap = fail, i%2 == 1
									setup(w)
									p := iop{kind: kind, target: 1}
									if kind == "add" || kind == "remove" {
										p.gids = []string{w.groups[0].gid, w.groups[2-n%2].gid}
									}
									if w.apply(p, n, mode) && !hashes {
										w.apply(p, 0, hx.NoFault)
									}
									if kind == "change" {
										w.logins("at the end")
									}
								})
							})
						}
					}
				}
			}
		})
	hx.EnumAll(t, "large", "additions to and removals from up to 150 groups at a time (and new groups by, and deletions of, members of that many), with every one of their writes and some reads failing in each of five ways, followed by a retry; non-trivial: the fault occurred", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, kind := range []string{"add", "remove", "new group", "delete", "identity"} {
				for _, size := range []int{9, 17, 33, 70, 150} {
					for _, n := range []int{-1, -2, -3, -4, -size, 5, size, size + 3, 2*size + 5} {
						for mode := hx.Rejected; mode <= hx.LastFault; mode++ {
							if size > 70 && mode > hx.Rejected && !hx.Thorough() {
								continue
							}
							do(fmt.Sprintf("%s of %d, call %d %s", kind, size, n, hx.FaultNames[mode]), false, func(tb testing.TB, c *hx.Case) {
								synctest.Test(tb.(*testing.T), func(t *testing.T) {
									w := newIWorld17(t, c, base)
									setup(w)
									var gs []string
									for k := 0; k < size; k++ {
										gid, err := w.s.NewGroup(bg, w.tok(0), id.ScopeDelete, id.ScopeUpdate)
										if err != nil {
											t.Fatalf("NewGroup: %v", err)
										}
										w.groups = append(w.groups, &groupM{gid: gid, scopes: id.ScopeDelete | id.ScopeUpdate})
										w.users[0].groups[gid] = true
										gs = append(gs, gid)
									}
									if kind != "add" {
										w.apply(iop{kind: "add", target: 1, gids: gs}, 0, hx.NoFault)
									}
									p := iop{kind: kind, caller: 0, target: 1}
									switch kind {
									case "add", "remove":
										p.gids = gs
									case "new group", "identity":
										p.caller = 1
									}
									if w.apply(p, n, mode) {
										w.apply(p, 0, hx.NoFault)
									}
								})
							})
						}
					}
				}
			}
		})
	history := func(kinds []string, logins bool) func(rt *rapid.T, c *hx.Case) {
		return func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				w := newIWorld17(rt, c, base)
				w.st.Wrap = rapid.Bool().Draw(rt, "wrap")
				setup(w)
				steps := hx.IntRange(3, 14).Draw(rt, "steps")
				if logins {
					steps = hx.IntRange(1, 4).Draw(rt, "steps")
				}
				for ; steps > 0; steps-- {
					p := iop{kind: hx.SampledFrom(kinds).Draw(rt, "kind"), caller: hx.IntRange(0, len(w.users)-1).Draw(rt, "caller"), target: hx.IntRange(0, len(w.users)-1).Draw(rt, "target")}
					if p.kind == "delete" && !hx.Chance(rt, 3, "really") {
						p.kind = "add"
					}
					if (p.kind == "add" || p.kind == "remove") && hx.Chance(rt, 8, "any") {
						for i := range w.groups {
							if hx.Chance(rt, 2, "in") {
								p.gids = append(p.gids, w.groups[i].gid)
							}
						}
					} else if p.kind == "add" || p.kind == "remove" {
						for _, g := range w.groups {
							if w.users[p.caller].groups[g.gid] && hx.Chance(rt, 2, "in") {
								p.gids = append(p.gids, g.gid)
							}
						}
					}
					if len(w.groups) > 8 && p.kind == "new group" {
						p.kind = "identity"
					}
					mode, at := hx.NoFault, 0
					if hx.Chance(rt, 2, "fault") {
						mode = hx.Fault(hx.IntRange(1, int(hx.LastFault)).Draw(rt, "mode"))
						w.st.Err = hx.SampledFrom(hx.FaultErrs).Draw(rt, "error")
						at = hx.IntRange(1, 6).Draw(rt, "call")
						if p.kind == "login" || p.kind == "change" || p.kind == "new user" {
							at = hx.IntRange(1, 2).Draw(rt, "call")
						}
					}
					w.apply(p, at, mode)
				}
				if logins {
					w.logins("at the end")
				}
			})
		}
	}
	groups := []string{"identity", "new group", "delete", "add", "add", "remove", "remove"}
	hx.Check(t, "groups", hx.Opt{Quick: 6000, Thorough: 300000, Rule: "histories of group and identity operations with faults, every user compared after each step; non-trivial: at least one fault occurred"}, history(groups, false))
	hx.Check(t, "passwords", hx.Opt{Quick: 40, Thorough: 4000, Rule: "the same including new users, logins and password changes, with every password tried at the end; non-trivial: at least one fault occurred"},
		history(append([]string{"new user", "login", "change", "change", "change"}, groups[1:4]...), true))
}
