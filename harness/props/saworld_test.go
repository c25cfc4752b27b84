package props

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	"github.com/cybercryptio/d1-lib/v2/id"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// userM, groupM and tokM are the model of the standalone identity provider.
type userM struct {
	uid, pw string
	old     []string
	scopes  id.Scope
	groups  map[string]bool
	gone    bool
}

type groupM struct {
	gid    string
	scopes id.Scope
}

type tokM struct {
	s  string
	u  *userM
	at time.Time // of issue
}

type saWorld struct {
	f       fat
	c       *hx.Case
	box     *hx.Box
	cfg     id.StandaloneConfig
	s       id.Standalone
	peer    *id.Standalone // another instance on the same storage
	users   []*userM
	groups  []*groupM
	toks    []*tokM
	ids     map[string]bool
	ok      int
	refused int
	member  int // membership changes
}

func newSA(f fat, c *hx.Case, box *hx.Box, cfg id.StandaloneConfig) *saWorld {
	w := &saWorld{f: f, c: c, box: box, cfg: cfg, ids: map[string]bool{}}
	w.restart()
	return w
}

func (w *saWorld) restart() {
	w.box.Restart()
	w.s, w.peer = w.instance(), nil
}

// turn now and then lets the other instance on the same storage make the next calls.
func (w *saWorld) turn(rt *rapid.T) {
	if !hx.Chance(rt, 4, "instance") {
		return
	}
	w.c.Logf("the other instance")
	w.c.Label("two instances")
	if w.peer == nil {
		s := w.instance()
		w.peer = &s
	}
	w.s, *w.peer = *w.peer, w.s
}

func (w *saWorld) instance() id.Standalone {
	s, err := id.NewStandalone(w.cfg, w.box.P)
	if err != nil {
		w.f.Fatalf("NewStandalone fails: %v", err)
	}
	return s
}

// saBase is a store with some users already in it (creating one costs a password hash), made once
// per process inside a bubble with the fake clock at its start.
type saBase struct {
	cfg   id.StandaloneConfig
	snap  hx.Snap
	users []userM
	toks  []tokM
}

func newSABase(t *testing.T, cfg id.StandaloneConfig, scopes ...[]id.Scope) *saBase {
	b := &saBase{cfg: cfg}
	cryptotest.SetGlobalRandom(t, hx.Seed())
	synctest.Test(t, func(t *testing.T) {
		w := newSA(t, &hx.Case{}, hx.NewBox("store"), cfg)
		for _, s := range scopes {
			uid, pw, err := w.s.NewUser(bg, s...)
			if err != nil {
				t.Fatalf("NewUser: %v", err)
			}
			tok, _, err := w.s.LoginUser(bg, uid, pw)
			if err != nil {
				t.Fatalf("login of a user just created: %v", err)
			}
			u := userM{uid: uid, pw: pw, groups: map[string]bool{}}
			for _, x := range s {
				u.scopes |= x
			}
			b.users = append(b.users, u)
			b.toks = append(b.toks, tokM{s: tok, at: time.Now()})
		}
		b.snap = w.box.St.Snapshot()
	})
	return b
}

// world makes a world that starts from the first n users of the base, on a storage provider of the
// given kind. It must be called inside a bubble whose clock has not moved.
func (b *saBase) world(f fat, c *hx.Case, n int, kind string) *saWorld {
	box := hx.NewBox(kind)
	gone := map[string]bool{}
	for i := range b.users {
		gone[b.users[i].uid] = i >= n
	}
	for _, k := range b.snap.Keys() {
		if gone[k.ID] {
			continue
		}
		if err := box.P.Put(bg, []byte(k.ID), k.Type, cloneBytes(b.snap[k])); err != nil {
			f.Fatalf("put: %v", err)
		}
	}
	w := newSA(f, c, box, b.cfg)
	for i := range b.users[:n] {
		u := b.users[i]
		u.groups = map[string]bool{}
		w.users = append(w.users, &u)
		w.ids[u.uid] = true
		w.toks = append(w.toks, &tokM{s: b.toks[i].s, u: &u, at: b.toks[i].at})
	}
	return w
}

func (w *saWorld) valid(s string) *tokM {
	for _, t := range w.toks {
		if t.s == s && !t.u.gone && !time.Now().After(t.at.Add(time.Hour)) {
			return t
		}
	}
	return nil
}

func (w *saWorld) user(uid string) *userM {
	for _, u := range w.users {
		if u.uid == uid && !u.gone {
			return u
		}
	}
	return nil
}

func (w *saWorld) group(gid string) *groupM {
	for _, g := range w.groups {
		if g.gid == gid {
			return g
		}
	}
	return nil
}

func (w *saWorld) name(s string) string {
	for i, u := range w.users {
		if u.uid == s {
			return fmt.Sprintf("user%d", i)
		}
	}
	for i, g := range w.groups {
		if g.gid == s {
			return fmt.Sprintf("group%d", i)
		}
	}
	for i, t := range w.toks {
		if t.s == s {
			return fmt.Sprintf("token%d", i)
		}
	}
	return hx.Short(s)
}

func (w *saWorld) nameAll(s []string) string {
	out := "["
	for _, x := range s {
		out += w.name(x) + " "
	}
	return out + "]"
}

// run performs one call; a refused call must not change storage.
func (w *saWorld) run(what string, ok bool, reads bool, call func() error) error {
	w.f.Helper()
	var before hx.Snap
	if w.box.St != nil {
		before = w.box.St.Snapshot()
		w.box.St.Begin(500)
	}
	err := call()
	if w.box.St != nil {
		w.box.St.Begin(0)
	}
	w.c.Logf("%s -> %v", what, short(err))
	if ok {
		w.ok++
		if err != nil {
			w.f.Fatalf("%s fails: %v", what, err)
		}
	} else {
		w.refused++
		if err == nil {
			w.f.Fatalf("%s succeeds, must fail", what)
		}
	}
	if before != nil && (!ok || reads) {
		if d := before.Diff(w.box.St.Snapshot()); len(d) > 0 {
			w.f.Fatalf("%s changed stored record %v", what, d[0])
		}
	}
	return err
}

func (w *saWorld) newUser(scopes ...id.Scope) *userM {
	w.f.Helper()
	u := &userM{groups: map[string]bool{}}
	for _, s := range scopes {
		u.scopes |= s
	}
	what := fmt.Sprintf("new user %v", hexScopes(scopes))
	w.run(what, true, false, func() (err error) { u.uid, u.pw, err = w.s.NewUser(bg, scopes...); return })
	if u.uid == "" || w.ids[u.uid] {
		w.f.Fatalf("%s: identifier %q is not new", what, u.uid)
	}
	for _, v := range w.users {
		if v.pw == u.pw {
			w.f.Fatalf("%s: password already given to another user", what)
		}
	}
	w.ids[u.uid] = true
	w.users = append(w.users, u)
	return u
}

func (w *saWorld) login(uid, pw string) *tokM {
	w.f.Helper()
	u := w.user(uid)
	ok := u != nil && u.pw == pw
	what := fmt.Sprintf("login %s with %s", w.name(uid), w.pwName(uid, pw))
	var tok string
	var exp int64
	now := time.Now()
	err := w.run(what, ok, true, func() (err error) { tok, exp, err = w.s.LoginUser(bg, uid, pw); return })
	if !ok {
		if !errors.Is(err, id.ErrNotAuthenticated) {
			w.f.Fatalf("%s: error %v, want not authenticated", what, err)
		}
		if tok != "" {
			w.f.Fatalf("%s is refused but returns a token", what)
		}
		return nil
	}
	if d := time.Unix(exp, 0).Sub(now); d > time.Hour || d <= time.Hour-time.Second {
		w.f.Fatalf("%s: token expires in %v, want one hour", what, d)
	}
	t := &tokM{s: tok, u: u, at: now}
	w.toks = append(w.toks, t)
	return t
}

func (w *saWorld) pwName(uid, pw string) string {
	for _, u := range w.users {
		if u.uid == uid && u.pw == pw {
			return "its password"
		}
	}
	for i, u := range w.users {
		if u.pw == pw {
			return fmt.Sprintf("the password of user%d", i)
		}
		for j, o := range u.old {
			if o == pw {
				return fmt.Sprintf("old password %d of user%d", j, i)
			}
		}
	}
	return hx.Short(pw)
}

func (w *saWorld) change(uid, pw string) {
	w.f.Helper()
	u := w.user(uid)
	ok := u != nil && u.pw == pw
	what := fmt.Sprintf("change password of %s given %s", w.name(uid), w.pwName(uid, pw))
	var npw string
	err := w.run(what, ok, false, func() (err error) { npw, err = w.s.ChangeUserPassword(bg, uid, pw); return })
	if !ok {
		if !errors.Is(err, id.ErrNotAuthenticated) {
			w.f.Fatalf("%s: error %v, want not authenticated", what, err)
		}
		if npw != "" {
			w.f.Fatalf("%s is refused but returns a password", what)
		}
		return
	}
	if npw == "" || npw == u.pw {
		w.f.Fatalf("%s: new password %q", what, npw)
	}
	u.old = append(u.old, u.pw)
	u.pw = npw
}

func (w *saWorld) deleteUser(tok, uid string) {
	w.f.Helper()
	ok := w.valid(tok) != nil
	what := fmt.Sprintf("delete %s by %s", w.name(uid), w.name(tok))
	w.run(what, ok, false, func() error { return w.s.DeleteUser(bg, tok, uid) })
	if u := w.user(uid); ok && u != nil {
		u.gone = true
		w.c.Label("user deleted")
	}
}

func (w *saWorld) newGroup(tok string, scopes ...id.Scope) *groupM {
	w.f.Helper()
	t := w.valid(tok)
	g := &groupM{}
	for _, s := range scopes {
		g.scopes |= s
	}
	what := fmt.Sprintf("new group %v by %s", hexScopes(scopes), w.name(tok))
	w.run(what, t != nil, false, func() (err error) { g.gid, err = w.s.NewGroup(bg, tok, scopes...); return })
	if t == nil {
		if g.gid != "" {
			w.f.Fatalf("%s is refused but returns a group", what)
		}
		return nil
	}
	if g.gid == "" || w.ids[g.gid] {
		w.f.Fatalf("%s: identifier %q is not new", what, g.gid)
	}
	w.ids[g.gid] = true
	t.u.groups[g.gid] = true
	w.groups = append(w.groups, g)
	return g
}

func (w *saWorld) membership(add bool, tok, uid string, gids []string) {
	w.f.Helper()
	t, u := w.valid(tok), w.user(uid)
	ok := t != nil && u != nil
	for _, g := range gids {
		ok = ok && t.u.groups[g]
	}
	op := "remove"
	if add {
		op = "add"
	}
	what := fmt.Sprintf("%s %s in %s by %s", op, w.name(uid), w.nameAll(gids), w.name(tok))
	w.run(what, ok, false, func() error {
		if add {
			return w.s.AddUserToGroups(bg, tok, uid, cloneStrings(gids)...)
		}
		return w.s.RemoveUserFromGroups(bg, tok, uid, cloneStrings(gids)...)
	})
	if ok {
		w.member++
		for _, g := range gids {
			if add {
				u.groups[g] = true
			} else {
				delete(u.groups, g)
			}
		}
	}
}

func (w *saWorld) identity(tok string) {
	w.f.Helper()
	t := w.valid(tok)
	what := fmt.Sprintf("identity of %s", w.name(tok))
	var got id.Identity
	w.run(what, t != nil, true, func() (err error) { got, err = w.s.GetIdentity(bg, tok); return })
	if t == nil {
		if got.ID != "" || got.Scopes != 0 || len(got.Groups) > 0 {
			w.f.Fatalf("%s is refused but returns %v", what, got)
		}
		return
	}
	w.same(what, got, t.u)
}

func (w *saWorld) same(what string, got id.Identity, u *userM) {
	w.f.Helper()
	if got.ID != u.uid {
		w.f.Fatalf("%s: identity of %s, want %s", what, w.name(got.ID), w.name(u.uid))
	}
	if got.Scopes != u.scopes {
		w.f.Fatalf("%s: scopes %x, want %x", what, uint64(got.Scopes), uint64(u.scopes))
	}
	for gid := range u.groups {
		g, ok := got.Groups[gid]
		if !ok {
			w.f.Fatalf("%s: %s of %s is missing", what, w.name(gid), w.name(u.uid))
		}
		if m := w.group(gid); g.ID != gid || m == nil || g.Scopes != m.scopes {
			w.f.Fatalf("%s: %s given as %v", what, w.name(gid), g)
		}
	}
	if len(got.Groups) != len(u.groups) {
		w.f.Fatalf("%s: %d groups, want %d", what, len(got.Groups), len(u.groups))
	}
}

// audit resolves every token there is.
func (w *saWorld) audit() {
	w.f.Helper()
	for _, t := range w.toks {
		w.identity(t.s)
	}
}

// nearMisses are passwords that are almost pw.
func nearMiss(rt *rapid.T, pw string) string {
	switch hx.IntRange(0, 11).Draw(rt, "miss") {
	case 0:
		return ""
	case 1:
		return pw + "x"
	case 2:
		return pw[:len(pw)-1]
	case 3:
		return strings.ToUpper(pw)
	case 4:
		return strings.ToLower(pw)
	case 5:
		return pw + "="
	case 6:
		return " " + pw
	case 7:
		return pw + pw
	case 8:
		return strings.NewReplacer("-", "+", "_", "/").Replace(pw)
	case 9:
		return pw + "\n"
	case 10:
		i := hx.IntRange(0, len(pw)-1).Draw(rt, "at")
		return pw[:i] + string(rune(pw[i]^1)) + pw[i+1:]
	default:
		return pw[1:]
	}
}

// forgedToken makes a string that is not a valid token.
func (w *saWorld) forgedToken(rt *rapid.T) string {
	base := hx.SampledFrom(w.toks).Draw(rt, "base").s
	switch hx.IntRange(0, 5).Draw(rt, "forge") {
	case 0:
		return ""
	case 1:
		return base[:hx.IntRange(0, len(base)-4).Draw(rt, "cut")]
	case 2:
		return w.users[0].uid
	case 3:
		return base + base
	case 4:
		return w.foreignToken(hx.SampledFrom(w.users).Draw(rt, "whose").uid)
	default:
		i := hx.IntRange(0, len(base)-2).Draw(rt, "at")
		c := byte('A')
		if base[i] == c {
			c = 'B'
		}
		t := base[:i] + string(c) + base[i+1:]
		if sameToken(base, t) {
			return ""
		}
		return t
	}
}
