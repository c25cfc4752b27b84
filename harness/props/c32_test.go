package props

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync/atomic"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C32: as in C22 a gate lets one storage call of the identity provider go at a time.

type op32 struct {
	kind string
	who  int // whose token or, for login and change, who logs in
	on   int // the user it is about
	gs   []int
	bad  bool // with a wrong password
}

func (o op32) String() string {
	switch o.kind {
	case "identity", "newgroup":
		return fmt.Sprintf("%s by user %d", o.kind, o.who)
	case "login", "change":
		return fmt.Sprintf("%s of user %d (wrong password: %v)", o.kind, o.who, o.bad)
	}
	return fmt.Sprintf("%s by user %d of user %d %v", o.kind, o.who, o.on, o.gs)
}

func (o op32) passwords() bool { return o.kind == "login" || o.kind == "change" }

// writes tells whose record the call may write, or -1.
func (o op32) writes() int {
	switch o.kind {
	case "add", "remove", "delete":
		return o.on
	case "change", "newgroup":
		return o.who
	}
	return -1
}

type base32 struct {
	cfg    id.StandaloneConfig
	snap   hx.Snap
	uids   []string
	pws    []string
	toks   []string
	scopes []id.Scope
	gids   []string
	gsc    map[string]id.Scope
	groups []map[string]bool
}

const newScope32 = id.ScopeIndex | id.ScopeUpdate

func newBase32(t *testing.T) *base32 {
	b := &base32{cfg: saKeysOf(32), gsc: map[string]id.Scope{}}
	st := hx.NewStore()
	s, err := id.NewStandalone(b.cfg, st)
	must := func(err error) {
		if err != nil {
			t.Fatalf("setting up: %v", err)
		}
	}
	must(err)
	b.scopes = []id.Scope{allScopes, id.ScopeDecrypt | id.ScopeIndex, id.ScopeEncrypt}
	for _, sc := range b.scopes {
		uid, pw, err := s.NewUser(bg, sc)
		must(err)
		tok, _, err := s.LoginUser(bg, uid, pw)
		must(err)
		b.uids, b.pws, b.toks, b.groups = append(b.uids, uid), append(b.pws, pw), append(b.toks, tok), append(b.groups, map[string]bool{})
	}
	// user 0 is in groups 0 and 1, user 1 in 0 and 2, user 2 in 2
	for i, m := range [][]int{{0, 1}, {0}, {1, 2}} {
		sc := []id.Scope{id.ScopeDecrypt, 0, allScopes}[i]
		gid, err := s.NewGroup(bg, b.toks[m[0]], sc)
		must(err)
		b.gids = append(b.gids, gid)
		b.gsc[gid] = sc
		for _, u := range m {
			if u != m[0] {
				must(s.AddUserToGroups(bg, b.toks[m[0]], b.uids[u], gid))
			}
			b.groups[u][gid] = true
		}
	}
	b.snap = st.Snapshot()
	return b
}

func (b *base32) names(gs []int) (out []string) {
	for _, g := range gs {
		out = append(out, b.gids[g])
	}
	return
}

type world32 struct {
	*base32
	f    fat
	st   *hx.Store
	gate *hx.Gate
	s    id.Standalone
}

func (b *base32) world(f fat) *world32 {
	w := &world32{base32: b, f: f, st: hx.NewStore()}
	w.st.Restore(b.snap)
	w.gate = hx.NewGate(w.st)
	var err error
	if w.s, err = id.NewStandalone(b.cfg, w.gate); err != nil {
		f.Fatalf("NewStandalone: %v", err)
	}
	return w
}

// res32 is what a call returned.
type res32 struct {
	err error
	id  id.Identity
	s   string // a token, password or group
}

func (w *world32) do(c context.Context, o op32, pw string) (r res32) {
	if o.bad {
		pw = "no such password"
	}
	switch o.kind {
	case "identity":
		r.id, r.err = w.s.GetIdentity(c, w.toks[o.who])
	case "login":
		r.s, _, r.err = w.s.LoginUser(c, w.uids[o.who], pw)
	case "change":
		r.s, r.err = w.s.ChangeUserPassword(c, w.uids[o.who], pw)
	case "add":
		r.err = w.s.AddUserToGroups(c, w.toks[o.who], w.uids[o.on], w.names(o.gs)...)
	case "remove":
		r.err = w.s.RemoveUserFromGroups(c, w.toks[o.who], w.uids[o.on], w.names(o.gs)...)
	case "delete":
		r.err = w.s.DeleteUser(c, w.toks[o.who], w.uids[o.on])
	case "newgroup":
		r.s, r.err = w.s.NewGroup(c, w.toks[o.who], newScope32)
	}
	return
}

// user32 is what is true of a user.
type user32 struct {
	groups map[string]bool
	pw     string
	gone   bool
}

func (u user32) clone() user32 {
	g := map[string]bool{}
	for k, v := range u.groups {
		g[k] = v
	}
	u.groups = g
	return u
}

type state32 struct {
	users       []user32
	from, until int
}

func (w *world32) start() (s state32) {
	for i := range w.uids {
		s.users = append(s.users, user32{groups: w.groups[i], pw: w.pws[i]}.clone())
	}
	s.from = -1
	return
}

func (s state32) clone() state32 {
	us := s.users
	s.users = nil
	for _, u := range us {
		s.users = append(s.users, u.clone())
	}
	return s
}

// allows tells whether a call succeeds in a state.
func (w *world32) allows(s state32, o op32, pw string) bool {
	u := s.users[o.who]
	if u.gone {
		return false
	}
	switch o.kind {
	case "login", "change":
		return !o.bad && u.pw == pw
	case "add", "remove":
		for _, g := range w.names(o.gs) {
			if !u.groups[g] {
				return false
			}
		}
		return !s.users[o.on].gone
	}
	return true
}

func (w *world32) apply(s *state32, o op32, r res32) {
	switch o.kind {
	case "change":
		s.users[o.who].pw = r.s
	case "add", "remove":
		for _, g := range w.names(o.gs) {
			s.users[o.on].groups[g] = o.kind == "add"
		}
	case "delete":
		s.users[o.on].gone = true
	case "newgroup":
		s.users[o.who].groups[r.s] = true
	}
}

// is tells whether an identity is that of a user in a state.
func (w *world32) is(u user32, n int, got id.Identity) error {
	if u.gone {
		return fmt.Errorf("a deleted user resolves")
	}
	if got.ID != w.uids[n] || got.Scopes != w.scopes[n] {
		return fmt.Errorf("user %d resolves as %q with scopes %x", n, got.ID, uint64(got.Scopes))
	}
	has := 0
	for g, in := range u.groups {
		if !in {
			continue
		}
		has++
		x, ok := got.Groups[g]
		if !ok {
			return fmt.Errorf("user %d resolves without group %s", n, w.group(g))
		}
		if x.ID != g || x.Scopes != w.scopeOf(g) {
			return fmt.Errorf("group %s of user %d has %q and scopes %x", w.group(g), n, x.ID, uint64(x.Scopes))
		}
	}
	if has != len(got.Groups) {
		return fmt.Errorf("user %d resolves with %d groups, not %d", n, len(got.Groups), has)
	}
	return nil
}

func (w *world32) group(g string) string {
	for i, x := range w.gids {
		if x == g {
			return fmt.Sprint(i)
		}
	}
	return g
}

func (w *world32) scopeOf(g string) id.Scope {
	if s, ok := w.gsc[g]; ok {
		return s
	}
	return newScope32
}

// audit compares a user with the model.
func (w *world32) audit(u user32, n int, passwords bool, trace any) {
	w.f.Helper()
	got, err := w.s.GetIdentity(bg, w.toks[n])
	if u.gone {
		if err == nil {
			w.f.Fatalf("user %d was deleted and resolves\n%v", n, trace)
		}
		for _, k := range w.st.Snapshot().Keys() {
			if k.ID == w.uids[n] {
				w.f.Fatalf("user %d was deleted and has record %v\n%v", n, k, trace)
			}
		}
		return
	}
	if err != nil {
		w.f.Fatalf("user %d does not resolve: %v\n%v", n, err, trace)
	}
	if err := w.is(u, n, got); err != nil {
		w.f.Fatalf("afterwards: %v\n%v", err, trace)
	}
	if passwords {
		if _, _, err := w.s.LoginUser(bg, w.uids[n], u.pw); err != nil {
			w.f.Fatalf("afterwards user %d does not log in: %v\n%v", n, err, trace)
		}
	}
}

// sequence runs a call beside a sequence of calls.
func (w *world32) sequence(a op32, seq []op32, choose func([]hx.Step) int) {
	w.f.Helper()
	var steps atomic.Int64
	states := []state32{w.start()}
	var ar res32
	var aend int
	results := make([]res32, len(seq))
	may := make([]bool, len(seq))
	first := -1
	trace, err := w.gate.Schedule([]func(context.Context){
		func(c context.Context) {
			ar = w.do(c, a, w.pws[a.who])
			aend = int(steps.Load())
		},
		func(c context.Context) {
			for i, o := range seq {
				next := states[len(states)-1].clone()
				next.from = int(steps.Load())
				may[i] = w.allows(next, o, next.users[o.who].pw)
				results[i] = w.do(c, o, next.users[o.who].pw)
				states[len(states)-1].until = int(steps.Load())
				if results[i].err == nil {
					w.apply(&next, o, results[i])
				}
				states = append(states, next)
			}
		},
	}, 600, func(waiting []hx.Step) int {
		n := choose(waiting)
		if waiting[n].Op == 0 && first < 0 {
			first = int(steps.Load())
		}
		steps.Add(1)
		return n
	})
	if err != nil {
		w.f.Fatalf("%v", err)
	}
	states[len(states)-1].until = int(steps.Load()) + 1
	if first < 0 {
		first = 0
	}
	what := func() string { return fmt.Sprintf("%v, from step %d to %d beside %v\n%v", a, first, aend, seq, trace) }
	some, always, match := false, true, error(nil)
	matched := false
	for _, s := range states {
		if s.until < first || s.from > aend {
			continue
		}
		ok := w.allows(s, a, w.pws[a.who])
		some, always = some || ok, always && ok
		if a.kind == "identity" && ar.err == nil {
			if err := w.is(s.users[a.who], a.who, ar.id); err != nil {
				match = err
			} else {
				matched = true
			}
		}
	}
	if ar.err == nil && !some {
		w.f.Fatalf("succeeds though at no time while it ran it was allowed: %s", what())
	}
	if ar.err != nil && always {
		w.f.Fatalf("fails though it was allowed all the time: %v: %s", ar.err, what())
	}
	if a.kind == "identity" && ar.err == nil && !matched {
		w.f.Fatalf("the identity is that of no time while it ran: %v: %s", match, what())
	}
	conflict := false // the call and the sequence write one user, or one decides about the other's success
	for i, o := range seq {
		conflict = conflict || a.writes() >= 0 && (a.writes() == o.writes() || a.writes() == o.who || a.writes() == o.on)
		if !conflict && (results[i].err == nil) != may[i] {
			w.f.Fatalf("%v: %v (allowed: %v) beside %s", o, results[i].err, may[i], what())
		}
	}
	last := states[len(states)-1].clone()
	passwords := map[int]bool{}
	for _, o := range append([]op32{a}, seq...) {
		if o.passwords() {
			passwords[o.who] = true
		}
	}
	if a.kind == "delete" && ar.err == nil {
		last.users[a.on].gone = true
		w.audit(last.users[a.on], a.on, false, what())
	}
	if conflict {
		return
	}
	if ar.err == nil {
		w.apply(&last, a, ar)
	}
	for n := range last.users {
		w.audit(last.users[n], n, passwords[n], what())
	}
}

// free runs calls by any callers; what is judged is what holds whatever the order of effects.
func (w *world32) free(ops []op32, choose func([]hx.Step) int) (trace []hx.Step) {
	w.f.Helper()
	res := make([]res32, len(ops))
	var fs []func(context.Context)
	for i, o := range ops {
		fs = append(fs, func(c context.Context) { res[i] = w.do(c, o, w.pws[o.who]) })
	}
	trace, err := w.gate.Schedule(fs, 600, choose)
	if err != nil {
		w.f.Fatalf("%v", err)
	}
	// the groups a user may ever have been in
	ever := w.start()
	for again := true; again; {
		again = false
		for i, o := range ops {
			switch o.kind {
			case "add":
				if w.allows(ever, o, "") {
					for _, g := range w.names(o.gs) {
						again = again || !ever.users[o.on].groups[g]
						ever.users[o.on].groups[g] = true
					}
				}
			case "newgroup":
				if res[i].err == nil {
					again = again || !ever.users[o.who].groups[res[i].s]
					ever.users[o.who].groups[res[i].s] = true
				}
			}
		}
	}
	failed := map[int]bool{} // users whose group creations failed: the group may be theirs all the same
	touched := map[int]bool{}
	deletes := map[int]bool{}
	changes := map[int]bool{}
	writers := map[int]int{}
	issued := map[int]map[string]bool{}
	first := w.start()
	for i, o := range ops {
		if n := o.writes(); n >= 0 && w.allows(ever, o, w.pws[o.who]) {
			writers[n]++
			if o.kind == "remove" || o.kind == "delete" {
				touched[n] = true
			}
			if o.kind == "delete" {
				deletes[n] = true
			}
			if o.kind == "change" {
				changes[n] = true
			}
		}
		if o.kind == "newgroup" && res[i].err != nil {
			failed[o.who] = true
		}
		if o.kind == "change" && res[i].err == nil {
			if issued[o.who] == nil {
				issued[o.who] = map[string]bool{}
			}
			issued[o.who][res[i].s] = true
		}
	}
	inside := func(n int, got id.Identity) {
		w.f.Helper()
		if got.ID != w.uids[n] || got.Scopes != w.scopes[n] {
			w.f.Fatalf("user %d resolves as %q with scopes %x\n%v %v", n, got.ID, uint64(got.Scopes), ops, trace)
		}
		for g, x := range got.Groups {
			if !ever.users[n].groups[g] && !(failed[n] && w.group(g) == g) {
				w.f.Fatalf("user %d resolves with group %s, to which nobody who might has added it\n%v %v", n, w.group(g), ops, trace)
			}
			if x.ID != g || x.Scopes != w.scopeOf(g) {
				w.f.Fatalf("user %d: group %s has %q and scopes %x\n%v %v", n, w.group(g), x.ID, uint64(x.Scopes), ops, trace)
			}
		}
	}
	for i, o := range ops {
		if res[i].err == nil && !w.allows(ever, o, w.pws[o.who]) {
			w.f.Fatalf("%v succeeds though the caller never might\n%v %v", o, ops, trace)
		}
		excused := deletes[o.who] || deletes[o.on] && (o.kind == "add" || o.kind == "remove") || touched[o.who] && (o.kind == "add" || o.kind == "remove") || o.passwords() && changes[o.who]
		if res[i].err != nil && w.allows(first, o, w.pws[o.who]) && !excused {
			w.f.Fatalf("%v fails though nothing stands in its way: %v\n%v %v", o, res[i].err, ops, trace)
		}
		if o.kind == "identity" && res[i].err == nil {
			inside(o.who, res[i].id)
		}
	}
	for n := range w.uids {
		gone := false
		for i, o := range ops {
			gone = gone || o.kind == "delete" && o.on == n && res[i].err == nil
		}
		if gone {
			w.audit(user32{gone: true}, n, false, fmt.Sprint(ops, trace))
			continue
		}
		if deletes[n] {
			continue // refused, because the caller was deleted
		}
		got, err := w.s.GetIdentity(bg, w.toks[n])
		if err != nil {
			w.f.Fatalf("afterwards user %d, whom nobody deleted, does not resolve: %v\n%v %v", n, err, ops, trace)
		}
		inside(n, got)
		if writers[n] == 0 {
			w.audit(first.users[n], n, false, fmt.Sprint(ops, trace))
		}
		if writers[n] == 1 {
			// nothing to conflict with: exactly its effect, if it succeeded
			for i, o := range ops {
				if o.writes() == n && res[i].err == nil {
					u := first.clone()
					w.apply(&u, o, res[i])
					w.audit(u.users[n], n, o.kind == "change", fmt.Sprint(ops, trace))
				}
			}
		}
		if changes[n] {
			ok := false
			for pw := range issued[n] {
				_, _, err := w.s.LoginUser(bg, w.uids[n], pw)
				ok = ok || err == nil
			}
			_, _, err := w.s.LoginUser(bg, w.uids[n], w.pws[n])
			if ok && err == nil {
				w.f.Fatalf("user %d has two passwords\n%v %v", n, ops, trace)
			}
			if !ok && err != nil {
				w.f.Fatalf("user %d has none of its passwords\n%v %v", n, ops, trace)
			}
		}
	}
	return trace
}

func TestC32(t *testing.T) {
	base := newBase32(t)
	calls := []op32{}
	for u := 0; u < 3; u++ {
		calls = append(calls, op32{kind: "identity", who: u}, op32{kind: "newgroup", who: u})
		for v := 0; v < 3; v++ {
			calls = append(calls, op32{kind: "delete", who: u, on: v})
			for _, gs := range [][]int{{0}, {2}, {0, 2}, {0, 1}} {
				calls = append(calls, op32{kind: "add", who: u, on: v, gs: gs}, op32{kind: "remove", who: u, on: v, gs: gs})
			}
		}
	}
	pws := []op32{{kind: "login", who: 1}, {kind: "login", who: 1, bad: true}, {kind: "change", who: 1}, {kind: "change", who: 1, bad: true}, {kind: "login", who: 2}, {kind: "change", who: 2}}
	seqs := [][]op32{}
	{
		add, rem := func(v int, gs ...int) op32 { return op32{kind: "add", who: 0, on: v, gs: gs} }, func(v int, gs ...int) op32 { return op32{kind: "remove", who: 0, on: v, gs: gs} }
		del := op32{kind: "delete", who: 0, on: 1}
		newg := op32{kind: "newgroup", who: 1}
		seqs = append(seqs, []op32{rem(1, 0)}, []op32{rem(1, 0), add(1, 0)}, []op32{add(2, 0), rem(1, 0)}, []op32{rem(1, 0), add(2, 0)}, []op32{add(1, 1), rem(1, 0)}, []op32{rem(1, 0), add(1, 1)}, []op32{rem(1, 0), del}, []op32{del, add(2, 1)}, []op32{add(2, 0, 1), rem(2, 1)}, []op32{newg, rem(1, 0)})
	}
	change := op32{kind: "change", who: 1}
	pwseqs := [][]op32{{change}, {change, change}, {change, {kind: "remove", who: 0, on: 1, gs: []int{0}}}, {{kind: "remove", who: 0, on: 1, gs: []int{0}}, change}, {change, {kind: "delete", who: 0, on: 1}}, {{kind: "newgroup", who: 1}, change}}
	hx.EnumAll(t, "beside a sequence", "one call of each kind by and about each of three users beside one or two calls of another, under interleavings of their storage calls (every one up to a limit, drawn ones beyond); the call must get, and be judged by, what was true at some time while it ran", false, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		run := func(a op32, seq []op32, limit int) {
			do(fmt.Sprintf("%v beside %v", a, seq), true, func(f testing.TB, c *hx.Case) {
				n, ok := schedules(limit, func(choose func([]hx.Step) int) { base.world(f).sequence(a, seq, choose) })
				if !ok {
					rnd := rand.New(rand.NewPCG(hx.Seed(), uint64(n)))
					for i := 0; i < limit; i++ {
						base.world(f).sequence(a, seq, func(waiting []hx.Step) int { return rnd.IntN(len(waiting)) })
					}
				}
				c.Logf("%d interleavings, complete: %v", n, ok)
			})
		}
		for _, a := range calls {
			for _, seq := range seqs {
				run(a, seq, hx.Scale(22, 700))
			}
			for _, seq := range pwseqs[:hx.Scale(2, 6)] {
				if !hx.Thorough() && a.who != 1 && a.on != 1 {
					continue
				}
				run(a, seq, hx.Scale(2, 30))
			}
		}
		for _, a := range pws {
			for _, seq := range append(append([][]op32{}, seqs[:hx.Scale(2, 9)]...), pwseqs...) {
				run(a, seq, hx.Scale(5, 60))
			}
		}
	})
	for _, k := range []struct {
		name  string
		q, th int
	}{{"memberships", 6000, 400000}, {"passwords", 160, 6000}} {
		hx.Check(t, k.name, hx.Opt{Quick: k.q, Thorough: k.th, Rule: "two to four concurrent calls on three users and their groups, storage calls interleaved as drawn; what holds whatever the order of effects is judged; non-trivial: a call ran between the storage calls of another"}, func(rt *rapid.T, c *hx.Case) {
			var ops []op32
			for n := hx.IntRange(2, 4).Draw(rt, "calls"); n > 0; n-- {
				o := op32{kind: hx.SampledFrom([]string{"identity", "add", "add", "remove", "remove", "newgroup", "delete"}).Draw(rt, "kind"), who: hx.IntRange(0, 2).Draw(rt, "who"), on: hx.IntRange(0, 2).Draw(rt, "on")}
				if k.name == "passwords" && hx.Chance(rt, 2, "password") {
					o.kind = hx.SampledFrom([]string{"login", "change", "change"}).Draw(rt, "password call")
					o.bad = hx.Chance(rt, 6, "wrong")
				}
				if o.kind == "add" || o.kind == "remove" {
					for g := range base.gids {
						if hx.Chance(rt, 3, "group") {
							o.gs = append(o.gs, g)
						}
					}
				}
				ops = append(ops, o)
				c.Logf("%v", o)
			}
			tr := base.world(rt).free(ops, func(waiting []hx.Step) int { return hx.IntRange(0, len(waiting)-1).Draw(rt, "next") })
			if interleaved(tr) {
				c.NonTrivial()
			}
		})
	}
}
