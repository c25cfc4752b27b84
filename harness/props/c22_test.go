package props

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"testing"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C22: a gate lets one storage call go at a time, so that an interleaving is a list of choices.
// Small cases are run with every list of choices, larger ones with drawn lists.

type op22 struct {
	kind string
	tok  string
	n    int // content or keyword
	gs   []string
}

func (o op22) String() string {
	return fmt.Sprintf("%s by %s %d %q", o.kind, o.tok, o.n, o.gs)
}

var objectKinds22 = []string{"decrypt", "update", "delete", "add", "remove", "list", "authorize"}

var tokens22 = []string{"alice", "bob", "gina", "carol", "dave", "mia"}

var need22 = map[string]id.Scope{"decrypt": id.ScopeDecrypt, "update": id.ScopeUpdate, "delete": id.ScopeDelete, "add": id.ScopeModifyAccessGroups,
	"remove": id.ScopeModifyAccessGroups, "list": id.ScopeGetAccessGroups, "authorize": id.ScopeGetAccessGroups}

type objects22 struct {
	f     fat
	gate  *hx.Gate
	box   *hx.Box
	idp   *hx.IDP
	d     d1.D1
	oid   uuid.UUID
	other uuid.UUID
	pts   map[string]int
}

func content22(n int) (pt, ad []byte) {
	return hx.Bytes(uint64(n), 20+n*16, 0), []byte(fmt.Sprintf("associated data %d", n))
}

func newObjects22(f fat, kind string) *objects22 {
	box := hx.NewBox(kind)
	w := &objects22{f: f, box: box, gate: hx.NewGate(box.P), idp: hx.NewIDP(), pts: map[string]int{}}
	for _, t := range tokens22 {
		i := &id.Identity{ID: "id of " + t, Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
		switch t {
		case "gina":
			i.Groups["group"] = id.AccessGroup{ID: "group", Scopes: allScopes}
			i.Groups["weak group"] = id.AccessGroup{ID: "weak group", Scopes: id.ScopeDecrypt}
		case "mia":
			i.Scopes = id.ScopeDecrypt | id.ScopeGetAccessGroups
			i.Groups["group"] = id.AccessGroup{ID: "group", Scopes: id.ScopeDecrypt}
		}
		w.idp.Tokens[t] = i
	}
	kp := key.NewStatic(keysOf(22))
	var err error
	if w.d, err = d1.New(bg, &kp, w.gate, w.idp); err != nil {
		f.Fatalf("New: %v", err)
	}
	enc := func(n int) uuid.UUID {
		pt, ad := content22(n)
		oid, err := w.d.Encrypt(bg, "alice", &data.Object{Plaintext: pt, AssociatedData: ad}, "id of bob", "group", "id of mia")
		if err != nil {
			f.Fatalf("Encrypt: %v", err)
		}
		return oid
	}
	w.oid, w.other = enc(0), enc(99)
	return w
}

// check runs the operations under a schedule and judges everything.
func (w *objects22) check(ops []op22, choose func([]hx.Step) int) (trace []hx.Step) {
	w.f.Helper()
	// who may ever be admitted, and which contents may ever be stored
	granted := map[string]bool{"id of alice": true, "id of bob": true, "group": true, "id of mia": true}
	for again := true; again; {
		again = false
		for _, o := range ops {
			if o.kind == "add" && w.may(o, granted) {
				for _, g := range o.gs {
					again = again || !granted[g]
					granted[g] = true
				}
			}
		}
	}
	contents := map[int]bool{0: true}
	writers := 0
	for _, o := range ops {
		if o.kind == "update" && w.may(o, granted) {
			contents[o.n] = true
		}
		if o.kind != "decrypt" && o.kind != "list" && o.kind != "authorize" && w.may(o, granted) {
			writers++
		}
	}
	look := func(what string, o data.Object, err error) int {
		if err != nil {
			return -1
		}
		for n := range contents {
			pt, ad := content22(n)
			if eq(o.Plaintext, pt) && eq(o.AssociatedData, ad) {
				return n
			}
		}
		w.f.Fatalf("%s: returns %s %q, which was never stored together for this object (stored contents: %v)", what, digest(o.Plaintext), o.AssociatedData, contents)
		return -1
	}
	errs := make([]error, len(ops))
	objs := make([]data.Object, len(ops))
	lists := make([]map[string]struct{}, len(ops))
	var fs []func(context.Context)
	for i, o := range ops {
		fs = append(fs, func(c context.Context) {
			objs[i], lists[i], errs[i] = w.do(c, o)
		})
	}
	trace, err := w.gate.Schedule(fs, 200, choose)
	if err != nil {
		w.f.Fatalf("%v", err)
	}
	deleted := false
	first := map[string]bool{"id of alice": true, "id of bob": true, "group": true, "id of mia": true}
	deletes, removes, updates := false, false, false
	for _, o := range ops {
		deletes = deletes || o.kind == "delete" && w.may(o, granted)
		removes = removes || o.kind == "remove" && w.may(o, granted)
		updates = updates || o.kind == "update" && w.may(o, granted) // makes decryptions between its two writes fail
	}
	for i, o := range ops {
		if err := errs[i]; err != nil && !removes && !(updates && o.kind == "decrypt") && w.may(o, first) && !(deletes && (errors.Is(err, d1.ErrObjectNotFound) || errors.Is(err, d1.ErrAccessNotFound))) {
			w.f.Fatalf("%v, by a caller who is on the list all the time, fails (a deletion runs meanwhile: %v): %v\n%v", o, deletes, err, trace)
		}
		if errs[i] == nil && o.kind != "delete" && !w.may(o, granted) {
			w.f.Fatalf("%v succeeds though no version of the access list ever admitted the caller\n%v", o, trace)
		}
		if o.kind == "decrypt" {
			look(o.String(), objs[i], errs[i])
		}
		for g := range lists[i] {
			if !granted[g] {
				w.f.Fatalf("%v: the access list contains %q, which nobody added", o, g)
			}
		}
		deleted = deleted || (o.kind == "delete" && errs[i] == nil && w.may(o, granted))
	}
	// afterwards
	got, err := w.d.Decrypt(bg, "alice", w.oid)
	n := look("Decrypt afterwards", got, err)
	_, lerr := w.d.GetAccessGroups(bg, "alice", w.oid)
	if deleted {
		if err == nil || lerr == nil {
			w.f.Fatalf("an object whose deletion was acknowledged is back: %v %v\n%v", err, lerr, trace)
		}
		if w.box.St != nil {
			for _, k := range w.box.St.Snapshot().Keys() {
				if k.ID == string(w.oid[:]) {
					w.f.Fatalf("an object whose deletion was acknowledged has a record %v left\n%v", k, trace)
				}
			}
		}
		for _, t := range tokens22 {
			if _, err := w.d.Decrypt(bg, t, w.oid); err == nil {
				w.f.Fatalf("a deleted object is readable by %s", t)
			}
		}
	}
	if writers <= 1 {
		// nothing to conflict with: the one write is fully in effect, and so is what was there
		for i, o := range ops {
			if o.kind == "update" && w.may(o, granted) && (errs[i] != nil || n != o.n) {
				w.f.Fatalf("%v as the only write: %v, and then content %d (%v)\n%v", o, errs[i], n, err, trace)
			}
			if o.kind == "delete" && w.may(o, granted) && errs[i] != nil {
				w.f.Fatalf("%v as the only write: %v\n%v", o, errs[i], trace)
			}
		}
		if !deleted && err != nil {
			w.removedAlice(ops, err, trace)
		}
	}
	pt, ad := content22(99)
	if o, err := w.d.Decrypt(bg, "alice", w.other); err != nil || !eq(o.Plaintext, pt) || !eq(o.AssociatedData, ad) {
		w.f.Fatalf("another object has changed: %v", err)
	}
	return trace
}

// state22 is what is true of the object between two calls of a sequence.
type state22 struct {
	list    map[string]bool
	content int
	gone    bool
	from    int // the step before which the call that leads to it had not begun
	until   int // the step by which the call that leads away from it had ended
}

func (w *objects22) admits(s state22, o op22) bool { return !s.gone && w.may(o, s.list) }

// checkSequence runs one call beside a sequence of calls by alice. Since the sequence has one caller,
// what is true between its calls is known; what the call beside it gets must be true of one of the
// states that there were while it ran.
func (w *objects22) checkSequence(a op22, seq []op22, choose func([]hx.Step) int) (trace []hx.Step) {
	w.f.Helper()
	var steps atomic.Int64
	states := []state22{{list: map[string]bool{"id of alice": true, "id of bob": true, "group": true, "id of mia": true}, from: -1}}
	var aerr error
	var obj data.Object
	var list map[string]struct{}
	var aend int
	serrs := make([]error, len(seq))
	first := -1
	trace, err := w.gate.Schedule([]func(context.Context){
		func(c context.Context) {
			obj, list, aerr = w.do(c, a)
			aend = int(steps.Load())
		},
		func(c context.Context) {
			for i, o := range seq {
				next := states[len(states)-1]
				next.from = int(steps.Load())
				_, _, serrs[i] = w.do(c, o)
				states[len(states)-1].until = int(steps.Load())
				l := map[string]bool{}
				for g, is := range next.list {
					l[g] = is
				}
				switch o.kind {
				case "update":
					next.content = o.n
				case "add", "remove":
					for _, g := range o.gs {
						l[g] = o.kind == "add"
					}
				case "delete":
					next.gone = true
				}
				next.list = l
				states = append(states, next)
			}
		},
	}, 400, func(waiting []hx.Step) int {
		n := choose(waiting)
		if waiting[n].Op == 0 && first < 0 {
			first = int(steps.Load())
		}
		steps.Add(1)
		return n
	})
	if err != nil {
		w.f.Fatalf("%v", err)
	}
	states[len(states)-1].until = int(steps.Load()) + 1
	writes := a.kind != "decrypt" && a.kind != "list" && a.kind != "authorize"
	if first < 0 {
		if aerr == nil {
			w.f.Fatalf("%v succeeds without storage\n%v", a, trace)
		}
		first = 0
	}
	var during []state22
	some, always := false, true
	for _, s := range states {
		if s.until < first || s.from > aend {
			continue
		}
		during = append(during, s)
		some = some || w.admits(s, a)
		always = always && w.admits(s, a)
	}
	for i, o := range seq {
		if serrs[i] != nil && !writes {
			w.f.Fatalf("%v, beside %v, which writes nothing: %v\n%v", o, a, serrs[i], trace)
		}
		if o.kind == "update" && a.kind == "decrypt" {
			always = false
		}
	}
	if aerr == nil && !some && a.kind != "delete" {
		w.f.Fatalf("%v succeeds though the caller was on the list at no time while it ran (it ran from step %d to %d beside %v)\n%v", a, first, aend, seq, trace)
	}
	if aerr != nil && always && !writes {
		w.f.Fatalf("%v fails though the caller was on the list all the time (it ran from step %d to %d beside %v): %v\n%v", a, first, aend, seq, aerr, trace)
	}
	if aerr == nil && a.kind == "decrypt" {
		ok := false
		for _, s := range during {
			pt, ad := content22(s.content)
			ok = ok || w.admits(s, a) && eq(obj.Plaintext, pt) && eq(obj.AssociatedData, ad)
		}
		if !ok {
			w.f.Fatalf("%v returns %s %q: at no time while it ran (steps %d to %d beside %v) was this the content and the caller on the list\n%v", a, digest(obj.Plaintext), obj.AssociatedData, first, aend, seq, trace)
		}
	}
	if aerr == nil && a.kind == "list" {
		ok := false
		for _, s := range during {
			n, all := 0, true
			for g, is := range s.list {
				if is {
					n++
					_, there := list[g]
					all = all && there
				}
			}
			ok = ok || !s.gone && all && n == len(list)
		}
		if !ok {
			w.f.Fatalf("%v returns %v, which was the list at no time while it ran (steps %d to %d beside %v)\n%v", a, list, first, aend, seq, trace)
		}
	}
	if !writes || aerr != nil && !some {
		last := states[len(states)-1]
		got, err := w.d.Decrypt(bg, "alice", w.oid)
		pt, ad := content22(last.content)
		if last.gone != (err != nil) || err == nil && !(eq(got.Plaintext, pt) && eq(got.AssociatedData, ad)) {
			w.f.Fatalf("after %v beside %v the object is %s %q, %v\n%v", seq, a, digest(got.Plaintext), got.AssociatedData, err, trace)
		}
		for _, tok := range tokens22 {
			o := op22{kind: "authorize", tok: tok}
			if err := w.d.AuthorizeIdentity(bg, tok, w.oid); (err == nil) != w.admits(last, o) {
				w.f.Fatalf("after %v beside %v: %s is authorized: %v\n%v", seq, a, tok, err, trace)
			}
		}
	}
	return trace
}

func (w *objects22) do(c context.Context, o op22) (obj data.Object, list map[string]struct{}, err error) {
	switch o.kind {
	case "decrypt":
		obj, err = w.d.Decrypt(c, o.tok, w.oid)
	case "update":
		pt, ad := content22(o.n)
		err = w.d.Update(c, o.tok, w.oid, &data.Object{Plaintext: pt, AssociatedData: ad})
	case "delete":
		err = w.d.Delete(c, o.tok, w.oid)
	case "add":
		err = w.d.AddGroupsToAccess(c, o.tok, w.oid, o.gs...)
	case "remove":
		err = w.d.RemoveGroupsFromAccess(c, o.tok, w.oid, o.gs...)
	case "list":
		list, err = w.d.GetAccessGroups(c, o.tok, w.oid)
	case "authorize":
		err = w.d.AuthorizeIdentity(c, o.tok, w.oid)
	}
	return
}

func (w *objects22) removedAlice(ops []op22, err error, trace []hx.Step) {
	for _, o := range ops {
		if o.kind == "remove" {
			for _, g := range o.gs {
				if g == "id of alice" {
					return
				}
			}
		}
	}
	w.f.Fatalf("the object is lost to its creator: %v\n%v", err, trace)
}

// may tells whether a caller might be admitted by some version of the access list.
func (w *objects22) may(o op22, granted map[string]bool) bool {
	i := w.idp.Tokens[o.tok]
	need := need22[o.kind]
	if !hasScope(i.Scopes, need) {
		return false
	}
	if granted[i.ID] {
		return true
	}
	for g, x := range i.Groups {
		if granted[g] && hasScope(x.Scopes, need) {
			return true
		}
	}
	return false
}

// schedules calls run with every list of choices there is.
func schedules(limit int, run func(choose func([]hx.Step) int)) (n int, complete bool) {
	var prefix []int
	for {
		var taken, width []int
		run(func(waiting []hx.Step) int {
			k := len(taken)
			x := 0
			if k < len(prefix) {
				x = prefix[k]
			}
			if x >= len(waiting) {
				x = 0 // a schedule that does not repeat itself exactly
			}
			taken, width = append(taken, x), append(width, len(waiting))
			return x
		})
		n++
		i := len(taken) - 1
		for i >= 0 && taken[i]+1 >= width[i] {
			i--
		}
		if i < 0 {
			return n, true
		}
		if n >= limit {
			return n, false
		}
		prefix = append(append([]int{}, taken[:i]...), taken[i]+1)
	}
}

type index22 struct {
	f    fat
	gate *hx.Gate
	x    index.SecureIndex
	was  map[string][]string
}

func newIndex22(f fat, p *hx.Box, was map[string][]string) *index22 {
	w := &index22{f: f, gate: hx.NewGate(p.P), was: was}
	idp := hx.NewIDP()
	idp.Tokens["t"] = &id.Identity{ID: "me", Scopes: id.ScopeIndex, Groups: map[string]id.AccessGroup{}}
	kp := key.NewStatic(keysOf(22))
	var err error
	if w.x, err = index.NewSecureIndex(bg, &kp, w.gate, idp); err != nil {
		f.Fatalf("NewSecureIndex: %v", err)
	}
	for kw, ids := range was {
		for _, s := range ids {
			if err := w.x.Add(bg, "t", kw, s); err != nil {
				f.Fatalf("Add: %v", err)
			}
		}
	}
	return w
}

func kw22(n int) string { return []string{"keyword", "keyword ", "keyword0"}[n%3] }

func (w *index22) check(ops []op22, choose func([]hx.Step) int) (trace []hx.Step) {
	w.f.Helper()
	errs, got := make([]error, len(ops)), make([][]string, len(ops))
	var fs []func(context.Context)
	for i, o := range ops {
		fs = append(fs, func(c context.Context) {
			switch o.kind {
			case "add":
				errs[i] = w.x.Add(c, "t", kw22(o.n), o.gs[0])
			case "delete":
				errs[i] = w.x.Delete(c, "t", kw22(o.n), o.gs[0])
			default:
				got[i], errs[i] = w.x.Search(c, "t", kw22(o.n))
			}
		})
	}
	trace, err := w.gate.Schedule(fs, 600, choose)
	if err != nil {
		w.f.Fatalf("%v", err)
	}
	for kw := 0; kw < 3; kw++ {
		least, most := count(w.was[kw22(kw)]), count(w.was[kw22(kw)])
		want := count(w.was[kw22(kw)])
		writes, deletes := 0, 0
		for i, o := range ops {
			if o.n%3 == kw && o.kind != "search" {
				writes++
			}
			if o.n%3 == kw && o.kind == "delete" {
				deletes++
				delete(want, o.gs[0])
				delete(least, o.gs[0])
			}
			if o.kind == "add" && o.n%3 == kw {
				most[o.gs[0]]++
				if errs[i] == nil {
					want[o.gs[0]]++
				}
			}
		}
		for i, o := range ops {
			if o.kind != "search" || o.n%3 != kw {
				continue
			}
			if errs[i] != nil {
				w.f.Fatalf("Search of %q fails: %v\n%v", kw22(kw), errs[i], trace)
			}
			c := count(got[i])
			for s, n := range c {
				if n > most[s] && (most[s] == 0 || deletes == 0 || writes == 1) {
					w.f.Fatalf("Search of %q returns %q %d times, it was added %d times\n%v", kw22(kw), s, n, most[s], trace)
				}
			}
			for s, n := range least {
				if c[s] < n && deletes == 0 { // a search that stands on an entry being taken out may end there

					w.f.Fatalf("Search of %q returns %q %d times, it had been added %d times before\n%v", kw22(kw), s, c[s], n, trace)
				}
			}
		}
		after, err := w.x.Search(bg, "t", kw22(kw))
		if deletes > 0 && writes > 1 {
			// a deletion and other writes on one keyword: nothing is promised but that nothing foreign appears
			for s := range count(after) {
				if most[s] == 0 {
					w.f.Fatalf("afterwards keyword %q has %q, which was never added to it\n%v", kw22(kw), s, trace)
				}
			}
			if err != nil {
				w.f.Fatalf("afterwards Search of %q fails: %v\n%v", kw22(kw), err, trace)
			}
			continue
		}
		for i, o := range ops {
			if o.n%3 == kw && o.kind == "delete" && errs[i] != nil {
				w.f.Fatalf("%v as the only write on its keyword: %v\n%v", o, errs[i], trace)
			}
		}
		if err != nil || multiset(count(after)) != multiset(want) {
			w.f.Fatalf("afterwards keyword %q has %s (%v), want %s: %v %v\n%v", kw22(kw), multiset(count(after)), err, multiset(want), ops, errs, trace)
		}
		// what failed can be repeated
		for i, o := range ops {
			if o.kind == "add" && o.n%3 == kw && errs[i] != nil {
				if err := w.x.Add(bg, "t", kw22(kw), o.gs[0]); err != nil {
					w.f.Fatalf("repeating an addition that failed: %v", err)
				}
				want[o.gs[0]]++
			}
		}
		if after, err = w.x.Search(bg, "t", kw22(kw)); err != nil || multiset(count(after)) != multiset(want) {
			w.f.Fatalf("after repeating, keyword %q has %s (%v), want %s\n%v", kw22(kw), multiset(count(after)), err, multiset(want), trace)
		}
	}
	return trace
}

func interleaved(trace []hx.Step) bool {
	changes, seen := 0, map[int]bool{}
	for i, s := range trace {
		if i > 0 && trace[i-1].Op != s.Op && seen[s.Op] {
			changes++
		}
		seen[s.Op] = true
	}
	return changes > 0
}

func TestC22(t *testing.T) {
	variants := func(kind string, first bool) (out []op22) {
		toks := []string{"alice", "gina", "dave", "carol"}
		if first {
			toks = []string{"alice", "gina"}
		}
		for _, tok := range toks {
			n, gs := 2, []string{"id of carol"}
			if first {
				n = 1
			}
			if kind == "remove" {
				gs = []string{"id of bob", "group"}
			}
			out = append(out, op22{kind, tok, n, gs})
		}
		return
	}
	hx.EnumAll(t, "object pairs", "two calls on one object, each pair of kinds by several callers, under every interleaving of their storage calls", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for _, a := range objectKinds22 {
			for _, b := range objectKinds22 {
				for _, x := range variants(a, true) {
					for _, y := range variants(b, false) {
						do(fmt.Sprintf("%v || %v", x, y), true, func(f testing.TB, c *hx.Case) {
							n, ok := schedules(2000, func(choose func([]hx.Step) int) {
								newObjects22(f, "store").check([]op22{x, y}, choose)
							})
							c.Logf("%d interleavings, complete: %v", n, ok)
						})
					}
				}
			}
		}
	})
	sequences := [][]op22{}
	{
		upd := func(n int) op22 { return op22{"update", "alice", n, nil} }
		off := op22{"remove", "alice", 0, []string{"id of bob", "group", "id of mia"}}
		carol, nobob := op22{"add", "alice", 0, []string{"id of carol"}}, op22{"remove", "alice", 0, []string{"id of bob"}}
		del := op22{"delete", "alice", 0, nil}
		sequences = append(sequences, []op22{off, upd(1)}, []op22{upd(1), off}, []op22{off, {"add", "alice", 0, []string{"id of bob"}}, upd(1)}, []op22{carol, upd(1)}, []op22{upd(1), carol},
			[]op22{carol, {"remove", "alice", 0, []string{"id of carol"}}}, []op22{nobob, del}, []op22{upd(1), del}, []op22{upd(1), upd(2)}, []op22{nobob, carol}, []op22{off, upd(1), upd(2)})
	}
	hx.EnumAll(t, "beside a sequence", "one call of each kind by several callers beside two or three calls of one caller who changes the list and the content, under every interleaving (at most 700 each, thorough: 5000) of their storage calls; the call must get what was true at some time while it ran", false, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for _, kind := range objectKinds22 {
			for _, tok := range []string{"bob", "gina", "mia", "carol"} {
				for _, seq := range sequences {
					x := op22{kind, tok, 5, nil}
					if kind == "add" || kind == "remove" {
						x.gs = []string{"weak group"}
					}
					do(fmt.Sprintf("%v beside %v", x, seq), true, func(f testing.TB, c *hx.Case) {
						n, ok := schedules(hx.Scale(700, 5000), func(choose func([]hx.Step) int) {
							newObjects22(f, "store").checkSequence(x, seq, choose)
						})
						c.Logf("%d interleavings, complete: %v", n, ok)
					})
				}
			}
		}
	})
	hx.EnumAll(t, "index small", "two additions and possibly a search, a third addition or a deletion on another keyword, or a deletion and searches, on one keyword with 0 to 2 entries, under every interleaving (at most 4000 each) of their storage calls", false, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for was := 0; was <= 2; was++ {
			for _, third := range []string{"", "search", "add", "other", "delete", "both"} {
				for _, same := range []bool{false, true} {
					do(fmt.Sprintf("%d entries, %s, the same identifier: %v", was, third, same), true, func(f testing.TB, c *hx.Case) {
						ops := []op22{{"add", "t", 0, []string{"a"}}, {"add", "t", 0, []string{"b"}}}
						if same {
							ops[1].gs = []string{"a"}
						}
						switch third {
						case "search", "add":
							ops = append(ops, op22{third, "t", 0, []string{"c"}})
						case "other":
							ops = append(ops, op22{"add", "t", 1, []string{"c"}})
						case "delete": // another keyword
							ops[1] = op22{"delete", "t", 1, []string{"z"}}
						case "both": // a deletion and searches
							ops = []op22{{"delete", "t", 0, []string{map[bool]string{false: "p", true: "q"}[same]}}, {"search", "t", 0, nil}, {"search", "t", 1, nil}}
						}
						entries := map[string][]string{kw22(0): []string{"p", "q"}[:was], kw22(1): {"z"}}
						n, ok := schedules(hx.Scale(400, 20000), func(choose func([]hx.Step) int) {
							newIndex22(f, hx.NewBox("store"), entries).check(ops, choose)
						})
						c.Logf("%d interleavings, complete: %v", n, ok)
					})
				}
			}
		}
	})
	drawn := func(rt *rapid.T) func([]hx.Step) int {
		sticky := hx.IntRange(0, 3).Draw(rt, "sticky")
		last := -1
		return func(waiting []hx.Step) int {
			if len(waiting) == 1 {
				return 0
			}
			if sticky > 0 {
				for i, s := range waiting {
					if s.Op == last && hx.IntRange(0, sticky).Draw(rt, "go on") > 0 {
						return i
					}
				}
			}
			n := hx.IntRange(0, len(waiting)-1).Draw(rt, "next")
			last = waiting[n].Op
			return n
		}
	}
	show := func(tr []hx.Step) string {
		var b strings.Builder
		for _, s := range tr {
			fmt.Fprintf(&b, "%d:%s ", s.Op, s.What)
		}
		return b.String()
	}
	for _, k := range []struct {
		kind  string
		q, th int
	}{{"store", 9000, 700000}, {"mem", 3000, 200000}, {"bolt", 160, 10000}} {
		hx.Check(t, "objects on "+k.kind, hx.Opt{Quick: k.q, Thorough: k.th, Rule: "two to five concurrent calls on one object by six callers, storage calls interleaved as drawn; contents, refusals and deletion are judged; non-trivial: a call ran between the storage calls of another"}, func(rt *rapid.T, c *hx.Case) {
			w := newObjects22(rt, k.kind)
			defer w.box.Close()
			var ops []op22
			for n := hx.IntRange(2, 5).Draw(rt, "calls"); n > 0; n-- {
				o := op22{hx.SampledFrom(append([]string{"update", "update", "delete"}, objectKinds22...)).Draw(rt, "kind"), hx.SampledFrom(append([]string{"alice", "alice", "bob", "gina"}, tokens22...)).Draw(rt, "caller"), len(ops) + 1, nil}
				if o.kind == "add" || o.kind == "remove" {
					o.gs = hx.Subset(rt, []string{"id of alice", "id of bob", "group", "weak group", "id of carol", "id of mia"}, 2, "groups")
				}
				ops = append(ops, o)
				c.Logf("%v", o)
			}
			tr := w.check(ops, drawn(rt))
			c.Logf("%s", show(tr))
			if interleaved(tr) {
				c.NonTrivial()
			}
		})
		hx.Check(t, "index on "+k.kind, hx.Opt{Quick: k.q, Thorough: k.th, Rule: "two to five concurrent additions, deletions and searches on near-identical keywords with up to four entries, storage calls interleaved as drawn; acknowledged additions must be there afterwards; non-trivial: a call ran between the storage calls of another"}, func(rt *rapid.T, c *hx.Case) {
			was := map[string][]string{}
			for kw := 0; kw < 3; kw++ {
				was[kw22(kw)] = hx.Subset(rt, []string{"a", "b", "c"}, 4, "entries")
			}
			box := hx.NewBox(k.kind)
			defer box.Close()
			w := newIndex22(rt, box, was)
			var ops []op22
			for n := hx.IntRange(2, 5).Draw(rt, "calls"); n > 0; n-- {
				o := op22{hx.SampledFrom([]string{"add", "add", "add", "search", "search", "delete"}).Draw(rt, "kind"), "t", hx.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "keyword"), []string{hx.SampledFrom([]string{"a", "b", "new", "newer"}).Draw(rt, "identifier")}}
				ops = append(ops, o)
				c.Logf("%v", o)
			}
			tr := w.check(ops, drawn(rt))
			c.Logf("%s", show(tr))
			if interleaved(tr) {
				c.NonTrivial()
			}
		})
	}
}
