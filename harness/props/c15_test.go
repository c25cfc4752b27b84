package props

import (
	"context"
	"errors"
	"fmt"
	"testing"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C15: one failed storage call in an object operation.

const keeper = "keeper" // creates every object and stays on every list

// fobj is what is known of one object: its list and the contents it may hold.
type fobj struct {
	*objM
	unreadable bool // content may be unreadable (after a failed update)
	partial    bool // a delete has begun
	maybe      [][2][]byte
}

type fop struct {
	kind   string
	o      *fobj
	pt, ad []byte
	groups []string
}

func (p fop) String() string {
	s := p.kind
	if p.o != nil {
		s += fmt.Sprintf(" %x", p.o.oid[:2])
	}
	if p.kind == "encrypt" || p.kind == "update" {
		s += fmt.Sprintf(" pt %s ad %s", digest(p.pt), digest(p.ad))
	}
	if len(p.groups) > 0 {
		s += " " + names(p.groups)
	}
	return s
}

type fworld struct {
	*world
	st   *hx.Store
	objs []*fobj
	recs int // records stored per object
}

func newFWorld(f fat, c *hx.Case) *fworld {
	box := hx.NewBox("store")
	w := &fworld{world: newWorld(f, c, box, keysOf(15)), st: box.St}
	w.idp.Tokens["k"] = &id.Identity{ID: keeper, Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
	return w
}

// do performs the library call.
func (w *fworld) do(cx context.Context, p fop) (oid uuid.UUID, obj data.Object, acl map[string]struct{}, err error) {
	switch p.kind {
	case "encrypt":
		oid, err = w.d.Encrypt(cx, "k", &data.Object{Plaintext: cloneBytes(p.pt), AssociatedData: cloneBytes(p.ad)}, p.groups...)
	case "update":
		err = w.d.Update(cx, "k", p.o.oid, &data.Object{Plaintext: cloneBytes(p.pt), AssociatedData: cloneBytes(p.ad)})
	case "decrypt":
		obj, err = w.d.Decrypt(cx, "k", p.o.oid)
	case "delete":
		err = w.d.Delete(cx, "k", p.o.oid)
	case "acl":
		acl, err = w.d.GetAccessGroups(cx, "k", p.o.oid)
	case "add":
		err = w.d.AddGroupsToAccess(cx, "k", p.o.oid, p.groups...)
	case "remove":
		err = w.d.RemoveGroupsFromAccess(cx, "k", p.o.oid, p.groups...)
	case "authorize":
		err = w.d.AuthorizeIdentity(cx, "k", p.o.oid)
	default:
		hx.Bug("operation %q", p.kind)
	}
	return
}

func (p fop) after() map[string]bool {
	m := map[string]bool{}
	if p.kind == "encrypt" {
		m[keeper] = true
	} else {
		for g := range p.o.acl {
			m[g] = true
		}
	}
	for _, g := range p.groups {
		switch p.kind {
		case "encrypt", "add":
			m[g] = true
		case "remove":
			delete(m, g)
		}
	}
	return m
}

func sameSet(got map[string]struct{}, want map[string]bool) bool {
	if len(got) != len(want) {
		return false
	}
	for g := range got {
		if !want[g] {
			return false
		}
	}
	return true
}

// look checks one object against what is known of it, and narrows that down.
func (w *fworld) look(what string, o *fobj) {
	w.f.Helper()
	acl, err := w.d.GetAccessGroups(bg, "k", o.oid)
	if o.gone {
		if err == nil {
			w.f.Fatalf("%s: the access list of a deleted object is still there", what)
		}
		if _, err := w.d.Decrypt(bg, "k", o.oid); err == nil {
			w.f.Fatalf("%s: a deleted object can still be decrypted", what)
		}
		return
	}
	if err != nil {
		w.f.Fatalf("%s: the access list of object %x is lost: %v", what, o.oid[:2], err)
	}
	if !sameSet(acl, o.acl) {
		w.f.Fatalf("%s: access list of object %x is %v, want %v", what, o.oid[:2], acl, o.acl)
	}
	got, err := w.d.Decrypt(bg, "k", o.oid)
	if err != nil {
		if len(got.Plaintext) > 0 || len(got.AssociatedData) > 0 {
			w.f.Fatalf("%s: failed decryption returns data", what)
		}
		if !o.unreadable && !o.partial {
			w.f.Fatalf("%s: object %x can no longer be decrypted: %v", what, o.oid[:2], err)
		}
		return
	}
	for _, m := range o.maybe {
		if eq(m[0], got.Plaintext) && eq(m[1], got.AssociatedData) {
			if !o.partial {
				o.maybe, o.unreadable = [][2][]byte{m}, false
			}
			return
		}
	}
	w.f.Fatalf("%s: object %x decrypts to %s and %s, which it neither had before nor was given", what, o.oid[:2], digest(got.Plaintext), digest(got.AssociatedData))
}

// stranger must not get in, whatever happened.
func (w *fworld) stranger(what string, oid uuid.UUID) {
	w.as(id.Identity{ID: "a stranger", Scopes: allScopes}, func(tok string) {
		if _, err := w.d.Decrypt(bg, tok, oid); err == nil {
			w.f.Fatalf("%s: someone not on the list can decrypt", what)
		}
		if _, err := w.d.GetAccessGroups(bg, tok, oid); err == nil {
			w.f.Fatalf("%s: someone not on the list can read the list", what)
		}
	})
}

// records counts the stored records naming the object.
func (w *fworld) records(oid uuid.UUID) (n int) {
	for k := range w.st.Snapshot() {
		if k.ID == string(oid[:]) {
			n++
		}
	}
	return
}

// apply performs the operation with call number n failing in the given way (0: none), and checks
// all that must hold then. It reports whether the fault occurred.
func (w *fworld) apply(p fop, n int, mode hx.Fault) (fired bool) {
	w.f.Helper()
	what := fmt.Sprintf("%v with storage call %d %s", p, n, hx.FaultNames[mode])
	if mode == hx.NoFault {
		what = p.String()
	}
	before := w.st.Snapshot()
	w.st.Begin(200)
	told := w.st.FaultAt(n, mode)
	var oid uuid.UUID
	var obj data.Object
	var acl map[string]struct{}
	var err error
	cx := w.st.Ctx()
	stopped := hx.Stopped(func() { oid, obj, acl, err = w.do(cx, p) })
	w.st.Hook = nil
	w.st.Begin(0)
	at, _, fired, first := told()
	after := w.st.Snapshot()
	diff := before.Diff(after)
	failed := stopped || err != nil
	w.c.Logf("%s (%s) -> %v%s", what, at, short(err), map[bool]string{true: " stopped"}[stopped])
	if fired && failed {
		w.c.NonTrivial()
		w.c.Label(p.kind + "/" + at + "/" + hx.FaultNames[mode])
	}
	if stopped {
		w.restart()
	}
	if fired && first && failed && len(diff) > 0 {
		w.f.Fatalf("%s: the first write failed, yet stored records changed: %v", what, diff)
	}
	reads := p.kind == "decrypt" || p.kind == "acl" || p.kind == "authorize"
	if reads && len(diff) > 0 {
		w.f.Fatalf("%s changed stored records: %v", what, diff)
	}
	if failed && (oid != uuid.Nil || len(obj.Plaintext) > 0 || len(obj.AssociatedData) > 0 || len(acl) > 0) {
		w.f.Fatalf("%s fails but returns data", what)
	}
	for _, k := range diff {
		if p.o != nil && k.ID != string(p.o.oid[:]) {
			w.f.Fatalf("%s changed a record of something else: %v", what, k)
		}
		if p.o == nil {
			for _, o := range w.objs {
				if k.ID == string(o.oid[:]) {
					w.f.Fatalf("%s changed a record of another object: %v", what, k)
				}
			}
		}
	}
	if !fired && failed && !(p.o != nil && (p.o.partial || p.o.unreadable || p.o.gone)) {
		w.f.Fatalf("%s fails although no storage call failed: %v", what, err)
	}
	switch p.kind {
	case "encrypt":
		if !failed {
			if w.recs == 0 && !fired {
				w.recs = w.records(oid)
			}
			o := &fobj{objM: &objM{oid: oid, acl: p.after()}, maybe: [][2][]byte{{p.pt, p.ad}}}
			w.objs = append(w.objs, o)
			break
		}
		for _, k := range diff { // the identifier was never told to anyone, but whatever is there must be right
			var u uuid.UUID
			copy(u[:], k.ID)
			w.stranger(what, u)
			if got, err := w.d.Decrypt(bg, "k", u); err == nil && (!eq(got.Plaintext, p.pt) || !eq(got.AssociatedData, p.ad)) {
				w.f.Fatalf("%s left an object with other content", what)
			}
			if got, err := w.d.GetAccessGroups(bg, "k", u); err == nil && !sameSet(got, p.after()) {
				w.f.Fatalf("%s left an object with access list %v", what, got)
			}
		}
	case "decrypt":
		if !failed {
			ok := false
			for _, m := range p.o.maybe {
				ok = ok || eq(m[0], obj.Plaintext) && eq(m[1], obj.AssociatedData)
			}
			if !ok {
				w.f.Fatalf("%s returns %s, %s", what, digest(obj.Plaintext), digest(obj.AssociatedData))
			}
		}
	case "acl":
		if !failed && !sameSet(acl, p.o.acl) {
			w.f.Fatalf("%s returns %v, want %v", what, acl, p.o.acl)
		}
	case "update":
		if !failed {
			p.o.maybe, p.o.unreadable = [][2][]byte{{p.pt, p.ad}}, false
		} else if len(diff) > 0 {
			p.o.maybe, p.o.unreadable = append(p.o.maybe, [2][]byte{p.pt, p.ad}), true
		}
	case "add", "remove":
		if !failed {
			p.o.acl = p.after()
		} else if got, e := w.d.GetAccessGroups(bg, "k", p.o.oid); e == nil && sameSet(got, p.after()) {
			p.o.acl = p.after()
		}
	case "delete":
		if !failed {
			p.o.gone, p.o.partial, p.o.unreadable = true, false, false
			if n := w.records(p.o.oid); n > 0 {
				w.f.Fatalf("%s succeeds but leaves %d stored records", what, n)
			}
		} else if len(diff) > 0 {
			if _, e := w.d.GetAccessGroups(bg, "k", p.o.oid); errors.Is(e, d1.ErrAccessNotFound) {
				p.o.gone, p.o.partial, p.o.unreadable = true, false, false // complete, though not reported so
			} else {
				p.o.partial = true
			}
		}
	}
	for _, o := range w.objs {
		w.look("after "+what, o)
		w.stranger("after "+what, o.oid)
	}
	return fired && failed
}

// retry repeats the operation with storage working.
func (w *fworld) retry(p fop) {
	w.f.Helper()
	w.c.Logf("retry")
	if p.o != nil && p.o.gone && p.kind != "delete" {
		return
	}
	_, _, _, err := w.do(bg, p)
	if p.kind == "decrypt" && (p.o.unreadable || p.o.partial) {
		return // judged by look
	}
	if err != nil {
		w.f.Fatalf("repeating %v once storage works again fails: %v", p, err)
	}
	switch p.kind {
	case "encrypt":
		return // made an object nobody knows of; a fresh one is tried by apply
	case "update":
		p.o.maybe, p.o.unreadable = [][2][]byte{{p.pt, p.ad}}, false
	case "add", "remove":
		p.o.acl = p.after()
	case "delete":
		p.o.gone, p.o.partial, p.o.unreadable = true, false, false
		if n := w.records(p.o.oid); n > 0 {
			w.f.Fatalf("a repeated delete leaves %d stored records", n)
		}
	}
	for _, o := range w.objs {
		w.look("after repeating "+p.String(), o)
	}
}

var kinds15 = []string{"encrypt", "update", "decrypt", "delete", "acl", "add", "remove", "authorize"}

func TestC15(t *testing.T) {
	hx.EnumAll(t, "each", "every operation, with every one of its storage calls failing in each of five ways (rejected; performed but reported as failed; the process stopping before or after it; the context being cancelled meanwhile), on the first, second or last of three objects, followed by a retry and by every other operation; non-trivial: the fault occurred", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			cause := 0
			for _, kind := range kinds15 {
				for n := 1; n <= 8; n++ {
					for mode := hx.Rejected; mode <= hx.LastFault; mode++ {
						for _, next := range append([]string{"retry"}, kinds15...) {
							for wrap := 0; wrap < 2; wrap++ {
								cause++
								fail := hx.FaultErrs[cause%len(hx.FaultErrs)]
								do(fmt.Sprintf("%s, call %d %s (%v), then %s (wrapped errors: %d)", kind, n, hx.FaultNames[mode], fail, next, wrap), false, func(tb testing.TB, c *hx.Case) {
									w := newFWorld(tb, c)
									w.st.Wrap, w.st.Err = wrap == 1, fail
									for i := 0; i < 3; i++ {
										w.apply(fop{kind: "encrypt", pt: []byte(fmt.Sprintf("content %d", i)), ad: []byte("ad"), groups: []string{"a", "b"}}, 0, hx.NoFault)
									}
									o := w.objs[n%3]
									mk := func(kind string) fop {
										p := fop{kind: kind, o: o, pt: []byte("the new content"), ad: []byte("new ad"), groups: []string{"b", "c"}}
										if kind == "encrypt" {
											p.o = nil
										}
										return p
									}
									p := mk(kind)
									w.apply(p, n, mode)
									if next == "retry" {
										w.retry(p)
									} else if q := mk(next); !(next == "update" && o.partial) && !o.gone {
										w.apply(q, 0, hx.NoFault)
										if kind != "delete" && next != "delete" {
											w.retry(p)
										}
									}
									w.apply(fop{kind: "delete", o: o}, 0, hx.NoFault)
									w.apply(mk("encrypt"), 0, hx.NoFault)
								})
							}
						}
					}
				}
			}
		})
	hx.EnumAll(t, "large", "encryptions with, additions of and removals of up to 1000 groups at a time, updates to contents of up to 1 MB and deletions, with every one of their writes failing in each of five ways, followed by a retry; non-trivial: the fault occurred", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, kind := range []string{"encrypt", "add", "remove", "update", "delete", "acl"} {
				for i, size := range []int{9, 17, 40, 70, 130, 300, 1000} {
					for n := 1; n <= 6; n++ {
						for mode := hx.Rejected; mode <= hx.LastFault; mode++ {
							at := -n
							if kind == "acl" {
								at = n
							}
							do(fmt.Sprintf("%s of %d, call %d %s", kind, size, at, hx.FaultNames[mode]), false, func(tb testing.TB, c *hx.Case) {
								w := newFWorld(tb, c)
								var gs []string
								for k := 0; k < size; k++ {
									gs = append(gs, fmt.Sprintf("group %d", k))
								}
								first := fop{kind: "encrypt", pt: hx.Bytes(1, 20*size, 0), ad: []byte("ad"), groups: []string{"a", "b"}}
								if kind != "add" {
									first.groups = gs
								}
								w.apply(first, 0, hx.NoFault)
								p := fop{kind: kind, o: w.objs[0], pt: hx.Bytes(2, []int{1000, 5000, 20000, 40000, 70000, 300000, 1 << 20}[i], 0), ad: hx.Bytes(3, 100*size, 0), groups: gs}
								if kind == "encrypt" {
									p.o = nil
								}
								if w.apply(p, at, mode) {
									w.retry(p)
								}
								w.apply(fop{kind: "remove", o: w.objs[0], groups: gs[:size/2]}, 0, hx.NoFault)
							})
						}
					}
				}
			}
		})
	hx.Check(t, "histories", hx.Opt{Quick: 10000, Thorough: 500000,
		Rule: "histories of operations on up to four objects of which about half have a drawn storage call failing in a drawn way, some repeated afterwards; every object is compared with what it may hold after each step; non-trivial: at least one fault occurred"},
		func(rt *rapid.T, c *hx.Case) {
			w := newFWorld(rt, c)
			w.st.Wrap = rapid.Bool().Draw(rt, "wrap")
			pool := hx.Names(rt, 4, "pool")
			var last *fop
			for n := hx.IntRange(3, 14).Draw(rt, "steps"); n > 0; n-- {
				p := fop{kind: hx.SampledFrom(kinds15).Draw(rt, "kind")}
				var live []*fobj
				for _, o := range w.objs {
					if !o.gone {
						live = append(live, o)
					}
				}
				if len(live) == 0 || p.kind == "encrypt" && len(live) >= 4 {
					p.kind = map[bool]string{true: "encrypt", false: "update"}[len(live) == 0]
				}
				if p.kind != "encrypt" {
					p.o = hx.SampledFrom(live).Draw(rt, "object")
					if p.o.partial && p.kind == "update" {
						p.kind = "delete"
					}
				}
				if p.kind == "encrypt" || p.kind == "update" {
					p.pt, p.ad = drawContent(rt, 100, "pt"), drawContent(rt, 30, "ad")
				}
				if p.kind == "encrypt" || p.kind == "add" || p.kind == "remove" {
					for _, g := range hx.Subset(rt, pool, 3, "groups") {
						if g != keeper {
							p.groups = append(p.groups, g)
						}
					}
				}
				mode, at := hx.NoFault, 0
				if rapid.Bool().Draw(rt, "fault") {
					mode = hx.Fault(hx.IntRange(1, int(hx.LastFault)).Draw(rt, "mode"))
					w.st.Err = hx.SampledFrom(hx.FaultErrs).Draw(rt, "error")
					at = hx.IntRange(1, 4).Draw(rt, "call")
				}
				if w.apply(p, at, mode) && p.kind != "encrypt" && hx.Chance(rt, 2, "retry") {
					w.retry(p)
				} else {
					last = &p
				}
				if last != nil && last.kind == "update" && last.o.unreadable && !last.o.partial && hx.Chance(rt, 3, "late retry") {
					w.retry(*last)
				}
			}
			for _, o := range w.objs {
				if o.partial {
					w.retry(fop{kind: "delete", o: o})
				}
			}
		})
}
