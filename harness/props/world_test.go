package props

import (
	"errors"
	"fmt"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// objM is the model of one object.
type objM struct {
	oid    uuid.UUID
	pt, ad []byte
	acl    map[string]bool
	gone   bool
	foreig bool // never existed
}

// world is one instance of the library on some storage with its reference model.
type world struct {
	f       fat
	c       *hx.Case
	box     *hx.Box
	idp     *hx.IDP
	keys    key.Keys
	d       d1.D1
	peer    *d1.D1   // another instance on the same storage
	pool    []string // identifiers in play
	toks    []string
	objs    []*objM
	oids    map[uuid.UUID]bool
	maxSize int
	ok      int // successful calls
	refused int
	wrote   int
	buffers bool // also judge what happens to passed-in buffers
}

func newWorld(f fat, c *hx.Case, box *hx.Box, keys key.Keys) *world {
	w := &world{f: f, c: c, box: box, idp: hx.NewIDP(), keys: keys, oids: map[uuid.UUID]bool{}, maxSize: 300}
	w.restart()
	return w
}

func (w *world) restart() {
	w.box.Restart()
	w.d, w.peer = w.instance(), nil
}

func (w *world) instance() d1.D1 {
	kp := key.NewStatic(w.keys)
	d, err := d1.New(bg, &kp, w.box.P, w.idp)
	if err != nil {
		w.f.Fatalf("New fails: %v", err)
	}
	return d
}

// turn lets the other instance on the same storage make the next calls.
func (w *world) turn() {
	if w.peer == nil {
		d := w.instance()
		w.peer = &d
	}
	w.d, *w.peer = *w.peer, w.d
}

type outcome int

const (
	succeeds outcome = iota
	unauthenticated
	unauthorized
	missing
)

func (o outcome) String() string {
	return []string{"success", "not authenticated", "not authorized", "not found"}[o]
}

func (w *world) predict(tok string, need id.Scope, o *objM) outcome {
	i, ok := w.idp.Tokens[tok]
	if !ok {
		return unauthenticated
	}
	if !hasScope(i.Scopes, need) {
		return unauthorized
	}
	if o == nil {
		return succeeds
	}
	if o.gone {
		return missing
	}
	if o.acl[i.ID] {
		return succeeds // its own scopes have just been found to include the scope
	}
	for gid, g := range i.Groups {
		if o.acl[gid] && hasScope(g.Scopes, need) {
			return succeeds
		}
	}
	return unauthorized
}

// run performs one library call and judges its outcome and its effect on storage.
func (w *world) run(what string, want outcome, o *objM, writes bool, call func() (empty bool, err error)) error {
	w.f.Helper()
	var before hx.Snap
	if w.box.St != nil {
		before = w.box.St.Snapshot()
		w.box.St.Begin(100)
	}
	empty, err := call()
	if w.box.St != nil {
		w.box.St.Begin(0)
	}
	w.c.Logf("%s -> %v", what, short(err))
	switch want {
	case succeeds:
		if err != nil {
			w.f.Fatalf("%s fails (%v) but the caller is entitled to it", what, err)
		}
		w.ok++
	case unauthenticated:
		if !errors.Is(err, d1.ErrNotAuthenticated) {
			w.f.Fatalf("%s with a token that is not accepted: got error %v, want not authenticated", what, err)
		}
	case unauthorized:
		if !errors.Is(err, d1.ErrNotAuthorized) {
			w.f.Fatalf("%s by a caller not entitled to it: got error %v, want not authorized", what, err)
		}
	case missing:
		if err == nil && !writes {
			w.f.Fatalf("%s on an object that does not exist succeeds", what)
		}
	}
	if want != succeeds {
		w.refused++
		if !empty {
			w.f.Fatalf("%s is refused but returns data", what)
		}
	}
	if before != nil {
		for _, k := range before.Diff(w.box.St.Snapshot()) {
			if want != succeeds || !writes {
				w.f.Fatalf("%s (%v) changed stored record %v", what, want, k)
			}
			if o != nil && k.ID != string(o.oid.Bytes()) {
				w.f.Fatalf("%s changed a stored record of something else: %v", what, k)
			}
		}
	}
	return err
}

func short(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// passed-in buffers: given with spare capacity, checked after the call and then overwritten.
func (w *world) object(pt, ad []byte) (*data.Object, func(what string)) {
	p, cp := hx.Spare(pt, 40)
	a, ca := hx.Spare(ad, 40)
	if pt == nil {
		p = nil
	}
	if ad == nil {
		a = nil
	}
	obj := &data.Object{Plaintext: p, AssociatedData: a}
	return obj, func(what string) {
		if !w.buffers {
			return
		}
		if err := cp(); err != nil {
			w.f.Fatalf("%s: plaintext: %v", what, err)
		}
		if err := ca(); err != nil {
			w.f.Fatalf("%s: associated data: %v", what, err)
		}
		if len(obj.Plaintext) != len(pt) || len(obj.AssociatedData) != len(ad) {
			w.f.Fatalf("%s: the object passed in was changed", what)
		}
		hx.Scribble(p)
		hx.Scribble(a)
		_ = append(p, "overwritten spare capacity"...)
		_ = append(a, "overwritten spare capacity"...)
	}
}

func (w *world) encrypt(tok string, pt, ad []byte, groups []string) *objM {
	w.f.Helper()
	obj, after := w.object(pt, ad)
	gs, gcheck := spareStrings(groups, 3)
	if len(groups) == 0 {
		gs = gs[:0]
	}
	what := fmt.Sprintf("encrypt(%s, pt %s, ad %s, groups %s)", hx.Short(tok), digest(pt), digest(ad), names(groups))
	o := &objM{pt: cloneBytes(pt), ad: cloneBytes(ad), acl: map[string]bool{}}
	want := w.predict(tok, id.ScopeEncrypt, nil)
	w.run(what, want, nil, true, func() (bool, error) {
		oid, err := w.d.Encrypt(bg, tok, obj, gs...)
		o.oid = oid
		return oid == uuid.Nil, err
	})
	after(what)
	if err := gcheck(); err != nil && w.buffers {
		w.f.Fatalf("%s: groups: %v", what, err)
	}
	for i := range gs {
		if w.buffers {
			gs[i] = "overwritten"
		}
	}
	if want != succeeds {
		return nil
	}
	if o.oid == uuid.Nil || w.oids[o.oid] {
		w.f.Fatalf("%s: object identifier %v is not new", what, o.oid)
	}
	w.oids[o.oid] = true
	for _, g := range groups {
		o.acl[g] = true
	}
	o.acl[w.idp.Tokens[tok].ID] = true
	w.objs = append(w.objs, o)
	return o
}

func (w *world) update(tok string, o *objM, pt, ad []byte) outcome {
	w.f.Helper()
	obj, after := w.object(pt, ad)
	what := fmt.Sprintf("update(%s, %s, pt %s, ad %s)", hx.Short(tok), w.nameOf(o), digest(pt), digest(ad))
	want := w.predict(tok, id.ScopeUpdate, o)
	err := w.run(what, want, o, true, func() (bool, error) { return true, w.d.Update(bg, tok, o.oid, obj) })
	if want == missing && err == nil {
		w.f.Fatalf("%s on an object that does not exist succeeds", what)
	}
	after(what)
	if want == succeeds {
		o.pt, o.ad = cloneBytes(pt), cloneBytes(ad)
		w.wrote++
	}
	return want
}

func (w *world) decrypt(tok string, o *objM) outcome {
	w.f.Helper()
	what := fmt.Sprintf("decrypt(%s, %s)", hx.Short(tok), w.nameOf(o))
	want := w.predict(tok, id.ScopeDecrypt, o)
	var got data.Object
	w.run(what, want, o, false, func() (bool, error) {
		var err error
		got, err = w.d.Decrypt(bg, tok, o.oid)
		return len(got.Plaintext) == 0 && len(got.AssociatedData) == 0, err
	})
	if want == succeeds {
		if !eq(got.Plaintext, o.pt) || !eq(got.AssociatedData, o.ad) {
			w.f.Fatalf("%s returns pt %s ad %s, want pt %s ad %s", what, digest(got.Plaintext), digest(got.AssociatedData), digest(o.pt), digest(o.ad))
		}
		if w.buffers {
			hx.Scribble(got.Plaintext)
			hx.Scribble(got.AssociatedData)
		}
	}
	return want
}

func (w *world) remove(tok string, o *objM) outcome {
	w.f.Helper()
	what := fmt.Sprintf("delete(%s, %s)", hx.Short(tok), w.nameOf(o))
	want := w.predict(tok, id.ScopeDelete, o)
	w.run(what, want, o, true, func() (bool, error) { return true, w.d.Delete(bg, tok, o.oid) })
	if want == succeeds {
		o.gone = true
		if w.box.St != nil {
			for _, k := range w.box.St.Snapshot().Keys() {
				if k.ID == string(o.oid.Bytes()) {
					w.f.Fatalf("%s leaves record %v behind", what, k)
				}
			}
		}
	}
	return want
}

func (w *world) getACL(tok string, o *objM) outcome {
	w.f.Helper()
	what := fmt.Sprintf("get access(%s, %s)", hx.Short(tok), w.nameOf(o))
	want := w.predict(tok, id.ScopeGetAccessGroups, o)
	var got map[string]struct{}
	w.run(what, want, o, false, func() (bool, error) {
		var err error
		got, err = w.d.GetAccessGroups(bg, tok, o.oid)
		return len(got) == 0, err
	})
	if want == succeeds {
		w.sameACL(what, got, o)
		for g := range got {
			if !w.buffers {
				break
			}
			delete(got, g)
			got["intruder"] = struct{}{}
			break
		}
	}
	return want
}

func (w *world) sameACL(what string, got map[string]struct{}, o *objM) {
	w.f.Helper()
	for g := range o.acl {
		if _, ok := got[g]; !ok {
			w.f.Fatalf("%s: %q is missing from the access list %q", what, g, sortedKeys(got))
		}
	}
	for g := range got {
		if !o.acl[g] {
			w.f.Fatalf("%s: the access list has %q, which nobody put there; want %q", what, g, sortedKeys(o.acl))
		}
	}
}

func (w *world) authorize(tok string, o *objM) outcome {
	w.f.Helper()
	what := fmt.Sprintf("authorize(%s, %s)", hx.Short(tok), w.nameOf(o))
	want := w.predict(tok, id.ScopeGetAccessGroups, o)
	w.run(what, want, o, false, func() (bool, error) { return true, w.d.AuthorizeIdentity(bg, tok, o.oid) })
	return want
}

func (w *world) changeACL(tok string, o *objM, add bool, groups []string) outcome {
	w.f.Helper()
	gs, gcheck := spareStrings(groups, 3)
	op := "remove from access"
	if add {
		op = "add to access"
	}
	what := fmt.Sprintf("%s(%s, %s, %s)", op, hx.Short(tok), w.nameOf(o), names(groups))
	want := w.predict(tok, id.ScopeModifyAccessGroups, o)
	err := w.run(what, want, o, true, func() (bool, error) {
		if add {
			return true, w.d.AddGroupsToAccess(bg, tok, o.oid, gs...)
		}
		return true, w.d.RemoveGroupsFromAccess(bg, tok, o.oid, gs...)
	})
	if want == missing && err == nil {
		w.f.Fatalf("%s on an object that does not exist succeeds", what)
	}
	if err := gcheck(); err != nil && w.buffers {
		w.f.Fatalf("%s: groups: %v", what, err)
	}
	for i := range gs {
		if w.buffers {
			gs[i] = "overwritten"
		}
	}
	if want == succeeds {
		w.wrote++
		for _, g := range groups {
			if add {
				o.acl[g] = true
			} else {
				delete(o.acl, g)
			}
		}
	}
	return want
}

func (w *world) nameOf(o *objM) string {
	for i, p := range w.objs {
		if p == o {
			return fmt.Sprintf("object %d", i)
		}
	}
	return "unknown object"
}

func names(s []string) string {
	out := "["
	for i, g := range s {
		if i == 8 {
			return out + fmt.Sprintf("... %d]", len(s))
		}
		out += hx.Short(g) + " "
	}
	return out + "]"
}

const auditTok = "audit token"

// as runs f with a token of an identity made up for the purpose.
func (w *world) as(i id.Identity, f func(tok string)) {
	if i.Groups == nil {
		i.Groups = map[string]id.AccessGroup{}
	}
	w.idp.Tokens[auditTok] = &i
	f(auditTok)
	delete(w.idp.Tokens, auditTok)
}

// audit compares every object with the model.
func (w *world) audit() {
	w.f.Helper()
	n := w.refused
	for _, o := range w.objs {
		members := sortedKeys(o.acl)
		if len(members) == 0 {
			members = []string{"nobody in particular"}
		}
		w.as(id.Identity{ID: members[0], Scopes: allScopes}, func(tok string) {
			w.decrypt(tok, o)
			w.getACL(tok, o)
		})
		// the last member through a group, and a stranger
		w.as(id.Identity{ID: "someone unlisted", Scopes: allScopes, Groups: map[string]id.AccessGroup{members[len(members)-1]: {ID: members[len(members)-1], Scopes: allScopes}}},
			func(tok string) { w.authorize(tok, o) })
		w.as(id.Identity{ID: "someone unlisted", Scopes: allScopes}, func(tok string) { w.decrypt(tok, o) })
	}
	w.refused = n
	if w.box.St != nil {
		live := 0
		for _, o := range w.objs {
			if !o.gone {
				live++
			}
		}
		sn := w.box.St.Snapshot()
		if sn.Count(0) != live || sn.Count(1) != live {
			w.f.Fatalf("%d objects exist, but %d object and %d access records are stored", live, sn.Count(0), sn.Count(1))
		}
	}
}

// drawContent draws plaintext or associated data.
func drawContent(rt *rapid.T, max int, label string) []byte {
	if hx.Chance(rt, 48, label+"-big") {
		max = 140000
	}
	n := hx.Size(rt, max, label)
	if n == 0 && rapid.Bool().Draw(rt, label+"-nil") {
		return nil
	}
	return hx.Bytes(hx.Uint64Range(0, 1<<20).Draw(rt, label+"-seed"), n, hx.IntRange(0, 5).Draw(rt, label+"-kind"))
}

// drawIdentity draws an identity over the pool.
func (w *world) drawIdentity(rt *rapid.T) *id.Identity {
	i := &id.Identity{ID: hx.SampledFrom(w.pool).Draw(rt, "id"), Scopes: drawScope(rt, "scopes"), Groups: map[string]id.AccessGroup{}}
	for _, g := range hx.Subset(rt, w.pool, 4, "groups") {
		if g != i.ID {
			i.Groups[g] = id.AccessGroup{ID: g, Scopes: drawScope(rt, "gscopes")}
		}
	}
	return i
}

func (w *world) describe(tok string) string {
	i := w.idp.Tokens[tok]
	s := fmt.Sprintf("%s = {%s %x", hx.Short(tok), hx.Short(i.ID), uint64(i.Scopes))
	for _, g := range sortedKeys(i.Groups) {
		s += fmt.Sprintf(" %s:%x", hx.Short(g), uint64(i.Groups[g].Scopes))
	}
	return s + "}"
}

// setup draws the pool of identifiers and some identities.
func (w *world) setup(rt *rapid.T, nNames, nIdent int) {
	w.pool = hx.Names(rt, nNames, "pool")
	for n := 0; n < nIdent; n++ {
		tok := fmt.Sprintf("token-%d", n)
		w.toks = append(w.toks, tok)
		w.idp.Tokens[tok] = w.drawIdentity(rt)
		w.c.Logf("%s", w.describe(tok))
	}
}

var badTokens = []string{"", "token", "token-", "token-0 ", "Token-0", "token-00", "audit token", "trap", "\x00", "token-9"}

func (w *world) drawToken(rt *rapid.T) string {
	if hx.IntRange(0, 14).Draw(rt, "badtok") == 0 {
		t := hx.SampledFrom(badTokens).Draw(rt, "tok")
		if _, ok := w.idp.Tokens[t]; !ok {
			return t
		}
	}
	return hx.SampledFrom(w.toks).Draw(rt, "tok")
}

// drawObj draws an object: mostly an existing one, sometimes a deleted or unknown one.
func (w *world) drawObj(rt *rapid.T) *objM {
	if len(w.objs) == 0 || hx.IntRange(0, 29).Draw(rt, "unknown") == 0 {
		var u uuid.UUID
		copy(u[:], hx.Bytes(hx.Uint64Range(0, 3).Draw(rt, "oid"), 16, 0))
		if w.oids[u] {
			return w.objs[0]
		}
		return &objM{oid: u, gone: true, foreig: true, acl: map[string]bool{}}
	}
	return w.objs[hx.IntRange(0, len(w.objs)-1).Draw(rt, "obj")]
}

// weights of the steps of a history
type weights struct {
	encrypt, update, decrypt, remove, getacl, add, rem, auth, ident, restart, audit int
}

// step performs one drawn step. A token is chosen so that, most of the time, some caller is
// entitled to the call.
func (w *world) step(rt *rapid.T, k weights) {
	list := []int{k.encrypt, k.update, k.decrypt, k.remove, k.getacl, k.add, k.rem, k.auth, k.ident, k.restart, k.audit}
	total := 0
	for _, x := range list {
		total += x
	}
	n := hx.IntRange(0, total-1).Draw(rt, "step")
	op := 0
	for n >= list[op] {
		n -= list[op]
		op++
	}
	need := []id.Scope{id.ScopeEncrypt, id.ScopeUpdate, id.ScopeDecrypt, id.ScopeDelete, id.ScopeGetAccessGroups, id.ScopeModifyAccessGroups,
		id.ScopeModifyAccessGroups, id.ScopeGetAccessGroups, 0, 0, 0}[op]
	var o *objM
	if op >= 1 && op <= 7 {
		o = w.drawObj(rt)
	}
	if hx.Chance(rt, 4, "instance") {
		w.c.Logf("the other instance")
		w.c.Label("two instances")
		w.turn()
	}
	tok := ""
	if op <= 7 {
		tok = w.drawToken(rt)
		if hx.IntRange(0, 2).Draw(rt, "entitled") > 0 {
			for _, t := range w.toks {
				if w.predict(t, need, o) == succeeds {
					tok = t
					if rapid.Bool().Draw(rt, "this") {
						break
					}
				}
			}
		}
	}
	switch op {
	case 0:
		w.encrypt(tok, drawContent(rt, w.maxSize, "pt"), drawContent(rt, w.maxSize, "ad"), hx.Subset(rt, w.pool, 5, "acl"))
	case 1:
		w.update(tok, o, drawContent(rt, w.maxSize, "pt"), drawContent(rt, w.maxSize, "ad"))
	case 2:
		w.decrypt(tok, o)
	case 3:
		w.remove(tok, o)
	case 4:
		w.getACL(tok, o)
	case 5:
		w.changeACL(tok, o, true, hx.Subset(rt, w.pool, 5, "acl"))
	case 6:
		w.changeACL(tok, o, false, hx.Subset(rt, w.pool, 3, "acl"))
	case 7:
		w.authorize(tok, o)
	case 8:
		t := hx.SampledFrom(w.toks).Draw(rt, "which")
		if hx.IntRange(0, 9).Draw(rt, "edit") < 4 { // small change: one scope set
			i := w.idp.Tokens[t]
			gs := sortedKeys(i.Groups)
			if n := hx.IntRange(0, len(gs)).Draw(rt, "part"); n == len(gs) {
				i.Scopes = drawScope(rt, "scopes")
			} else if rapid.Bool().Draw(rt, "leave") {
				delete(i.Groups, gs[n])
			} else {
				i.Groups[gs[n]] = id.AccessGroup{ID: gs[n], Scopes: drawScope(rt, "gscopes")}
			}
		} else {
			w.idp.Tokens[t] = w.drawIdentity(rt)
		}
		w.c.Logf("now %s", w.describe(t))
		w.c.Label("identity changed")
	case 9:
		w.c.Logf("restart")
		w.c.Label("restart")
		w.restart()
	case 10:
		w.audit()
	}
}
