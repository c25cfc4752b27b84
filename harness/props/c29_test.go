package props

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/cryptotest"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C29: one history on components that share a provider and on components with providers of their
// own, under the same randomness, must give the same results and the same records.

type step29 struct {
	op      int
	a, b, c int
	l       []int
	sc      uint64
	crossed bool // operands may be of any kind
}

type run29 struct {
	boxes   [3]*hx.Box // objects, index, identity
	d       d1.D1
	x       index.SecureIndex
	s       id.Standalone
	keys    key.Keys
	cfg     id.StandaloneConfig
	oids    []uuid.UUID
	labels  []string
	uids    []string
	gids    []string
	toks    []string
	kws     []string
	out     []string
	ok      [3]int
	crossed int
	alien   bool // identifiers of another kind are replaced by ones of nothing
}

// unknown is an identifier of nothing in place of s.
func unknown29(s string) uuid.UUID {
	h := sha256.Sum256([]byte("nothing" + s))
	u, _ := uuid.FromBytes(h[:16])
	return u
}

func (r *run29) start(f fat) {
	s, err := id.NewStandalone(r.cfg, r.boxes[2].P)
	if err != nil {
		f.Fatalf("NewStandalone: %v", err)
	}
	r.s = s
	kp := key.NewStatic(r.keys)
	r.d, err = d1.New(bg, &kp, r.boxes[0].P, &r.s)
	if err != nil {
		f.Fatalf("New: %v", err)
	}
	r.x, err = index.NewSecureIndex(bg, &kp, r.boxes[1].P, &r.s)
	if err != nil {
		f.Fatalf("NewSecureIndex: %v", err)
	}
}

func pick29[T any](n int, l ...[]T) (out T) {
	var all []T
	for _, x := range l {
		all = append(all, x...)
	}
	if len(all) == 0 {
		return
	}
	return all[n%len(all)]
}

// strs is every identifier there is, as the string that would be the record key.
func (r *run29) strs() (out []string) {
	out = append(out, r.uids...)
	out = append(out, r.gids...)
	for _, o := range r.oids {
		out = append(out, string(o[:]), o.String())
	}
	out = append(out, r.labels...)
	out = append(out, r.kws...)
	return append(out, r.toks[0], "")
}

func (r *run29) oid(n int, crossed bool) uuid.UUID {
	if !crossed {
		return pick29(n, r.oids)
	}
	r.crossed++
	var more []uuid.UUID
	for _, s := range append(append(append([]string{}, r.uids...), r.gids...), r.labels...) {
		if u, err := uuid.FromString(s); err == nil {
			more = append(more, u)
		}
		var u uuid.UUID
		copy(u[:], s)
		more = append(more, u)
	}
	u := pick29(n, more)
	for _, o := range r.oids {
		if o == u {
			return u
		}
	}
	if r.alien {
		return unknown29(string(u[:]))
	}
	return u
}

func (r *run29) str(n int, crossed bool, own []string) string {
	if !crossed {
		return pick29(n, own)
	}
	r.crossed++
	return strings.ToValidUTF8(pick29(n, r.strs()), "\ufffd")
}

// any is str without the restriction to UTF-8.
func (r *run29) any(n int, crossed bool, own []string) string {
	if !crossed {
		return pick29(n, own)
	}
	r.crossed++
	s := pick29(n, r.strs())
	if r.alien && s != "" && !in(own, s) {
		return unknown29(s).String()
	}
	return s
}

var names29 = []string{"encrypt", "encrypt", "encrypt", "decrypt", "decrypt", "update", "delete", "get access", "add access", "remove access", "index add", "index add", "index add",
	"search", "search", "index delete", "identity", "new group", "add member", "remove member", "delete user", "login or password change"}

func (r *run29) do(st step29) {
	var res string
	comp := -1
	tok := pick29(st.a, r.toks)
	var err error
	switch st.op {
	case 0, 1, 2:
		comp = 0
		var gs []string
		for _, n := range st.l {
			gs = append(gs, r.str(n, st.crossed, append(append([]string{}, r.uids...), r.gids...)))
		}
		var oid uuid.UUID
		oid, err = r.d.Encrypt(bg, tok, &data.Object{Plaintext: hx.Bytes(uint64(st.b), st.b%200, st.c%6), AssociatedData: []byte(r.str(st.c, st.crossed, r.kws))}, gs...)
		res = oid.String()
		if err == nil {
			r.oids = append(r.oids, oid)
		}
	case 3, 4:
		comp = 0
		var o data.Object
		o, err = r.d.Decrypt(bg, tok, r.oid(st.b, st.crossed))
		res = digest(o.Plaintext) + string(o.AssociatedData)
	case 5:
		comp = 0
		err = r.d.Update(bg, tok, r.oid(st.b, st.crossed), &data.Object{Plaintext: []byte("updated"), AssociatedData: []byte{1}})
	case 6:
		comp = 0
		err = r.d.Delete(bg, tok, r.oid(st.b, st.crossed))
	case 7:
		comp = 0
		var m map[string]struct{}
		m, err = r.d.GetAccessGroups(bg, tok, r.oid(st.b, st.crossed))
		res = fmt.Sprintf("%q", sortedKeys(m))
	case 8, 9:
		comp = 0
		var gs []string
		for _, n := range st.l {
			gs = append(gs, r.str(n, st.crossed, append(append([]string{}, r.uids...), r.gids...)))
		}
		if st.op == 8 {
			err = r.d.AddGroupsToAccess(bg, tok, r.oid(st.b, st.crossed && st.c%2 == 0), gs...)
		} else {
			err = r.d.RemoveGroupsFromAccess(bg, tok, r.oid(st.b, st.crossed && st.c%2 == 0), gs...)
		}
	case 10, 11, 12:
		comp = 1
		kw := r.str(st.b, st.crossed, r.kws)
		err = r.x.Add(bg, tok, kw, r.str(st.c, st.crossed, r.kws))
		if err == nil {
			lk, _ := hx.IndexKeys(r.keys.IEK, kw)
			for n := uint64(0); n < 2; n++ {
				r.labels = append(r.labels, string(hx.IndexLabel(lk, n)))
			}
			if !in(r.kws, kw) {
				r.kws = append(r.kws, kw)
			}
		}
	case 13, 14:
		comp = 1
		var got []string
		got, err = r.x.Search(bg, tok, r.str(st.b, st.crossed, r.kws))
		res = multiset(count(got))
	case 15:
		comp = 1
		err = r.x.Delete(bg, tok, r.str(st.b, st.crossed, r.kws), r.str(st.c, st.crossed, r.kws))
	case 16:
		comp = 2
		var i id.Identity
		i, err = r.s.GetIdentity(bg, tok)
		res = fmt.Sprintf("%q %x", i.ID, uint64(i.Scopes))
		for _, g := range sortedKeys(i.Groups) {
			res += fmt.Sprintf(" %q=%q:%x", g, i.Groups[g].ID, uint64(i.Groups[g].Scopes))
		}
	case 17:
		comp = 2
		var g string
		g, err = r.s.NewGroup(bg, tok, id.Scope(st.sc))
		res = g
		if err == nil {
			r.gids = append(r.gids, g)
		}
	case 18, 19:
		comp = 2
		var gs []string
		for _, n := range st.l {
			gs = append(gs, r.any(n, st.crossed && st.c%3 == 0, r.gids))
		}
		if st.op == 18 {
			err = r.s.AddUserToGroups(bg, tok, r.any(st.b, st.crossed, r.uids), gs...)
		} else {
			err = r.s.RemoveUserFromGroups(bg, tok, r.any(st.b, st.crossed, r.uids), gs...)
		}
	case 20:
		comp = 2
		u := r.any(st.b, st.crossed, r.uids)
		if in(r.uids, u) && st.c%4 != 0 {
			return
		}
		err = r.s.DeleteUser(bg, tok, u)
	case 21:
		comp = 2
		n := st.b % len(r.uids)
		u := r.any(st.b, st.crossed, r.uids)
		n = max(0, find29(r.uids, u))
		if in(r.uids, u) && st.c%16 != 0 { // costs a password hash
			return
		}
		pw := fmt.Sprintf("password %d", n)
		if st.c%2 == 0 {
			_, _, err = r.s.LoginUser(bg, u, pw)
		} else {
			var np string
			np, err = r.s.ChangeUserPassword(bg, u, pw)
			res = np
		}
	}
	if err == nil && comp >= 0 {
		r.ok[comp]++
	}
	r.out = append(r.out, fmt.Sprintf("%s, %s", res, kind29(err)))
}

func find29(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// kind29 is what an error says to a caller; messages may differ.
func kind29(err error) string {
	if err == nil {
		return "success"
	}
	for _, e := range []error{d1.ErrNotAuthenticated, d1.ErrNotAuthorized, d1.ErrObjectNotFound, d1.ErrAccessNotFound, index.ErrNotAuthenticated, index.ErrNotAuthorized, id.ErrNotAuthenticated, id.ErrNotAuthorized,
		id.ErrUserNotFound, id.ErrGroupNotFound, io.ErrNotFound, io.ErrAlreadyExists} {
		if errors.Is(err, e) {
			return e.Error()
		}
	}
	return "another error"
}

func records29(boxes ...*hx.Box) []string {
	var out []string
	seen := map[*hx.Box]bool{}
	for _, b := range boxes {
		if seen[b] || b.St == nil {
			continue
		}
		seen[b] = true
		sn := b.St.Snapshot()
		for _, k := range sn.Keys() {
			out = append(out, fmt.Sprintf("%v %d", k, len(sn[k])))
		}
	}
	sort.Strings(out)
	return out
}

func sharing(rt *rapid.T, c *hx.Case, kind string) {
	keys, cfg := keysOf(29), saKeysOf(29)
	if hx.Chance(rt, 4, "equal keys") {
		cfg.UEK, cfg.GEK, cfg.TEK = keys.KEK, keys.AEK, keys.TEK
		c.Logf("components have equal keys")
	}
	var steps []step29
	for n := hx.IntRange(3, 40).Draw(rt, "steps"); n > 0; n-- {
		st := step29{op: hx.IntRange(0, len(names29)-1).Draw(rt, "op"), a: hx.IntRange(0, 11).Draw(rt, "a"), b: hx.IntRange(0, 60).Draw(rt, "b"), c: hx.IntRange(0, 60).Draw(rt, "c"),
			sc: uint64(drawScope(rt, "scopes")), crossed: hx.Chance(rt, 3, "crossed")}
		for k := hx.IntRange(0, 3).Draw(rt, "list"); k > 0; k-- {
			st.l = append(st.l, hx.IntRange(0, 60).Draw(rt, "item"))
		}
		steps = append(steps, st)
	}
	seed := hx.Uint64Range(1, 1<<40).Draw(rt, "seed")
	var runs [2]*run29
	for n := range runs {
		r := &run29{keys: keys, cfg: cfg, kws: []string{"keyword", "keyword 2", ""}, alien: n == 1}
		runs[n] = r
		for i := range r.boxes {
			if n == 0 && i > 0 {
				r.boxes[i] = r.boxes[0]
			} else {
				r.boxes[i] = hx.NewBox(kind)
				defer r.boxes[i].Close()
			}
		}
		// users without the cost of passwords
		rnd := hx.NewRnd(3)
		for i := 0; i < 3; i++ {
			uid := uuid.UUID(hx.Bytes(uint64(i)+20, 16, 0)).String()
			sc := []uint64{uint64(allScopes), uint64(allScopes), uint64(id.ScopeIndex | id.ScopeDecrypt)}[i]
			rec := hx.EncodeUser(rnd, cfg.UEK, uid, hx.UserVal{SaltAndHash: valid26(i), Scopes: sc, Groups: map[string]struct{}{}})
			if err := r.boxes[2].P.Put(bg, []byte(uid), typeUser, rec); err != nil {
				rt.Fatalf("Put: %v", err)
			}
			r.uids = append(r.uids, uid)
			r.toks = append(r.toks, hx.EncodeToken(rnd, cfg.TEK, []byte(uid), time.Now().Add(30*time.Minute)))
		}
		for _, s := range []string{string(hx.Bytes(1, 16, 0)), "not a token"} { // a token for something that is not a user
			r.toks = append(r.toks, hx.EncodeToken(rnd, cfg.TEK, []byte(s), time.Now().Add(30*time.Minute)))
		}
		r.oids = append(r.oids, uuid.UUID(hx.Bytes(1, 16, 0)))
		r.start(rt)
		cryptotest.SetGlobalRandom(c.T, seed)
		for _, st := range steps {
			before := len(r.out)
			r.do(st)
			if n == 1 && len(r.out) > before {
				c.Logf("%s %v crossed: %v -> %s", names29[st.op], st.l, st.crossed, hx.Short(r.out[before]))
			}
		}
	}
	a, b := runs[0], runs[1]
	for i := range b.out {
		if i >= len(a.out) || a.out[i] != b.out[i] {
			rt.Fatalf("call %d gives %q on shared storage and %q on storage of its own", i, append(a.out, "")[i], b.out[i])
		}
	}
	ra, rb := records29(a.boxes[0]), records29(b.boxes[:]...)
	if strings.Join(ra, "\n") != strings.Join(rb, "\n") {
		rt.Fatalf("records on shared storage:\n%s\non storages of their own:\n%s", strings.Join(ra, "\n"), strings.Join(rb, "\n"))
	}
	used := 0
	for _, n := range b.ok {
		if n > 0 {
			used++
		}
	}
	if used > 1 && b.crossed > 0 {
		c.NonTrivial()
	}
}

func TestC29(t *testing.T) {
	rule := "histories of calls of all components with identifiers of one kind used for another, run on shared storage and, with the same randomness and identifiers of nothing in place of those of another kind, on separate storages; results and records must be the same; non-trivial: calls of two components succeeded and identifiers were crossed"
	for _, s := range []struct {
		kind  string
		q, th int
	}{{"store", 4800, 300000}, {"mem", 2400, 150000}, {"bolt", 160, 12000}, {"proxy", 400, 30000}} {
		hx.Check(t, s.kind, hx.Opt{Quick: s.q, Thorough: s.th, Rule: rule}, func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) { sharing(rt, c, s.kind) })
		})
	}
}
