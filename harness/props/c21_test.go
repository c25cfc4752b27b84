package props

import (
	"context"
	"errors"
	"fmt"
	stdio "io"
	"strings"
	"sync"
	"testing"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C21: workers with data of their own use one instance at once. What each gets must be what it gets
// when it runs alone. The race detector watches; nothing the harness does while the workers run may
// synchronize them (it would hide races), so storage and identities are held without locks.

type workerKey struct{}

// split is a provider in which every worker has a map of its own, found through the context.
type split struct{ m []map[hx.Key][]byte }

func newSplit(n int) *split {
	s := &split{}
	for i := 0; i < n; i++ {
		s.m = append(s.m, map[hx.Key][]byte{})
	}
	return s
}

func (s *split) of(c ctx) map[hx.Key][]byte {
	n, ok := c.Value(workerKey{}).(int)
	if !ok {
		panic("the library does not pass the caller's context on to the storage provider")
	}
	return s.m[n]
}

func (s *split) Put(c ctx, id []byte, t io.DataType, d []byte) error {
	m, k := s.of(c), hx.Key{ID: string(id), Type: t}
	if _, ok := m[k]; ok {
		return io.ErrAlreadyExists
	}
	m[k] = cloneBytes(d)
	return nil
}

func (s *split) Get(c ctx, id []byte, t io.DataType) ([]byte, error) {
	d, ok := s.of(c)[hx.Key{ID: string(id), Type: t}]
	if !ok {
		return nil, io.ErrNotFound
	}
	return cloneBytes(d), nil
}

func (s *split) Update(c ctx, id []byte, t io.DataType, d []byte) error {
	m, k := s.of(c), hx.Key{ID: string(id), Type: t}
	if _, ok := m[k]; !ok {
		return io.ErrNotFound
	}
	m[k] = cloneBytes(d)
	return nil
}

func (s *split) Delete(c ctx, id []byte, t io.DataType) error {
	delete(s.of(c), hx.Key{ID: string(id), Type: t})
	return nil
}

// fixedIDP answers from a map that nobody writes. All identities share one map of groups.
type fixedIDP struct{ m map[string]id.Identity }

func (p *fixedIDP) GetIdentity(_ ctx, tok string) (id.Identity, error) {
	i, ok := p.m[tok]
	if !ok {
		return id.Identity{}, errors.New("no such token")
	}
	return i, nil
}

type step21 struct {
	op, a, b int
}

// rig21 is one set of instances.
type rig21 struct {
	d, dsa  d1.D1
	x       index.SecureIndex
	s       id.Standalone
	cr      crypto.Cryptor
	kwp     *crypto.KWP
	ph      *crypto.PasswordHasher
	p       io.Provider
	ctx     context.Context
	groups  []string // passed by everybody, with room behind
	tok     *data.SealedToken
	buf     []byte
	wk, ct  []byte // of the shared cryptor
	wrapped []byte
	workers []*worker21

	// read by everybody, changed by nobody
	common     uuid.UUID
	commonUser string
	commonTok  string
}

type worker21 struct {
	n      int
	r      *rig21
	ctx    context.Context
	tok    string
	id     string
	uid    string
	mate   string // another user of the worker's
	matePw string
	stok   string
	oids   []uuid.UUID
	gids   []string
	toks   []data.SealedToken
	out    []string
}

func newRig21(f fat, workers int, kind string) *rig21 {
	r := &rig21{groups: make([]string, 0, 8), buf: hx.Bytes(4, 64, 0), ph: crypto.NewPasswordHasher()}
	r.groups = append(r.groups, "group a", "group b")
	l := zerolog.New(stdio.Discard).Level(zerolog.DebugLevel).With().Str("request", "shared").Logger()
	r.ctx = l.WithContext(bg)
	switch kind {
	case "split":
		r.p = newSplit(workers)
	default:
		r.p = hx.NewBox(kind).P
	}
	must := func(err error) {
		f.Helper()
		if err != nil {
			f.Fatalf("setting up: %v", err)
		}
	}
	cfg := saKeysOf(21)
	var err error
	r.s, err = id.NewStandalone(cfg, r.p)
	must(err)
	idp := &fixedIDP{map[string]id.Identity{}}
	idp.m["limited"] = id.Identity{ID: "somebody", Groups: map[string]id.AccessGroup{"everybody": {ID: "everybody"}}}
	idp.m["creator"] = id.Identity{ID: "somebody", Scopes: id.ScopeEncrypt | id.ScopeCreateToken}
	shared := map[string]id.AccessGroup{"everybody": {ID: "everybody", Scopes: allScopes}, "readers": {ID: "readers", Scopes: id.ScopeDecrypt}}
	kp := key.NewStatic(keysOf(21))
	rnd := hx.NewRnd(8)
	for i := 0; i < workers; i++ {
		w := &worker21{n: i, r: r, tok: fmt.Sprintf("token %d", i), id: fmt.Sprintf("worker %d", i)}
		w.ctx = context.WithValue(r.ctx, workerKey{}, i)
		idp.m[w.tok] = id.Identity{ID: w.id, Scopes: allScopes, Groups: shared}
		gid := uuid.UUID(hx.Bytes(uint64(i)+500, 16, 0)).String()
		must(r.p.Put(w.ctx, []byte(gid), typeGroup, hx.EncodeGroup(rnd, cfg.GEK, gid, hx.GroupVal{Scopes: uint64(i + 1)})))
		for k := 0; k < 2; k++ {
			uid := uuid.UUID(hx.Bytes(uint64(i*2+k)+100, 16, 0)).String()
			must(r.p.Put(w.ctx, []byte(uid), typeUser, hx.EncodeUser(rnd, cfg.UEK, uid, hx.UserVal{SaltAndHash: valid26(k), Scopes: uint64(allScopes), Groups: map[string]struct{}{gid: {}}})))
			if k == 0 {
				w.uid, w.stok = uid, hx.EncodeToken(rnd, cfg.TEK, []byte(uid), time.Now().Add(50*time.Minute))
			} else {
				w.mate = uid
			}
		}
		w.gids = append(w.gids, gid)
		r.workers = append(r.workers, w)
	}
	r.d, err = d1.New(bg, &kp, r.p, idp)
	must(err)
	r.dsa, err = d1.New(bg, &kp, r.p, &r.s)
	must(err)
	r.x, err = index.NewSecureIndex(bg, &kp, r.p, idp)
	must(err)
	r.cr, err = crypto.NewAESCryptor(keyOf(21, "cryptor"))
	must(err)
	r.kwp, err = crypto.NewKWP(keyOf(21, "kwp"))
	must(err)
	// what everybody reads: one list of the index, one object, one user. With storage of their own,
	// workers have copies of it.
	first := r.workers[0]
	for k := 0; k < 9; k++ {
		must(r.x.Add(first.ctx, first.tok, "common", fmt.Sprintf("common %d", k)))
	}
	must(r.x.Delete(first.ctx, first.tok, "common", "common 4"))
	r.common, err = r.d.Encrypt(first.ctx, first.tok, &data.Object{Plaintext: []byte("common plaintext"), AssociatedData: r.buf}, "everybody")
	must(err)
	r.commonUser = uuid.UUID(hx.Bytes(9999, 16, 0)).String()
	cg := uuid.UUID(hx.Bytes(9998, 16, 0)).String()
	must(r.p.Put(first.ctx, []byte(cg), typeGroup, hx.EncodeGroup(rnd, cfg.GEK, cg, hx.GroupVal{Scopes: 5})))
	must(r.p.Put(first.ctx, []byte(r.commonUser), typeUser, hx.EncodeUser(rnd, cfg.UEK, r.commonUser, hx.UserVal{SaltAndHash: valid26(0), Scopes: 3, Groups: map[string]struct{}{cg: {}}})))
	r.commonTok = hx.EncodeToken(rnd, cfg.TEK, []byte(r.commonUser), time.Now().Add(50*time.Minute))
	if s, ok := r.p.(*split); ok {
		for _, m := range s.m[1:] {
			for k, v := range s.m[0] {
				if _, ok := m[k]; !ok && k.ID != first.uid && k.ID != first.mate && k.ID != first.gids[0] {
					m[k] = cloneBytes(v)
				}
			}
		}
	}
	r.wk, r.ct, err = r.cr.Encrypt("shared value", r.buf)
	must(err)
	r.wrapped = hx.RefWrap(keyOf(21, "kwp"), r.buf)
	t, err := r.d.CreateToken(bg, []byte("shared token"))
	must(err)
	r.tok = &t
	return r
}

var names21 = []string{"encrypt", "encrypt", "decrypt", "decrypt", "update", "delete", "get access", "add access", "remove access", "authorize", "refused", "create token", "token contents", "shared token",
	"index add", "index add", "search", "index delete", "identity", "new group", "add member", "remove member", "hash", "wrap", "unwrap", "cryptor", "cryptor shared", "by standalone", "common search", "common search", "common decrypt", "common access", "common identity", "common authorize", "not allowed", "not allowed", "not listed", "values", "account", "account"}

func (w *worker21) oid(n int) uuid.UUID {
	if len(w.oids) == 0 {
		return uuid.Nil
	}
	return w.oids[n%len(w.oids)]
}

// do makes one call and notes the outcome without the identifiers drawn at random.
func (w *worker21) do(s step21) {
	r, c := w.r, w.ctx
	var err error
	res := ""
	pt := hx.Bytes(uint64(w.n)<<20|uint64(s.a), 30+s.a%50, 0)
	kw := fmt.Sprintf("keyword %d of %d", s.a%3, w.n)
	switch names21[s.op] {
	case "encrypt":
		var oid uuid.UUID
		oid, err = r.d.Encrypt(c, w.tok, &data.Object{Plaintext: pt, AssociatedData: r.buf}, r.groups...)
		if err == nil {
			w.oids = append(w.oids, oid)
		}
	case "by standalone":
		var oid uuid.UUID
		oid, err = r.dsa.Encrypt(c, w.stok, &data.Object{Plaintext: pt, AssociatedData: r.buf}, r.groups...)
		if err == nil {
			var o data.Object
			o, err = r.dsa.Decrypt(c, w.stok, oid)
			var m map[string]struct{}
			m, _ = r.dsa.GetAccessGroups(c, w.stok, oid)
			res = digest(o.Plaintext) + digest(o.AssociatedData) + w.list(m)
		}
	case "decrypt":
		var o data.Object
		o, err = r.d.Decrypt(c, w.tok, w.oid(s.a))
		res = digest(o.Plaintext) + digest(o.AssociatedData)
	case "update":
		err = r.d.Update(c, w.tok, w.oid(s.a), &data.Object{Plaintext: pt, AssociatedData: r.buf[:s.b%len(r.buf)]})
	case "delete":
		if s.b%3 == 0 {
			err = r.d.Delete(c, w.tok, w.oid(s.a))
		}
	case "get access":
		var m map[string]struct{}
		m, err = r.d.GetAccessGroups(c, w.tok, w.oid(s.a))
		res = w.list(m)
	case "add access":
		err = r.d.AddGroupsToAccess(c, w.tok, w.oid(s.a), append(r.groups[:len(r.groups):len(r.groups)], fmt.Sprintf("more %d", s.b%4))...)
		if s.b%2 == 0 {
			err = r.d.AddGroupsToAccess(c, w.tok, w.oid(s.a), r.groups...)
		}
	case "remove access":
		err = r.d.RemoveGroupsFromAccess(c, w.tok, w.oid(s.a), r.groups[:1]...)
	case "authorize":
		err = r.d.AuthorizeIdentity(c, w.tok, w.oid(s.a))
	case "refused":
		_, err = r.d.Decrypt(c, "no such token", w.oid(s.a))
	case "create token":
		var t data.SealedToken
		t, err = r.d.CreateToken(c, pt)
		w.toks = append(w.toks, t)
	case "token contents":
		if len(w.toks) > 0 {
			var b []byte
			b, err = r.d.GetTokenContents(c, &w.toks[s.a%len(w.toks)])
			res = digest(b)
		}
	case "shared token":
		var b []byte
		b, err = r.d.GetTokenContents(c, r.tok)
		res = string(b)
		if str, e := r.tok.String(); e != nil || str == "" {
			res += "no string form"
		}
	case "index add":
		err = r.x.Add(c, w.tok, kw, fmt.Sprintf("identifier %d of %d", s.b%4, w.n))
	case "search":
		var got []string
		got, err = r.x.Search(c, w.tok, kw)
		res = multiset(count(got))
	case "index delete":
		err = r.x.Delete(c, w.tok, kw, fmt.Sprintf("identifier %d of %d", s.b%4, w.n))
	case "identity":
		var i id.Identity
		i, err = r.s.GetIdentity(c, w.stok)
		res = fmt.Sprintf("%q %x", i.ID, uint64(i.Scopes))
		for n, g := range w.gids {
			if x, ok := i.Groups[g]; ok {
				res += fmt.Sprintf(" %d:%v:%x", n, x.ID == g, uint64(x.Scopes))
			}
		}
	case "new group":
		var g string
		g, err = r.s.NewGroup(c, w.stok, id.Scope(s.b))
		if err == nil {
			w.gids = append(w.gids, g)
		}
	case "add member":
		err = r.s.AddUserToGroups(c, w.stok, w.mate, w.gids[s.a%len(w.gids)])
	case "remove member":
		err = r.s.RemoveUserFromGroups(c, w.stok, w.mate, w.gids[s.a%len(w.gids)])
	case "hash":
		if s.b%8 == 0 {
			res = fmt.Sprint(r.ph.Compare(fmt.Sprintf("password %d", s.a%2), valid26s[0]))
		}
	case "wrap":
		var b []byte
		b, err = r.kwp.Wrap(r.buf[:16+s.a%40])
		res = fmt.Sprintf("%x", b)
	case "unwrap":
		var b []byte
		b, err = r.kwp.Unwrap(r.wrapped)
		res = fmt.Sprintf("%x", b)
	case "cryptor":
		var wk, ct []byte
		wk, ct, err = r.cr.Encrypt(pt, r.buf)
		if err == nil {
			var got []byte
			err = r.cr.Decrypt(&got, r.buf, wk, ct)
			res = digest(got)
		}
	case "common search":
		var got []string
		got, err = r.x.Search(c, w.tok, "common")
		res = multiset(count(got))
	case "common decrypt":
		var o data.Object
		o, err = r.d.Decrypt(c, w.tok, r.common)
		res = string(o.Plaintext) + digest(o.AssociatedData)
	case "common access":
		var m map[string]struct{}
		m, err = r.d.GetAccessGroups(c, w.tok, r.common)
		res = w.list(m)
	case "common authorize":
		err = r.d.AuthorizeIdentity(c, w.tok, r.common)
	case "common identity":
		var i id.Identity
		i, err = r.s.GetIdentity(c, r.commonTok)
		res = fmt.Sprintf("%q %x %d", i.ID, uint64(i.Scopes), len(i.Groups))
		for g, x := range i.Groups {
			res += fmt.Sprintf(" %q %q %x", g, x.ID, uint64(x.Scopes))
		}
	case "not allowed": // scopes are missing
		calls := []func(tok string) error{
			func(t string) error { _, err := r.d.Encrypt(c, t, &data.Object{Plaintext: pt}); return err },
			func(t string) error { _, err := r.d.Decrypt(c, t, r.common); return err },
			func(t string) error { return r.d.Update(c, t, r.common, &data.Object{Plaintext: pt}) },
			func(t string) error { return r.d.Delete(c, t, r.common) },
			func(t string) error { _, err := r.d.GetAccessGroups(c, t, r.common); return err },
			func(t string) error { return r.d.AddGroupsToAccess(c, t, r.common, "x") },
			func(t string) error { return r.d.RemoveGroupsFromAccess(c, t, r.common, "x") },
			func(t string) error { return r.x.Add(c, t, kw, "x") },
			func(t string) error { _, err := r.x.Search(c, t, kw); return err },
			func(t string) error { return r.x.Delete(c, t, kw, "x") },
		}
		err = calls[s.a%len(calls)]("limited")
		if s.b%2 == 0 {
			err = errors.Join(err, calls[1+s.b%(len(calls)-1)]("creator"))
		}
	case "not listed":
		outsider := "creator"
		if s.a%2 == 0 {
			outsider = "limited"
		}
		err = errors.Join(r.d.AuthorizeIdentity(c, outsider, r.common), r.d.AuthorizeIdentity(c, w.tok, uuid.UUID(hx.Bytes(uint64(s.b), 16, 0))),
			r.s.AddUserToGroups(c, w.stok, w.mate, w.gids[0], "not a group"), r.s.RemoveUserFromGroups(c, w.stok, w.mate, "not a group", w.gids[0]))
	case "values": // functions of values that anyone may call at any time
		sc := id.Scope(1) << (s.a % 11)
		res = sc.String() + id.Scope(s.b).String() + fmt.Sprint(id.ScopeUnion(sc, id.Scope(s.b)), sc.Contains(1), io.DataType(s.a).String(), io.DataType(s.b).Bytes())
		i := id.Identity{ID: w.id, Scopes: sc, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.Scope(s.b)}}}
		res += fmt.Sprint(i.GetIDScope("g"), i.GetIDScope(w.id), i.GetIDs())
	case "account": // logging in, and accounts that do not exist; what takes long is rare
		var tok, pw string
		switch {
		case s.b%24 == 0:
			tok, _, err = r.s.LoginUser(c, w.uid, fmt.Sprintf("password %d", s.a%2))
		case s.b%24 == 1:
			tok, _, err = r.s.LoginUser(c, r.commonUser, "password 0")
		case s.b%24 == 2:
			if w.matePw == "" {
				w.matePw = "password 1"
			}
			if pw, err = r.s.ChangeUserPassword(c, w.mate, w.matePw); err == nil {
				w.matePw = pw
			}
		case s.b%24 == 3:
			var uid string
			if uid, pw, err = r.s.NewUser(c, id.Scope(s.a), id.ScopeIndex); err == nil && s.a%2 == 0 {
				tok, _, err = r.s.LoginUser(c, uid, pw)
			}
		case s.a%4 == 0:
			_, err = r.s.ChangeUserPassword(c, "nobody", "password 0")
		case s.a%4 == 1:
			err = r.s.DeleteUser(c, w.stok, "nobody")
		default:
			tok, _, err = r.s.LoginUser(c, fmt.Sprintf("nobody %d", s.b), "password 0")
		}
		res = fmt.Sprint(tok != "", pw != "")
		if tok != "" {
			i, e := r.s.GetIdentity(c, tok)
			res += fmt.Sprint(i.ID == w.uid, i.ID == r.commonUser, uint64(i.Scopes), e)
		}
	case "cryptor shared":
		var got string
		err = r.cr.Decrypt(&got, r.buf, r.wk, r.ct)
		res = got
	}
	e := "success"
	if err != nil {
		e = "error"
		for _, x := range []error{io.ErrNotFound, io.ErrAlreadyExists, d1.ErrNotAuthorized, d1.ErrNotAuthenticated, d1.ErrObjectNotFound, d1.ErrAccessNotFound, id.ErrNotAuthorized, id.ErrNotAuthenticated, id.ErrUserNotFound, id.ErrGroupNotFound, index.ErrNotAuthenticated, index.ErrNotAuthorized, index.ErrNodeNotFound} {
			if errors.Is(err, x) {
				e = x.Error()
			}
		}
	}
	w.out = append(w.out, names21[s.op]+": "+res+", "+e)
}

func (w *worker21) list(m map[string]struct{}) string {
	return fmt.Sprintf("%q", sortedKeys(m))
}

func (w *worker21) run(steps []step21) {
	for _, s := range steps {
		w.do(s)
	}
}

func TestC21(t *testing.T) {
	for i := 0; i < 2; i++ {
		valid26(i) // filled in before anything runs concurrently
	}
	for _, k := range []struct {
		kind  string
		q, th int
	}{{"split", 480, 60000}, {"mem", 160, 20000}, {"bolt", 24, 3000}} {
		hx.Check(t, k.kind, hx.Opt{Quick: k.q, Thorough: k.th, RealRandom: true, Rule: "two to six workers with objects, keywords and users of their own make drawn calls at once on shared instances, with one context, logger, groups slice, buffers and token; each must get what it gets alone; the race detector watches; non-trivial: at least two workers make three calls or more"}, func(rt *rapid.T, c *hx.Case) {
			n := hx.IntRange(2, 6).Draw(rt, "workers")
			var scripts [][]step21
			long := 0
			focus := -1
			if rapid.Bool().Draw(rt, "focussed") { // everybody mostly makes one kind of call
				focus = hx.IntRange(0, len(names21)-1).Draw(rt, "focus")
			}
			for i := 0; i < n; i++ {
				var steps []step21
				what := ""
				for k := hx.IntRange(1, 12).Draw(rt, "calls"); k > 0; k-- {
					s := step21{hx.IntRange(0, len(names21)-1).Draw(rt, "call"), hx.IntRange(0, 99).Draw(rt, "a"), hx.IntRange(0, 99).Draw(rt, "b")}
					if focus >= 0 && k%2 == 0 {
						s.op = focus
					}
					steps = append(steps, s)
					what += names21[s.op] + ","
				}
				c.Logf("worker %d: %s", i, what)
				scripts = append(scripts, steps)
				if len(steps) > 2 {
					long++
				}
			}
			r := newRig21(rt, n, k.kind)
			start := make(chan struct{})
			var wg sync.WaitGroup
			panics := make([]any, n)
			for i, w := range r.workers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							panics[i] = p
						}
					}()
					<-start
					w.run(scripts[i])
				}()
			}
			close(start)
			wg.Wait()
			for i, p := range panics {
				if p != nil {
					rt.Fatalf("worker %d panics: %v", i, p)
				}
			}
			// alone, one after the other, on fresh instances
			a := newRig21(rt, n, "split")
			for i, w := range a.workers {
				w.run(scripts[i])
				got, want := strings.Join(r.workers[i].out, "\n"), strings.Join(w.out, "\n")
				if got != want {
					for x := range w.out {
						if r.workers[i].out[x] != w.out[x] {
							rt.Fatalf("worker %d, call %d: together %q, alone %q", i, x, r.workers[i].out[x], w.out[x])
						}
					}
				}
				// access lists once everything is quiet
				for k, oid := range r.workers[i].oids {
					x, e1 := r.d.GetAccessGroups(r.workers[i].ctx, w.tok, oid)
					y, e2 := a.d.GetAccessGroups(w.ctx, w.tok, w.oids[k])
					if (e1 == nil) != (e2 == nil) || w.list(x) != w.list(y) {
						rt.Fatalf("worker %d: the access list of object %d is %s (%v), alone it is %s (%v)", i, k, w.list(x), e1, w.list(y), e2)
					}
				}
			}
			for _, s := range r.groups[:cap(r.groups)][len(r.groups):] {
				if s != "" {
					rt.Fatalf("%q was written behind the groups slice", s)
				}
			}
			if long > 1 {
				c.NonTrivial()
			}
		})
	}
}
