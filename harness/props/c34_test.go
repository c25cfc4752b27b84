package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"
	"verif/harness/hx"
)

// C34: probes in place of the storage, identity and key providers look at the context of each call
// they get, and refuse those whose context has ended.

type ctxKey34 struct{ n int }

type probe34 struct {
	mu      sync.Mutex
	armed   bool // an operation runs
	passed  bool // setting up
	ctx     context.Context
	values  map[any]any
	n       int // calls of the operation
	at      int // the call in which the context ends (0: none)
	end     func()
	during  bool // it ends before the call is performed
	ended   bool
	after   int // calls refused since
	tok     string
	bad     error
	trace   []string
	st      *hx.Store
	ids     id.Provider
	keys    key.Keys
	changed hx.Snap
}

func (p *probe34) fail(format string, args ...any) {
	if p.bad == nil {
		p.bad = fmt.Errorf(format, args...)
	}
}

// call is a call to a provider.
func (p *probe34) call(ctx context.Context, what string, f func() error) error {
	p.mu.Lock()
	if p.passed {
		p.mu.Unlock()
		return f()
	}
	p.trace = append(p.trace, what)
	if !p.armed {
		p.fail("%s after the operation returned", what)
		p.mu.Unlock()
		return errors.New("too late")
	}
	p.n++
	n := p.n
	if ctx == nil {
		p.fail("%s without a context", what)
		p.mu.Unlock()
		return errors.New("no context")
	}
	for k, v := range p.values {
		if ctx.Value(k) != v {
			p.fail("%s (call %d) with a context that lacks the caller's values", what, n)
		}
	}
	if d, ok := p.ctx.Deadline(); ok {
		if got, ok := ctx.Deadline(); !ok || got.After(d) {
			p.fail("%s (call %d) with a context that ends at %v, though the caller's does at %v", what, n, got, d)
		}
	}
	if p.ctx.Err() == nil && ctx.Err() != nil {
		p.fail("%s (call %d) with a context that has ended (%v), which the caller's has not", what, n, ctx.Err())
	}
	if p.at == n && p.during {
		p.finish(ctx, what)
	}
	if p.ctx.Err() != nil {
		p.after++
		p.over(ctx, what)
		err := ctx.Err()
		p.mu.Unlock()
		if err == nil {
			err = errors.New("refused")
		}
		return err
	}
	p.mu.Unlock()
	err := f()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.at == n && !p.during {
		p.finish(ctx, what)
	}
	return err
}

// finish ends the caller's context.
func (p *probe34) finish(ctx context.Context, what string) {
	p.ended = true
	p.changed = p.st.Snapshot()
	p.end()
	p.over(ctx, what)
}

func (p *probe34) over(ctx context.Context, what string) {
	if ctx.Err() != nil {
		return
	}
	select {
	case <-ctx.Done():
	case <-time.After(time.Hour): // on the fake clock
		p.fail("%s (call %d) with a context that does not end with the caller's", what, p.n)
	}
}

func (p *probe34) Put(ctx context.Context, i []byte, t io.DataType, d []byte) error {
	return p.call(ctx, fmt.Sprintf("put of type %d", t), func() error { return p.st.Put(ctx, i, t, d) })
}

func (p *probe34) Get(ctx context.Context, i []byte, t io.DataType) (out []byte, err error) {
	err = p.call(ctx, fmt.Sprintf("get of type %d", t), func() (err error) { out, err = p.st.Get(ctx, i, t); return })
	return
}

func (p *probe34) Update(ctx context.Context, i []byte, t io.DataType, d []byte) error {
	return p.call(ctx, fmt.Sprintf("update of type %d", t), func() error { return p.st.Update(ctx, i, t, d) })
}

func (p *probe34) Delete(ctx context.Context, i []byte, t io.DataType) error {
	return p.call(ctx, fmt.Sprintf("delete of type %d", t), func() error { return p.st.Delete(ctx, i, t) })
}

func (p *probe34) GetIdentity(ctx context.Context, token string) (out id.Identity, err error) {
	err = p.call(ctx, "identity", func() (err error) {
		if !p.passed && token != p.tok {
			p.mu.Lock()
			p.fail("the identity provider is asked about %q, not the token given", token)
			p.mu.Unlock()
		}
		out, err = p.ids.GetIdentity(ctx, token)
		return
	})
	return
}

func (p *probe34) GetKeys(ctx context.Context) (out key.Keys, err error) {
	err = p.call(ctx, "keys", func() error { out = p.keys; return nil })
	return
}

// env34 is an instance of everything on the probes.
type env34 struct {
	*probe34
	b   *base32
	d   d1.D1
	x   index.SecureIndex
	s   id.Standalone
	p   io.Provider
	oid uuid.UUID

	more []string
}

func (b *base32) env(f fat, proxied, nested, large bool) *env34 {
	e := &env34{probe34: &probe34{passed: true, st: hx.NewStore(), keys: keysOf(34), tok: b.toks[0]}, b: b}
	e.st.Restore(b.snap)
	e.p = e.probe34
	if proxied {
		p := io.NewProxy(e.probe34)
		e.p = &p
	}
	must := func(err error) {
		f.Helper()
		if err != nil {
			f.Fatalf("setting up: %v", err)
		}
	}
	var err error
	e.s, err = id.NewStandalone(b.cfg, e.p)
	must(err)
	e.ids = &e.s
	if !nested {
		idp := hx.NewIDP()
		idp.Tokens[b.toks[0]] = &id.Identity{ID: b.uids[0], Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
		e.ids = idp
	}
	e.d, err = d1.New(bg, e.probe34, e.p, e.probe34)
	must(err)
	e.x, err = index.NewSecureIndex(bg, e.probe34, e.p, e.probe34)
	must(err)
	e.oid, err = e.d.Encrypt(bg, e.tok, &data.Object{Plaintext: []byte("content"), AssociatedData: []byte("ad")}, b.gids[0])
	must(err)
	for i := 0; i < 4; i++ {
		must(e.x.Add(bg, e.tok, "kw", fmt.Sprintf("id %d", i%3)))
	}
	if large {
		for i := 0; i < 40; i++ {
			gid, err := e.s.NewGroup(bg, e.tok, id.ScopeDecrypt)
			must(err)
			e.more = append(e.more, gid)
			must(e.x.Add(bg, e.tok, "kw", fmt.Sprintf("id %d", i%3)))
		}
		must(e.s.AddUserToGroups(bg, e.tok, b.uids[1], e.more...))
		for i := 0; i < 300; i++ {
			e.more = append(e.more, fmt.Sprintf("group %d", i))
		}
		must(e.d.AddGroupsToAccess(bg, e.tok, e.oid, e.more...))
		must(e.d.Update(bg, e.tok, e.oid, &data.Object{Plaintext: make([]byte, 1<<18), AssociatedData: make([]byte, 5000)}))
	}
	e.passed = false
	return e
}

type op34 struct {
	name   string
	costly bool // a password hash
	run    func(e *env34, ctx context.Context) error
}

var ops34 = []op34{
	{"encrypt", false, func(e *env34, c context.Context) error {
		_, err := e.d.Encrypt(c, e.tok, &data.Object{Plaintext: []byte("other")}, append(e.more, "g")...)
		return err
	}},
	{"decrypt", false, func(e *env34, c context.Context) error { _, err := e.d.Decrypt(c, e.tok, e.oid); return err }},
	{"update", false, func(e *env34, c context.Context) error {
		return e.d.Update(c, e.tok, e.oid, &data.Object{Plaintext: []byte("new")})
	}},
	{"delete", false, func(e *env34, c context.Context) error { return e.d.Delete(c, e.tok, e.oid) }},
	{"delete of nothing", false, func(e *env34, c context.Context) error { return e.d.Delete(c, e.tok, uuid.Must(uuid.NewV4())) }},
	{"get access", false, func(e *env34, c context.Context) error { _, err := e.d.GetAccessGroups(c, e.tok, e.oid); return err }},
	{"add access", false, func(e *env34, c context.Context) error {
		return e.d.AddGroupsToAccess(c, e.tok, e.oid, append(e.more, "g")...)
	}},
	{"remove access", false, func(e *env34, c context.Context) error {
		return e.d.RemoveGroupsFromAccess(c, e.tok, e.oid, e.b.gids[0])
	}},
	{"authorize", false, func(e *env34, c context.Context) error { return e.d.AuthorizeIdentity(c, e.tok, e.oid) }},
	{"token", false, func(e *env34, c context.Context) error {
		t, err := e.d.CreateToken(c, []byte("contents"))
		if err != nil {
			return err
		}
		_, err = e.d.GetTokenContents(c, &t)
		return err
	}},
	{"index add", false, func(e *env34, c context.Context) error { return e.x.Add(c, e.tok, "kw", "another") }},
	{"index add new", false, func(e *env34, c context.Context) error { return e.x.Add(c, e.tok, "another", "one") }},
	{"index search", false, func(e *env34, c context.Context) error { _, err := e.x.Search(c, e.tok, "kw"); return err }},
	{"index delete", false, func(e *env34, c context.Context) error { return e.x.Delete(c, e.tok, "kw", "id 0") }},
	{"index delete last", false, func(e *env34, c context.Context) error { return e.x.Delete(c, e.tok, "kw", "id 2") }},
	{"identity", false, func(e *env34, c context.Context) error { _, err := e.s.GetIdentity(c, e.tok); return err }},
	{"add to groups", false, func(e *env34, c context.Context) error {
		return e.s.AddUserToGroups(c, e.tok, e.b.uids[2], e.b.gids[0], e.b.gids[1])
	}},
	{"remove from groups", false, func(e *env34, c context.Context) error {
		return e.s.RemoveUserFromGroups(c, e.tok, e.b.uids[1], e.b.gids[0])
	}},
	{"delete user", false, func(e *env34, c context.Context) error { return e.s.DeleteUser(c, e.tok, e.b.uids[1]) }},
	{"new group", false, func(e *env34, c context.Context) error { _, err := e.s.NewGroup(c, e.tok, id.ScopeIndex); return err }},
	{"new user", true, func(e *env34, c context.Context) error { _, _, err := e.s.NewUser(c, id.ScopeIndex); return err }},
	{"login", true, func(e *env34, c context.Context) error {
		_, _, err := e.s.LoginUser(c, e.b.uids[0], e.b.pws[0])
		return err
	}},
	{"change password", true, func(e *env34, c context.Context) error {
		_, err := e.s.ChangeUserPassword(c, e.b.uids[0], e.b.pws[0])
		return err
	}},
	{"New", false, func(e *env34, c context.Context) error { _, err := d1.New(c, e.probe34, e.p, e.probe34); return err }},
	{"NewSecureIndex", false, func(e *env34, c context.Context) error {
		_, err := index.NewSecureIndex(c, e.probe34, e.p, e.probe34)
		return err
	}},
}

// ownCtx is a context that is none of the standard library's.
type ownCtx struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func (c *ownCtx) Done() <-chan struct{} { return c.done }

func (c *ownCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ownCtx) end() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = context.Canceled
		close(c.done)
	}
}

var ctxKinds34 = []string{"cancelled", "cancelled with a cause", "deadline", "parent cancelled", "of its own kind"}

// context makes a context of some kind, with values in it, and the means to end it.
func context34(kind, logger int) (context.Context, map[any]any, func(), string) {
	values := map[any]any{}
	ctx := context.Background()
	val := func() {
		k := ctxKey34{len(values)}
		values[k] = fmt.Sprintf("value %d", len(values))
		ctx = context.WithValue(ctx, k, values[k])
	}
	lg := ""
	switch logger {
	case 1:
		lg = ", with a logger"
		l := zerolog.New(&bytes.Buffer{})
		ctx = l.WithContext(ctx)
	case 2:
		lg = ", with a disabled logger"
		l := zerolog.Nop()
		ctx = l.WithContext(ctx)
	}
	val()
	var end func()
	name := ctxKinds34[kind%len(ctxKinds34)]
	switch name {
	case "cancelled":
		ctx, end = context.WithCancel(ctx)
	case "cancelled with a cause":
		c, f := context.WithCancelCause(ctx)
		ctx, end = c, func() { f(errors.New("a cause")) }
	case "deadline":
		c, f := context.WithTimeout(ctx, time.Minute)
		ctx, end = c, func() { time.Sleep(time.Minute); f() }
	case "parent cancelled":
		c, f := context.WithCancel(ctx)
		ctx, end = c, f
		ctx, _ = context.WithTimeout(ctx, 24*time.Hour)
	case "of its own kind":
		o := &ownCtx{Context: ctx, done: make(chan struct{})}
		ctx, end = o, o.end
	}
	val()
	return ctx, values, end, name + lg
}

// run performs an operation whose context ends in provider call at. It returns the number of calls.
func (e *env34) run(f fat, c *hx.Case, o op34, kind, logger, at int, during bool) int {
	f.Helper()
	ctx, values, end, name := context34(kind, logger)
	e.ctx, e.values, e.end, e.at, e.during = ctx, values, end, at, during
	before := e.st.Snapshot()
	if at < 0 { // before the call
		e.ended, e.changed = true, before
		end()
	}
	e.armed = true
	err := o.run(e, ctx)
	e.mu.Lock()
	e.armed = false
	n, refused, ended := e.n, e.after, e.ended
	e.mu.Unlock()
	held := e.st.Snapshot()
	synctest.Wait()
	time.Sleep(time.Hour)
	synctest.Wait()
	if !ended {
		end()
	}
	time.Sleep(time.Hour)
	synctest.Wait()
	e.mu.Lock()
	defer e.mu.Unlock()
	c.Logf("%s, context %s, ending in call %d: %v -> %v", o.name, name, at, e.trace, err)
	if e.bad != nil {
		f.Fatalf("%s, context %s, ending in call %d: %v\n%v", o.name, name, at, e.bad, e.trace)
	}
	if d := held.Diff(e.st.Snapshot()); len(d) > 0 {
		f.Fatalf("%s: records change after it returned: %v", o.name, d)
	}
	if ended {
		c.NonTrivial()
		c.Label(o.name + "/" + name)
		if d := e.changed.Diff(held); len(d) > 0 {
			f.Fatalf("%s, context %s, ended in call %d, yet records change after that: %v\n%v", o.name, name, at, d, e.trace)
		}
		if refused > 0 && err == nil {
			f.Fatalf("%s, context %s, ended in call %d, so that providers refused its calls, yet it succeeds\n%v", o.name, name, at, e.trace)
		}
	} else if err != nil {
		f.Fatalf("%s, context %s, fails: %v\n%v", o.name, name, err, e.trace)
	}
	return n
}

func TestC34(t *testing.T) {
	base := newBase32(t)
	hx.EnumAll(t, "each", "every operation with contexts of five kinds that end before it, in each of its provider calls (before or after that is performed), or not at all, with and without a logger, on plain and proxied storage, with the standalone identity provider and another; non-trivial: the context ended in time", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, o := range ops34 {
				loggers, kinds := 3, len(ctxKinds34)
				if o.costly && !hx.Thorough() {
					loggers = 1
				}
				for kind := 0; kind < kinds; kind++ {
					for logger := 0; logger < loggers; logger++ {
						for i := 0; i < 4; i++ {
							if o.costly && !hx.Thorough() && i != 1 {
								continue
							}
							do(fmt.Sprintf("%s, context %s, logger %d, proxied %v, standalone %v", o.name, ctxKinds34[kind], logger, i%2 == 1, i < 2), false, func(tb testing.TB, c *hx.Case) {
								last := 1
								for at := -1; at <= last; at++ {
									for _, during := range []bool{true, false} {
										if during && at < 1 || o.costly && during && !hx.Thorough() {
											continue
										}
										synctest.Test(tb.(*testing.T), func(t *testing.T) {
											n := base.env(t, i%2 == 1, i < 2, false).run(t, c, o, kind, logger, at, during)
											if at == 0 {
												last = n
											}
										})
									}
								}
							})
						}
					}
				}
			}
		})
	hx.EnumAll(t, "large", "the same with 40 more groups of the caller, 40 more identifiers of the keyword, 300 groups on the access list and 256 kB of content, and contexts that end in one of the calls", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, o := range ops34 {
				if o.costly {
					continue
				}
				for _, at := range []int{0, -1, 1, 2, 3, 5, 20, 43, 44, 45, 46, 47, 60, 88, 89, 90, 91, 92} {
					kind := at + 1
					do(fmt.Sprintf("%s, ending in call %d", o.name, at), false, func(tb testing.TB, c *hx.Case) {
						synctest.Test(tb.(*testing.T), func(t *testing.T) {
							base.env(t, kind%2 == 1, true, true).run(t, c, o, kind, kind%3, at, kind%4 < 2)
						})
					})
				}
			}
		})
	hx.EnumAll(t, "tokens", "every operation of the object and index components by a caller with an unusual token; non-trivial: all", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, tok := range []string{"", " ", "k", " k", "k ", "\tk\n", "K", "Bearer k", "bearer k", "Bearer ", "k\x00", "\x00k", "\xffk\xc3", "k.k.k", "k=", "k==", "a b", "é", "e\u0301", "\ufeffk", "k,k", "\"k\"", "%6b", string(bytes.Repeat([]byte("0123456789abcdef"), 1000))} {
				for _, o := range ops34[:15] {
					do(fmt.Sprintf("%s, token %.40q", o.name, tok), true, func(tb testing.TB, c *hx.Case) {
						synctest.Test(tb.(*testing.T), func(t *testing.T) {
							e := base.env(t, false, false, false)
							idp := e.ids.(*hx.IDP)
							idp.Tokens = map[string]*id.Identity{tok: idp.Tokens[e.tok]}
							e.tok = tok
							e.run(t, c, o, 0, 0, 0, false)
						})
					})
				}
			}
		})
}
