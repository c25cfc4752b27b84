package props

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	liblog "github.com/cybercryptio/d1-lib/v2/log"
	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"
	zlog "github.com/rs/zerolog/log"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C30: every log line is attributed to the call that wrote it (through the goroutine and a stack of
// calls per goroutine), and judged by the fields it carries.

type kv struct{ k, v string }

type frame30 struct {
	what     string
	method   string // learnt; "" while learning
	outer    *frame30
	derived  bool // its context derives from the outer call's own
	uid, oid string
	oidFirst bool // known from the start of the call
	needUID  bool // a successful call ends with it
	ok       bool
	lines    []*line30
}

type line30 struct {
	raw  string
	kind string // "library", "provider", "caller"
	fr   *frame30
}

// rig30 is the writer and the owner of the frames.
type rig30 struct {
	mu     sync.Mutex
	stacks map[string][]*frame30
	frames []*frame30
	lines  []*line30
	base   []kv
	level  zerolog.Level
	secret map[string]string // what must not be written
}

// keep notes something that must not be written to a log.
func (g *rig30) keep(what string, vs ...string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.secret == nil {
		g.secret = map[string]string{}
	}
	for _, v := range vs {
		if len(v) < 6 {
			continue
		}
		for _, w := range []string{v, base64.StdEncoding.EncodeToString([]byte(v)), base64.RawURLEncoding.EncodeToString([]byte(v)), hex.EncodeToString([]byte(v)), strings.ToUpper(hex.EncodeToString([]byte(v)))} {
			g.secret[w] = what
		}
	}
}

func goid() string {
	var b [40]byte
	s := string(b[:runtime.Stack(b[:], false)])
	f := strings.Fields(s)
	if len(f) < 2 {
		hx.Bug("no goroutine number in %q", s)
	}
	return f[1]
}

func (g *rig30) Write(b []byte) (int, error) {
	me := goid()
	g.mu.Lock()
	defer g.mu.Unlock()
	l := &line30{raw: string(b), kind: "library"}
	if st := g.stacks[me]; len(st) > 0 {
		l.fr = st[len(st)-1]
	}
	if bytes.Contains(b, []byte(`"message":"by the provider"`)) {
		l.kind = "provider"
	}
	if bytes.Contains(b, []byte(`"message":"by the caller"`)) {
		l.kind = "caller"
	}
	g.lines = append(g.lines, l)
	if l.fr != nil {
		l.fr.lines = append(l.fr.lines, l)
	}
	return len(b), nil
}

func (g *rig30) push(f *frame30) func() {
	me := goid()
	g.mu.Lock()
	defer g.mu.Unlock()
	if st := g.stacks[me]; len(st) > 0 {
		f.outer = st[len(st)-1]
	}
	g.stacks[me] = append(g.stacks[me], f)
	g.frames = append(g.frames, f)
	return func() {
		g.mu.Lock()
		defer g.mu.Unlock()
		g.stacks[me] = g.stacks[me][:len(g.stacks[me])-1]
	}
}

func (l *line30) parse(f fat) []kv {
	f.Helper()
	d := json.NewDecoder(strings.NewReader(l.raw))
	d.UseNumber()
	bad := func(err error) {
		f.Helper()
		f.Fatalf("a log line is not a JSON object: %q (%v)", l.raw, err)
	}
	if t, err := d.Token(); err != nil || t != json.Delim('{') {
		bad(err)
	}
	var out []kv
	for d.More() {
		t, err := d.Token()
		if err != nil {
			bad(err)
		}
		k, ok := t.(string)
		if !ok {
			bad(nil)
		}
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			bad(err)
		}
		out = append(out, kv{k, string(v)})
	}
	return out
}

func values(fields []kv, key string) (out []string) {
	for _, x := range fields {
		if x.k == key {
			var s string
			if err := json.Unmarshal([]byte(x.v), &s); err != nil {
				s = x.v
			}
			out = append(out, s)
		}
	}
	return
}

func all(list []string, want string) bool {
	for _, s := range list {
		if s != want {
			return false
		}
	}
	return true
}

// own strips what every line starts with: the level and the caller's own fields.
func (g *rig30) own(f fat, l *line30, level string) []kv {
	f.Helper()
	fields := l.parse(f)
	if len(fields) == 0 || fields[0] != (kv{"level", `"` + level + `"`}) {
		f.Fatalf("a log line that is not at %s level: %q", level, l.raw)
	}
	fields = fields[1:]
	for i, b := range g.base {
		if i >= len(fields) || fields[i] != b {
			f.Fatalf("a log line without the caller's field %q: %q", b, l.raw)
		}
	}
	return fields[len(g.base):]
}

// chain is what the methods of a line of this call start with.
func (fr *frame30) chain() []string {
	var out []string
	if fr.derived && fr.outer != nil {
		out = fr.outer.chain()
	}
	return append(out, fr.method)
}

func (fr *frame30) calls() string {
	s := fr.what
	if fr.outer != nil {
		s += " inside " + fr.outer.calls()
	}
	return s
}

// judge looks at all lines after the calls have ended.
func (g *rig30) judge(f fat) {
	f.Helper()
	type seen struct{ uid, oid bool }
	had := map[*frame30]*seen{}
	for _, l := range g.lines {
		for v, what := range g.secret {
			if strings.Contains(l.raw, v) {
				f.Fatalf("a log line contains %s: %s", what, l.raw)
			}
		}
		if l.kind == "caller" {
			if rest := g.own(f, l, "error"); len(rest) != 1 {
				f.Fatalf("the caller's logger has got additional fields: %q", l.raw)
			}
			continue
		}
		rest := g.own(f, l, "debug")
		if g.level > zerolog.DebugLevel {
			f.Fatalf("a line was logged though the logger's level is %v: %q", g.level, l.raw)
		}
		fr := l.fr
		if fr == nil { // another goroutine or no call
			continue
		}
		if had[fr] == nil {
			had[fr] = &seen{}
		}
		h := had[fr]
		methods, uids, oids := values(rest, "method"), values(rest, "uid"), values(rest, "oid")
		if fr.method != "" {
			want := fr.chain()
			if len(methods) < len(want) {
				f.Fatalf("%s: a line with methods %q, want %q: %s", fr.calls(), methods, want, l.raw)
			}
			for i := range want {
				if methods[i] != want[i] {
					f.Fatalf("%s: a line with methods %q, want %q: %s", fr.calls(), methods, want, l.raw)
				}
			}
			for _, m := range methods[len(want):] { // a call of the library within itself
				if m != methods30["get identity"] || !strings.HasPrefix(fr.what, "id.") {
					f.Fatalf("%s: a line of method %q: %s", fr.calls(), m, l.raw)
				}
			}
		}
		if fr.what == "d1.Encrypt" && !fr.ok && fr.oid == "" && len(oids) > 0 {
			fr.oid = oids[0] // not known to the caller
		}
		uid, oid := fr.uid, fr.oid
		if fr.derived && fr.outer != nil {
			uid, oid = fr.outer.uid, fr.outer.oid
		}
		if !all(uids, uid) {
			f.Fatalf("%s: a line with user %q, want %q: %s", fr.calls(), uids, uid, l.raw)
		}
		if !all(oids, oid) {
			f.Fatalf("%s: a line with object %q, want %q: %s", fr.calls(), oids, oid, l.raw)
		}
		if (h.uid && len(uids) == 0) || (h.oid && len(oids) == 0) {
			f.Fatalf("%s: a line without the user or object that earlier lines have: %s", fr.calls(), l.raw)
		}
		if fr.oidFirst && len(oids) == 0 {
			f.Fatalf("%s: a line without the object: %s", fr.calls(), l.raw)
		}
		h.uid, h.oid = len(uids) > 0, len(oids) > 0
	}
	for _, fr := range g.frames {
		if h := had[fr]; fr.ok && h != nil && !fr.derived && ((fr.needUID && !h.uid) || (fr.oid != "" && !h.oid)) {
			f.Fatalf("%s: succeeded and its last line has no user or object: %s", fr.calls(), fr.lines[len(fr.lines)-1].raw)
		}
	}
}

const secret30 = "the secret "

// world30 is everything the calls need.
type world30 struct {
	f     fat
	g     *rig30
	st    *hx.Store
	gate  *hx.Gate
	idp   *hx.IDP
	d     d1.D1
	dsa   d1.D1 // on the standalone identity provider
	x     index.SecureIndex
	s     id.Standalone
	cfg   id.StandaloneConfig
	oids  []uuid.UUID
	soid  uuid.UUID
	toks  []string
	uids  []string
	gid   string
	plans map[string]*plan30 // of goroutines
	pmu   sync.Mutex
}

// plan30 is what happens inside the provider calls made in one goroutine.
type plan30 struct {
	ctx    context.Context
	nested []spec30
	at     []int
	calls  int
	depth  int
}

type spec30 struct {
	fn, tok, obj int
}

func (s spec30) String() string {
	return fmt.Sprintf("%s with token %d on %d", funcs30[s.fn].name, s.tok, s.obj)
}

// visit is what the providers do before they answer.
func (w *world30) visit(ctx context.Context) {
	zerolog.Ctx(ctx).Debug().Msg("by the provider")
	w.pmu.Lock()
	p := w.plans[goid()]
	w.pmu.Unlock()
	if p == nil {
		return
	}
	n := p.calls
	p.calls++
	if p.depth >= 2 {
		return
	}
	for i, at := range p.at {
		if at == n {
			p.depth++
			zerolog.Ctx(p.ctx).Error().Msg("by the caller")
			w.do(p.ctx, p.nested[i])
			zerolog.Ctx(p.ctx).Error().Msg("by the caller")
			p.depth--
		}
	}
}

type io30 struct {
	w *world30
	p io.Provider
}

func (p *io30) Put(c ctx, id []byte, t io.DataType, d []byte) error {
	p.w.visit(c)
	return p.p.Put(c, id, t, d)
}
func (p *io30) Get(c ctx, id []byte, t io.DataType) ([]byte, error) {
	p.w.visit(c)
	return p.p.Get(c, id, t)
}
func (p *io30) Update(c ctx, id []byte, t io.DataType, d []byte) error {
	p.w.visit(c)
	return p.p.Update(c, id, t, d)
}
func (p *io30) Delete(c ctx, id []byte, t io.DataType) error {
	p.w.visit(c)
	return p.p.Delete(c, id, t)
}

type idp30 struct {
	w *world30
	p interface {
		GetIdentity(ctx, string) (id.Identity, error)
	}
	lib bool // it is the library's own
}

func (p *idp30) GetIdentity(c ctx, token string) (id.Identity, error) {
	p.w.visit(c)
	if p.lib {
		defer p.w.g.push(&frame30{what: "id.GetIdentity", method: methods30["get identity"], derived: true})()
	}
	return p.p.GetIdentity(c, token)
}

func newWorld30(f fat, g *rig30) *world30 {
	w := &world30{f: f, g: g, st: hx.NewStore(), idp: hx.NewIDP(), cfg: saKeysOf(5), plans: map[string]*plan30{}}
	w.gate = hx.NewGate(w.st)
	p := &io30{w, w.gate}
	r := hx.NewRnd(77)
	must := func(err error) {
		f.Helper()
		if err != nil {
			f.Fatalf("setting up: %v", err)
		}
	}
	// users and groups, written without the cost of passwords
	w.gid = uuid.UUID(hx.Bytes(1, 16, 0)).String()
	put := func(s string, t io.DataType, b []byte) { must(w.st.Put(bg, []byte(s), t, b)) }
	put(w.gid, typeGroup, hx.EncodeGroup(r, w.cfg.GEK, w.gid, hx.GroupVal{Scopes: uint64(allScopes)}))
	for i := 0; i < 3; i++ {
		uid := uuid.UUID(hx.Bytes(uint64(i)+2, 16, 0)).String()
		sc := []uint64{uint64(allScopes), uint64(allScopes), uint64(id.ScopeGetAccessGroups)}[i]
		gs := map[string]struct{}{}
		if i < 2 {
			gs[w.gid] = struct{}{}
		}
		put(uid, typeUser, hx.EncodeUser(r, w.cfg.UEK, uid, hx.UserVal{SaltAndHash: valid26(i), Scopes: sc, Groups: gs}))
		tok := hx.EncodeToken(r, w.cfg.TEK, []byte(uid), time.Now().Add(30*time.Minute))
		w.uids, w.toks = append(w.uids, uid), append(w.toks, tok)
		w.idp.Tokens[tok] = &id.Identity{ID: uid, Scopes: id.Scope(sc), Groups: map[string]id.AccessGroup{}}
	}
	w.toks = append(w.toks, "not a token for anyone here")
	g.keep("a caller's token", w.toks...)
	g.keep("a plaintext", secret30+"plaintext")
	g.keep("a wrong password", secret30+"wrong password")
	g.keep("a keyword", secret30+"keyword")
	g.keep("an indexed identifier", secret30+"identifier")
	g.keep("a token's contents", secret30+"contents")
	for i := range w.uids {
		g.keep("a password", fmt.Sprintf("password %d", i))
		g.keep("a password hash", string(valid26(i)))
	}
	for _, k := range [][]byte{keysOf(5).KEK, keysOf(5).AEK, keysOf(5).TEK, keysOf(5).IEK, w.cfg.UEK, w.cfg.GEK, w.cfg.TEK} {
		g.keep("a key", string(k))
	}
	var err error
	w.s, err = id.NewStandalone(w.cfg, p)
	must(err)
	kp := key.NewStatic(keysOf(5))
	w.d, err = d1.New(bg, &kp, p, &idp30{w, w.idp, false})
	must(err)
	w.dsa, err = d1.New(bg, &kp, p, &idp30{w, &w.s, true})
	must(err)
	w.x, err = index.NewSecureIndex(bg, &kp, p, &idp30{w, w.idp, false})
	must(err)
	for i := 0; i < 3; i++ {
		oid, err := w.d.Encrypt(bg, w.toks[i%2], &data.Object{Plaintext: []byte(secret30 + "plaintext")}, w.uids[2-i])
		must(err)
		w.oids = append(w.oids, oid)
		must(w.x.Add(bg, w.toks[0], fmt.Sprintf(secret30+"keyword %d", i), secret30+"identifier"))
	}
	w.oids = append(w.oids, uuid.UUID(hx.Bytes(99, 16, 0)))
	return w
}

type func30 struct {
	name  string
	group string // within which methods have different names
	call  func(w *world30, c ctx, fr *frame30, tok string, n int) error
	slow  bool
}

func onObject(f func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error) func(*world30, ctx, *frame30, string, int) error {
	return func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		oid := w.oids[n%len(w.oids)]
		fr.oid, fr.oidFirst, fr.needUID = oid.String(), true, true
		return f(w, w.some(n), c, tok, oid)
	}
}

func (w *world30) some(n int) *d1.D1 {
	if n >= 4 {
		return &w.dsa
	}
	return &w.d
}

func onIndex(f func(w *world30, c ctx, tok, kw string) error) func(*world30, ctx, *frame30, string, int) error {
	return func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		fr.needUID = true
		return f(w, c, tok, fmt.Sprintf(secret30+"keyword %d", n%3))
	}
}

var funcs30 = []func30{
	{"d1.Encrypt", "d1", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		fr.needUID = true
		oid, err := w.some(n).Encrypt(c, tok, &data.Object{Plaintext: []byte(secret30 + "plaintext")}, "a", w.uids[1])
		if err == nil {
			fr.oid = oid.String()
		}
		return err
	}, false},
	{"d1.Update", "d1", onObject(func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error {
		return d.Update(c, tok, oid, &data.Object{Plaintext: []byte(secret30 + "plaintext")})
	}), false},
	{"d1.Decrypt", "d1", onObject(func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error {
		_, err := d.Decrypt(c, tok, oid)
		return err
	}), false},
	{"d1.Delete", "d1", onObject(func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error {
		return d.Delete(c, tok, oid)
	}), false},
	{"d1.CreateToken", "d1", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		_, err := w.some(n).CreateToken(c, []byte(secret30+"contents"))
		return err
	}, false},
	{"d1.GetTokenContents", "d1", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		t, err := data.TokenFromString(hx.EncodeToken(hx.NewRnd(uint64(n)), keysOf(5).TEK, []byte(secret30+"contents"), time.Now().Add(time.Minute)))
		if err != nil {
			return err
		}
		if n%2 == 1 {
			t.ExpiryTime = t.ExpiryTime.Add(time.Minute)
		}
		_, err = w.some(n).GetTokenContents(c, &t)
		return err
	}, false},
	{"d1.GetAccessGroups", "d1", onObject(func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error {
		_, err := d.GetAccessGroups(c, tok, oid)
		return err
	}), false},
	{"d1.AddGroupsToAccess", "d1", onObject(func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error {
		return d.AddGroupsToAccess(c, tok, oid, "one", "two")
	}), false},
	{"d1.RemoveGroupsFromAccess", "d1", onObject(func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error {
		return d.RemoveGroupsFromAccess(c, tok, oid, "one", "two")
	}), false},
	{"d1.AuthorizeIdentity", "d1", onObject(func(w *world30, d *d1.D1, c ctx, tok string, oid uuid.UUID) error {
		return d.AuthorizeIdentity(c, tok, oid)
	}), false},
	{"index.Add", "index", onIndex(func(w *world30, c ctx, tok, kw string) error { return w.x.Add(c, tok, kw, secret30+"identifier") }), false},
	{"index.Search", "index", onIndex(func(w *world30, c ctx, tok, kw string) error { _, err := w.x.Search(c, tok, kw); return err }), false},
	{"index.Delete", "index", onIndex(func(w *world30, c ctx, tok, kw string) error { return w.x.Delete(c, tok, kw, secret30+"identifier") }), false},
	{"id.GetIdentity", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		_, err := w.s.GetIdentity(c, tok)
		return err
	}, false},
	{"id.AddUserToGroups", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		return w.s.AddUserToGroups(c, tok, w.uids[n%3], w.gid)
	}, false},
	{"id.RemoveUserFromGroups", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		return w.s.RemoveUserFromGroups(c, tok, w.uids[2], w.gid)
	}, false},
	{"id.NewGroup", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		_, err := w.s.NewGroup(c, tok, id.ScopeAll)
		return err
	}, false},
	{"id.DeleteUser", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		return w.s.DeleteUser(c, tok, []string{w.uids[2], "nobody", "no one"}[n%3])
	}, false},
	{"id.LoginUser", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		uid, pw := w.uids[0], "password 0"
		if n%4 == 1 {
			pw = secret30 + "wrong password"
		}
		if n%4 == 2 {
			uid = "nobody"
		}
		t, _, err := w.s.LoginUser(c, uid, pw)
		w.g.keep("an issued token", t)
		return err
	}, true},
	{"id.ChangeUserPassword", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		pw := fmt.Sprintf("password %d", n%3)
		if n%4 == 1 {
			pw = secret30 + "wrong password"
		}
		p, err := w.s.ChangeUserPassword(c, w.uids[n%3], pw)
		w.g.keep("an issued password", p)
		return err
	}, true},
	{"id.NewUser", "id", func(w *world30, c ctx, fr *frame30, tok string, n int) error {
		_, p, err := w.s.NewUser(c, id.ScopeAll)
		w.g.keep("an issued password", p)
		return err
	}, true},
}

// methods30 is what the methods call themselves, learnt by running each alone.
var methods30 = map[string]string{}

func (w *world30) do(c ctx, s spec30) error {
	fn := funcs30[s.fn]
	fr := &frame30{what: fn.name, method: methods30[fn.name]}
	if s.tok < 3 {
		fr.uid = w.uids[s.tok]
	}
	defer w.g.push(fr)()
	err := fn.call(w, c, fr, w.toks[s.tok], s.obj)
	fr.ok = err == nil
	return err
}

// logger makes the caller's logger.
func (g *rig30) logger(fields []kv, level zerolog.Level, viaUpdate bool) zerolog.Logger {
	g.level, g.base = level, nil
	l := zerolog.New(g).Level(level)
	add := func(c zerolog.Context) zerolog.Context {
		for _, x := range fields {
			c = c.Str(x.k, x.v)
		}
		return c
	}
	if viaUpdate {
		l.UpdateContext(add)
	} else if len(fields) > 0 {
		l = add(l.With()).Logger()
	}
	// how the values look when written
	if len(fields) > 0 {
		var buf bytes.Buffer
		m := l.Output(&buf).Level(zerolog.TraceLevel)
		m.Error().Msg("x")
		got := (&line30{raw: buf.String()}).parse(hxFatal{})
		g.base = got[1 : len(got)-1]
		if len(g.base) != len(fields) {
			hx.Bug("fields of %q", buf.String())
		}
	}
	return l
}

type hxFatal struct{}

func (hxFatal) Helper()                      {}
func (hxFatal) Fatalf(s string, args ...any) { hx.Bug(s, args...) }

// learn30 runs each function alone.
func learn30(f fat) {
	if len(methods30) > 0 {
		return
	}
	found := map[string]string{}
	who := map[string]string{}
	for n, fn := range funcs30 {
		if fn.slow && !hx.Thorough() {
			if s, _ := hx.Shard(); s != n%8 {
				continue
			}
		}
		g := &rig30{stacks: map[string][]*frame30{}}
		w := newWorld30(f, g)
		l := g.logger([]kv{{"base", "x"}}, zerolog.TraceLevel, false)
		for _, tok := range []int{0, 2, 3} {
			// ok, refused, not authenticated
			c := l.WithContext(bg)
			fr := &frame30{what: fn.name}
			if tok < 3 {
				fr.uid = w.uids[tok]
			}
			pop := g.push(fr)
			err := fn.call(w, c, fr, w.toks[tok], 0)
			pop()
			fr.ok = err == nil
			if tok == 0 && err != nil {
				f.Fatalf("%s fails: %v", fn.name, err)
			}
			if fn.slow {
				break
			}
		}
		for _, l := range g.lines {
			m := values(g.own(f, l, "debug"), "method")
			if len(m) == 0 || m[0] == "" {
				f.Fatalf("%s logs a line without its method: %s", fn.name, l.raw)
			}
			if found[fn.name] == "" {
				found[fn.name] = m[0]
			}
			if found[fn.name] != m[0] {
				f.Fatalf("%s logs lines of methods %q and %q", fn.name, found[fn.name], m[0])
			}
		}
		g.judge(f)
		if m := found[fn.name]; m != "" {
			if x := who[fn.group+"/"+m]; x != "" {
				f.Fatalf("%s and %s both log as method %q", x, fn.name, m)
			}
			who[fn.group+"/"+m] = fn.name
		}
	}
	for k, v := range found {
		methods30[k] = v
	}
	methods30["get identity"] = found["id.GetIdentity"]
}

func TestC30(t *testing.T) {
	hx.Enum(t, "alone", "each method alone, by a caller that may, one that may not and one with a bad token: each line has the caller's fields and the method's; no two methods of a component share a name", false, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		do("every method", true, func(f testing.TB, c *hx.Case) { learn30(f); c.Logf("%v", methods30) })
	})
	learn30(t)
	hx.Enum(t, "elsewhere", "each method without a logger: nothing appears on the standard streams or in global loggers", false, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n, fn := range funcs30 {
			do(fn.name, true, func(f testing.TB, c *hx.Case) {
				g := &rig30{stacks: map[string][]*frame30{}}
				w := newWorld30(f, g)
				tmp, err := os.CreateTemp("", "c30")
				if err != nil {
					hx.Bug("temporary file: %v", err)
				}
				defer os.Remove(tmp.Name())
				defer tmp.Close()
				so, se, zl := os.Stdout, os.Stderr, zlog.Logger
				os.Stdout, os.Stderr, zlog.Logger = tmp, tmp, zerolog.New(tmp)
				log.SetOutput(tmp)
				for tok := 0; tok < 4; tok++ {
					w.do(bg, spec30{n, tok, 0})
				}
				os.Stdout, os.Stderr, zlog.Logger = so, se, zl
				log.SetOutput(se)
				b, err := os.ReadFile(tmp.Name())
				if err != nil {
					hx.Bug("temporary file: %v", err)
				}
				if len(b) > 0 || len(g.lines) > 0 {
					f.Fatalf("%s writes to another logger or stream: %q", fn.name, b)
				}
			})
		}
	})
	draw := func(rt *rapid.T, label string) spec30 {
		n := hx.IntRange(0, len(funcs30)-1).Draw(rt, label)
		if funcs30[n].slow && !hx.Chance(rt, 12, label+"-slow") {
			n = hx.IntRange(0, 12).Draw(rt, label+"-other")
		}
		return spec30{n, hx.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(rt, label+"-token"), hx.IntRange(0, 7).Draw(rt, label+"-on")}
	}
	hx.Check(t, "failures", hx.Opt{Quick: 12000, Thorough: 400000, Rule: "one to three calls with tokens of all kinds on storage whose calls fail as drawn and whose records have been tampered with; non-trivial: a call failed and lines were written"}, func(rt *rapid.T, c *hx.Case) {
		g := &rig30{stacks: map[string][]*frame30{}}
		w := newWorld30(rt, g)
		// further tokens: expired, of nobody, changed, under another key, in the clear
		r := hx.NewRnd(7)
		changed := []byte(w.toks[0])
		i := hx.IntRange(0, len(changed)-1).Draw(rt, "character")
		changed[i] ^= byte(hx.SampledFrom([]int{1, 2, 3, 4, 16}).Draw(rt, "change"))
		extra := []string{
			hx.EncodeToken(r, w.cfg.TEK, []byte(w.uids[0]), time.Now().Add(-time.Minute)),
			hx.EncodeToken(r, w.cfg.TEK, []byte(secret30+"nobody's name"), time.Now().Add(time.Hour)),
			hx.EncodeToken(r, keyOf(9, "other"), []byte(w.uids[0]), time.Now().Add(time.Hour)),
			hx.EncodeToken(r, w.cfg.TEK, nil, time.Now().Add(time.Hour)),
			"", secret30 + "token", base64.RawURLEncoding.EncodeToString([]byte(secret30 + "token")), w.toks[0] + " ", w.toks[0][:len(w.toks[0])/2], base64.RawURLEncoding.EncodeToString([]byte(`{"Ciphertext":"` + secret30 + `","ExpiryTime":0}`)),
		}
		extra = append(extra, string(changed))
		g.keep("a caller's token", extra...)
		l := g.logger([]kv{{"request", "value"}}, zerolog.DebugLevel, rapid.Bool().Draw(rt, "made by update"))
		adv := hx.NewTamper(w.st)
		adv.Observe()
		failed := false
		for k := hx.IntRange(1, 3).Draw(rt, "calls"); k > 0; k-- {
			s := draw(rt, "call")
			for m := hx.IntRange(0, 2).Draw(rt, "mods"); m > 0; m-- {
				c.Logf("adversary: %s", adv.Act(rt, []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess, io.DataTypeSealedNode, typeUser, typeGroup}))
			}
			told := func() (string, hx.Key, bool, bool) { return "", hx.Key{}, false, false }
			w.st.Hook = nil
			if hx.Chance(rt, 2, "fault") {
				told = w.st.FaultAt(hx.IntRange(1, 9).Draw(rt, "at"), hx.SampledFrom([]hx.Fault{hx.Rejected, hx.Rejected, hx.LostAck}).Draw(rt, "kind"))
			}
			w.st.Begin(4000)
			fn := funcs30[s.fn]
			fr := &frame30{what: fn.name, method: methods30[fn.name]}
			tok := w.toks[s.tok]
			if s.tok < 3 {
				fr.uid = w.uids[s.tok]
			} else {
				n := hx.IntRange(0, len(extra)-1).Draw(rt, "which token")
				tok = extra[n]
				switch {
				case n == 1:
					fr.uid = secret30 + "nobody's name"
				case n == 3:
					fr.uid = ""
				default:
					fr.uid = w.uids[0]
				}
			}
			pop := g.push(fr)
			err := fn.call(w, l.WithContext(bg), fr, tok, s.obj)
			pop()
			fr.ok = err == nil
			failed = failed || err != nil
			op, key, fired, _ := told()
			c.Logf("%v: %v (%v %s %v)", s, short(err), fired, op, key.Type)
			adv.Observe()
		}
		w.st.Hook = nil
		g.judge(rt)
		lib := 0
		for _, l := range g.lines {
			if l.kind == "library" {
				lib++
			}
		}
		if lib > 0 && failed {
			c.NonTrivial()
		}
	})
	hx.Check(t, "overlap", hx.Opt{Quick: 6000, Thorough: 400000, Rule: "one to three goroutines make one to three calls each with one context (or the default logger), their storage calls interleaved as drawn, and further calls are made with the same context from within the providers; every line is attributed to its call; non-trivial: a call ran inside or between the parts of another, and lines were written"}, func(rt *rapid.T, c *hx.Case) {
		g := &rig30{stacks: map[string][]*frame30{}}
		w := newWorld30(rt, g)
		var fields []kv
		for i := hx.IntRange(0, 3).Draw(rt, "fields"); i > 0; i-- {
			fields = append(fields, kv{hx.SampledFrom([]string{"request", "method", "uid", "oid", "x"}).Draw(rt, "field"), hx.SampledFrom([]string{"", "value", strings.Repeat("long", 200), "\"é\n"}).Draw(rt, "value")})
		}
		level := hx.SampledFrom([]zerolog.Level{zerolog.DebugLevel, zerolog.DebugLevel, zerolog.DebugLevel, zerolog.TraceLevel, zerolog.InfoLevel, zerolog.Disabled}).Draw(rt, "level")
		l := g.logger(fields, level, rapid.Bool().Draw(rt, "made by update"))
		byDefault := hx.Chance(rt, 6, "default logger")
		shared := bg
		if byDefault {
			zerolog.DefaultContextLogger = &l
			defer func() { zerolog.DefaultContextLogger = nil }()
		} else {
			shared = l.WithContext(bg)
		}
		w.gate.Base = shared
		var ops []func(ctx)
		overlaps := 0
		n := hx.IntRange(1, 3).Draw(rt, "goroutines")
		var bad []string
		for i := 0; i < n; i++ {
			var specs []spec30
			for k := hx.IntRange(1, 3).Draw(rt, "calls"); k > 0; k-- {
				specs = append(specs, draw(rt, "call"))
			}
			p := &plan30{}
			for k := hx.IntRange(0, 3).Draw(rt, "inside"); k > 0; k-- {
				p.nested = append(p.nested, draw(rt, "inner call"))
				p.at = append(p.at, hx.IntRange(0, 8).Draw(rt, "at"))
			}
			overlaps += len(p.at)
			c.Logf("goroutine %d: %v, inside: %v at %v", i, specs, p.nested, p.at)
			ops = append(ops, func(cx ctx) {
				p.ctx = cx
				w.pmu.Lock()
				w.plans[goid()] = p
				w.pmu.Unlock()
				for _, s := range specs {
					w.do(cx, s)
					zerolog.Ctx(cx).Error().Msg("by the caller")
				}
			})
		}
		if n > 1 {
			overlaps++
		}
		trace, err := w.gate.Schedule(ops, 3000, func(waiting []hx.Step) int {
			if len(waiting) == 1 {
				return 0
			}
			return hx.IntRange(0, len(waiting)-1).Draw(rt, "next")
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		// the caller's logger and its children are as before
		for _, x := range []*zerolog.Logger{&l, zerolog.Ctx(shared)} {
			y := x.Level(zerolog.ErrorLevel)
			y.Error().Msg("by the caller")
		}
		child := l.Level(zerolog.TraceLevel).With().Logger()
		child.Error().Msg("by the caller")
		_ = bad
		g.judge(rt)
		lib := 0
		for _, l := range g.lines {
			if l.kind == "library" {
				lib++
			}
		}
		c.Logf("fields %d, level %v, default %v, %d storage calls, %d lines", len(fields), level, byDefault, len(trace), lib)
		if overlaps > 0 && lib > 0 {
			c.NonTrivial()
		}
	})
	hx.Enum(t, "providers", "providers that add fields to the logger they find in the context of a call: none of it may reach the caller's logger", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) { providers30(t, do) })
	hx.Check(t, "direct", hx.Opt{Quick: 8000, Thorough: 400000,
		Rule: "the functions of the log package used directly: contexts copied, derived and given fields in a drawn order, lines written through all of them at every level, against a model in which a copy starts with the fields of what it was copied from and has its own from then on; non-trivial: at least one copy and two fields"},
		func(rt *rapid.T, c *hx.Case) { direct30(rt, c) })
}

// ctx30 is a context and the logger the model gives it.
type ctx30 struct {
	ctx context.Context
	log *logger30
}

type logger30 struct {
	fields map[string]string // nil: no logger
	level  zerolog.Level
	name   string
}

func direct30(rt *rapid.T, c *hx.Case) {
	var buf bytes.Buffer
	var ctxs []ctx30
	none := &logger30{name: "none"}
	// roots: contexts with loggers of the caller's, and one without
	for i := hx.IntRange(1, 3).Draw(rt, "roots"); i > 0; i-- {
		l := &logger30{fields: map[string]string{}, name: fmt.Sprintf("root%d", i), level: hx.SampledFrom([]zerolog.Level{zerolog.TraceLevel, zerolog.DebugLevel, zerolog.InfoLevel, zerolog.ErrorLevel}).Draw(rt, "level")}
		zc := zerolog.New(&buf).Level(l.level).With()
		for _, k := range hx.Subset(rt, []string{"app", "method", "uid", "oid", "request"}, 4, "own") {
			v := "own-" + k + l.name
			zc = zc.Str(k, v)
			l.fields[k] = v
		}
		zl := zc.Logger()
		ctxs = append(ctxs, ctx30{zl.WithContext(context.Background()), l})
	}
	ctxs = append(ctxs, ctx30{context.Background(), none})
	copies, fields := 0, 0
	for i := hx.IntRange(3, 16).Draw(rt, "steps"); i > 0; i-- {
		x := ctxs[hx.IntRange(0, len(ctxs)-1).Draw(rt, "ctx")]
		switch op := hx.SampledFrom([]string{"copy", "copy", "derive", "field", "field", "field"}).Draw(rt, "op"); op {
		case "copy":
			l := x.log
			if l != none {
				l = &logger30{fields: map[string]string{}, level: x.log.level, name: fmt.Sprintf("%s/%d", x.log.name, i)}
				for k, v := range x.log.fields {
					l.fields[k] = v
				}
				copies++
			}
			ctxs = append(ctxs, ctx30{liblog.CopyCtxLogger(x.ctx), l})
			c.Logf("copy %s", x.log.name)
		case "derive":
			type k struct{}
			ctxs = append(ctxs, ctx30{context.WithValue(x.ctx, k{}, i), x.log})
		case "field":
			v := hx.SampledFrom([]string{"a", "b", "c \"quoted\"", "", "long " + strings.Repeat("x", 300)}).Draw(rt, "value")
			name := hx.SampledFrom([]string{"method", "uid", "oid"}).Draw(rt, "field")
			switch name {
			case "method":
				liblog.WithMethod(x.ctx, v)
			case "uid":
				liblog.WithUserID(x.ctx, v)
			case "oid":
				liblog.WithObjectID(x.ctx, v)
			}
			if x.log != none {
				x.log.fields[name] = v
				fields++
			}
			c.Logf("%s of %s becomes %.20q", name, x.log.name, v)
		}
		if buf.Len() > 0 {
			rt.Fatalf("the functions of the log package write %q", buf.String())
		}
		for _, x := range ctxs {
			for _, level := range []zerolog.Level{zerolog.DebugLevel, zerolog.InfoLevel, zerolog.ErrorLevel} {
				buf.Reset()
				liblog.Ctx(x.ctx).WithLevel(level).Msg("m")
				liblog.Ctx(x.ctx).Debug().Msg("d")
				lines := strings.Split(strings.TrimSpace(buf.String()), "\n")
				if buf.Len() == 0 {
					lines = nil
				}
				var want []string
				if x.log != none && level >= x.log.level {
					want = append(want, "m")
				}
				if x.log != none && zerolog.DebugLevel >= x.log.level {
					want = append(want, "d")
				}
				if len(lines) != len(want) {
					rt.Fatalf("%s at level %v: lines %q for a logger of level %v", x.log.name, level, lines, x.log.level)
				}
				for j, line := range lines {
					var got map[string]string
					if err := json.Unmarshal([]byte(line), &got); err != nil {
						rt.Fatalf("%s: line %q: %v", x.log.name, line, err)
					}
					if got["message"] != want[j] {
						rt.Fatalf("%s: line %q instead of %q", x.log.name, line, want[j])
					}
					delete(got, "message")
					delete(got, "level")
					for k, v := range x.log.fields {
						if w, ok := got[k]; !ok || w != v {
							rt.Fatalf("%s: field %s is %q (there: %v), should be %q; line %q", x.log.name, k, w, ok, v, line)
						}
						delete(got, k)
					}
					if len(got) > 0 {
						rt.Fatalf("%s: line %q has fields %v, which nobody gave it", x.log.name, line, got)
					}
				}
			}
		}
		buf.Reset()
	}
	if copies > 0 && fields >= 2 {
		c.NonTrivial()
	}
}

// leaky30 is a key, identity and storage provider that adds fields to the logger of every call.
type leaky30 struct {
	io.Mem
	keys key.Keys
	ids  id.Provider
	n    int
}

func (p *leaky30) add(ctx context.Context) {
	p.n++
	liblog.WithMethod(ctx, "provider's")
	liblog.WithUserID(ctx, "provider's")
	zerolog.Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context { return c.Str("provider", "was here") })
}

func (p *leaky30) GetKeys(ctx context.Context) (key.Keys, error) { p.add(ctx); return p.keys, nil }

func (p *leaky30) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	p.add(ctx)
	return p.ids.GetIdentity(ctx, token)
}

func (p *leaky30) Put(ctx context.Context, i []byte, t io.DataType, b []byte) error {
	p.add(ctx)
	return p.Mem.Put(ctx, i, t, b)
}

func (p *leaky30) Get(ctx context.Context, i []byte, t io.DataType) ([]byte, error) {
	p.add(ctx)
	return p.Mem.Get(ctx, i, t)
}

func (p *leaky30) Update(ctx context.Context, i []byte, t io.DataType, b []byte) error {
	p.add(ctx)
	return p.Mem.Update(ctx, i, t, b)
}

func (p *leaky30) Delete(ctx context.Context, i []byte, t io.DataType) error {
	p.add(ctx)
	return p.Mem.Delete(ctx, i, t)
}

func providers30(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
	for _, proxied := range []bool{false, true} {
		do(fmt.Sprintf("through a proxy: %v", proxied), true, func(f testing.TB, c *hx.Case) {
			idp := hx.NewIDP()
			idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes}
			p := &leaky30{Mem: io.NewMem(), keys: keysOf(3), ids: idp}
			var store io.Provider = p
			if proxied {
				px := io.NewProxy(p)
				store = &px
			}
			var buf bytes.Buffer
			l := zerolog.New(&buf).Level(zerolog.DebugLevel).With().Str("app", "mine").Logger()
			ctx := l.WithContext(context.Background())
			check := func(what string, err error) {
				f.Helper()
				if err != nil {
					f.Fatalf("%s: %v", what, err)
				}
				buf.Reset()
				zerolog.Ctx(ctx).Info().Msg("m")
				if got := strings.TrimSpace(buf.String()); got != `{"level":"info","app":"mine","message":"m"}` {
					f.Fatalf("after %s the caller's logger writes %s", what, got)
				}
				buf.Reset()
			}
			d, err := d1.New(ctx, p, store, p)
			check("New", err)
			oid, err := d.Encrypt(ctx, "t", &data.Object{Plaintext: []byte("x")}, "g")
			check("Encrypt", err)
			_, err = d.Decrypt(ctx, "t", oid)
			check("Decrypt", err)
			check("Update", d.Update(ctx, "t", oid, &data.Object{Plaintext: []byte("y")}))
			check("AddGroupsToAccess", d.AddGroupsToAccess(ctx, "t", oid, "h"))
			check("RemoveGroupsFromAccess", d.RemoveGroupsFromAccess(ctx, "t", oid, "h"))
			_, err = d.GetAccessGroups(ctx, "t", oid)
			check("GetAccessGroups", err)
			check("AuthorizeIdentity", d.AuthorizeIdentity(ctx, "t", oid))
			tok, err := d.CreateToken(ctx, []byte("x"))
			check("CreateToken", err)
			_, err = d.GetTokenContents(ctx, &tok)
			check("GetTokenContents", err)
			check("Delete", d.Delete(ctx, "t", oid))
			x, err := index.NewSecureIndex(ctx, p, store, p)
			check("NewSecureIndex", err)
			check("Add", x.Add(ctx, "t", "k", "i"))
			_, err = x.Search(ctx, "t", "k")
			check("Search", err)
			check("index Delete", x.Delete(ctx, "t", "k", "i"))
			s, err := id.NewStandalone(saKeysOf(3), store)
			if err != nil {
				f.Fatalf("NewStandalone: %v", err)
			}
			uid, pw, err := s.NewUser(ctx, allScopes)
			check("NewUser", err)
			st, _, err := s.LoginUser(ctx, uid, pw)
			check("LoginUser", err)
			_, err = s.GetIdentity(ctx, st)
			check("GetIdentity", err)
			gid, err := s.NewGroup(ctx, st, allScopes)
			check("NewGroup", err)
			check("AddUserToGroups", s.AddUserToGroups(ctx, st, uid, gid))
			check("RemoveUserFromGroups", s.RemoveUserFromGroups(ctx, st, uid, gid))
			_, err = s.ChangeUserPassword(ctx, uid, pw)
			check("ChangeUserPassword", err)
			check("DeleteUser", s.DeleteUser(ctx, st, uid))
			c.Logf("%d provider calls added fields", p.n)
		})
	}
}
