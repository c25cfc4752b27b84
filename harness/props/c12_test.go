package props

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/cryptotest"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// secrets is one assignment of secret values; two assignments give equal lengths.
type secrets struct{ n int }

func (s secrets) raw(kind string, i, n int) []byte {
	var out []byte
	for b := 0; len(out) < n; b++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d/%d", s.n, kind, i, b)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func (s secrets) name(kind string, i int) string {
	const abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := s.raw(kind, i, 14+i%7)
	for j := range b {
		b[j] = abc[int(b[j])%len(abc)]
	}
	return string(b)
}

func (s secrets) scope(i int) id.Scope {
	return id.Scope(100000000000 + uint64(s.raw("scope", i, 1)[0])<<16 + uint64(s.raw("scope", i, 2)[1])<<24 + uint64(i))
}

// step12 is one call of a history whose secret arguments are given by number.
type step12 struct {
	op      string
	a, b, n int
	ad      []byte
	gs      []int
}

type run12 struct {
	f     fat
	base  *saBase
	s     secrets
	st    *hx.Store
	d     d1.D1
	x     index.SecureIndex
	sa    id.Standalone
	oids  []uuid.UUID
	gids  []string
	uids  []string
	pws   []string
	found [][]byte // every secret used
	keys  key.Keys

	traced      zerolog.Level // of the logger in the context of every call; Disabled: none
	said, lines bytes.Buffer  // what providers log, and what else is logged
}

// tok12 is the caller's bearer token.
const tok12 = "bearer token of the caller"

// provider logs, through the context of every call, a line of its own.
func (r *run12) provider() io.Provider {
	if r.traced == zerolog.Disabled {
		return r.st
	}
	return logging{r.st, &r.said, &r.lines}
}

type logging struct {
	io.Provider
	said, lines *bytes.Buffer
}

func (l logging) say(cx context.Context) {
	n := l.lines.Len()
	zerolog.Ctx(cx).WithLevel(zerolog.NoLevel).Msg("the provider says")
	l.said.Write(l.lines.Bytes()[n:])
	l.lines.Reset()
}

func (l logging) Put(cx context.Context, k []byte, t io.DataType, d []byte) error {
	l.say(cx)
	return l.Provider.Put(cx, k, t, d)
}

func (l logging) Get(cx context.Context, k []byte, t io.DataType) ([]byte, error) {
	l.say(cx)
	return l.Provider.Get(cx, k, t)
}

func (l logging) Update(cx context.Context, k []byte, t io.DataType, d []byte) error {
	l.say(cx)
	return l.Provider.Update(cx, k, t, d)
}

func (l logging) Delete(cx context.Context, k []byte, t io.DataType) error {
	l.say(cx)
	return l.Provider.Delete(cx, k, t)
}

func (r *run12) do(steps []step12) {
	idp := hx.NewIDP()
	owner := r.s.name("owner", 0)
	idp.Tokens[tok12] = &id.Identity{ID: owner, Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
	for i := 0; i < 3; i++ {
		g := r.s.name("group", i)
		idp.Tokens[tok12].Groups[g] = id.AccessGroup{ID: g, Scopes: allScopes}
	}
	use := func(b []byte) { r.found = append(r.found, b) }
	use([]byte(owner))
	r.st = hx.NewStore()
	r.st.Restore(r.base.snap)
	r.st.Record = true
	kp := key.NewStatic(r.keys)
	cx := bg
	if r.traced != zerolog.Disabled {
		cx = zerolog.New(&r.lines).Level(r.traced).With().Str("caller", "nobody").Logger().WithContext(bg)
	}
	var err error
	if r.d, err = d1.New(bg, &kp, r.provider(), idp); err != nil {
		r.f.Fatalf("%v", err)
	}
	if r.x, err = index.NewSecureIndex(bg, &kp, r.provider(), idp); err != nil {
		r.f.Fatalf("%v", err)
	}
	if r.sa, err = id.NewStandalone(r.base.cfg, r.provider()); err != nil {
		r.f.Fatalf("%v", err)
	}
	for _, u := range r.base.users {
		r.uids = append(r.uids, u.uid)
		r.pws = append(r.pws, u.pw)
		use([]byte(u.pw))
	}
	must := func(what string, err error) {
		if err != nil {
			r.f.Fatalf("%s fails: %v", what, err)
		}
	}
	groups := func(s step12) []string {
		var out []string
		for _, g := range s.gs {
			n := r.s.name("group", g)
			use([]byte(n))
			out = append(out, n)
		}
		return out
	}
	oid := func(i int) uuid.UUID { return r.oids[i%len(r.oids)] }
	for _, s := range steps {
		if len(r.oids) == 0 && strings.HasPrefix(s.op, "o-") {
			continue
		}
		pt := r.s.raw("pt", s.b, s.n)
		if s.n >= 12 && (s.op == "encrypt" || s.op == "o-update") {
			use(pt)
		}
		switch s.op {
		case "encrypt":
			o, err := r.d.Encrypt(cx, tok12, &data.Object{Plaintext: pt, AssociatedData: s.ad}, groups(s)...)
			must(s.op, err)
			r.oids = append(r.oids, o)
		case "o-update":
			must(s.op, r.d.Update(cx, tok12, oid(s.a), &data.Object{Plaintext: pt, AssociatedData: s.ad}))
		case "o-decrypt":
			_, err := r.d.Decrypt(cx, tok12, oid(s.a))
			must(s.op, err)
		case "o-acl":
			_, err := r.d.GetAccessGroups(cx, tok12, oid(s.a))
			must(s.op, err)
		case "o-add":
			must(s.op, r.d.AddGroupsToAccess(cx, tok12, oid(s.a), groups(s)...))
		case "o-rem":
			must(s.op, r.d.RemoveGroupsFromAccess(cx, tok12, oid(s.a), groups(s)...))
		case "o-refused":
			if _, err := r.d.Decrypt(cx, "bad", oid(s.a)); err == nil {
				r.f.Fatalf("bad token accepted")
			}
		case "x-add", "x-search", "x-del":
			kw, ident := r.s.name("kw", s.a), r.s.name("id", s.b)
			use([]byte(kw))
			use([]byte(ident))
			switch s.op {
			case "x-add":
				must(s.op, r.x.Add(cx, tok12, kw, ident))
			case "x-search":
				_, err := r.x.Search(cx, tok12, kw)
				must(s.op, err)
			default:
				must(s.op, r.x.Delete(cx, tok12, kw, ident))
			}
		case "new group":
			g, err := r.sa.NewGroup(cx, r.base.toks[s.a%2].s, r.s.scope(s.b))
			must(s.op, err)
			r.gids = append(r.gids, g)
		case "member", "unmember":
			if len(r.gids) == 0 {
				continue
			}
			// by the creator of the group or by someone who may or may not be in it: the same in both runs
			tok, g := r.base.toks[s.a%2].s, r.gids[s.b%len(r.gids)]
			if s.op == "member" {
				_ = r.sa.AddUserToGroups(cx, tok, r.uids[s.n%2], g)
			} else {
				_ = r.sa.RemoveUserFromGroups(cx, tok, r.uids[s.n%2], g)
			}
		case "identity":
			_, err := r.sa.GetIdentity(cx, r.base.toks[s.a%2].s)
			must(s.op, err)
		case "new user":
			u, pw, err := r.sa.NewUser(cx, r.s.scope(s.b))
			must(s.op, err)
			r.uids = append(r.uids, u)
			r.pws = append(r.pws, pw)
			use([]byte(pw))
		case "change":
			pw, err := r.sa.ChangeUserPassword(cx, r.uids[s.a%2], r.pws[s.a%2])
			must(s.op, err)
			r.pws[s.a%2] = pw
			use([]byte(pw))
		case "login":
			_, _, err := r.sa.LoginUser(cx, r.uids[s.a%2], r.s.name("wrong password", s.b))
			if err == nil {
				r.f.Fatalf("wrong password accepted")
			}
			use([]byte(r.s.name("wrong password", s.b)))
		}
	}
}

func drawSteps12(rt *rapid.T, hashes bool) []step12 {
	ops := []string{"encrypt", "o-update", "o-decrypt", "o-acl", "o-add", "o-rem", "o-refused", "x-add", "x-add", "x-search", "x-del", "new group", "member", "unmember", "identity"}
	if hashes {
		ops = append(ops, "new user", "change", "login")
	}
	out := []step12{{op: "encrypt", n: 20, ad: []byte("associated")}}
	if hashes {
		out = append(out, step12{op: hx.SampledFrom(ops[len(ops)-3:]).Draw(rt, "hop"), a: hx.IntRange(0, 1).Draw(rt, "ha")})
		ops = ops[:len(ops)-3]
	}
	for n := hx.IntRange(3, 25).Draw(rt, "steps"); n > 0; n-- {
		s := step12{op: hx.SampledFrom(ops).Draw(rt, "op"), a: hx.IntRange(0, 3).Draw(rt, "a"), b: hx.IntRange(0, 3).Draw(rt, "b"), n: hx.Size(rt, 300, "n")}
		s.ad = hx.Bytes(hx.Uint64Range(0, 9).Draw(rt, "ad"), hx.IntRange(0, 30).Draw(rt, "adn"), 0)
		if hx.Chance(rt, 16, "large") {
			s.ad = hx.Bytes(hx.Uint64Range(0, 9).Draw(rt, "ad"), hx.Size(rt, 20000, "adn"), 0)
			if hx.Chance(rt, 3, "pt too") {
				s.n = hx.Size(rt, 20000, "n")
			}
		}
		if s.op == "encrypt" || s.op == "o-add" || s.op == "o-rem" {
			lo := 0
			if s.op == "o-rem" {
				lo = 3 // the caller's own groups stay
			}
			s.gs = rapid.SliceOfN(hx.IntRange(lo, 6), 0, 4).Draw(rt, "gs")
		}
		out = append(out, s)
	}
	return out
}

// forms of a secret that would give it away.
func forms(s []byte) [][]byte {
	out := [][]byte{s, []byte(hex.EncodeToString(s)), []byte(strings.ToUpper(hex.EncodeToString(s)))}
	for _, enc := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
		for off := 0; off < 3; off++ {
			e := enc.EncodeToString(append(make([]byte, off), s...))
			lo, hi := 0, len(e)
			if off > 0 {
				lo = 4
			}
			if (len(s)+off)%3 != 0 {
				hi -= 2
			}
			if hi-lo >= 12 {
				out = append(out, []byte(e[lo:hi]))
			}
		}
	}
	if j, err := json.Marshal(string(s)); err == nil && len(j) > len(s)+2 {
		out = append(out, j[1:len(j)-1])
	}
	return out
}

// layers are the bytes of a record and everything base64-encoded in it.
func layers(b []byte) [][]byte {
	out := [][]byte{b}
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) == nil {
		for k := range m {
			if raw, ok := hx.RawField(m, k); ok {
				out = append(out, raw)
			}
		}
	}
	return out
}

func TestC12(t *testing.T) {
	base := newSABase(t, saKeysOf(12), []id.Scope{allScopes}, []id.Scope{id.ScopeDecrypt})
	prop := func(hashes bool) func(rt *rapid.T, c *hx.Case) {
		return func(rt *rapid.T, c *hx.Case) { rapid.SyncTest(rt, func(rt *rapid.T) { noLeak(rt, c, base, hashes) }) }
	}
	rule := "one history of object, index and identity calls run twice with the same randomness and different secrets of the same lengths, the storage traffic of both compared field by field and searched for every secret and data key in plain, hex, base64 and JSON form; "
	hx.Check(t, "traffic", hx.Opt{Quick: 6000, Thorough: 300000, Rule: rule + "non-trivial: traffic of at least 3 kinds of record"}, prop(false))
	hx.Check(t, "passwords", hx.Opt{Quick: 96, Thorough: 6000, Rule: rule + "including creating users, changing passwords and failing logins; non-trivial: the same"}, prop(true))
	hx.Check(t, "labels", hx.Opt{Quick: 3000, Thorough: 200000,
		Rule: "the same additions for related keywords under related index keys: record keys must be 32 bytes and all different; non-trivial: all"},
		func(rt *rapid.T, c *hx.Case) {
			c.NonTrivial()
			seen := map[string]string{}
			kws := hx.Names(rt, hx.IntRange(2, 4).Draw(rt, "n"), "kw")
			k := keysOf(12)
			for v := 0; v < 2; v++ {
				if v == 1 {
					k.IEK = cloneBytes(k.IEK)
					bit := hx.IntRange(0, 255).Draw(rt, "bit")
					k.IEK[bit/8] ^= 1 << (bit % 8)
					c.Logf("index key bit %d", bit)
				}
				for _, kw := range kws {
					w := newIndex(rt, c, hx.NewBox("store"), k)
					for i := 0; i < 3; i++ {
						w.add("t", kw, "x")
					}
					for r := range w.box.St.Snapshot() {
						what := fmt.Sprintf("key %d keyword %q", v, kw)
						if len(r.ID) != 32 {
							rt.Fatalf("%s: record key of %d bytes", what, len(r.ID))
						}
						if o, ok := seen[r.ID]; ok {
							rt.Fatalf("%s and %s share a record key", what, o)
						}
						seen[r.ID] = what
					}
				}
			}
		})
}

func noLeak(rt *rapid.T, c *hx.Case, base *saBase, hashes bool) {
	steps := drawSteps12(rt, hashes)
	seed := hx.Uint64Range(1, 1<<40).Draw(rt, "runs")
	level := hx.SampledFrom([]zerolog.Level{zerolog.Disabled, zerolog.TraceLevel, zerolog.DebugLevel, zerolog.ErrorLevel, zerolog.NoLevel}).Draw(rt, "log level")
	rs := [2]*run12{}
	for i := range rs {
		rs[i] = &run12{f: rt, base: base, s: secrets{i}, keys: keysOf(12), traced: level}
		cryptotest.SetGlobalRandom(c.T, seed)
		rs[i].do(steps)
	}
	for _, s := range steps {
		c.Logf("%s %d %d %d %v", s.op, s.a, s.b, s.n, s.gs)
	}
	a, b := canonical(rs[0].st.Trace), canonical(rs[1].st.Trace)
	if len(a) != len(b) {
		rt.Fatalf("the number of storage calls depends on secrets: %d and %d", len(a), len(b))
	}
	kinds := map[io.DataType]bool{}
	pair, back := map[string]string{}, map[string]string{}
	for i := range a {
		p, q := a[i], b[i]
		kinds[p.Key.Type] = true
		what := fmt.Sprintf("storage call %d (%s of type %d)", i, p.Op, p.Key.Type)
		if p.Op != q.Op || p.Key.Type != q.Key.Type || (p.Err == nil) != (q.Err == nil) {
			rt.Fatalf("%s depends on secrets: other run %s of type %d", what, q.Op, q.Key.Type)
		}
		if p.Key.Type == io.DataTypeSealedNode {
			if len(p.Key.ID) != len(q.Key.ID) || len(p.Key.ID) != 32 {
				rt.Fatalf("%s: record key of %d and %d bytes", what, len(p.Key.ID), len(q.Key.ID))
			}
			if o, ok := pair[p.Key.ID]; ok && o != q.Key.ID {
				rt.Fatalf("%s: the pattern of record keys depends on secrets", what)
			}
			if o, ok := back[q.Key.ID]; ok && o != p.Key.ID {
				rt.Fatalf("%s: the pattern of record keys depends on secrets", what)
			}
			pair[p.Key.ID], back[q.Key.ID] = q.Key.ID, p.Key.ID
		} else if p.Key.ID != q.Key.ID {
			rt.Fatalf("%s: record key depends on secrets: %x and %x", what, p.Key.ID, q.Key.ID)
		}
		if len(p.Data) != len(q.Data) {
			rt.Fatalf("%s: record length depends on secrets: %d and %d", what, len(p.Data), len(q.Data))
		}
		var m, n map[string]json.RawMessage
		if len(p.Data) == 0 {
			continue
		}
		if json.Unmarshal(p.Data, &m) != nil || json.Unmarshal(q.Data, &n) != nil {
			rt.Fatalf("%s: record is not JSON", what)
		}
		for k := range m {
			cipher := k == "Ciphertext" || k == "WrappedKey" && p.Key.Type == io.DataTypeSealedNode
			if cipher && len(m[k]) == len(n[k]) {
				continue
			}
			if !bytes.Equal(m[k], n[k]) {
				rt.Fatalf("%s: field %s depends on secrets: %s and %s", what, k, m[k], n[k])
			}
		}
		for k := range n {
			if _, ok := m[k]; !ok {
				rt.Fatalf("%s: field %s only with some secrets", what, k)
			}
		}
	}
	if len(kinds) >= 3 {
		c.NonTrivial()
	}
	for _, r := range rs[:1] {
		need := r.found
		for _, k := range [][]byte{r.keys.KEK, r.keys.AEK, r.keys.TEK, r.keys.IEK, base.cfg.UEK, base.cfg.GEK, base.cfg.TEK} {
			need = append(need, k)
		}
		for _, cl := range r.st.Trace { // data keys and password hashes
			var o struct{ WrappedKey, Ciphertext []byte }
			if json.Unmarshal(cl.Data, &o) != nil {
				continue
			}
			switch {
			case cl.Key.Type == io.DataTypeSealedAccess:
				if dek, err := hx.RefUnwrap(r.keys.AEK, o.WrappedKey); err == nil {
					need = append(need, dek)
				}
				var v hx.AccessVal
				if hx.OpenValue(r.keys.AEK, o.WrappedKey, o.Ciphertext, []byte(cl.Key.ID), &v) == nil {
					if dek, err := hx.RefUnwrap(r.keys.KEK, v.WrappedDEK); err == nil {
						need = append(need, dek)
					}
				}
			case cl.Key.Type == io.DataTypeSealedNode:
				for i := 0; i < 4; i++ {
					_, ek := hx.IndexKeys(r.keys.IEK, r.s.name("kw", i))
					if dek, err := hx.RefUnwrap(ek, o.WrappedKey); err == nil {
						need = append(need, dek)
					}
				}
			case cl.Key.Type == id.DataTypeSealedUser:
				if dek, err := hx.RefUnwrap(base.cfg.UEK, o.WrappedKey); err == nil {
					need = append(need, dek)
				}
				if v, err := hx.DecodeUser(base.cfg.UEK, cl.Key.ID, cl.Data); err == nil && len(v.SaltAndHash) == 40 {
					need = append(need, v.SaltAndHash[8:])
				}
			case cl.Key.Type == id.DataTypeSealedGroup:
				if dek, err := hx.RefUnwrap(base.cfg.GEK, o.WrappedKey); err == nil {
					need = append(need, dek)
				}
			}
		}
		seen := map[string]bool{}
		var hay [][]byte
		for _, cl := range r.st.Trace {
			for _, l := range append(layers(cl.Data), []byte(cl.Key.ID)) {
				if !seen[string(l)] {
					seen[string(l)] = true
					hay = append(hay, l)
				}
			}
		}
		all := bytes.Join(hay, []byte{0})
		if level != zerolog.Disabled && r.said.Len() == 0 && len(r.st.Trace) > 0 && level != zerolog.NoLevel {
			c.Label("nothing logged")
		}
		// a provider's own log lines may name the user and the object, which it may know
		for _, t := range append([]string{tok12}, base.toks[0].s, base.toks[1].s) {
			need = append(need, []byte(t))
		}
		done := map[string]bool{}
		for _, s := range need {
			if done[string(s)] || len(s) < 12 {
				continue
			}
			done[string(s)] = true
			for i, f := range forms(s) {
				if string(s) != r.s.name("owner", 0) && bytes.Contains(r.said.Bytes(), f) {
					rt.Fatalf("a secret (%q) reaches the storage provider in the context, in form %d", s, i)
				}
				if bytes.Contains(all, f) {
					rt.Fatalf("a secret (%q) reaches the storage provider in form %d", s, i)
				}
			}
		}
	}
}

// canonical puts consecutive reads of group records, whose order means nothing, in a fixed order.
func canonical(tr []hx.Call) []hx.Call {
	out := append([]hx.Call{}, tr...)
	for i := 0; i < len(out); {
		j := i
		for j < len(out) && out[j].Op == "get" && out[j].Key.Type == id.DataTypeSealedGroup {
			j++
		}
		if j > i {
			s := out[i:j]
			sort.SliceStable(s, func(x, y int) bool { return s[x].Key.ID < s[y].Key.ID })
			i = j
		} else {
			i++
		}
	}
	return out
}
