package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C14: what each master key protects.

// vault is data of every kind made under one set of keys, in one storage provider.
type vault struct {
	keys key.Keys
	sa   id.StandaloneConfig
	snap hx.Snap
	oids []uuid.UUID
	pts  [][]byte
	toks []data.SealedToken
	kws  []string
	base *saBase
	gids []string
}

const owner14 = "owner"

func idp14() *hx.IDP {
	p := hx.NewIDP()
	p.Tokens["t"] = &id.Identity{ID: owner14, Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
	return p
}

// party is one instance of everything under one configuration.
type party struct {
	f fat
	d d1.D1
	x index.SecureIndex
	s id.Standalone
}

// newParty constructs the components and then perhaps overwrites the buffers the keys were passed in.
func newParty(f fat, st *hx.Store, k key.Keys, sa id.StandaloneConfig, overwrite bool) *party {
	k = key.Keys{KEK: cloneBytes(k.KEK), AEK: cloneBytes(k.AEK), TEK: cloneBytes(k.TEK), IEK: cloneBytes(k.IEK)}
	sa = id.StandaloneConfig{UEK: cloneBytes(sa.UEK), GEK: cloneBytes(sa.GEK), TEK: cloneBytes(sa.TEK)}
	p := &party{f: f}
	kp := key.NewStatic(k)
	var err error
	for n := 0; n < 2; n++ { // the second instances from the same configuration are as good as the first
		if p.d, err = d1.New(bg, &kp, st, idp14()); err != nil {
			f.Fatalf("New: %v", err)
		}
		if p.x, err = index.NewSecureIndex(bg, &kp, st, idp14()); err != nil {
			f.Fatalf("NewSecureIndex: %v", err)
		}
		if p.s, err = id.NewStandalone(sa, st); err != nil {
			f.Fatalf("NewStandalone: %v", err)
		}
	}
	if overwrite {
		for _, b := range [][]byte{k.KEK, k.AEK, k.TEK, k.IEK, sa.UEK, sa.GEK, sa.TEK} {
			hx.Scribble(b)
		}
	}
	return p
}

func newVault(f fat, base *saBase) *vault {
	v := &vault{keys: keysOf(140), sa: base.cfg, base: base, kws: []string{"k0", "k1"}}
	st := hx.NewStore()
	st.Restore(base.snap)
	p := newParty(f, st, v.keys, v.sa, false)
	for i := 0; i < 2; i++ {
		pt := []byte(fmt.Sprintf("plaintext %d", i))
		o, err := p.d.Encrypt(bg, "t", &data.Object{Plaintext: pt, AssociatedData: []byte("ad")}, "g")
		if err != nil {
			f.Fatalf("Encrypt: %v", err)
		}
		v.oids, v.pts = append(v.oids, o), append(v.pts, pt)
		t, err := p.d.CreateToken(bg, pt)
		if err != nil {
			f.Fatalf("CreateToken: %v", err)
		}
		v.toks = append(v.toks, t)
		for j := 0; j <= i; j++ {
			if err := p.x.Add(bg, "t", v.kws[i], fmt.Sprintf("id%d", j)); err != nil {
				f.Fatalf("Add: %v", err)
			}
		}
	}
	g, err := p.s.NewGroup(bg, base.toks[0].s, id.ScopeDelete)
	if err != nil {
		f.Fatalf("NewGroup: %v", err)
	}
	v.gids = []string{g}
	v.snap = st.Snapshot()
	return v
}

type kind14 struct {
	name string
	of   func(k *key.Keys, s *id.StandaloneConfig) *[]byte
}

var kinds14 = []kind14{
	{"KEK", func(k *key.Keys, s *id.StandaloneConfig) *[]byte { return &k.KEK }},
	{"AEK", func(k *key.Keys, s *id.StandaloneConfig) *[]byte { return &k.AEK }},
	{"TEK", func(k *key.Keys, s *id.StandaloneConfig) *[]byte { return &k.TEK }},
	{"IEK", func(k *key.Keys, s *id.StandaloneConfig) *[]byte { return &k.IEK }},
	{"UEK", func(k *key.Keys, s *id.StandaloneConfig) *[]byte { return &s.UEK }},
	{"GEK", func(k *key.Keys, s *id.StandaloneConfig) *[]byte { return &s.GEK }},
	{"STEK", func(k *key.Keys, s *id.StandaloneConfig) *[]byte { return &s.TEK }},
}

func set14(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

// check uses the vault's data through party q, some of whose keys differ from the vault's, and
// again through p, which has the vault's own keys.
func (v *vault) check(f fat, diff map[string]bool, k key.Keys, sa id.StandaloneConfig, logins bool) {
	st := hx.NewStore()
	st.Restore(v.snap)
	p, q := newParty(f, st, v.keys, v.sa, false), newParty(f, st, k, sa, true)
	expect := func(what string, ok bool, err error) bool {
		if ok && err != nil {
			f.Fatalf("%s fails although the keys it needs are the same: %v", what, err)
		}
		if !ok && err == nil {
			f.Fatalf("%s succeeds although a key it needs differs", what)
		}
		return err == nil
	}
	unchanged := func(what string, call func() error) {
		before := st.Snapshot()
		expect(what, false, call())
		if d := before.Diff(st.Snapshot()); len(d) > 0 {
			f.Fatalf("%s failed but changed storage: %v", what, d)
		}
	}
	// object contents and access lists
	decrypt := func(who *party, what string, i int, ok bool, want []byte) {
		o, err := who.d.Decrypt(bg, "t", v.oids[i])
		if expect("Decrypt "+what, ok, err) {
			if !eq(o.Plaintext, want) {
				f.Fatalf("Decrypt %s returns %q, want %q", what, o.Plaintext, want)
			}
		} else if len(o.Plaintext) > 0 || len(o.AssociatedData) > 0 {
			f.Fatalf("failed Decrypt %s returns data", what)
		}
	}
	acl := func(who *party, what string, i int, want ...string) {
		got, err := who.d.GetAccessGroups(bg, "t", v.oids[i])
		expect("GetAccessGroups "+what, true, err)
		if len(got) != len(want) {
			f.Fatalf("GetAccessGroups %s: %v, want %v", what, got, want)
		}
		for _, g := range want {
			if _, ok := got[g]; !ok {
				f.Fatalf("GetAccessGroups %s: %v, want %v", what, got, want)
			}
		}
	}
	okA, okK := !diff["AEK"], !diff["KEK"]
	decrypt(q, "with the other keys", 0, okA && okK, v.pts[0])
	if okA {
		acl(q, "with the other keys", 0, owner14, "g")
		expect("AddGroupsToAccess", true, q.d.AddGroupsToAccess(bg, "t", v.oids[0], "h"))
		expect("RemoveGroupsFromAccess", true, q.d.RemoveGroupsFromAccess(bg, "t", v.oids[0], "g"))
		acl(p, "with the own keys after a change with the others", 0, owner14, "h")
		decrypt(p, "with the own keys after a change of access with the others", 0, true, v.pts[0])
		expect("Update", true, q.d.Update(bg, "t", v.oids[1], &data.Object{Plaintext: []byte("new")}))
		decrypt(q, "of what the same instance wrote", 1, true, []byte("new"))
		decrypt(p, "of an update with the other keys", 1, okK, []byte("new"))
		expect("Delete", true, q.d.Delete(bg, "t", v.oids[1]))
	} else {
		oid := v.oids[0]
		unchanged("GetAccessGroups", func() error { _, err := q.d.GetAccessGroups(bg, "t", oid); return err })
		unchanged("AddGroupsToAccess", func() error { return q.d.AddGroupsToAccess(bg, "t", oid, "h") })
		unchanged("RemoveGroupsFromAccess", func() error { return q.d.RemoveGroupsFromAccess(bg, "t", oid, "g") })
		unchanged("Update", func() error { return q.d.Update(bg, "t", oid, &data.Object{Plaintext: []byte("new")}) })
		unchanged("Delete", func() error { return q.d.Delete(bg, "t", oid) })
		decrypt(p, "with the own keys", 1, true, v.pts[1])
	}
	o, err := q.d.Encrypt(bg, "t", &data.Object{Plaintext: []byte("made")})
	expect("Encrypt", true, err)
	got, err := p.d.Decrypt(bg, "t", o)
	if expect("Decrypt of an object made with the other keys", okA && okK, err) && string(got.Plaintext) != "made" {
		f.Fatalf("Decrypt of an object made with equal keys returns %q", got.Plaintext)
	}
	// tokens
	token := func(who *party, what string, t data.SealedToken, ok bool, want []byte) {
		b, err := who.d.GetTokenContents(bg, &t)
		if expect("GetTokenContents "+what, ok, err) && !eq(b, want) {
			f.Fatalf("GetTokenContents %s returns %q", what, b)
		}
	}
	token(q, "with the other keys", v.toks[0], !diff["TEK"], v.pts[0])
	nt, err := q.d.CreateToken(bg, []byte("token"))
	expect("CreateToken", true, err)
	token(q, "of its own token", nt, true, []byte("token"))
	token(p, "of a token made with the other keys", nt, !diff["TEK"], []byte("token"))
	// index
	search := func(who *party, what, kw string, want ...string) {
		ids, err := who.x.Search(bg, "t", kw)
		expect("Search "+what, true, err)
		if strings.Join(ids, " ") != strings.Join(want, " ") {
			f.Fatalf("Search %s: %v, want %v", what, ids, want)
		}
	}
	if !diff["IEK"] {
		search(q, "with the other keys", "k1", "id0", "id1")
		expect("index Delete", true, q.x.Delete(bg, "t", "k1", "id0"))
		expect("index Add", true, q.x.Add(bg, "t", "k1", "id2"))
		search(p, "with the own keys", "k1", "id1", "id2")
	} else {
		search(q, "with another index key", "k1")
		expect("index Delete", true, q.x.Delete(bg, "t", "k1", "id0"))
		expect("index Add", true, q.x.Add(bg, "t", "k1", "id2"))
		expect("index Add", true, q.x.Add(bg, "t", "k1", "id3"))
		search(q, "with another index key", "k1", "id2", "id3")
		search(p, "with the own keys", "k1", "id0", "id1")
		expect("index Delete", true, p.x.Delete(bg, "t", "k1", "id0"))
		search(q, "with another index key", "k1", "id2", "id3")
		search(p, "with the own keys", "k1", "id1")
	}
	// the standalone identity provider: user 0 is in a group, user 1 in none
	ident := func(who *party, what, tok string, u int, ok bool) {
		i, err := who.s.GetIdentity(bg, tok)
		if !expect("GetIdentity "+what, ok, err) {
			if i.ID != "" || len(i.Groups) > 0 || i.Scopes != 0 {
				f.Fatalf("failed GetIdentity %s returns %+v", what, i)
			}
			return
		}
		bu := v.base.users[u]
		if i.ID != bu.uid || i.Scopes != bu.scopes || len(i.Groups) != 1-u || u == 0 && i.Groups[v.gids[0]].Scopes != id.ScopeDelete {
			f.Fatalf("GetIdentity %s: %s with %x and %v", what, i.ID, uint64(i.Scopes), i.Groups)
		}
	}
	okU, okG, okT := !diff["UEK"], !diff["GEK"], !diff["STEK"]
	ident(q, "of a user without groups with the other keys", v.base.toks[1].s, 1, okU && okT)
	ident(q, "of a user in a group with the other keys", v.base.toks[0].s, 0, okU && okT && okG)
	if !okU || !okT || !okG {
		unchanged("NewGroup", func() error { _, err := q.s.NewGroup(bg, v.base.toks[0].s, 1); return err })
		unchanged("AddUserToGroups", func() error {
			return q.s.AddUserToGroups(bg, v.base.toks[0].s, v.base.users[1].uid, v.gids[0])
		})
		unchanged("DeleteUser", func() error { return q.s.DeleteUser(bg, v.base.toks[0].s, v.base.users[1].uid) })
	}
	if logins {
		u := v.base.users[1]
		tok, _, err := q.s.LoginUser(bg, u.uid, u.pw)
		if expect("LoginUser with the other keys", okU, err) {
			ident(q, "with its own token", tok, 1, true)
			ident(p, "with a token made with the other keys", tok, 1, okT)
		}
		before := st.Snapshot()
		_, err = q.s.ChangeUserPassword(bg, u.uid, u.pw)
		if !expect("ChangeUserPassword with the other keys", okU, err) {
			if d := before.Diff(st.Snapshot()); len(d) > 0 {
				f.Fatalf("failed ChangeUserPassword changed storage: %v", d)
			}
		}
	}
	ident(p, "with the own keys", v.base.toks[0].s, 0, true)
}

type failingKeys struct {
	keys key.Keys
	err  error
}

func (k failingKeys) GetKeys(context.Context) (key.Keys, error) { return k.keys, k.err }

func TestC14(t *testing.T) {
	base := newSABase(t, saKeysOf(14), []id.Scope{allScopes}, []id.Scope{id.ScopeDecrypt, id.ScopeIndex})
	hx.EnumAll(t, "bit", "data of every kind made under one set of keys and used under a set in which one bit of one key differs (each of the 7 times 256 bits) or under equal keys; every call's outcome against what the differing key protects; non-trivial: a key differs", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			one := func(desc, name string, bit int, logins bool) {
				do(desc, name != "", func(tb testing.TB, c *hx.Case) {
					synctest.Test(tb.(*testing.T), func(t *testing.T) {
						v := newVault(t, base)
						k, sa, diff := v.keys, v.sa, map[string]bool{}
						for _, kd := range kinds14 {
							if kd.name == name {
								b := kd.of(&k, &sa)
								*b = cloneBytes(*b)
								(*b)[bit/8] ^= 1 << (bit % 8)
								diff[name] = true
								c.Label(name)
							}
						}
						v.check(t, diff, k, sa, logins)
					})
				})
			}
			for i := 0; i < 8; i++ {
				one(fmt.Sprintf("all keys equal (%d)", i), "", 0, true)
			}
			for i, kd := range kinds14 {
				for bit := 0; bit < 256; bit++ {
					one(fmt.Sprintf("bit %d of %s differs", bit, kd.name), kd.name, bit, (bit+i)%128 == 17)
				}
			}
		})
	hx.Check(t, "keys", hx.Opt{Quick: 800, Thorough: 40000,
		Rule: "the same with any subset of the keys differing: in one bit, in one byte, reversed, or exchanged with another key of the set; non-trivial: two or more keys differ"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				v := newVault(rt, base)
				k, sa, diff := v.keys, v.sa, map[string]bool{}
				k0, sa0 := v.keys, v.sa
				for _, kd := range kinds14 {
					if !hx.Chance(rt, 3, kd.name) {
						continue
					}
					b := kd.of(&k, &sa)
					old := cloneBytes(*b)
					nw := cloneBytes(*b)
					how := hx.IntRange(0, 4).Draw(rt, "how")
					switch how {
					case 0:
						nw[hx.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << hx.IntRange(0, 7).Draw(rt, "bit")
					case 1:
						nw[hx.IntRange(0, 31).Draw(rt, "byte")] += byte(hx.IntRange(1, 255).Draw(rt, "add"))
					case 2:
						for i := range nw {
							nw[i] = old[31-i]
						}
					case 3:
						nw = cloneBytes(*hx.SampledFrom(kinds14).Draw(rt, "other").of(&k0, &sa0))
					default:
						nw = keyOf(hx.Uint64Range(0, 1000).Draw(rt, "n"), "other")
					}
					*b = nw
					if !eq(old, nw) {
						diff[kd.name] = true
						c.Logf("%s differs (%d)", kd.name, how)
					}
				}
				if len(diff) > 1 {
					c.NonTrivial()
				}
				v.check(rt, diff, k, sa, hx.Chance(rt, 24, "logins"))
			})
		})
	hx.Enum(t, "length", "constructors with one key of every length from 0 to 100 and some beyond (nil included), in each position; and key providers that fail", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			lens := []int{-1, 128, 255, 256, 288, 512, 1 << 16}
			for n := 0; n <= 100; n++ {
				lens = append(lens, n)
			}
			st := hx.NewStore()
			for _, n := range lens {
				var b []byte
				if n >= 0 {
					b = make([]byte, n, n+64)
					copy(b, hx.Bytes(7, n, 0))
				}
				for _, kd := range kinds14 {
					do(fmt.Sprintf("%s of %d bytes", kd.name, n), n != 32, func(tb testing.TB, c *hx.Case) {
						k, sa := keysOf(1), saKeysOf(1)
						*kd.of(&k, &sa) = b
						judge := func(what string, uses map[string]bool, err error) {
							if bad := uses[kd.name] && n != 32; bad != (err != nil) {
								tb.Fatalf("%s with a %s of %d bytes: %v", what, kd.name, n, err)
							}
						}
						kp := key.NewStatic(k)
						_, err := d1.New(bg, &kp, st, hx.NewIDP())
						judge("d1.New", set14("KEK", "AEK", "TEK"), err)
						_, err = index.NewSecureIndex(bg, &kp, st, hx.NewIDP())
						judge("NewSecureIndex", set14("IEK"), err)
						_, err = id.NewStandalone(sa, st)
						judge("NewStandalone", set14("UEK", "GEK", "STEK"), err)
					})
				}
			}
			for name, content := range map[string]func(n int) []byte{
				"zeros":                        func(n int) []byte { return make([]byte, n) },
				"one byte again and again":     func(n int) []byte { return bytes.Repeat([]byte{'A'}, n) },
				"hexadecimal digits":           func(n int) []byte { return []byte(strings.Repeat("0123456789abcdef", n/16+1)[:n]) },
				"base64":                       func(n int) []byte { return []byte((strings.Repeat("AQID", n/4+1))[:n-1] + "=") },
				"a newline at the end":         func(n int) []byte { return append(hx.Bytes(8, n-1, 0), '\n') },
				"CRLF at the end":              func(n int) []byte { return append(hx.Bytes(8, n-1, 0)[:max(0, n-2)], "\r\n"[max(0, 2-n):]...) },
				"a space at the end":           func(n int) []byte { return append(hx.Bytes(8, n-1, 0), ' ') },
				"a zero byte at the end":       func(n int) []byte { return append(hx.Bytes(8, n-1, 0), 0) },
				"a one at the end":             func(n int) []byte { return append(hx.Bytes(8, n-1, 0), 1) },
				"a zero byte at the beginning": func(n int) []byte { return append([]byte{0}, hx.Bytes(8, n-1, 0)...) },
				"a space at the beginning":     func(n int) []byte { return append([]byte{' '}, hx.Bytes(8, n-1, 0)...) },
				"zeros after a key":            func(n int) []byte { return append(hx.Bytes(8, min(n, 32), 0), make([]byte, max(0, n-32))...) },
				"PKCS #7 padding after a key": func(n int) []byte {
					return append(hx.Bytes(8, min(n, 32), 0), bytes.Repeat([]byte{byte(n - 32)}, max(0, n-32))...)
				},
				"a key twice": func(n int) []byte { return append(hx.Bytes(8, min(n, 32), 0), hx.Bytes(8, max(0, n-32), 0)...) },
			} {
				for _, n := range []int{1, 2, 15, 16, 17, 24, 30, 31, 33, 34, 35, 36, 40, 43, 44, 45, 46, 47, 48, 63, 64, 65, 66, 96} {
					for _, kd := range kinds14 {
						do(fmt.Sprintf("%s of %d bytes: %s", kd.name, n, name), true, func(tb testing.TB, c *hx.Case) {
							for _, exact := range []bool{true, false} {
								b := content(n)
								if len(b) != n {
									hx.Bug("%d bytes instead of %d", len(b), n)
								}
								if !exact {
									b = append(make([]byte, 0, n+40), b...)
								}
								k, sa := keysOf(1), saKeysOf(1)
								*kd.of(&k, &sa) = b
								kp := key.NewStatic(k)
								var err error
								switch kd.name {
								case "IEK":
									_, err = index.NewSecureIndex(bg, &kp, st, hx.NewIDP())
								case "KEK", "AEK", "TEK":
									_, err = d1.New(bg, &kp, st, hx.NewIDP())
								default:
									_, err = id.NewStandalone(sa, st)
								}
								if err == nil {
									tb.Fatalf("a %s of %d bytes is accepted", kd.name, n)
								}
							}
						})
					}
				}
			}
			for i, k := range []key.Keys{{}, keysOf(1)} {
				do(fmt.Sprintf("failing key provider %d", i), true, func(tb testing.TB, c *hx.Case) {
					want := errors.New("no keys today")
					if _, err := d1.New(bg, failingKeys{k, want}, st, hx.NewIDP()); !errors.Is(err, want) {
						tb.Fatalf("d1.New with a failing key provider: %v", err)
					}
					if _, err := index.NewSecureIndex(bg, failingKeys{k, want}, st, hx.NewIDP()); !errors.Is(err, want) {
						tb.Fatalf("NewSecureIndex with a failing key provider: %v", err)
					}
				})
			}
		})
}
