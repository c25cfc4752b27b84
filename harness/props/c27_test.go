package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	bolt "go.etcd.io/bbolt"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C27: the formats of stored records and tokens. Golden records were written by the released code
// (see TestMakeGolden); generated ones are exchanged with an independent implementation of the
// release's formats (hx/codec.go).

const (
	typeObject   = io.DataType(0)
	typeAccess   = io.DataType(1)
	typeNode     = io.DataType(2)
	typeOldUser  = io.DataType(4)
	typeOldGroup = io.DataType(5)
)

type goldObject struct {
	OID    uuid.UUID
	PT, AD []byte
	Groups []string
	Gone   bool
}

type goldUser struct {
	UID, Password string
	Scopes        uint64
	Groups        []string
	Token         string
}

type goldToken struct {
	Token    string
	Contents []byte
	Minutes  int // after the start of the fake clock
}

type golden struct {
	Seed    uint64
	Objects []goldObject
	Users   []goldUser
	Groups  map[string]uint64
	Tokens  []goldToken
	Index   map[string][]string
	Records []goldRecord
}

type goldRecord struct {
	ID   []byte
	Type int
	Data []byte
}

// TestMakeGolden writes the golden data. It is run by hand on the released code only:
//
//	HX_MAKE_GOLDEN=dir go test -run TestMakeGolden ./props  (with the module replaced by a checkout of the release)
func TestMakeGolden(t *testing.T) {
	dir := os.Getenv("HX_MAKE_GOLDEN")
	if dir == "" {
		t.Skip("not asked for")
	}
	cryptotest.SetGlobalRandom(t, 4711)
	path := filepath.Join(dir, "golden.bolt")
	os.Remove(path)
	b, err := io.NewBolt(path)
	if err != nil {
		t.Fatal(err)
	}
	g := golden{Seed: 9001, Groups: map[string]uint64{}, Index: map[string][]string{}}
	must := func(err error) {
		t.Helper()
		if err != nil {
			t.Fatal(err)
		}
	}
	st := hx.NewStore()
	both := &twin{&b, st}
	synctest.Test(t, func(t *testing.T) {
		s, err := id.NewStandalone(saKeysOf(g.Seed), both)
		must(err)
		kp := key.NewStatic(keysOf(g.Seed))
		d, err := d1.New(bg, &kp, both, &s)
		must(err)
		x, err := index.NewSecureIndex(bg, &kp, both, &s)
		must(err)
		for i, sc := range []id.Scope{id.ScopeAll, allScopes, id.ScopeDecrypt | id.ScopeIndex, 0} {
			uid, pw, err := s.NewUser(bg, sc)
			must(err)
			if i == 1 {
				pw, err = s.ChangeUserPassword(bg, uid, pw)
				must(err)
			}
			tok, _, err := s.LoginUser(bg, uid, pw)
			must(err)
			g.Users = append(g.Users, goldUser{uid, pw, uint64(sc), nil, tok})
		}
		for i, sc := range []id.Scope{id.ScopeAll, id.ScopeDecrypt, 0} {
			gid, err := s.NewGroup(bg, g.Users[i].Token, sc)
			must(err)
			g.Groups[gid] = uint64(sc)
			g.Users[i].Groups = append(g.Users[i].Groups, gid)
			must(s.AddUserToGroups(bg, g.Users[i].Token, g.Users[3].UID, gid))
			g.Users[3].Groups = append(g.Users[3].Groups, gid)
		}
		for i, n := range []int{0, 1, 15, 16, 17, 100, 1000, 5000} {
			o := goldObject{PT: hx.Bytes(uint64(i), n, i%6), AD: hx.Bytes(uint64(i)+50, (n*3)%311, i%6)}
			if i == 2 {
				o.AD = nil
			}
			if i == 0 {
				o.PT, o.AD = nil, nil
			}
			o.Groups = []string{g.Users[1].UID}
			var more []string
			for j := 0; j < i%4; j++ {
				more = append(more, fmt.Sprintf("group %d <é>", j))
			}
			if i%2 == 0 {
				more = append(more, g.Users[0].Groups[0])
			}
			first := data.Object{Plaintext: o.PT, AssociatedData: o.AD}
			if i%3 == 1 {
				first = data.Object{Plaintext: []byte("first version")}
			}
			o.OID, err = d.Encrypt(bg, g.Users[1].Token, &first, append(more, "removed")...)
			must(err)
			o.Groups = append(o.Groups, more...)
			if i%3 == 1 {
				must(d.Update(bg, g.Users[1].Token, o.OID, &data.Object{Plaintext: o.PT, AssociatedData: o.AD}))
			}
			must(d.RemoveGroupsFromAccess(bg, g.Users[1].Token, o.OID, "removed"))
			must(d.AddGroupsToAccess(bg, g.Users[1].Token, o.OID, "added"))
			o.Groups = append(o.Groups, "added")
			if i == 5 {
				must(d.Delete(bg, g.Users[1].Token, o.OID))
				o.Gone = true
			}
			g.Objects = append(g.Objects, o)
		}
		for i, zone := range []int{0, 120, -345, 330, 0} {
			setZone(zone)
			time.Sleep(7 * time.Minute)
			tok, err := d.CreateToken(bg, hx.Bytes(uint64(i), i*37, 0))
			must(err)
			str, err := tok.String()
			must(err)
			g.Tokens = append(g.Tokens, goldToken{str, hx.Bytes(uint64(i), i*37, 0), 60 + 7*(i+1)})
		}
		setZone(0)
		for k := 0; k < 5; k++ {
			kw := fmt.Sprintf("keyword %d é", k)
			if k == 4 {
				kw = ""
			}
			m := []string{}
			for j := 0; j < 3*k+1; j++ {
				must(x.Add(bg, g.Users[1].Token, kw, fmt.Sprintf("identifier %d", j%7)))
				m = append(m, fmt.Sprintf("identifier %d", j%7))
			}
			for _, del := range []int{0, 3}[:k%3] {
				must(x.Delete(bg, g.Users[1].Token, kw, fmt.Sprintf("identifier %d", del)))
				var left []string
				for _, s := range m {
					if s != fmt.Sprintf("identifier %d", del) {
						left = append(left, s)
					}
				}
				m = left
			}
			must(x.Add(bg, g.Users[1].Token, kw, "last"))
			g.Index[kw] = append(m, "last")
		}
	})
	sn := st.Snapshot()
	for _, k := range sn.Keys() {
		g.Records = append(g.Records, goldRecord{[]byte(k.ID), int(k.Type), sn[k]})
	}
	hx.BoltDB(&b).Close()
	j, err := json.MarshalIndent(g, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(dir, "golden.json"), j, 0o644))
}

// twin writes to two providers.
type twin struct{ a, b io.Provider }

func (t *twin) Put(c ctx, id []byte, ty io.DataType, data []byte) error {
	if err := t.a.Put(c, id, ty, cloneBytes(data)); err != nil {
		return err
	}
	return t.b.Put(c, id, ty, cloneBytes(data))
}
func (t *twin) Get(c ctx, id []byte, ty io.DataType) ([]byte, error) { return t.b.Get(c, id, ty) }
func (t *twin) Update(c ctx, id []byte, ty io.DataType, data []byte) error {
	if err := t.a.Update(c, id, ty, cloneBytes(data)); err != nil {
		return err
	}
	return t.b.Update(c, id, ty, cloneBytes(data))
}
func (t *twin) Delete(c ctx, id []byte, ty io.DataType) error {
	if err := t.a.Delete(c, id, ty); err != nil {
		return err
	}
	return t.b.Delete(c, id, ty)
}

func loadGolden(t *testing.T) *golden {
	b, err := os.ReadFile(filepath.Join(os.Getenv("HX_DATA"), "golden.json"))
	if err != nil {
		hx.Bug("golden data: %v", err)
	}
	g := &golden{}
	if err := json.Unmarshal(b, g); err != nil {
		hx.Bug("golden data: %v", err)
	}
	return g
}

// old is the released code as far as the stored format is concerned, over any provider.
type old struct {
	f fat
	p io.Provider
	r *hx.Rnd
	k key.Keys
	s id.StandaloneConfig
}

func (o *old) get(what string, id string, ty io.DataType) []byte {
	o.f.Helper()
	b, err := o.p.Get(bg, []byte(id), ty)
	if err != nil {
		o.f.Fatalf("%s: the record the release would read is not there: %v", what, err)
	}
	return b
}

func (o *old) has(id string, ty io.DataType) bool {
	_, err := o.p.Get(bg, []byte(id), ty)
	return err == nil
}

func (o *old) set(id string, ty io.DataType, b []byte) {
	o.f.Helper()
	err := o.p.Update(bg, []byte(id), ty, b)
	if errors.Is(err, io.ErrNotFound) {
		err = o.p.Put(bg, []byte(id), ty, b)
	}
	if err != nil {
		o.f.Fatalf("writing a record: %v", err)
	}
}

func (o *old) putObject(oid uuid.UUID, pt, ad []byte, groups []string) {
	o.f.Helper()
	ob, ac := hx.EncodeObject(o.r, o.k.KEK, o.k.AEK, oid, pt, ad, groups)
	o.set(string(oid[:]), typeObject, ob)
	o.set(string(oid[:]), typeAccess, ac)
}

// object reads an object as the release would.
func (o *old) object(what string, oid uuid.UUID, pt, ad []byte, groups map[string]bool) {
	o.f.Helper()
	p, a, g, err := hx.DecodeObject(o.k.KEK, o.k.AEK, oid, o.get(what, string(oid[:]), typeObject), o.get(what, string(oid[:]), typeAccess))
	if err != nil {
		o.f.Fatalf("%s: the release cannot read the object: %v", what, err)
	}
	if !eq(p, pt) || !eq(a, ad) {
		o.f.Fatalf("%s: the release reads %s %s, want %s %s", what, digest(p), digest(a), digest(pt), digest(ad))
	}
	if !sameSet(g, groups) {
		o.f.Fatalf("%s: the release reads the access list %q, want %q", what, sortedKeys(g), sortedKeys(groups))
	}
}

// search, add and del are the release's index.
func (o *old) node(kw string, counter uint64) (hx.NodeVal, bool) {
	o.f.Helper()
	lk, _ := hx.IndexKeys(o.k.IEK, kw)
	b, err := o.p.Get(bg, hx.IndexLabel(lk, counter), typeNode)
	if err != nil {
		return hx.NodeVal{}, false
	}
	v, err := hx.DecodeNode(o.k.IEK, kw, counter, b)
	if err != nil {
		o.f.Fatalf("the release cannot read entry %d of keyword %q: %v", counter, kw, err)
	}
	return v, true
}

func (o *old) search(kw string) (out []string) {
	o.f.Helper()
	for c := uint64(0); ; {
		v, ok := o.node(kw, c)
		if !ok {
			return
		}
		out = append(out, v.Identifier)
		c = v.NextCounter
		if len(out) > 1000 {
			o.f.Fatalf("the release finds a cycle in keyword %q", kw)
		}
	}
}

func (o *old) write(kw, ident string, counter, next uint64) {
	o.f.Helper()
	label, rec := hx.EncodeNode(o.r, o.k.IEK, kw, ident, counter, next)
	o.set(string(label), typeNode, rec)
}

func (o *old) drop(kw string, counter uint64) {
	o.f.Helper()
	lk, _ := hx.IndexKeys(o.k.IEK, kw)
	if err := o.p.Delete(bg, hx.IndexLabel(lk, counter), typeNode); err != nil {
		o.f.Fatalf("dropping a record: %v", err)
	}
}

func (o *old) add(kw, ident string) {
	o.f.Helper()
	c := uint64(0)
	for {
		v, ok := o.node(kw, c)
		if !ok {
			break
		}
		c = v.NextCounter
	}
	o.write(kw, ident, c, c+1)
}

func (o *old) del(kw, ident string) {
	o.f.Helper()
	for c := uint64(0); ; {
		v, ok := o.node(kw, c)
		if !ok {
			return
		}
		if v.Identifier != ident {
			c = v.NextCounter
			continue
		}
		if w, ok := o.node(kw, v.NextCounter); ok {
			o.write(kw, w.Identifier, c, w.NextCounter)
			o.drop(kw, v.NextCounter)
		} else {
			o.drop(kw, c)
		}
	}
}

func exchangeObjects(rt *rapid.T, c *hx.Case, kind string) {
	box := hx.NewBox(kind)
	defer box.Close()
	n := hx.Uint64Range(1, 1<<40).Draw(rt, "keys")
	w := newWorld(rt, c, box, keysOf(n))
	o := &old{f: rt, p: box.P, r: hx.NewRnd(n), k: w.keys}
	pool := append([]string{"me"}, hx.Names(rt, hx.IntRange(0, 4).Draw(rt, "names"), "names")...)
	w.idp.Tokens["t"] = &id.Identity{ID: "me", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
	type obj struct {
		oid    uuid.UUID
		pt, ad []byte
		acl    map[string]bool
	}
	var objs []*obj
	var byOld, byNew bool
	content := func() (pt, ad []byte) {
		pt = hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "plaintext"), hx.Size(rt, 700, "length"), hx.IntRange(0, 5).Draw(rt, "kind"))
		ad = hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "associated data"), hx.Size(rt, 300, "length"), hx.IntRange(0, 5).Draw(rt, "kind"))
		if len(pt) == 0 && rapid.Bool().Draw(rt, "nil") {
			pt = nil
		}
		if len(ad) == 0 && rapid.Bool().Draw(rt, "nil") {
			ad = nil
		}
		return
	}
	for steps := hx.IntRange(2, 9).Draw(rt, "steps"); steps > 0; steps-- {
		o.p = box.P
		release := rapid.Bool().Draw(rt, "by the release")
		byOld, byNew = byOld || release, byNew || !release
		op := hx.IntRange(0, 6).Draw(rt, "op")
		var x *obj
		if op < 2 || len(objs) == 0 {
			x = &obj{acl: map[string]bool{"me": true}}
			x.pt, x.ad = content()
			gs := hx.Subset(rt, pool, 4, "groups")
			for _, s := range gs {
				x.acl[s] = true
			}
			if release {
				copy(x.oid[:], hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "oid"), 16, hx.IntRange(0, 3).Draw(rt, "kind")))
				for _, y := range objs {
					if y.oid == x.oid {
						return
					}
				}
				o.putObject(x.oid, x.pt, x.ad, sortedKeys(x.acl))
			} else {
				oid, err := w.d.Encrypt(bg, "t", &data.Object{Plaintext: cloneBytes(x.pt), AssociatedData: cloneBytes(x.ad)}, gs...)
				if err != nil {
					rt.Fatalf("Encrypt: %v", err)
				}
				x.oid = oid
			}
			objs = append(objs, x)
			c.Logf("encrypt %s %s for %q (by the release: %v)", digest(x.pt), digest(x.ad), sortedKeys(x.acl), release)
		} else {
			x = hx.SampledFrom(objs).Draw(rt, "object")
			pt, ad := x.pt, x.ad
			gs := hx.Subset(rt, pool[1:], 3, "groups")
			add := op == 4
			var err error
			switch op {
			case 2, 3:
				pt, ad = content()
				if !release {
					err = w.d.Update(bg, "t", x.oid, &data.Object{Plaintext: cloneBytes(pt), AssociatedData: cloneBytes(ad)})
				}
			case 4, 5:
				for _, s := range gs {
					if add {
						x.acl[s] = true
					} else {
						delete(x.acl, s)
					}
				}
				if !release {
					if add {
						err = w.d.AddGroupsToAccess(bg, "t", x.oid, gs...)
					} else {
						err = w.d.RemoveGroupsFromAccess(bg, "t", x.oid, gs...)
					}
				}
			default:
				w.restart()
				o.p = box.P
			}
			if err != nil {
				rt.Fatalf("call %d on an object: %v", op, err)
			}
			x.pt, x.ad = pt, ad
			if release && op < 6 {
				o.putObject(x.oid, pt, ad, sortedKeys(x.acl))
			}
			c.Logf("call %d (by the release: %v): %s %s %q", op, release, digest(pt), digest(ad), sortedKeys(x.acl))
		}
		for _, x := range objs {
			o.object("object", x.oid, x.pt, x.ad, x.acl)
			got, err := w.d.Decrypt(bg, "t", x.oid)
			if err != nil || !eq(got.Plaintext, x.pt) || !eq(got.AssociatedData, x.ad) {
				rt.Fatalf("Decrypt of an object in the release's format: %s %s, %v; want %s %s", digest(got.Plaintext), digest(got.AssociatedData), err, digest(x.pt), digest(x.ad))
			}
			acl, err := w.d.GetAccessGroups(bg, "t", x.oid)
			if err != nil || !sameSet(acl, x.acl) {
				rt.Fatalf("GetAccessGroups of an object in the release's format: %q, %v; want %q", sortedKeys(acl), err, sortedKeys(x.acl))
			}
		}
	}
	if byOld && byNew {
		c.NonTrivial()
	}
}

func exchangeIndex(rt *rapid.T, c *hx.Case, kind string) {
	box := hx.NewBox(kind)
	defer box.Close()
	n := hx.Uint64Range(1, 1<<40).Draw(rt, "keys")
	w := newIndex(rt, c, box, keysOf(n))
	o := &old{f: rt, p: box.P, r: hx.NewRnd(n), k: w.keys}
	kws, ids := hx.Names(rt, hx.IntRange(1, 3).Draw(rt, "keywords"), "keyword"), hx.Names(rt, hx.IntRange(1, 3).Draw(rt, "identifiers"), "identifier")
	m := map[string]map[string]int{}
	for _, kw := range kws {
		m[kw] = map[string]int{}
	}
	if hx.Chance(rt, 60, "long") { // counters of more than one byte
		kw := kws[0]
		for i := uint64(0); i < 126; i++ {
			ident := ids[int(i)%len(ids)]
			o.write(kw, ident, i, i+1)
			m[kw][ident]++
		}
	}
	var byOld, byNew bool
	for steps := hx.IntRange(2, 14).Draw(rt, "steps"); steps > 0; steps-- {
		kw, ident := hx.SampledFrom(kws).Draw(rt, "keyword"), hx.SampledFrom(ids).Draw(rt, "identifier")
		release := rapid.Bool().Draw(rt, "by the release")
		byOld, byNew = byOld || release, byNew || !release
		switch op := hx.IntRange(0, 9).Draw(rt, "op"); {
		case op < 6:
			if release {
				o.add(kw, ident)
			} else if err := w.x.Add(bg, "t", kw, ident); err != nil {
				rt.Fatalf("Add: %v", err)
			}
			m[kw][ident]++
			c.Logf("add %s %s (by the release: %v)", hx.Short(kw), hx.Short(ident), release)
		case op < 9:
			if release {
				o.del(kw, ident)
			} else if err := w.x.Delete(bg, "t", kw, ident); err != nil {
				rt.Fatalf("Delete: %v", err)
			}
			delete(m[kw], ident)
			c.Logf("delete %s %s (by the release: %v)", hx.Short(kw), hx.Short(ident), release)
		default:
			w.restart()
			o.p = box.P
		}
		for _, kw := range kws {
			if got := multiset(count(o.search(kw))); got != multiset(m[kw]) {
				rt.Fatalf("the release finds %s for %q, want %s", got, kw, multiset(m[kw]))
			}
			got, err := w.x.Search(bg, "t", kw)
			if err != nil || multiset(count(got)) != multiset(m[kw]) {
				rt.Fatalf("Search for %q in the release's format: %q, %v; want %s", kw, got, err, multiset(m[kw]))
			}
		}
	}
	if byOld && byNew {
		c.NonTrivial()
	}
}

func exchangeIdentity(rt *rapid.T, c *hx.Case, kind string) {
	box := hx.NewBox(kind)
	defer box.Close()
	n := hx.Uint64Range(1, 1<<40).Draw(rt, "keys")
	cfg := saKeysOf(n)
	s, err := id.NewStandalone(cfg, box.P)
	if err != nil {
		rt.Fatalf("NewStandalone: %v", err)
	}
	o := &old{f: rt, p: box.P, r: hx.NewRnd(n), s: cfg}
	type user struct {
		uid, tok string
		sh       []byte
		scopes   uint64
		groups   map[string]bool
	}
	drawn := func() uint64 { return uint64(drawScope(rt, "scopes")) }
	base, names := hx.Uint64Range(0, 1<<50).Draw(rt, "names"), uint64(0)
	name := func() string {
		names++
		return uuid.UUID(hx.Bytes(base+names, 16, 0)).String()
	}
	groups := map[string]uint64{}
	var gids []string
	var users []*user
	save := func(u *user) {
		g := map[string]struct{}{}
		for k := range u.groups {
			g[k] = struct{}{}
		}
		o.set(u.uid, typeOldUser, hx.EncodeUser(o.r, cfg.UEK, u.uid, hx.UserVal{SaltAndHash: u.sh, Scopes: u.scopes, Groups: g}))
	}
	for i := hx.IntRange(1, 3).Draw(rt, "groups"); i > 0; i-- {
		gid := name()
		groups[gid] = drawn()
		gids = append(gids, gid)
		o.set(gid, typeOldGroup, hx.EncodeGroup(o.r, cfg.GEK, gid, hx.GroupVal{Scopes: groups[gid]}))
	}
	for i := hx.IntRange(1, 3).Draw(rt, "users"); i > 0; i-- {
		u := &user{uid: name(), sh: valid26(i), scopes: drawn(), groups: map[string]bool{}}
		for _, g := range hx.Subset(rt, gids, 3, "groups") {
			u.groups[g] = true
		}
		u.tok = hx.EncodeToken(o.r, cfg.TEK, []byte(u.uid), time.Now().Add(time.Hour))
		users = append(users, u)
		save(u)
		c.Logf("user of the release: scopes %x, %d groups", u.scopes, len(u.groups))
	}
	if hx.Chance(rt, 16, "new user") { // costs a password hash
		sc := drawn()
		uid, pw, err := s.NewUser(bg, id.Scope(sc))
		if err != nil {
			rt.Fatalf("NewUser: %v", err)
		}
		v, err := hx.DecodeUser(cfg.UEK, uid, o.get("user", uid, typeOldUser))
		if err != nil || len(v.SaltAndHash) != 40 || !eq(v.SaltAndHash, hashOf(pw, v.SaltAndHash[:8])) {
			rt.Fatalf("the release cannot verify the password of a new user: %v", err)
		}
		u := &user{uid: uid, sh: v.SaltAndHash, scopes: sc, groups: map[string]bool{}, tok: hx.EncodeToken(o.r, cfg.TEK, []byte(uid), time.Now().Add(time.Hour))}
		users = append(users, u)
		c.Logf("new user")
	}
	if hx.Chance(rt, 16, "login") {
		u := users[0]
		pw := ""
		for i := 0; i < 8; i++ {
			if eq(valid26(i), u.sh) {
				pw = fmt.Sprintf("password %d", i)
			}
		}
		tok, exp, err := s.LoginUser(bg, u.uid, pw)
		if err != nil {
			rt.Fatalf("login of a user in the release's format: %v", err)
		}
		got, at, err := hx.DecodeToken(cfg.TEK, tok)
		if err != nil || string(got) != u.uid || at.Unix() != exp {
			rt.Fatalf("the release reads the login token as %q, %v, %v", got, at, err)
		}
		u.tok = tok
		c.Logf("login")
	}
	var byOld, byNew bool
	for steps := hx.IntRange(1, 8).Draw(rt, "steps"); steps > 0; steps-- {
		u, v := hx.SampledFrom(users).Draw(rt, "user"), hx.SampledFrom(users).Draw(rt, "user")
		release := rapid.Bool().Draw(rt, "by the release")
		byOld, byNew = byOld || release, byNew || !release
		gs := hx.Subset(rt, sortedKeys(u.groups), 3, "groups")
		op := hx.IntRange(0, 4).Draw(rt, "op")
		var err error
		switch {
		case op < 2:
			for _, g := range gs {
				v.groups[g] = true
			}
			if !release {
				err = s.AddUserToGroups(bg, u.tok, v.uid, gs...)
			}
		case op < 4:
			for _, g := range gs {
				delete(v.groups, g)
			}
			if !release {
				err = s.RemoveUserFromGroups(bg, u.tok, v.uid, gs...)
			}
		default:
			sc := drawn()
			var gid string
			if release {
				gid = name()
				o.set(gid, typeOldGroup, hx.EncodeGroup(o.r, cfg.GEK, gid, hx.GroupVal{Scopes: sc}))
			} else {
				gid, err = s.NewGroup(bg, u.tok, id.Scope(sc))
			}
			groups[gid] = sc
			u.groups[gid] = true
			v = u
		}
		if err != nil {
			rt.Fatalf("call %d: %v", op, err)
		}
		if release {
			save(v)
		}
		c.Logf("call %d (by the release: %v) with %d groups", op, release, len(gs))
		for _, u := range users {
			val, err := hx.DecodeUser(cfg.UEK, u.uid, o.get("user", u.uid, typeOldUser))
			if err != nil || !eq(val.SaltAndHash, u.sh) || val.Scopes != u.scopes || !sameSet(val.Groups, u.groups) {
				rt.Fatalf("the release reads a user as %+v, %v; want scopes %x, groups %q", val, err, u.scopes, sortedKeys(u.groups))
			}
			i, err := s.GetIdentity(bg, u.tok)
			if err != nil {
				rt.Fatalf("GetIdentity of a user in the release's format: %v", err)
			}
			if i.ID != u.uid || uint64(i.Scopes) != u.scopes || len(i.Groups) != len(u.groups) {
				rt.Fatalf("GetIdentity of a user in the release's format: %+v; want scopes %x, groups %q", i, u.scopes, sortedKeys(u.groups))
			}
			for g := range u.groups {
				if i.Groups[g].ID != g || uint64(i.Groups[g].Scopes) != groups[g] {
					rt.Fatalf("GetIdentity: group %q is %+v, want scopes %x", g, i.Groups[g], groups[g])
				}
			}
		}
		for g, sc := range groups {
			val, err := hx.DecodeGroup(cfg.GEK, g, o.get("group", g, typeOldGroup))
			if err != nil || val.Scopes != sc {
				rt.Fatalf("the release reads a group as %+v, %v; want scopes %x", val, err, sc)
			}
		}
	}
	if byOld && byNew {
		c.NonTrivial()
	}
}

func exchangeTokens(rt *rapid.T, c *hx.Case) {
	n := hx.Uint64Range(1, 1<<40).Draw(rt, "keys")
	w := newWorld(rt, c, hx.NewBox("store"), keysOf(n))
	r := hx.NewRnd(n)
	defer setZone(0)
	for steps := hx.IntRange(1, 4).Draw(rt, "tokens"); steps > 0; steps-- {
		setZone(hx.IntRange(-14*60, 14*60).Draw(rt, "zone"))
		time.Sleep(time.Duration(hx.Uint64Range(0, uint64(100*24*time.Hour)).Draw(rt, "time passes")))
		contents := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "contents"), hx.Size(rt, 500, "length"), hx.IntRange(0, 5).Draw(rt, "kind"))
		tok, err := w.d.CreateToken(bg, cloneBytes(contents))
		if err != nil {
			rt.Fatalf("CreateToken: %v", err)
		}
		s, err := tok.String()
		if err != nil {
			rt.Fatalf("String: %v", err)
		}
		got, at, err := hx.DecodeToken(w.keys.TEK, s)
		if err != nil || !eq(got, contents) || !at.Equal(time.Now().Add(time.Hour)) {
			rt.Fatalf("the release reads a token as %s, %v, %v; want %s", digest(got), at, err, digest(contents))
		}
		setZone(hx.IntRange(-14*60, 14*60).Draw(rt, "zone"))
		expiry := time.Now().Add(time.Duration(hx.Uint64Range(1, uint64(200*24*time.Hour)).Draw(rt, "validity"))).In(time.Local)
		if rapid.Bool().Draw(rt, "utc") {
			expiry = expiry.UTC()
		}
		s = hx.EncodeToken(r, w.keys.TEK, contents, expiry)
		sealed, err := data.TokenFromString(s)
		if err != nil {
			rt.Fatalf("TokenFromString of a token of the release: %v", err)
		}
		got, err = w.d.GetTokenContents(bg, &sealed)
		if err != nil || !eq(got, contents) {
			rt.Fatalf("GetTokenContents of a token of the release: %s, %v; want %s", digest(got), err, digest(contents))
		}
		again, err := sealed.String()
		if err != nil {
			rt.Fatalf("String: %v", err)
		}
		if got, _, err := hx.DecodeToken(w.keys.TEK, again); err != nil || !eq(got, contents) {
			rt.Fatalf("a token of the release written out again: %s, %v", digest(got), err)
		}
		c.Logf("contents %s, expiry %v", digest(contents), expiry)
		c.NonTrivial()
	}
}

// checkGolden reads everything the release wrote.
func checkGolden(f fat, g *golden, p io.Provider, changed map[uuid.UUID]goldObject, kws map[string][]string) {
	f.Helper()
	s, err := id.NewStandalone(saKeysOf(g.Seed), p)
	if err != nil {
		f.Fatalf("NewStandalone: %v", err)
	}
	kp := key.NewStatic(keysOf(g.Seed))
	d, err := d1.New(bg, &kp, p, &s)
	if err != nil {
		f.Fatalf("New: %v", err)
	}
	x, err := index.NewSecureIndex(bg, &kp, p, &s)
	if err != nil {
		f.Fatalf("NewSecureIndex: %v", err)
	}
	for _, u := range g.Users {
		i, err := s.GetIdentity(bg, u.Token)
		if err != nil || i.ID != u.UID || uint64(i.Scopes) != u.Scopes || len(i.Groups) != len(u.Groups) {
			f.Fatalf("a user of the release: %+v, %v; want %+v", i, err, u)
		}
		for _, gid := range u.Groups {
			if i.Groups[gid].ID != gid || uint64(i.Groups[gid].Scopes) != g.Groups[gid] {
				f.Fatalf("a group of the release: %+v", i.Groups[gid])
			}
		}
		if _, _, err := s.LoginUser(bg, u.UID, u.Password); err != nil {
			f.Fatalf("a user of the release cannot log in: %v", err)
		}
		if _, _, err := s.LoginUser(bg, u.UID, u.Password+"x"); err == nil {
			f.Fatalf("a user of the release can log in with another password")
		}
	}
	tok := g.Users[1].Token
	for _, o := range g.Objects {
		if c, ok := changed[o.OID]; ok {
			o = c
		}
		got, err := d.Decrypt(bg, tok, o.OID)
		if o.Gone {
			if err == nil {
				f.Fatalf("a deleted object can be read")
			}
			continue
		}
		if err != nil || !eq(got.Plaintext, o.PT) || !eq(got.AssociatedData, o.AD) {
			f.Fatalf("an object of the release of %d bytes: %s %s, %v", len(o.PT), digest(got.Plaintext), digest(got.AssociatedData), err)
		}
		want := map[string]bool{}
		for _, s := range o.Groups {
			want[s] = true
		}
		acl, err := d.GetAccessGroups(bg, tok, o.OID)
		if err != nil || !sameSet(acl, want) {
			f.Fatalf("the access list of an object of the release: %q, %v; want %q", sortedKeys(acl), err, o.Groups)
		}
		// by group membership: user 0 through its group, user 3 through its group but not its own (empty) scopes
		if _, err := d.Decrypt(bg, g.Users[0].Token, o.OID); (err == nil) != want[g.Users[0].Groups[0]] {
			f.Fatalf("access through a group of the release: %v", err)
		}
	}
	for kw, ids := range kws {
		got, err := x.Search(bg, tok, kw)
		if err != nil || multiset(count(got)) != multiset(count(ids)) {
			f.Fatalf("keyword %q of the release: %q, %v; want %q", kw, got, err, ids)
		}
	}
	for _, t := range g.Tokens {
		sealed, err := data.TokenFromString(t.Token)
		if err != nil {
			f.Fatalf("a token of the release: %v", err)
		}
		got, err := d.GetTokenContents(bg, &sealed)
		if err != nil || !eq(got, t.Contents) {
			f.Fatalf("a token of the release: %s, %v; want %s", digest(got), err, digest(t.Contents))
		}
	}
}

func TestC27(t *testing.T) {
	hx.EnumAll(t, "golden", "records, tokens and a bolt file written by the released code, read and worked on by this build; what this build writes to them is read with the independent implementation of the release's formats", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for _, kind := range []string{"bolt file", "store", "mem", "bolt"} {
			do(kind, true, func(tb testing.TB, c *hx.Case) {
				cryptotest.SetGlobalRandom(tb.(*testing.T), 11)
				g := loadGolden(t)
				box := hx.NewBox(map[string]string{"bolt file": "mem"}[kind] + map[bool]string{false: kind}[kind == "bolt file"])
				defer box.Close()
				if kind == "bolt file" {
					b, err := os.ReadFile(filepath.Join(os.Getenv("HX_DATA"), "golden.bolt"))
					if err != nil {
						hx.Bug("golden data: %v", err)
					}
					path := hx.TempFile()
					if err := os.WriteFile(path, b, 0o600); err != nil {
						hx.Bug("golden data: %v", err)
					}
					p, err := io.NewBolt(path)
					if err != nil {
						tb.Fatalf("the bolt file of the release does not open: %v", err)
					}
					defer func() {
						if db := hx.BoltDB(&p); db != nil {
							db.Close()
						}
						os.Remove(path)
					}()
					box.P = &p
				} else {
					for _, r := range g.Records {
						if err := box.P.Put(bg, r.ID, io.DataType(r.Type), cloneBytes(r.Data)); err != nil {
							tb.Fatalf("Put: %v", err)
						}
					}
				}
				synctest.Test(tb.(*testing.T), func(f *testing.T) {
					kws := g.Index
					checkGolden(f, g, box.P, nil, kws)
					// the build works on the release's records
					s, err := id.NewStandalone(saKeysOf(g.Seed), box.P)
					if err != nil {
						f.Fatalf("NewStandalone: %v", err)
					}
					kp := key.NewStatic(keysOf(g.Seed))
					d, err := d1.New(bg, &kp, box.P, &s)
					if err != nil {
						f.Fatalf("New: %v", err)
					}
					x, err := index.NewSecureIndex(bg, &kp, box.P, &s)
					if err != nil {
						f.Fatalf("NewSecureIndex: %v", err)
					}
					tok := g.Users[1].Token
					changed := map[uuid.UUID]goldObject{}
					old := &old{f: f, p: box.P, r: hx.NewRnd(5), k: keysOf(g.Seed), s: saKeysOf(g.Seed)}
					for i, o := range g.Objects {
						if o.Gone {
							continue
						}
						if i%2 == 0 {
							o.PT, o.AD = append(cloneBytes(o.PT), "changed"...), []byte("new")
							if err := d.Update(bg, tok, o.OID, &data.Object{Plaintext: cloneBytes(o.PT), AssociatedData: cloneBytes(o.AD)}); err != nil {
								f.Fatalf("updating an object of the release: %v", err)
							}
						}
						if i%3 == 0 {
							o.Groups = append([]string{"one more"}, o.Groups...)
							if err := d.AddGroupsToAccess(bg, tok, o.OID, "one more"); err != nil {
								f.Fatalf("AddGroupsToAccess on an object of the release: %v", err)
							}
						}
						changed[o.OID] = o
						acl := map[string]bool{}
						for _, s := range o.Groups {
							acl[s] = true
						}
						old.object("object changed by this build", o.OID, o.PT, o.AD, acl)
					}
					after := map[string][]string{}
					for kw, ids := range kws {
						if err := x.Add(bg, tok, kw, "added"); err != nil {
							f.Fatalf("Add to a keyword of the release: %v", err)
						}
						if err := x.Delete(bg, tok, kw, "identifier 1"); err != nil {
							f.Fatalf("Delete from a keyword of the release: %v", err)
						}
						want := []string{"added"}
						for _, s := range ids {
							if s != "identifier 1" {
								want = append(want, s)
							}
						}
						after[kw] = want
						if got := old.search(kw); multiset(count(got)) != multiset(count(want)) {
							f.Fatalf("the release finds %q for keyword %q, want %q", got, kw, want)
						}
					}
					pw, err := s.ChangeUserPassword(bg, g.Users[2].UID, g.Users[2].Password)
					if err != nil {
						f.Fatalf("changing a password of the release: %v", err)
					}
					g.Users[2].Password = pw
					v, err := hx.DecodeUser(old.s.UEK, g.Users[2].UID, old.get("user", g.Users[2].UID, typeOldUser))
					if err != nil || len(v.SaltAndHash) != 40 || !eq(v.SaltAndHash, hashOf(pw, v.SaltAndHash[:8])) {
						f.Fatalf("the release cannot verify the new password: %v", err)
					}
					checkGolden(f, g, box.P, changed, after)
					// tokens end when the release said they do
					for _, tk := range g.Tokens {
						sealed, err := data.TokenFromString(tk.Token)
						if err != nil {
							f.Fatalf("a token of the release: %v", err)
						}
						sleepUntil(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(tk.Minutes) * time.Minute))
						if _, err := d.GetTokenContents(bg, &sealed); err != nil {
							f.Fatalf("a token of the release ends early: %v", err)
						}
						time.Sleep(time.Nanosecond)
						if _, err := d.GetTokenContents(bg, &sealed); err == nil {
							f.Fatalf("a token of the release does not end")
						}
					}
				})
			})
		}
	})
	hx.Enum(t, "scope numbers", "the numbers under which scopes are stored mean the scopes they mean to the release", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for b, s := range scopeBits {
			do(s.String(), true, func(f testing.TB, c *hx.Case) {
				if s != id.Scope(1)<<b {
					f.Fatalf("scope %d of the release is scope %x in this build", b, uint64(s))
				}
			})
		}
	})
	hx.Enum(t, "bolt layout", "records put in and taken out of a bolt file with the database library itself, in the release's layout", false, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for _, n := range []int{0, 1, 16, 36, 300} {
			for _, ty := range types18 {
				do(fmt.Sprintf("identifier of %d, type %d", n, ty), true, func(f testing.TB, c *hx.Case) {
					path := hx.TempFile()
					defer os.Remove(path)
					p, err := io.NewBolt(path)
					if err != nil {
						f.Fatalf("NewBolt: %v", err)
					}
					db := hx.BoltDB(&p)
					if db == nil {
						return
					}
					defer db.Close()
					ident := hx.Bytes(uint64(n), n, 0)
					k := append(cloneBytes(ident), byte(ty), byte(ty>>8), 0)
					if err := p.Put(bg, ident, io.DataType(ty), []byte("by the build")); err != nil {
						f.Fatalf("Put: %v", err)
					}
					err = db.Update(func(tx *bolt.Tx) error {
						b := tx.Bucket([]byte("object"))
						if b == nil {
							f.Fatalf("no bucket")
						}
						if got := b.Get(k); string(got) != "by the build" {
							f.Fatalf("the release reads %q", got)
						}
						return b.Put(k, []byte("by the release"))
					})
					if err != nil {
						f.Fatalf("transaction: %v", err)
					}
					if got, err := p.Get(bg, ident, io.DataType(ty)); err != nil || string(got) != "by the release" {
						f.Fatalf("Get of a record of the release: %q, %v", got, err)
					}
				})
			}
		}
	})
	rule := "histories in which each call is made either by this build or by an independent implementation of the release's formats; after each, everything is read by both; non-trivial: both wrote"
	for _, s := range []struct {
		kind  string
		q, th int
	}{{"store", 5600, 400000}, {"bolt", 320, 16000}} {
		hx.Check(t, "objects on "+s.kind, hx.Opt{Quick: s.q, Thorough: s.th, Rule: rule}, func(rt *rapid.T, c *hx.Case) { exchangeObjects(rt, c, s.kind) })
		hx.Check(t, "index on "+s.kind, hx.Opt{Quick: s.q, Thorough: s.th, Rule: rule}, func(rt *rapid.T, c *hx.Case) { exchangeIndex(rt, c, s.kind) })
	}
	hx.Check(t, "identity", hx.Opt{Quick: 2400, Thorough: 200000, Rule: rule}, func(rt *rapid.T, c *hx.Case) {
		rapid.SyncTest(rt, func(rt *rapid.T) { exchangeIdentity(rt, c, "store") })
	})
	hx.Check(t, "tokens", hx.Opt{Quick: 4800, Thorough: 300000, Rule: "tokens with drawn contents, time zones and expiry times, made by this build and read by the independent implementation and the other way round; non-trivial: always"}, func(rt *rapid.T, c *hx.Case) {
		rapid.SyncTest(rt, func(rt *rapid.T) { exchangeTokens(rt, c) })
	})
}
