package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// past is everything that was ever legitimately true of an object.
type past struct {
	contents [][2][]byte
	lists    []map[string]bool
}

func (p *past) addList(l map[string]bool) {
	for _, m := range p.lists {
		if len(m) == len(l) {
			same := true
			for k := range l {
				same = same && m[k]
			}
			if same {
				return
			}
		}
	}
	if len(p.lists) < 300 {
		c := map[string]bool{}
		for k := range l {
			c[k] = true
		}
		p.lists = append(p.lists, c)
	}
}

func (p *past) change(add bool, gs []string) {
	for _, l := range append([]map[string]bool{}, p.lists...) {
		m := map[string]bool{}
		for k := range l {
			m[k] = true
		}
		for _, g := range gs {
			if add {
				m[g] = true
			} else {
				delete(m, g)
			}
		}
		p.addList(m)
	}
}

func (p *past) allows(i *id.Identity, need id.Scope) bool {
	for _, l := range p.lists {
		if l[i.ID] && hasScope(i.Scopes, need) {
			return true
		}
		for g, ag := range i.Groups {
			if l[g] && hasScope(ag.Scopes, need) {
				return true
			}
		}
	}
	return false
}

var objectTypes = []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess}

func TestC04(t *testing.T) {
	hx.Check(t, "history", hx.Opt{Quick: 12000, Thorough: 500000,
		Rule: "a history of legitimate calls on a few objects, then rounds of tampering (bits, bytes, fields, swaps between objects and kinds, replays, records made with other keys, duplicate fields) each followed by calls of all kinds by all callers; non-trivial: at least one call reached a tampered record"},
		func(rt *rapid.T, c *hx.Case) { tamperObjects(rt, c) })
	hx.Check(t, "unseal", hx.Opt{Quick: 24000, Thorough: 1000000,
		Rule: "one sealed object or access list, one of its fields (or its wrapped key) changed, or bytes moved between the identifier and the associated data, then unsealed; non-trivial: all"},
		func(rt *rapid.T, c *hx.Case) { tamperSealed(rt, c) })
	hx.EnumAll(t, "forged", "objects and access lists that need no key to be made (in the clear, under keys stored next to them, under constant or derivable keys), in all combinations, under genuine and special identifiers, followed by every call by two callers", true, forgedObjects)
	hx.Enum(t, "every-bit", "every single bit of the stored records and sealed fields of one small object, flipped in turn", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			w := newWorld(t, nil, hx.NewBox("store"), keysOf(4))
			w.idp.Tokens["t"] = &id.Identity{ID: "owner", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
			w.idp.Tokens["x"] = &id.Identity{ID: "ownes", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
			obj := data.Object{Plaintext: []byte("the content"), AssociatedData: []byte("the data")}
			oid, err := w.d.Encrypt(bg, "t", &obj, "g")
			if err != nil {
				t.Fatalf("encrypt: %v", err)
			}
			sn := w.box.St.Snapshot()
			for _, k := range sn.Keys() {
				for i := 0; i < 8*len(sn[k]); i++ {
					do(fmt.Sprintf("type %d bit %d", k.Type, i), true, func(tb testing.TB, c *hx.Case) {
						w.box.St.Restore(sn)
						b := cloneBytes(sn[k])
						b[i/8] ^= 1 << (i % 8)
						w.box.St.Set(k, b)
						got, err := w.d.Decrypt(bg, "t", oid)
						if err == nil && (!eq(got.Plaintext, obj.Plaintext) || !eq(got.AssociatedData, obj.AssociatedData)) {
							tb.Fatalf("decrypts to %q %q", got.Plaintext, got.AssociatedData)
						}
						gs, err := w.d.GetAccessGroups(bg, "t", oid)
						if err == nil && (len(gs) != 2 || !has(gs, "owner") || !has(gs, "g")) {
							tb.Fatalf("access list %v", gs)
						}
						if w.d.AuthorizeIdentity(bg, "x", oid) == nil {
							tb.Fatalf("stranger authorised")
						}
					})
				}
			}
			cr, _ := crypto.NewAESCryptor(keyOf(5, "x"))
			u := uuid.Must(uuid.FromBytes(hx.Bytes(5, 16, 0)))
			wk, so, err := obj.Seal(u, &cr)
			if err != nil {
				t.Fatalf("seal: %v", err)
			}
			ac := data.NewAccess([]byte("wrapped key bytes"))
			ac.AddGroups("g", "h")
			sa, err := ac.Seal(u, &cr)
			if err != nil {
				t.Fatalf("seal: %v", err)
			}
			flip := func(what string, n int, f func(i int) error) {
				for i := 0; i < 8*n; i++ {
					do(fmt.Sprintf("%s bit %d", what, i), true, func(tb testing.TB, c *hx.Case) {
						if f(i) == nil {
							tb.Fatalf("unseals")
						}
					})
				}
			}
			bit := func(b []byte, i int) []byte {
				o := cloneBytes(b)
				o[i/8] ^= 1 << (i % 8)
				return o
			}
			uo := func(s data.SealedObject, k []byte) error { _, err := s.Unseal(k, &cr); return err }
			flip("object ciphertext", len(so.Ciphertext), func(i int) error { s := so; s.Ciphertext = bit(so.Ciphertext, i); return uo(s, wk) })
			flip("object associated data", len(so.AssociatedData), func(i int) error { s := so; s.AssociatedData = bit(so.AssociatedData, i); return uo(s, wk) })
			flip("object OID", 16, func(i int) error { s := so; s.OID[i/8] ^= 1 << (i % 8); return uo(s, wk) })
			flip("object wrapped key", len(wk), func(i int) error { return uo(so, bit(wk, i)) })
			ua := func(s data.SealedAccess) error { _, err := s.Unseal(&cr); return err }
			flip("access ciphertext", len(sa.Ciphertext), func(i int) error { s := sa; s.Ciphertext = bit(sa.Ciphertext, i); return ua(s) })
			flip("access wrapped key", len(sa.WrappedKey), func(i int) error { s := sa; s.WrappedKey = bit(sa.WrappedKey, i); return ua(s) })
			flip("access OID", 16, func(i int) error { s := sa; s.OID[i/8] ^= 1 << (i % 8); return ua(s) })
		})
}

// forgedObjects stores records that need no key to be made.
func forgedObjects(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
	w := newWorld(t, nil, hx.NewBox("store"), keysOf(4))
	w.idp.Tokens["t"] = &id.Identity{ID: "owner", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
	w.idp.Tokens["x"] = &id.Identity{ID: "stranger", Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
	obj := data.Object{Plaintext: []byte("the content"), AssociatedData: []byte("the data")}
	real, err := w.d.Encrypt(bg, "t", &obj, "g")
	if err != nil {
		t.Fatalf("encrypt: %v", err)
	}
	sn := w.box.St.Snapshot()
	rnd := hx.NewRnd(31)
	everybody := map[string]struct{}{"owner": {}, "stranger": {}, "g": {}}
	for _, oid := range []uuid.UUID{real, uuid.Nil, uuid.Must(uuid.FromBytes(hx.Bytes(1, 16, 3))), uuid.Must(uuid.FromBytes(hx.Bytes(8, 16, 0)))} {
		ok := hx.Key{ID: string(oid[:]), Type: io.DataTypeSealedObject}
		ak := hx.Key{ID: string(oid[:]), Type: io.DataTypeSealedAccess}
		type rec struct {
			how string
			b   []byte
		}
		var objects []rec
		var keys []hx.Forged
		for _, f := range hx.Forgeries(rnd, []byte("forged content"), hx.ObjectAAD(oid, []byte("forged"))) {
			objects = append(objects, rec{f.How, hx.Raw(hx.ObjectRec{Ciphertext: f.CT, AssociatedData: []byte("forged"), OID: oid})})
			keys = append(keys, f)
		}
		if oid == real {
			objects = append(objects, rec{"genuine object", sn[ok]})
			keys = append(keys, hx.Forged{})
		}
		for n, o := range objects {
			lists := []rec{{"a plain list", hx.Raw(map[string]any{"OID": oid, "Groups": everybody, "WrappedDEK": keys[n].Wrapped})}, {"the genuine list", sn[ak]}}
			for _, f := range hx.Forgeries(rnd, hx.AccessVal{Groups: everybody, WrappedDEK: keys[n].Wrapped}, oid[:]) {
				lists = append(lists, rec{f.How, hx.Raw(hx.AccessRec{OID: oid, Ciphertext: f.CT, WrappedKey: f.Wrapped})})
			}
			for _, f := range hx.Forgeries(rnd, hx.AccessVal{Groups: everybody, WrappedDEK: keys[n].Wrapped}, uuid.Nil[:]) {
				lists = append(lists, rec{"nil identifier: " + f.How, hx.Raw(hx.AccessRec{Ciphertext: f.CT, WrappedKey: f.Wrapped})})
			}
			if n > 0 && oid != real { // the same lists with every object add little
				lists = lists[:len(lists)/2]
			}
			for _, l := range lists {
				do(fmt.Sprintf("%v: object %s, list %s", oid, o.how, l.how), true, func(tb testing.TB, c *hx.Case) {
					untouched := oid == real && eq(l.b, sn[ak])
					w.box.St.Restore(sn)
					w.box.St.Set(ok, o.b)
					w.box.St.Drop(ak)
					if l.b != nil {
						w.box.St.Set(ak, l.b)
					}
					before := w.box.St.Snapshot()
					for _, tok := range []string{"t", "x"} {
						got, err := w.d.Decrypt(bg, tok, oid)
						if err == nil && !(untouched && tok == "t" && o.how == "genuine object") {
							tb.Fatalf("decrypt by %s gives %q %q", tok, got.Plaintext, got.AssociatedData)
						}
						if untouched && tok == "t" {
							if o.how == "genuine object" && err != nil {
								tb.Fatalf("genuine object not decrypted: %v", err)
							}
							continue
						}
						gs, err := w.d.GetAccessGroups(bg, tok, oid)
						if err == nil {
							tb.Fatalf("access list shown to %s: %q", tok, sortedKeys(gs))
						}
						if w.d.AuthorizeIdentity(bg, tok, oid) == nil {
							tb.Fatalf("%s authorised", tok)
						}
						if w.d.AddGroupsToAccess(bg, tok, oid, "h") == nil {
							tb.Fatalf("groups added by %s", tok)
						}
						if w.d.RemoveGroupsFromAccess(bg, tok, oid, "g") == nil {
							tb.Fatalf("groups removed by %s", tok)
						}
						if w.d.Update(bg, tok, oid, &data.Object{Plaintext: []byte("new")}) == nil {
							tb.Fatalf("updated by %s", tok)
						}
						if l.b != nil && w.d.Delete(bg, tok, oid) == nil {
							tb.Fatalf("deleted by %s", tok)
						}
						if d := before.Diff(w.box.St.Snapshot()); len(d) > 0 {
							tb.Fatalf("refused calls change storage: %v", d)
						}
					}
				})
			}
		}
	}
}

func has(m map[string]struct{}, k string) bool { _, ok := m[k]; return ok }

func tamperSealed(rt *rapid.T, c *hx.Case) {
	c.NonTrivial()
	key := keyOf(hx.Uint64Range(0, 50).Draw(rt, "key"), "k")
	cr, err := crypto.NewAESCryptor(key)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	oid := uuid.Must(uuid.FromBytes(hx.Bytes(hx.Uint64Range(0, 50).Draw(rt, "oid"), 16, hx.IntRange(0, 3).Draw(rt, "oidkind"))))
	switch hx.IntRange(0, 11).Draw(rt, "special") {
	case 0, 1:
		oid = uuid.Nil
	case 2:
		copy(oid[:], bytes.Repeat([]byte{0xff}, 16))
	}
	another := func() uuid.UUID {
		switch hx.IntRange(0, 4).Draw(rt, "another") {
		case 0:
			return uuid.Nil
		case 1:
			return uuid.Must(uuid.FromBytes(bytes.Repeat([]byte{0xff}, 16)))
		case 2:
			return uuid.NamespaceDNS
		default:
			u := oid
			i := hx.IntRange(0, 127).Draw(rt, "bit")
			u[i/8] ^= 1 << (i % 8)
			return u
		}
	}
	ad := drawContent(rt, 200, "ad")
	obj := data.Object{Plaintext: drawContent(rt, 300, "pt"), AssociatedData: ad}
	if hx.IntRange(0, 2).Draw(rt, "kind") > 0 {
		wk, s, err := obj.Seal(oid, &cr)
		if err != nil {
			rt.Fatalf("seal: %v", err)
		}
		if got, err := s.Unseal(wk, &cr); err != nil || !eq(got.Plaintext, obj.Plaintext) || !eq(got.AssociatedData, obj.AssociatedData) {
			rt.Fatalf("untouched object does not unseal: %v", err)
		}
		// a second object sealed under the same key, to take fields from
		obj2 := data.Object{Plaintext: drawContent(rt, 300, "pt2"), AssociatedData: ad}
		oid2 := oid
		if rapid.Bool().Draw(rt, "other") {
			oid2[15] ^= 1
		}
		wk2, s2, err := obj2.Seal(oid2, &cr)
		if err != nil {
			rt.Fatalf("seal: %v", err)
		}
		var how string
		switch hx.IntRange(0, 9).Draw(rt, "field") {
		case 0, 1:
			s.Ciphertext, how = hx.MutateBytes(rt, s.Ciphertext, "ct")
			how = "ciphertext: " + how
		case 2, 3:
			s.AssociatedData, how = hx.MutateBytes(rt, s.AssociatedData, "ad")
			how = "associated data: " + how
		case 4:
			u := another()
			if u == oid {
				u[3] ^= 4
			}
			s.OID, how = u, fmt.Sprintf("oid becomes %v", u)
		case 5:
			wk, how = hx.MutateBytes(rt, wk, "wk")
			how = "wrapped key: " + how
		case 6:
			wk, how = wk2, "wrapped key of another object"
		case 7:
			s.Ciphertext, how = s2.Ciphertext, "ciphertext of another object"
		case 8: // bytes moved over the boundary between identifier and associated data
			all := append(append([]byte{}, oid[:]...), ad...)
			n := hx.IntRange(1, 16).Draw(rt, "shift")
			all = append(hx.Bytes(3, n, 3), all...)
			copy(s.OID[:], all)
			s.AssociatedData, how = all[16:], fmt.Sprintf("associated data shifted by %d", n)
		default:
			s.AssociatedData, how = append([]byte{}, append(oid[:], ad...)...), "identifier repeated in the associated data"
		}
		c.Logf("object pt %s ad %s: %s", digest(obj.Plaintext), digest(ad), how)
		if got, err := s.Unseal(wk, &cr); err == nil {
			rt.Fatalf("changed sealed object (%s) unseals to %s %s", how, digest(got.Plaintext), digest(got.AssociatedData))
		}
		return
	}
	ac := data.NewAccess(hx.Bytes(1, 40, 0))
	gs := hx.Names(rt, hx.IntRange(0, 5).Draw(rt, "n"), "g")
	ac.AddGroups(gs...)
	s, err := ac.Seal(oid, &cr)
	if err != nil {
		rt.Fatalf("seal: %v", err)
	}
	if got, err := s.Unseal(&cr); err != nil || len(got.Groups) != len(gs) || !got.ContainsGroups(gs...) {
		rt.Fatalf("untouched access list does not unseal: %v", err)
	}
	ac2 := data.NewAccess(hx.Bytes(2, 40, 0))
	s2, err := ac2.Seal(oid, &cr)
	if err != nil {
		rt.Fatalf("seal: %v", err)
	}
	var how string
	switch hx.IntRange(0, 4).Draw(rt, "field") {
	case 0:
		s.Ciphertext, how = hx.MutateBytes(rt, s.Ciphertext, "ct")
	case 1:
		s.WrappedKey, how = hx.MutateBytes(rt, s.WrappedKey, "wk")
	case 2:
		u := another()
		if u == oid {
			u[3] ^= 4
		}
		s.OID, how = u, fmt.Sprintf("oid becomes %v", u)
	case 3:
		s.Ciphertext, how = s2.Ciphertext, "ciphertext of another list"
	default:
		s.WrappedKey, how = s2.WrappedKey, "key of another list"
	}
	c.Logf("access %s: %s", names(gs), how)
	if got, err := s.Unseal(&cr); err == nil {
		rt.Fatalf("changed sealed access list (%s) unseals to %v", how, got)
	}
}

func tamperObjects(rt *rapid.T, c *hx.Case) {
	w := newWorld(rt, c, hx.NewBox("store"), keysOf(11))
	st := w.box.St
	w.maxSize = 100
	w.pool = hx.Names(rt, 4, "pool")
	full := func(n int, gs ...string) *id.Identity {
		i := &id.Identity{ID: w.pool[n], Scopes: allScopes, Groups: map[string]id.AccessGroup{}}
		for _, g := range gs {
			i.Groups[g] = id.AccessGroup{ID: g, Scopes: allScopes}
		}
		return i
	}
	w.toks = []string{"token-0", "token-1", "token-2"}
	w.idp.Tokens["token-0"] = full(0)
	w.idp.Tokens["token-1"] = full(1, w.pool[3])
	w.idp.Tokens["token-2"] = full(2)
	adv := hx.NewTamper(st)
	hist := map[*objM]*past{}
	note := func() {
		for _, o := range w.objs {
			p := hist[o]
			if p == nil {
				p = &past{}
				hist[o] = p
			}
			if n := len(p.contents); n == 0 || !eq(p.contents[n-1][0], o.pt) || !eq(p.contents[n-1][1], o.ad) {
				p.contents = append(p.contents, [2][]byte{o.pt, o.ad})
			}
			if !o.gone {
				p.addList(o.acl)
			}
		}
		adv.Observe()
	}
	for n := hx.IntRange(2, 14).Draw(rt, "steps"); n > 0 || len(w.objs) < 2; n-- {
		if len(w.objs) < 2 {
			w.encrypt(w.toks[len(w.objs)], drawContent(rt, w.maxSize, "pt"), drawContent(rt, w.maxSize, "ad"), hx.Subset(rt, w.pool[:3], 2, "acl"))
		} else {
			w.step(rt, weights{encrypt: 1, update: 4, remove: 1, add: 3, rem: 3})
		}
		note()
	}
	// records made with other keys, for one of the identifiers, listing everyone
	rnd := hx.NewRnd(99)
	for _, o := range w.objs {
		ob, ac := hx.EncodeObject(rnd, keyOf(777, "kek"), keyOf(777, "aek"), o.oid, []byte("forged content"), o.ad, w.pool)
		ob2, ac2 := hx.EncodeObject(rnd, keyOf(11, "aek"), keyOf(11, "tek"), o.oid, []byte("forged content"), o.ad, w.pool)
		zo, za := hx.EncodeObject(rnd, make([]byte, 32), make([]byte, 32), o.oid, []byte("forged content"), o.ad, w.pool)
		adv.Foreign[io.DataTypeSealedObject] = append(adv.Foreign[io.DataTypeSealedObject], ob, zo)
		adv.Foreign[io.DataTypeSealedAccess] = append(adv.Foreign[io.DataTypeSealedAccess], ac, za)
		_, _ = ob2, ac2
		all := map[string]struct{}{}
		for _, n := range w.pool {
			all[n] = struct{}{}
		}
		for _, f := range hx.Forgeries(rnd, hx.AccessVal{Groups: all}, o.oid[:]) {
			adv.Foreign[io.DataTypeSealedAccess] = append(adv.Foreign[io.DataTypeSealedAccess], hx.Raw(hx.AccessRec{OID: o.oid, Ciphertext: f.CT, WrappedKey: f.Wrapped}))
		}
	}
	for round := hx.IntRange(1, 4).Draw(rt, "rounds"); round > 0; round-- {
		for k := hx.IntRange(1, 3).Draw(rt, "mods"); k > 0; k-- {
			c.Logf("adversary: %s", adv.Act(rt, objectTypes))
		}
		for _, o := range w.objs {
			for n, tok := range w.toks {
				i := w.idp.Tokens[tok]
				if hx.IntRange(0, 3).Draw(rt, "look") > 0 {
					got, err := w.d.Decrypt(bg, tok, o.oid)
					if err == nil {
						c.NonTrivial()
						c.Label("decrypts on tampered storage")
						ok := false
						for _, v := range hist[o].contents {
							ok = ok || eq(v[0], got.Plaintext) && eq(v[1], got.AssociatedData)
						}
						if !ok {
							rt.Fatalf("%s: decrypt by %s returns pt %s ad %s, never stored together under it", w.nameOf(o), tok, digest(got.Plaintext), digest(got.AssociatedData))
						}
						if !hist[o].allows(i, id.ScopeDecrypt) {
							rt.Fatalf("%s: decrypt by %s succeeds though no access list of it ever had that caller", w.nameOf(o), tok)
						}
					} else {
						c.Label("decrypt fails on tampered storage")
						if len(got.Plaintext)+len(got.AssociatedData) > 0 {
							rt.Fatalf("%s: failed decrypt returns data", w.nameOf(o))
						}
					}
					gs, err := w.d.GetAccessGroups(bg, tok, o.oid)
					if err == nil {
						c.NonTrivial()
						ok := false
						for _, l := range hist[o].lists {
							m := len(l) == len(gs)
							for g := range gs {
								m = m && l[g]
							}
							ok = ok || m
						}
						if !ok {
							rt.Fatalf("%s: access list %q, which it never had", w.nameOf(o), sortedKeys(gs))
						}
						if !hist[o].allows(i, id.ScopeGetAccessGroups) {
							rt.Fatalf("%s: access list shown to %s, which no access list of it ever had", w.nameOf(o), tok)
						}
					}
					if w.d.AuthorizeIdentity(bg, tok, o.oid) == nil && !hist[o].allows(i, id.ScopeGetAccessGroups) {
						rt.Fatalf("%s: %s authorised though no access list of it ever had that caller", w.nameOf(o), tok)
					}
				}
				if hx.IntRange(0, 5).Draw(rt, "write") > 0 {
					continue
				}
				before := st.Snapshot()
				var err error
				var need id.Scope
				var what string
				var apply func()
				switch hx.IntRange(0, 3).Draw(rt, "call") {
				case 0:
					what, need = "update", id.ScopeUpdate
					pt, ad := drawContent(rt, 60, "pt"), drawContent(rt, 60, "ad")
					err = w.d.Update(bg, tok, o.oid, &data.Object{Plaintext: cloneBytes(pt), AssociatedData: cloneBytes(ad)})
					apply = func() { hist[o].contents = append(hist[o].contents, [2][]byte{pt, ad}) }
				case 1:
					what, need = "delete", id.ScopeDelete
					err = w.d.Delete(bg, tok, o.oid)
					if err == nil && len(before.Diff(st.Snapshot())) == 0 {
						continue // nothing there
					}
					apply = func() {}
				default:
					what, need = "change access", id.ScopeModifyAccessGroups
					add := rapid.Bool().Draw(rt, "add")
					gs := []string{w.pool[hx.IntRange(0, 2).Draw(rt, "g")]}
					if add {
						err = w.d.AddGroupsToAccess(bg, tok, o.oid, gs...)
					} else {
						err = w.d.RemoveGroupsFromAccess(bg, tok, o.oid, gs...)
					}
					apply = func() { hist[o].change(add, gs) }
				}
				c.Logf("%s of %s by %s: %v", what, w.nameOf(o), tok, short(err))
				diff := before.Diff(st.Snapshot())
				if err == nil {
					if !hist[o].allows(i, need) {
						rt.Fatalf("%s: %s by %s succeeds though no access list of it ever had that caller", w.nameOf(o), what, w.toks[n])
					}
					apply()
				}
				for _, k := range diff {
					if err != nil {
						rt.Fatalf("%s: %s fails but changes storage", w.nameOf(o), what)
					}
					if !bytes.Equal([]byte(k.ID), o.oid[:]) {
						rt.Fatalf("%s: %s changes a record of another object", w.nameOf(o), what)
					}
				}
				adv.Observe()
			}
		}
	}
}
