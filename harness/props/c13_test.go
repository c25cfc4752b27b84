package props

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/cryptotest"
	"testing/synctest"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C13: the randomness of every sealing.

// drawn is one value that has to be random, fresh and taken from the random source.
type drawn struct {
	what string
	b    []byte
	uuid bool // version and variant bits are fixed
}

// fixedStream is what the random source delivers under a seed.
func fixedStream(t *testing.T, seed uint64, n int) []byte {
	cryptotest.SetGlobalRandom(t, seed)
	b := make([]byte, n)
	if _, err := rand.Read(b); err != nil {
		hx.Bug("random source: %v", err)
	}
	return b
}

// where finds d in the stream, at or after from.
func where(stream []byte, d drawn) int {
	if !d.uuid {
		return bytes.Index(stream, d.b)
	}
	for at := 0; ; {
		i := bytes.Index(stream[at:], d.b[:6])
		if i < 0 || at+i+16 > len(stream) {
			return -1
		}
		s := stream[at+i : at+i+16]
		if s[6]&0xf == d.b[6]&0xf && s[7] == d.b[7] && s[8]&0x3f == d.b[8]&0x3f && bytes.Equal(s[9:], d.b[9:]) {
			return at + i
		}
		at += i + 1
	}
}

// collect lists what was drawn at random during a run, from all records it wrote.
func (r *run12) collect(f fat, knownUsers map[string]bool) (out []drawn, cts [][]byte) {
	type rec struct{ Ciphertext, WrappedKey []byte }
	add := func(what string, b []byte) { out = append(out, drawn{what: what, b: b}) }
	dek := func(what string, master, wrapped []byte) {
		k, err := hx.RefUnwrap(master, wrapped)
		if err != nil {
			f.Fatalf("%s: wrapped key is not a key wrapped under the master key: %v", what, err)
		}
		if len(k) != 32 {
			f.Fatalf("%s: data key of %d bytes", what, len(k))
		}
		add("data key of "+what, k)
	}
	lastDEK := map[string]string{}
	objWritten := map[string]bool{}
	salts := map[string]bool{}
	for i, cl := range r.st.Trace {
		if (cl.Op != "put" && cl.Op != "update") || cl.Err != nil {
			continue
		}
		var o rec
		if err := json.Unmarshal(cl.Data, &o); err != nil {
			f.Fatalf("record is not JSON: %v", err)
		}
		what := fmt.Sprintf("record %d (type %d)", i, cl.Key.Type)
		if len(o.Ciphertext) < 28 {
			f.Fatalf("%s: ciphertext of %d bytes", what, len(o.Ciphertext))
		}
		add("nonce of "+what, o.Ciphertext[len(o.Ciphertext)-12:])
		cts = append(cts, o.Ciphertext)
		switch {
		case cl.Key.Type == io.DataTypeSealedObject:
			objWritten[cl.Key.ID] = true
			if cl.Op == "put" {
				out = append(out, drawn{what: "object identifier", b: []byte(cl.Key.ID), uuid: true})
			}
		case cl.Key.Type == io.DataTypeSealedAccess:
			dek(what, r.keys.AEK, o.WrappedKey)
			var v hx.AccessVal
			if err := hx.OpenValue(r.keys.AEK, o.WrappedKey, o.Ciphertext, []byte(cl.Key.ID), &v); err != nil {
				f.Fatalf("%s: %v", what, err)
			}
			if objWritten[cl.Key.ID] {
				dek("the object sealed before "+what, r.keys.KEK, v.WrappedDEK)
				objWritten[cl.Key.ID] = false
				lastDEK[cl.Key.ID] = string(v.WrappedDEK)
			} else if lastDEK[cl.Key.ID] != string(v.WrappedDEK) {
				f.Fatalf("%s: a change of access changed the data key", what)
			}
		case cl.Key.Type == io.DataTypeSealedNode:
			found := false
			for k := 0; k < 4 && !found; k++ {
				_, ek := hx.IndexKeys(r.keys.IEK, r.s.name("kw", k))
				if _, err := hx.RefUnwrap(ek, o.WrappedKey); err == nil {
					dek(what, ek, o.WrappedKey)
					found = true
				}
			}
			if !found {
				f.Fatalf("%s: wrapped key is not under the key of any keyword used", what)
			}
		case cl.Key.Type == id.DataTypeSealedUser:
			dek(what, r.base.cfg.UEK, o.WrappedKey)
			v, err := hx.DecodeUser(r.base.cfg.UEK, cl.Key.ID, cl.Data)
			if err != nil || len(v.SaltAndHash) < 9 {
				f.Fatalf("%s: %v", what, err)
			}
			if s := v.SaltAndHash; !salts[string(s)] && !knownUsers[string(s)] {
				salts[string(s)] = true
				add("salt of "+what, s[:8])
			}
			if cl.Op == "put" {
				out = append(out, drawn{what: "user identifier", b: parseUUID(f, cl.Key.ID), uuid: true})
			}
		case cl.Key.Type == id.DataTypeSealedGroup:
			dek(what, r.base.cfg.GEK, o.WrappedKey)
			out = append(out, drawn{what: "group identifier", b: parseUUID(f, cl.Key.ID), uuid: true})
		}
	}
	return
}

func parseUUID(f fat, s string) []byte {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '-' {
			b = append(b, s[i])
		}
	}
	out := make([]byte, len(b)/2)
	if _, err := fmt.Sscanf(string(b), "%x", &out); err != nil || len(out) != 16 {
		f.Fatalf("identifier %q is not a UUID: %v", s, err)
	}
	return out
}

// distinct checks that no two values are equal or (nearly) share their bytes.
func distinct(f fat, ds []drawn) {
	seen := map[string]string{}
	for _, d := range ds {
		if w, ok := seen[string(d.b)]; ok {
			f.Fatalf("the same random value was used for %s and for %s", w, d.what)
		}
		seen[string(d.b)] = d.what
	}
}

// fromStream checks that every value is a stretch of the random stream and that no two stretches overlap.
func fromStream(f fat, stream []byte, ds []drawn) {
	used := make([]int, len(stream)) // 1 + index of the value there
	for n, d := range ds {
		at := where(stream, d)
		if at < 0 {
			f.Fatalf("%s (%x) was not taken in full from the random source", d.what, d.b)
		}
		for i := at; i < at+len(d.b); i++ {
			if used[i] != 0 {
				f.Fatalf("%s and %s share random bytes", d.what, ds[used[i]-1].what)
			}
			used[i] = n + 1
		}
	}
}

type out13 struct {
	ds    []drawn
	cts   [][]byte
	r     *run12
	extra []drawn
}

// run13 runs a history with the random source fixed.
func run13(rt *rapid.T, c *hx.Case, base *saBase, steps []step12, seed uint64, tokens int, uek map[string]bool) out13 {
	r := &run12{f: rt, base: base, s: secrets{0}, keys: keysOf(13), traced: zerolog.Disabled}
	cryptotest.SetGlobalRandom(c.T, seed)
	r.do(steps)
	var o out13
	o.r = r
	for i := 0; i < tokens; i++ {
		tk, err := r.d.CreateToken(bg, []byte("the same contents"))
		if err != nil {
			rt.Fatalf("CreateToken: %v", err)
		}
		k, err := hx.RefUnwrap(r.keys.TEK, tk.WrappedKey)
		if err != nil || len(k) != 32 {
			rt.Fatalf("token: wrapped key of %d bytes: %v", len(k), err)
		}
		o.extra = append(o.extra, drawn{what: fmt.Sprintf("data key of token %d", i), b: k}, drawn{what: fmt.Sprintf("nonce of token %d", i), b: tk.Ciphertext[len(tk.Ciphertext)-12:]})
		o.cts = append(o.cts, tk.Ciphertext)
	}
	for i := len(base.users); i < len(r.pws); i++ {
		o.extra = append(o.extra, drawn{what: "password of a new user", b: decodePw(rt, r.pws[i])})
	}
	for i := range base.users {
		if r.pws[i] != base.users[i].pw {
			o.extra = append(o.extra, drawn{what: "changed password", b: decodePw(rt, r.pws[i])})
		}
	}
	ds, cts := r.collect(rt, uek)
	o.ds, o.cts = append(ds, o.extra...), append(o.cts, cts...)
	return o
}

func decodePw(f fat, pw string) []byte {
	b, err := base64.RawURLEncoding.DecodeString(pw)
	if err != nil || len(b) != 32 {
		f.Fatalf("password %q does not carry 32 bytes: %v", pw, err)
	}
	return b
}

func TestC13(t *testing.T) {
	hx.Enum(t, "standing clock", "users made and logged in while the clock stands still, on one store and on two: identifiers, passwords and tokens are all different; non-trivial: all", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		do("three users on each of two stores", true, func(tb testing.TB, c *hx.Case) {
			bad := ""
			synctest.Test(c.T, func(t *testing.T) {
				seen := map[string]bool{}
				for range 2 {
					w := newSA(t, c, hx.NewBox("store"), saKeysOf(13))
					for range 3 {
						uid, pw, err := w.s.NewUser(bg, allScopes)
						if err != nil {
							bad = fmt.Sprintf("NewUser: %v", err)
							return
						}
						tok, _, err := w.s.LoginUser(bg, uid, pw)
						if err != nil {
							bad = fmt.Sprintf("LoginUser of a user just created: %v", err)
							return
						}
						for _, v := range []string{uid, pw, tok} {
							if seen[v] {
								bad = fmt.Sprintf("%q was given out twice", v)
								return
							}
							seen[v] = true
						}
					}
				}
			})
			if bad != "" {
				tb.Fatalf("%s", bad)
			}
		})
	})
	var base *saBase
	t.Run("base", func(t *testing.T) { // as a test of its own, so that the random source is restored after it
		base = newSABase(t, saKeysOf(13), []id.Scope{allScopes}, []id.Scope{id.ScopeDecrypt})
	})
	if base == nil {
		return
	}
	old := map[string]bool{}
	for k, v := range base.snap {
		if k.Type == id.DataTypeSealedUser {
			u, err := hx.DecodeUser(base.cfg.UEK, k.ID, v)
			if err != nil {
				hx.Bug("%v", err)
			}
			old[string(u.SaltAndHash)] = true
		}
	}
	history := func(hashes bool) func(rt *rapid.T, c *hx.Case) {
		return func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				steps := drawSteps12(rt, hashes)
				for i := range steps { // sealing equal content again and again
					steps[i].b %= 2
					if hx.Chance(rt, 2, "same") {
						steps[i].n, steps[i].ad, steps[i].gs = 20, []byte("same"), nil
					}
				}
				seed := hx.Uint64Range(1, 1<<40).Draw(rt, "seed")
				tokens := hx.IntRange(0, 5).Draw(rt, "tokens")
				a := run13(rt, c, base, steps, seed, tokens, old)
				b := run13(rt, c, base, steps, seed, tokens, old)
				o := run13(rt, c, base, steps, seed+1, tokens, old)
				for _, s := range steps {
					c.Logf("%s %d %d %d %v", s.op, s.a, s.b, s.n, s.gs)
				}
				c.Logf("%d tokens; %d random values, %d sealings", tokens, len(a.ds), len(a.cts))
				if len(a.ds) >= 12 {
					c.NonTrivial()
				}
				distinct(rt, a.ds)
				seen := map[string]bool{}
				for _, ct := range a.cts {
					if seen[string(ct)] {
						rt.Fatalf("the same ciphertext was written twice")
					}
					seen[string(ct)] = true
				}
				if len(a.ds) != len(b.ds) || len(a.ds) != len(o.ds) {
					rt.Fatalf("with the random source fixed, %d random values in one run and %d and %d in others", len(a.ds), len(b.ds), len(o.ds))
				}
				for i := range a.ds {
					if !eq(a.ds[i].b, b.ds[i].b) {
						rt.Fatalf("%s is not determined by the random source: %x and %x", a.ds[i].what, a.ds[i].b, b.ds[i].b)
					}
				}
				distinct(rt, append(append([]drawn{}, a.ds...), o.ds...))
				fromStream(rt, fixedStream(c.T, seed, 96*len(a.ds)+4096), a.ds)
			})
		}
	}
	hx.Check(t, "fixed", hx.Opt{Quick: 800, Thorough: 30000, Rule: "histories of all components with equal contents, run twice under one random seed and once under another; non-trivial: at least 12 random values were drawn in the history"}, history(false))
	hx.Check(t, "hashes", hx.Opt{Quick: 24, Thorough: 800, Rule: "the same with new users and password changes; non-trivial: at least 12 random values were drawn in the history"}, history(true))

	hx.Check(t, "bytes", hx.Opt{Quick: 1500, Thorough: 40000, Rule: "requests of random sizes; non-trivial: 32 bytes or more were requested at once"}, func(rt *rapid.T, c *hx.Case) {
		max := 1 << 12
		if hx.Chance(rt, 30, "large") {
			max = 1 << 21
		}
		var ns []int
		total := 0
		for i := hx.IntRange(1, 6).Draw(rt, "requests"); i > 0; i-- {
			n := hx.Size(rt, max, "n")
			ns = append(ns, n)
			total += n
			if n >= 32 {
				c.NonTrivial()
			}
		}
		c.Logf("requests of %v bytes", ns)
		seed := hx.Uint64Range(1, 1<<40).Draw(rt, "seed")
		stream := fixedStream(c.T, seed, total)
		cryptotest.SetGlobalRandom(c.T, seed)
		src := &crypto.NativeRandom{}
		var got [][]byte
		for _, n := range ns {
			b, err := src.GetBytes(uint(n))
			if err != nil || len(b) != n {
				rt.Fatalf("GetBytes(%d): %d bytes, %v", n, len(b), err)
			}
			got = append(got, b)
		}
		at := 0
		for i, n := range ns {
			if !eq(got[i], stream[at:at+n]) {
				rt.Fatalf("request %d of %d bytes: not the bytes of the random source", i, n)
			}
			at += n
			hx.Scribble(got[i]) // must not affect what was returned for other requests
		}
	})

	// Random sources that fail or run dry must fail the encryption; the nonce is exactly what the source gave.
	hx.Check(t, "source", hx.Opt{Quick: 240, Thorough: 2000, Rule: "injected random source that runs dry; non-trivial: the source delivers at least one nonce and then fails"}, func(rt *rapid.T, c *hx.Case) {
		have := hx.IntRange(0, 60).Draw(rt, "bytes available")
		pool := hx.Bytes(hx.Uint64Range(1, 1000).Draw(rt, "seed"), have, 0)
		src := &dry{left: cloneBytes(pool)}
		a := crypto.AES256GCM{Random: src}
		k := keyOf(3, "dry")
		var pts, ads [3]int
		for i := range pts {
			pts[i], ads[i] = hx.Size(rt, 40000, "pt"), hx.Size(rt, 40000, "ad")
		}
		ok := 0
		for i := 0; i < 6; i++ {
			ct, err := a.Encrypt(hx.Bytes(1, pts[i%3], 0), hx.Bytes(2, ads[i%3], 0), cloneBytes(k))
			if err != nil {
				if len(pool)-12*ok >= 12 {
					rt.Fatalf("encryption fails with %d random bytes left: %v", len(pool)-12*ok, err)
				}
				continue
			}
			if len(pool)-12*ok < 12 {
				rt.Fatalf("encryption succeeds although the random source failed")
			}
			if n := ct[len(ct)-12:]; !eq(n, pool[12*ok:12*ok+12]) {
				rt.Fatalf("nonce %x is not what the random source delivered, %x", n, pool[12*ok:12*ok+12])
			}
			ok++
		}
		if ok > 0 {
			c.NonTrivial()
		}
		c.Logf("%d bytes available, %d encryptions", have, ok)
	})

	hx.EnumAll(t, "repeated", "the same contents of sizes from 0 to 300 kB sealed again and again by one cryptor, several, objects, tokens and concurrently, with the randomness of the operating system: data keys, nonces and ciphertexts all differ", false, repeated)

	// With the real source: no repetition, and every bit takes both values about equally often.
	hx.Enum(t, "real", "randomness of the operating system, many sealings of equal content", false, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		type sample struct {
			name string
			uuid bool
			next func(f fat) [][]byte
		}
		n := hx.Scale(2500, 60000)
		keys := keysOf(14)
		samples := []sample{
			{"cryptor", false, func(f fat) [][]byte {
				cr, err := crypto.NewAESCryptor(keys.KEK)
				if err != nil {
					f.Fatalf("%v", err)
				}
				w, ct, err := cr.Encrypt([]byte("same"), []byte("same"))
				if err != nil {
					f.Fatalf("%v", err)
				}
				dek, err := hx.RefUnwrap(keys.KEK, w)
				if err != nil {
					f.Fatalf("%v", err)
				}
				return [][]byte{dek, ct[len(ct)-12:]}
			}},
			{"token", false, func(f fat) [][]byte {
				cr, err := crypto.NewAESCryptor(keys.KEK)
				if err != nil {
					f.Fatalf("%v", err)
				}
				tk := data.NewToken([]byte("same"), data.TokenValidity)
				s, err := tk.Seal(&cr)
				if err != nil {
					f.Fatalf("%v", err)
				}
				dek, err := hx.RefUnwrap(keys.KEK, s.WrappedKey)
				if err != nil {
					f.Fatalf("%v", err)
				}
				return [][]byte{dek, s.Ciphertext[len(s.Ciphertext)-12:]}
			}},
			{"bytes", false, func(f fat) [][]byte {
				b, err := (&crypto.NativeRandom{}).GetBytes(100)
				if err != nil {
					f.Fatalf("%v", err)
				}
				return [][]byte{b}
			}},
		}
		w := &run12{f: t, base: base, s: secrets{0}, keys: keys, traced: zerolog.Disabled}
		w.do(nil)
		w.st.Record = false
		samples = append(samples, sample{"object", true, func(f fat) [][]byte {
			o, err := w.d.Encrypt(bg, tok12, &data.Object{Plaintext: []byte("same")})
			if err != nil {
				f.Fatalf("%v", err)
			}
			w.st.Restore(hx.Snap{})
			return [][]byte{cloneBytes(o[:])}
		}})
		for _, s := range samples {
			s := s
			do("real source: "+s.name, true, func(tb testing.TB, c *hx.Case) {
				seen := map[string]bool{}
				ones := map[[2]int]int{}
				for i := 0; i < n; i++ {
					for j, b := range s.next(tb) {
						if seen[string(b)] {
							tb.Fatalf("%s: value %d repeats after %d: %x", s.name, j, i, b)
						}
						seen[string(b)] = true
						for k := 0; k < 8*len(b); k++ {
							ones[[2]int{j, k}] += int(b[k/8] >> (k % 8) & 1)
						}
					}
				}
				for k, v := range ones {
					if s.uuid && (k[1]/8 == 6 && k[1]%8 >= 4 || k[1]/8 == 8 && k[1]%8 >= 6) {
						continue
					}
					if d := float64(v) - float64(n)/2; d*d > 64*float64(n)/4 { // eight standard deviations
						tb.Fatalf("%s: bit %d of value %d is set in %d of %d samples", s.name, k[1], k[0], v, n)
					}
				}
			})
		}
	})
}

// sealings collects sealings whose data keys, nonces and ciphertexts must all differ.
type sealings struct {
	mu   sync.Mutex
	seen map[string]string
	n    int
}

func (s *sealings) note(what string, b []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	if w, ok := s.seen[string(b)]; ok {
		return fmt.Errorf("%s is the same as %s", what, w)
	}
	s.seen[string(b)] = what
	return nil
}

// sealed notes a sealing under a master key.
func (s *sealings) sealed(what string, master, wrapped, ct []byte) error {
	k, err := hx.RefUnwrap(master, wrapped)
	if err != nil || len(k) != 32 {
		return fmt.Errorf("%s: data key of %d bytes, %v", what, len(k), err)
	}
	if len(ct) < 28 {
		return fmt.Errorf("%s: ciphertext of %d bytes", what, len(ct))
	}
	for i := 0; i < 5; i += 4 {
		if bytes.Contains(k, ct[len(ct)-12+i:][:8]) {
			return fmt.Errorf("%s: nonce and data key share bytes", what)
		}
	}
	for _, x := range []struct {
		n string
		b []byte
	}{{"data key", k}, {"nonce", ct[len(ct)-12:]}, {"first bytes", ct[:min(len(ct)-12, 24)]}} {
		if err := s.note(x.n+" of "+what, x.b); err != nil {
			return err
		}
	}
	return nil
}

// repeated seals the same contents again and again in every way there is.
func repeated(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
	for _, size := range []int{0, 1, 31, 100, 1000, 4096, 20000, 32000, 33000, 66000, 140000, hx.Scale(300000, 5<<20)} {
		for _, how := range []string{"one cryptor", "several cryptors", "objects", "tokens", "concurrently"} {
			if size == 0 && how == "concurrently" {
				continue
			}
			do(fmt.Sprintf("%d bytes by %s", size, how), true, func(tb testing.TB, c *hx.Case) {
				s := &sealings{seen: map[string]string{}}
				keys := keysOf(15)
				content := hx.Bytes(3, size, 4)
				same := "same"
				if size%3 == 0 {
					same = string(content)
				}
				n := min(4000, max(6, hx.Scale(2<<20, 32<<20)/(size+100)))
				ck := func(err error) {
					if err != nil {
						tb.Fatalf("%v", err)
					}
				}
				kp := key.NewStatic(keys)
				idp := hx.NewIDP()
				idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes}
				st := hx.NewStore()
				d, err := d1.New(bg, &kp, st, idp)
				ck(err)
				note := func(oid uuid.UUID, what string) error {
					var o hx.ObjectRec
					var a hx.AccessRec
					var v hx.AccessVal
					ob, _ := st.Peek(hx.Key{ID: string(oid[:]), Type: io.DataTypeSealedObject})
					ab, _ := st.Peek(hx.Key{ID: string(oid[:]), Type: io.DataTypeSealedAccess})
					if json.Unmarshal(ob, &o) != nil || json.Unmarshal(ab, &a) != nil {
						return fmt.Errorf("%s: records unreadable", what)
					}
					if err := hx.OpenValue(keys.AEK, a.WrappedKey, a.Ciphertext, oid[:], &v); err != nil {
						return fmt.Errorf("%s: %v", what, err)
					}
					if err := s.sealed(what, keys.KEK, v.WrappedDEK, o.Ciphertext); err != nil {
						return err
					}
					return s.sealed("access list of "+what, keys.AEK, a.WrappedKey, a.Ciphertext)
				}
				cr, err := crypto.NewAESCryptor(keys.KEK)
				ck(err)
				switch how {
				case "one cryptor", "several cryptors":
					for i := 0; i < n; i++ {
						if how != "one cryptor" {
							cr, err = crypto.NewAESCryptor(keys.KEK)
							ck(err)
						}
						for _, v := range []any{content, string(content), map[string][]byte{"a": content}} {
							w, ct, err := cr.Encrypt(v, same)
							ck(err)
							ck(s.sealed(fmt.Sprintf("sealing %d of %T", i, v), keys.KEK, w, ct))
						}
					}
				case "objects":
					var last uuid.UUID
					for i := 0; i < n; i++ {
						oid, err := d.Encrypt(bg, "t", &data.Object{Plaintext: content, AssociatedData: []byte(same)})
						ck(err)
						ck(note(oid, fmt.Sprintf("object %d", i)))
						if i > 0 {
							ck(d.Update(bg, "t", last, &data.Object{Plaintext: content, AssociatedData: []byte(same)}))
							ck(note(last, fmt.Sprintf("object %d updated", i-1)))
							ck(d.Delete(bg, "t", last))
						}
						last = oid
					}
				case "tokens":
					for i := 0; i < n; i++ {
						tk, err := d.CreateToken(bg, content)
						ck(err)
						ck(s.sealed(fmt.Sprintf("token %d", i), keys.TEK, tk.WrappedKey, tk.Ciphertext))
					}
				default:
					errs := make(chan error, 8)
					for g := 0; g < 8; g++ {
						g := g
						go func() {
							for i := 0; i < max(3, n/8); i++ {
								w, ct, err := cr.Encrypt(content, same)
								if err == nil {
									err = s.sealed(fmt.Sprintf("sealing %d of goroutine %d", i, g), keys.KEK, w, ct)
								}
								if err != nil {
									errs <- err
									return
								}
							}
							errs <- nil
						}()
					}
					for g := 0; g < 8; g++ {
						ck(<-errs)
					}
				}
				c.Logf("%d values", s.n)
			})
		}
	}
}

type dry struct{ left []byte }

func (d *dry) GetBytes(n uint) ([]byte, error) {
	if int(n) > len(d.left) {
		return nil, errors.New("no more random bytes")
	}
	out := cloneBytes(d.left[:n])
	d.left = d.left[n:]
	return out, nil
}
