package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C25: AES-256-GCM and the cryptor built on it.

// script is a random source that hands out what it is told to.
type script struct {
	next  []byte
	fail  bool
	asked []uint
}

func (s *script) GetBytes(n uint) ([]byte, error) {
	s.asked = append(s.asked, n)
	if s.fail {
		return nil, errors.New("no randomness")
	}
	b := cloneBytes(s.next)
	for len(b) < int(n) {
		b = append(b, byte(len(b)))
	}
	return b[:n], nil
}

// opens compares AES256GCM.Decrypt with the reference on any input.
func opens(f fat, a *crypto.AES256GCM, key, ct, aad []byte) bool {
	f.Helper()
	kb, kok := hx.Spare(key, 3)
	ab, aok := hx.Spare(aad, 5)
	buf := cloneBytes(ct)
	got, err := a.Decrypt(buf, ab, kb)
	if e := kok(); e != nil {
		f.Fatalf("Decrypt: key: %v", e)
	}
	if e := aok(); e != nil {
		f.Fatalf("Decrypt: associated data: %v", e)
	}
	want, werr := hx.RefOpen(key, ct, aad)
	switch {
	case (err == nil) != (werr == nil):
		f.Fatalf("Decrypt of %d bytes: error %v; AES-256-GCM: %v", len(ct), err, werr)
	case err == nil && !eq(got, want):
		f.Fatalf("Decrypt gives %s, AES-256-GCM %s", digest(got), digest(want))
	case err != nil && len(got) > 0:
		f.Fatalf("Decrypt fails but returns %d bytes", len(got))
	}
	return err == nil
}

func seals(f fat, key, nonce, pt, aad []byte, spare int) []byte {
	f.Helper()
	s := &script{next: nonce}
	a := &crypto.AES256GCM{Random: s}
	kb, kok := hx.Spare(key, 3)
	ab, aok := hx.Spare(aad, 5)
	buf := make([]byte, len(pt), len(pt)+spare)
	copy(buf, pt)
	ct, err := a.Encrypt(buf, ab, kb)
	if err != nil {
		f.Fatalf("Encrypt of %d bytes: %v", len(pt), err)
	}
	if e := kok(); e != nil {
		f.Fatalf("Encrypt: key: %v", e)
	}
	if e := aok(); e != nil {
		f.Fatalf("Encrypt: associated data: %v", e)
	}
	if want := hx.RefSeal(key, nonce, pt, aad); !eq(ct, want) {
		f.Fatalf("Encrypt of %d bytes gives %s, AES-256-GCM (ciphertext, tag, nonce) %s", len(pt), digest(ct), digest(want))
	}
	if len(s.asked) != 1 || s.asked[0] != 12 {
		f.Fatalf("Encrypt asks for randomness %v, want one nonce of 12 bytes", s.asked)
	}
	return ct
}

// doc is a value with fields of every kind.
type doc struct {
	S     string            `json:"s"`
	B     []byte            `json:"b,omitempty"`
	I     int64             `json:"i"`
	U     uint64            `json:"u"`
	F     float64           `json:"f"`
	T     time.Time         `json:"t"`
	M     map[string]string `json:"m"`
	L     []string          `json:"l"`
	Sets  map[string]struct{}
	P     *doc `json:"p,omitempty"`
	Flag  bool `json:"flag"`
	Bytes [4]byte
	G     float32
	ID    uuid.UUID
	I8    int8
	U16   *uint16
	By    map[int]float64
	Dur   time.Duration
	LL    [][]byte
	inner
}

// inner is embedded.
type inner struct {
	Deep struct{ X, Y float64 }
	R    []rune
}

// drawFloat draws any finite number.
func drawFloat(rt *rapid.T, label string) float64 {
	switch hx.IntRange(0, 3).Draw(rt, label+" kind") {
	case 0:
		return float64(hx.IntRange(-100000, 100000).Draw(rt, label)) / 64
	case 1:
		return hx.SampledFrom([]float64{0, math.Copysign(0, -1), 1, 0.1, 1e20, 1e21, 1e22, 123456789012345680000, 1e-6, 1e-11, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, 1 << 63, math.MaxFloat32}).Draw(rt, label)
	}
	f := math.Float64frombits(rapid.Uint64().Draw(rt, label))
	if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) < 1e-6 && math.Abs(f) > 1e-10 && f != 0 { // JSON encoders write these exponents differently
		return 1.0 / 3
	}
	return f
}

func drawDoc(rt *rapid.T, depth int) doc {
	d := doc{S: hx.Name(rt, "S"), B: hx.Bytes(hx.Uint64Range(0, 1000).Draw(rt, "B"), hx.Size(rt, 400, "B length"), 0), I: int64(hx.Uint64Range(0, 1<<63-1).Draw(rt, "I")) - 1<<62,
		U: rapid.Uint64().Draw(rt, "U"), F: drawFloat(rt, "F"), Flag: rapid.Bool().Draw(rt, "flag"),
		T: time.Unix(int64(hx.Uint64Range(0, 1<<35).Draw(rt, "T")), int64(hx.IntRange(0, 999999999).Draw(rt, "ns"))).UTC()}
	if len(d.B) == 0 {
		d.B = nil
	}
	if rapid.Bool().Draw(rt, "M") {
		d.M, d.Sets = map[string]string{}, map[string]struct{}{}
		for n := hx.IntRange(0, 5).Draw(rt, "entries"); n > 0; n-- {
			d.M[hx.Name(rt, "key")] = hx.Name(rt, "value")
			d.Sets[hx.Name(rt, "member")] = struct{}{}
		}
		d.L = hx.Names(rt, hx.IntRange(0, 4).Draw(rt, "list"), "L")
		if d.L == nil {
			d.L = []string{}
		}
	}
	d.G, d.I8, d.Dur = float32(drawFloat(rt, "G")), int8(hx.IntRange(-128, 127).Draw(rt, "I8")), time.Duration(rapid.Int64().Draw(rt, "duration"))
	if math.IsInf(float64(d.G), 0) {
		d.G = math.MaxFloat32
	}
	d.ID = uuid.UUID(hx.Bytes(hx.Uint64Range(0, 1000).Draw(rt, "ID"), 16, 0))
	d.Deep.X, d.Deep.Y = drawFloat(rt, "X"), drawFloat(rt, "Y")
	if rapid.Bool().Draw(rt, "more") {
		u := uint16(hx.IntRange(0, 65535).Draw(rt, "U16"))
		d.U16, d.By, d.LL, d.R = &u, map[int]float64{hx.IntRange(-9, 1<<40).Draw(rt, "By"): drawFloat(rt, "By")}, [][]byte{nil, {}, hx.Bytes(1, 9, 0)}, []rune(hx.Name(rt, "R"))
	}
	copy(d.Bytes[:], hx.Bytes(hx.Uint64Range(0, 255).Draw(rt, "array"), 4, 0))
	if depth > 0 && rapid.Bool().Draw(rt, "nested") {
		p := drawDoc(rt, depth-1)
		d.P = &p
	}
	return d
}

// anyValue draws a value to seal: it returns it, and a new empty target.
func anyValue(rt *rapid.T, label string) (v any, target func() any) {
	switch hx.IntRange(0, 11).Draw(rt, label) {
	case 8:
		return drawFloat(rt, label), func() any { return new(float64) }
	case 9:
		return []any{nil, drawFloat(rt, label), hx.Name(rt, label), true, map[string]any{"x": []any{}, hx.Name(rt, "key"): drawFloat(rt, label)}}, func() any { return new([]any) }
	case 10:
		return int64(rapid.Uint64().Draw(rt, label)), func() any { return new(int64) }
	case 0:
		return hx.Name(rt, label), func() any { return new(string) }
	case 1, 2:
		max := 3000
		if hx.Chance(rt, 24, label+" big") {
			max = 300000
		}
		return hx.Bytes(hx.Uint64Range(0, 1<<30).Draw(rt, label), hx.Size(rt, max, label+" length"), hx.IntRange(0, 5).Draw(rt, label+" kind")), func() any { return new([]byte) }
	case 3:
		return rapid.Uint64().Draw(rt, label), func() any { return new(uint64) }
	case 4:
		m := map[string]string{}
		for i := hx.IntRange(0, 6).Draw(rt, "entries"); i > 0; i-- {
			m[hx.Name(rt, "key")] = hx.Name(rt, "value")
		}
		return m, func() any { return new(map[string]string) }
	case 5:
		l := append([]string{}, hx.Names(rt, hx.IntRange(0, 5).Draw(rt, "n"), label)...)
		return l, func() any { return new([]string) }
	case 6:
		return rapid.Bool().Draw(rt, label), func() any { return new(bool) }
	default:
		return drawDoc(rt, 2), func() any { return new(doc) }
	}
}

// unwrapped is the JSON of what a target points to.
func unwrapped(p any) any { return reflect.ValueOf(p).Elem().Interface() }

func TestC25(t *testing.T) {
	hx.EnumAll(t, "every size", "every plaintext size to 600 (thorough: 5000) and every associated data size to 600, with and without spare capacity behind the plaintext", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 0; n <= hx.Scale(600, 5000); n++ {
			do(fmt.Sprintf("%d bytes", n), true, func(f testing.TB, c *hx.Case) {
				key, nonce := hx.Bytes(uint64(n), 32, 0), hx.Bytes(uint64(n)+9, 12, n%4)
				a := &crypto.AES256GCM{Random: &script{}}
				pt := hx.Bytes(uint64(n)+3, n, n%6)
				for _, spare := range []int{0, 1, 27, 28, 29, 100} {
					ct := seals(f, key, nonce, pt, []byte("aad"), spare)
					if !opens(f, a, key, ct, []byte("aad")) {
						f.Fatalf("round trip fails")
					}
				}
				ct := seals(f, key, nonce, []byte("pt"), pt, 0)
				if !opens(f, a, key, ct, pt) {
					f.Fatalf("round trip fails")
				}
				for _, aad := range [][]byte{nil, {}} {
					if !opens(f, a, key, seals(f, key, nonce, pt, aad, 0), map[bool][]byte{true: {}, false: nil}[aad == nil]) {
						f.Fatalf("nil and empty associated data differ")
					}
				}
			})
		}
	})
	hx.Enum(t, "key sizes", "every key size from 0 to 130 for the cipher and the cryptor", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 0; n <= 130; n++ {
			do(fmt.Sprintf("key of %d", n), true, func(f testing.TB, c *hx.Case) {
				key := hx.Bytes(uint64(n), n, 0)
				a := &crypto.AES256GCM{Random: &script{}}
				ct, err := a.Encrypt([]byte("pt"), nil, key)
				if (err == nil) != (n == 32) || err != nil && len(ct) > 0 {
					f.Fatalf("Encrypt with a key of %d bytes: %d bytes, %v", n, len(ct), err)
				}
				long := append(cloneBytes(key), make([]byte, 32)...)[:32]
				sealed := hx.RefSeal(long, make([]byte, 12), []byte("pt"), nil)
				if pt, err := a.Decrypt(sealed, nil, key); (err == nil) != (n == 32) || err != nil && len(pt) > 0 {
					f.Fatalf("Decrypt with a key of %d bytes: %d bytes, %v", n, len(pt), err)
				}
				if n == 16 || n == 24 { // what AES-GCM with such a key would open
					if pt, err := a.Decrypt(hx.RefSeal(key, make([]byte, 12), []byte("pt"), nil), nil, key); err == nil || len(pt) > 0 {
						f.Fatalf("Decrypt with a key of %d bytes opens a sealing under it: %d bytes, %v", n, len(pt), err)
					}
				}
				if _, err := crypto.NewAESCryptor(key); (err == nil) != (n == 32) {
					f.Fatalf("NewAESCryptor with a key of %d bytes: %v", n, err)
				}
			})
		}
		do("no randomness", true, func(f testing.TB, c *hx.Case) {
			a := &crypto.AES256GCM{Random: &script{fail: true}}
			if ct, err := a.Encrypt([]byte("pt"), nil, make([]byte, 32)); err == nil || len(ct) > 0 {
				f.Fatalf("Encrypt without randomness gives %d bytes, %v", len(ct), err)
			}
		})
	})
	hx.EnumAll(t, "every bit", "every bit of ciphertext, tag, nonce, key and associated data of small messages flipped; every truncation and extension", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 0; n <= 40; n++ {
			do(fmt.Sprintf("%d bytes", n), true, func(f testing.TB, c *hx.Case) {
				key, nonce, pt, aad := hx.Bytes(uint64(n), 32, 0), hx.Bytes(uint64(n)+9, 12, 0), hx.Bytes(uint64(n)+3, n, 0), hx.Bytes(uint64(n)+4, 1+(n*7)%30, 0)
				a := &crypto.AES256GCM{Random: &script{}}
				ct := seals(f, key, nonce, pt, aad, 0)
				for what, b := range map[string][]byte{"ciphertext, tag or nonce": ct, "key": key, "associated data": aad} {
					for i := 0; i < 8*len(b); i++ {
						b[i/8] ^= 1 << (i % 8)
						if opens(f, a, key, ct, aad) {
							f.Fatalf("Decrypt succeeds with bit %d of the %s changed", i, what)
						}
						b[i/8] ^= 1 << (i % 8)
					}
				}
				for i := 0; i < len(ct); i++ {
					if opens(f, a, key, ct[:i], aad) || opens(f, a, key, ct[len(ct)-i:], aad) {
						f.Fatalf("Decrypt accepts a part of a ciphertext")
					}
					if i < len(aad) && (opens(f, a, key, ct, aad[:i]) || i > 0 && opens(f, a, key, ct, aad[i:])) {
						f.Fatalf("Decrypt accepts a part of the associated data")
					}
				}
				for i := 1; i < 70; i++ {
					if opens(f, a, key, append(cloneBytes(ct), make([]byte, i)...), aad) || opens(f, a, key, append(make([]byte, i), ct...), aad) || opens(f, a, key, ct, append(cloneBytes(aad), make([]byte, i)...)) {
						f.Fatalf("Decrypt accepts %d additional bytes", i)
					}
				}
				if !opens(f, a, key, ct, aad) {
					f.Fatalf("round trip fails")
				}
			})
		}
	})
	hx.EnumAll(t, "values", "values that JSON could lose: numbers of every size, zero values, nested and empty containers, text of every kind, times", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		vals := []any{math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), int8(-128), 1e-7, 9.99e-7, 1.5e-9, math.Pi, -math.MaxFloat64, math.SmallestNonzeroFloat64, float32(9.99e-7), float32(math.MaxFloat32), float32(math.Pi), 1e21, 1e20, 0.1, -0.5,
			"", "\x00\x01\x1f\x7f", "<>&\u2028\u2029", "\U0001F600\ufffd\u00e9", "\"\\/\b\f\n\r\t", strings.Repeat("\u0001", 70000), []string{}, []string(nil), [][]byte{nil, {}, {0}}, map[string][]string{"": nil, "a": {}, "A": {""}}, map[int]bool{-1: true, 0: false},
			time.Time{}, time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), uuid.UUID{}, uuid.UUID(hx.Bytes(1, 16, 0)), struct{}{}, struct{ A, a int }{A: 1}, [0]int{}, [3]bool{true, false, true}, [][][]int{{{1}, {}}, {}}, data.Token{Plaintext: []byte{}, ExpiryTime: time.Unix(1, 1).UTC()}, hx.NodeVal{Identifier: "x", NextCounter: math.MaxUint64}}
		for i := 0; i < 130; i++ {
			vals = append(vals, hx.Bytes(uint64(i), i*i*i/8, i%6), uint64(1)<<(i%64), int64(-1)<<(i%64), math.Ldexp(1+1.0/3, i*15-1000), strings.Repeat("é", i))
		}
		cr, err := crypto.NewAESCryptor(hx.Bytes(25, 32, 0))
		if err != nil {
			t.Fatalf("%v", err)
		}
		for i, v := range vals {
			do(fmt.Sprintf("%d: %T", i, v), true, func(f testing.TB, c *hx.Case) {
				for _, aad := range []any{nil, v} {
					wk, ct, err := cr.Encrypt(v, aad)
					if err != nil {
						f.Fatalf("Encrypt of a %T: %v", v, err)
					}
					for n := 0; n < 2; n++ {
						got := reflect.New(reflect.TypeOf(v))
						if err := cr.Decrypt(got.Interface(), aad, wk, ct); err != nil || !reflect.DeepEqual(got.Elem().Interface(), v) {
							f.Fatalf("%T %s decrypts to %s, %v", v, digest(jsonOf(v)), digest(jsonOf(got.Elem().Interface())), err)
						}
					}
				}
			})
		}
		for _, v := range []any{math.NaN(), math.Inf(1), make(chan int), func() {}} {
			do(fmt.Sprintf("no serialization: %T", v), true, func(f testing.TB, c *hx.Case) {
				if wk, ct, err := cr.Encrypt(v, nil); err == nil || len(wk)+len(ct) > 0 {
					f.Fatalf("Encrypt of a %T: %d bytes, %v", v, len(wk)+len(ct), err)
				}
				if wk, ct, err := cr.Encrypt("x", v); err == nil || len(wk)+len(ct) > 0 {
					f.Fatalf("Encrypt with a %T as associated data: %d bytes, %v", v, len(wk)+len(ct), err)
				}
			})
		}
	})
	hx.Check(t, "cipher", hx.Opt{Quick: 32000, Thorough: 3200000, Rule: "drawn keys, nonces, plaintexts and associated data to 300000 bytes; the sealing compared with an independent AES-256-GCM, opened, and opened after drawn changes; non-trivial: a change was refused"}, func(rt *rapid.T, c *hx.Case) {
		key, nonce := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "key"), 32, 0), hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "nonce"), 12, hx.IntRange(0, 5).Draw(rt, "nonce kind"))
		max := 5000
		if hx.Chance(rt, 24, "big") {
			max = 300000
		}
		pt := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "plaintext"), hx.Size(rt, max, "length"), hx.IntRange(0, 5).Draw(rt, "kind"))
		aad := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "aad"), hx.Size(rt, max, "aad length"), hx.IntRange(0, 5).Draw(rt, "aad kind"))
		ct := seals(rt, key, nonce, pt, aad, hx.IntRange(0, 40).Draw(rt, "spare"))
		a := &crypto.AES256GCM{Random: &script{}}
		c.Logf("plaintext %s, associated data %s, key %s", digest(pt), digest(aad), digest(key))
		if !opens(rt, a, key, ct, aad) {
			rt.Fatalf("round trip fails")
		}
		for n := hx.IntRange(1, 3).Draw(rt, "changes"); n > 0; n-- {
			x := [][]byte{ct, aad, key}
			i := hx.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "changed")
			var how string
			x[i], how = hx.MutateBytes(rt, x[i], "change")
			if i == 2 && len(x[2]) != 32 {
				continue
			}
			c.Logf("changed %d: %s", i, how)
			if !opens(rt, a, x[2], x[0], x[1]) {
				c.NonTrivial()
			}
		}
	})
	hx.Check(t, "buffers", hx.Opt{Quick: 8000, Thorough: 800000, Rule: "a few buffers for keys, plaintexts, ciphertexts and associated data, which the caller overwrites and uses again in calls of one cipher; every call must work on what the buffers hold then; non-trivial: a key buffer was overwritten and used again"}, buffers25)
	hx.Check(t, "cryptor", hx.Opt{Quick: 16000, Thorough: 1600000, Rule: "drawn values of many types sealed with drawn associated data; the result taken apart with independent key wrapping and AES-256-GCM, decrypted twice, and decrypted after drawn changes of the wrapped key, the ciphertext or the associated data and with another key; non-trivial: a change was refused"}, func(rt *rapid.T, c *hx.Case) {
		kek := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "kek"), 32, 0)
		kb := cloneBytes(kek)
		cr, err := crypto.NewAESCryptor(kb)
		if err != nil {
			rt.Fatalf("NewAESCryptor: %v", err)
		}
		hx.Scribble(kb)
		v, target := anyValue(rt, "value")
		aad, _ := anyValue(rt, "associated data")
		js, aj := jsonOf(v), jsonOf(aad)
		c.Logf("%T %s with %T %s", v, digest(js), aad, digest(aj))
		wk, ct, err := cr.Encrypt(v, aad)
		if err != nil {
			rt.Fatalf("Encrypt: %v", err)
		}
		if !eq(jsonOf(v), js) || !eq(jsonOf(aad), aj) {
			rt.Fatalf("Encrypt changes its arguments")
		}
		dek, err := hx.RefUnwrap(kek, wk)
		if err != nil || len(dek) != 32 {
			rt.Fatalf("wrapped key: %d bytes, %v", len(dek), err)
		}
		pt, err := hx.RefOpen(dek, ct, aj)
		if err != nil {
			rt.Fatalf("the ciphertext is not AES-256-GCM with the JSON of the associated data %s: %v", aj, err)
		}
		back := target()
		if err := json.Unmarshal(pt, back); err != nil || !eq(jsonOf(unwrapped(back)), js) {
			rt.Fatalf("the sealed text is not the JSON of the value: %s, %v", pt, err)
		}
		wkOld, ctOld := cloneBytes(wk), cloneBytes(ct)
		decrypt := func(what string) {
			got := target()
			if err := cr.Decrypt(got, aad, wk, ct); err != nil || !reflect.DeepEqual(unwrapped(got), v) {
				rt.Fatalf("%s: decryption gives %s, %v; want %s", what, jsonOf(unwrapped(got)), err, js)
			}
			if !eq(wk, wkOld) || !eq(ct, ctOld) || !eq(jsonOf(aad), aj) {
				rt.Fatalf("%s: Decrypt changes its arguments", what)
			}
		}
		decrypt("first time")
		decrypt("second time")
		other, err := crypto.NewAESCryptor(hx.Bytes(1<<50, 32, 0))
		if err != nil {
			rt.Fatalf("NewAESCryptor: %v", err)
		}
		for n := hx.IntRange(1, 3).Draw(rt, "changes"); n > 0; n-- {
			w, x, a, by, how := wk, ct, aad, &cr, ""
			switch hx.IntRange(0, 5).Draw(rt, "changed") {
			case 0, 1:
				w, how = hx.MutateBytes(rt, wk, "wrapped key")
			case 2, 3:
				x, how = hx.MutateBytes(rt, ct, "ciphertext")
			case 4:
				a, _ = anyValue(rt, "other associated data")
				if eq(jsonOf(a), aj) {
					continue
				}
				how = "other associated data"
			default:
				by, how = &other, "other key"
			}
			got := target()
			empty := jsonOf(unwrapped(got))
			if err := by.Decrypt(got, a, w, x); err == nil {
				rt.Fatalf("decryption succeeds after a change: %s", how)
			}
			if !eq(jsonOf(unwrapped(got)), empty) {
				rt.Fatalf("decryption fails (%s) but fills in the target", how)
			}
			c.Logf("refused: %s", how)
			c.NonTrivial()
		}
		decrypt("after the failures")
		wk2, ct2, err := cr.Encrypt(v, aad)
		if err != nil || eq(wk2, wk) || eq(ct2, ct) {
			rt.Fatalf("encrypting again: equal results or %v", err)
		}
		decrypt("after another encryption")
	})
}

// buffers25: whoever seals with a buffer may overwrite it afterwards.
func buffers25(rt *rapid.T, c *hx.Case) {
	a := &crypto.AES256GCM{Random: &script{}}
	keys := [2][]byte{hx.Bytes(1, 32, 0), hx.Bytes(2, 32, 0)}
	aad := hx.Bytes(3, 20, 0)
	type sealed struct{ key, pt, aad, ct []byte }
	var all []sealed
	used := [2]bool{}
	for n := hx.IntRange(2, 16).Draw(rt, "steps"); n > 0; n-- {
		k := hx.IntRange(0, 1).Draw(rt, "key buffer")
		switch hx.IntRange(0, 5).Draw(rt, "step") {
		case 0: // another key in the same buffer, or one that differs in a bit
			if used[k] {
				c.NonTrivial()
			}
			if rapid.Bool().Draw(rt, "near") {
				keys[k][hx.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << hx.IntRange(0, 7).Draw(rt, "bit")
			} else {
				copy(keys[k], hx.Bytes(hx.Uint64Range(0, 3).Draw(rt, "content"), 32, 0))
			}
			c.Logf("key buffer %d is now %s", k, digest(keys[k]))
		case 1:
			copy(aad, hx.Bytes(hx.Uint64Range(0, 3).Draw(rt, "aad"), 20, 0))
		case 2:
			clear(keys[k])
		case 3, 4:
			nonce := hx.Bytes(hx.Uint64Range(0, 1<<30).Draw(rt, "nonce"), 12, 0)
			pt := hx.Bytes(hx.Uint64Range(0, 9).Draw(rt, "pt"), hx.Size(rt, 100, "len"), 0)
			a.Random = &script{next: nonce}
			want := cloneBytes(pt)
			ct, err := a.Encrypt(pt, aad, keys[k])
			if err != nil {
				rt.Fatalf("Encrypt: %v", err)
			}
			c.Logf("sealed with key buffer %d, %s", k, digest(keys[k]))
			used[k] = true
			if ref := hx.RefSeal(keys[k], nonce, want, aad); !bytes.Equal(ct, ref) {
				rt.Fatalf("the ciphertext is not AES-256-GCM with what the key buffer holds")
			}
			all = append(all, sealed{cloneBytes(keys[k]), want, cloneBytes(aad), cloneBytes(ct)})
			for i := range ct {
				ct[i] ^= 0x55
			}
		}
		if len(all) == 0 {
			continue
		}
		s := hx.SampledFrom(all).Draw(rt, "opened")
		good := bytes.Equal(s.key, keys[k]) && bytes.Equal(s.aad, aad)
		used[k] = true
		pt, err := a.Decrypt(cloneBytes(s.ct), aad, keys[k])
		if good != (err == nil) || good && !eq(pt, s.pt) {
			rt.Fatalf("opening with key buffer %d (right key and associated data: %v) gives %s, %v", k, good, digest(pt), err)
		}
	}
}
