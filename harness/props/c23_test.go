package props

import (
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C23: key wrapping against an independent AES-KWP.

func kwp(f fat, kek []byte) *crypto.KWP {
	f.Helper()
	buf, ok := hx.Spare(kek, 9)
	k, err := crypto.NewKWP(buf)
	if err != nil {
		f.Fatalf("NewKWP with a key of %d bytes: %v", len(kek), err)
	}
	if err := ok(); err != nil {
		f.Fatalf("NewKWP: %v", err)
	}
	hx.Scribble(buf)
	return k
}

func wraps(f fat, k *crypto.KWP, kek, data []byte) []byte {
	f.Helper()
	in, ok := hx.Spare(data, len(data)%13)
	w, err := k.Wrap(in)
	if err != nil {
		f.Fatalf("Wrap of %d bytes: %v", len(data), err)
	}
	if err := ok(); err != nil {
		f.Fatalf("Wrap of %d bytes: %v", len(data), err)
	}
	if want := hx.RefWrap(kek, data); !eq(w, want) {
		f.Fatalf("Wrap of %d bytes under a key of %d: %s, AES-KWP gives %s", len(data), len(kek), digest(w), digest(want))
	}
	hx.Scribble(in)
	if want := hx.RefWrap(kek, data); !eq(w, want) {
		f.Fatalf("the wrapping changes with the buffer passed in")
	}
	unwraps(f, k, kek, w)
	return w
}

// unwraps compares Unwrap with the reference on any input.
func unwraps(f fat, k *crypto.KWP, kek, w []byte) bool {
	f.Helper()
	in, ok := hx.Spare(w, len(w)%11)
	got, err := k.Unwrap(in)
	if e := ok(); e != nil {
		f.Fatalf("Unwrap of %d bytes: %v", len(w), e)
	}
	want, werr := hx.RefUnwrap(kek, w)
	if werr == nil && (len(want) < 16 || len(want) > 8192) {
		// a valid wrapping of material that Wrap does not accept: refusing it is fine, and so is unwrapping it
		if err == nil && !eq(got, want) {
			f.Fatalf("Unwrap of a wrapping of %d bytes gives %s", len(want), digest(got))
		}
		return err == nil
	}
	switch {
	case werr == nil && err != nil:
		f.Fatalf("Unwrap of a valid wrapping of %d bytes: %v", len(want), err)
	case werr != nil && err == nil:
		f.Fatalf("Unwrap of %d bytes that are no wrapping (%v) gives %s", len(w), werr, digest(got))
	case err == nil && !eq(got, want):
		f.Fatalf("Unwrap of a wrapping of %s gives %s", digest(want), digest(got))
	case err != nil && len(got) > 0:
		f.Fatalf("Unwrap fails but returns %d bytes", len(got))
	}
	if err == nil {
		hx.Scribble(in)
		if !eq(got, want) {
			f.Fatalf("the unwrapped key changes with the buffer passed in")
		}
	}
	return err == nil
}

func TestC23(t *testing.T) {
	kek := func(n int, seed uint64) []byte { return hx.Bytes(seed, n, 0) }
	hx.EnumAll(t, "every size", "every size of key material from 0 to 8300 bytes under a 16- or 32-byte key (both in the thorough tier), against the independent AES-KWP", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 0; n <= 8300; n++ {
			for _, kn := range []int{16, 32} {
				if !hx.Thorough() && kn == 16<<(n&1) && n > 600 {
					continue
				}
				do(fmt.Sprintf("%d bytes under %d", n, kn), n >= 16 && n <= 8192, func(f testing.TB, c *hx.Case) {
					kk := kek(kn, uint64(n))
					k := kwp(f, kk)
					data := hx.Bytes(uint64(n)+1, n, n%6)
					if n < 16 || n > 8192 {
						if w, err := k.Wrap(data); err == nil || len(w) > 0 {
							f.Fatalf("Wrap of %d bytes: %d bytes, %v", n, len(w), err)
						}
						return
					}
					wraps(f, k, kk, data)
				})
			}
		}
	})
	hx.Enum(t, "key sizes", "every size of wrapping key from 0 to 256 bytes", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 0; n <= 256; n++ {
			do(fmt.Sprintf("wrapping key of %d", n), true, func(f testing.TB, c *hx.Case) {
				k, err := crypto.NewKWP(kek(n, 3))
				if (n == 16 || n == 32) != (err == nil) {
					f.Fatalf("NewKWP with %d bytes: %v", n, err)
				}
				if err != nil && k != nil {
					f.Fatalf("NewKWP fails but returns a wrapper")
				}
			})
		}
	})
	hx.EnumAll(t, "every bit", "every single bit of wrappings of 16 to 72 bytes flipped", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 16; n <= 72; n++ {
			do(fmt.Sprintf("%d bytes", n), true, func(f testing.TB, c *hx.Case) {
				kk := kek(16<<(n&1), uint64(n))
				k := kwp(f, kk)
				w := wraps(f, k, kk, hx.Bytes(uint64(n), n, 0))
				for i := 0; i < 8*len(w); i++ {
					w[i/8] ^= 1 << (i % 8)
					if unwraps(f, k, kk, w) {
						f.Fatalf("Unwrap accepts a wrapping of %d bytes with bit %d changed", n, i)
					}
					w[i/8] ^= 1 << (i % 8)
				}
				for i := 0; i < len(w); i++ {
					if unwraps(f, k, kk, w[:i]) || unwraps(f, k, kk, w[len(w)-i:]) {
						f.Fatalf("Unwrap accepts a part of a wrapping of %d bytes", n)
					}
				}
				for i := 1; i < 64; i++ {
					if unwraps(f, k, kk, append(cloneBytes(w), make([]byte, i)...)) {
						f.Fatalf("Unwrap accepts a wrapping of %d bytes followed by %d more", n, i)
					}
				}
			})
		}
	})
	hx.EnumAll(t, "every length field", "wrappings built with every length field around the true one (and extreme ones), every padding length and every non-zero padding byte, and other prefixes", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 16; n <= 48; n++ {
			do(fmt.Sprintf("%d bytes", n), true, func(f testing.TB, c *hx.Case) {
				kk := kek(32>>(n&1), uint64(n))
				k := kwp(f, kk)
				data := hx.Bytes(uint64(n), n, 0)
				zeros := hx.Bytes(uint64(n), n, 2)
				for _, d := range [][]byte{data, zeros} {
					for mli := 0; mli <= n+20; mli++ {
						unwraps(f, k, kk, hx.RefWrapRaw(kk, 0xA65959A6, uint32(mli), d, nil))
					}
					for _, mli := range []uint32{1 << 31, 1<<31 + uint32(n), 0xffffffff, 0xfffffff8, 0xfffffff9, -uint32(n), 1<<16 + uint32(n), 1<<24 + uint32(n), 1<<8 + uint32(n), uint32(n) << 8, uint32(n) << 24, uint32(n * 8)} {
						unwraps(f, k, kk, hx.RefWrapRaw(kk, 0xA65959A6, mli, d, nil))
					}
					for pad := 1; (n+pad-1)%8 != 7 && n+pad <= (n+7)/8*8; pad++ {
						for i := 0; i < pad; i++ {
							p := make([]byte, pad)
							for b := 1; b < 256; b++ {
								p[i] = byte(b)
								unwraps(f, k, kk, hx.RefWrapRaw(kk, 0xA65959A6, uint32(n), d, p))
							}
						}
					}
					for b := 0; b < 32; b++ {
						unwraps(f, k, kk, hx.RefWrapRaw(kk, 0xA65959A6^1<<b, uint32(n), d, nil))
					}
					for _, p := range []uint32{0, 0xA6A6A6A6, 0xA65959A5, 0xFFFFFFFF, 0xA65959} {
						unwraps(f, k, kk, hx.RefWrapRaw(kk, p, uint32(n), d, nil))
					}
					for extra := 8; extra <= 24; extra += 8 { // whole blocks of padding
						unwraps(f, k, kk, hx.RefWrapRaw(kk, 0xA65959A6, uint32(n), d, make([]byte, extra)))
					}
				}
			})
		}
	})
	hx.Check(t, "sessions", hx.Opt{Quick: 40000, Thorough: 4000000, Rule: "drawn sequences on one or two wrappers: wrapping of any size, unwrapping of modified wrappings (bits, lengths, exchanged bytes and blocks, another key, spliced halves, invalid length fields and padding) compared with the independent AES-KWP; non-trivial: both a wrapping and a refused modification"}, func(rt *rapid.T, c *hx.Case) {
		type pair struct {
			kek []byte
			k   *crypto.KWP
		}
		var ks []pair
		base := hx.Uint64Range(0, 1<<40).Draw(rt, "keks")
		for i := 0; i < 2; i++ {
			kk := hx.Bytes(base+uint64(i), hx.SampledFrom([]int{16, 32}).Draw(rt, "kek size"), hx.SampledFrom([]int{0, 0, 0, 2, 3}).Draw(rt, "kek kind"))
			ks = append(ks, pair{kk, kwp(rt, kk)})
		}
		var ws [][]byte
		var made, refused bool
		for n := hx.IntRange(1, 8).Draw(rt, "steps"); n > 0; n-- {
			p := hx.SampledFrom(ks).Draw(rt, "wrapper")
			switch op := hx.IntRange(0, 9).Draw(rt, "op"); {
			case len(ws) == 0 || op < 3:
				size := hx.Size(rt, 600, "size")
				if size < 16 {
					size += 16
				}
				d := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "data"), size, hx.IntRange(0, 5).Draw(rt, "kind"))
				ws = append(ws, wraps(rt, p.k, p.kek, d))
				c.Logf("wrap %s under %s", digest(d), digest(p.kek))
				made = true
			case op < 6:
				w, how := hx.MutateBytes(rt, hx.SampledFrom(ws).Draw(rt, "wrapping"), "change")
				ok := unwraps(rt, p.k, p.kek, w)
				c.Logf("unwrap of %s (%s) under %s: %v", digest(w), how, digest(p.kek), ok)
				refused = refused || !ok
			case op < 7: // another key or none of it
				w := hx.SampledFrom(ws).Draw(rt, "wrapping")
				ok := unwraps(rt, p.k, p.kek, w)
				c.Logf("unwrap of %s under %s: %v", digest(w), digest(p.kek), ok)
				refused = refused || !ok
			case op < 8: // blocks exchanged or spliced
				a, b := cloneBytes(hx.SampledFrom(ws).Draw(rt, "wrapping")), hx.SampledFrom(ws).Draw(rt, "wrapping")
				i, j := 8*hx.IntRange(0, len(a)/8-1).Draw(rt, "block"), 8*hx.IntRange(0, len(b)/8-1).Draw(rt, "block")
				if rapid.Bool().Draw(rt, "splice") {
					a = append(a[:i:i], b[j:]...)
				} else {
					copy(a[i:i+8], b[j:j+8])
				}
				ok := unwraps(rt, p.k, p.kek, a)
				c.Logf("unwrap of a splice %s: %v", digest(a), ok)
				refused = refused || !ok
			default:
				size := hx.IntRange(16, 80).Draw(rt, "size")
				d := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "data"), size, hx.IntRange(0, 5).Draw(rt, "kind"))
				pad := hx.Bytes(hx.Uint64Range(0, 1000).Draw(rt, "pad"), hx.IntRange(0, 8).Draw(rt, "pad length"), hx.SampledFrom([]int{0, 2}).Draw(rt, "pad kind"))
				mli := uint32(size + hx.IntRange(-9, 9).Draw(rt, "length field"))
				w := hx.RefWrapRaw(p.kek, 0xA65959A6, mli, d, pad)
				ok := unwraps(rt, p.k, p.kek, w)
				c.Logf("unwrap of %d bytes with length field %d and padding %x: %v", size, mli, pad, ok)
				refused = refused || !ok
			}
		}
		if made && refused {
			c.NonTrivial()
		}
	})
}
