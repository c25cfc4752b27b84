package props

import (
	"fmt"
	"hash"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C24: KMAC against an independent Keccak and SP 800-185 encoding.

func newKMAC(rate int, key []byte, size int, custom []byte) hash.Hash {
	if rate == 168 {
		return crypto.NewKMAC128(key, size, custom)
	}
	return crypto.NewKMAC256(key, size, custom)
}

// badCustom: lengths of the customization string for which golang.org/x/crypto's cSHAKE itself is
// wrong (known finding).
func badCustom(rate, n int) bool { return hx.CShakeAligned(rate, n) }

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// oneShot checks the sum of msg, written in one piece or as cut by cuts.
func oneShot(f fat, rate int, key []byte, size int, custom, msg []byte, cuts []int) {
	f.Helper()
	want := hx.RefKMAC(rate, key, msg, size, custom)
	k := newKMAC(rate, key, size, custom)
	write := func() {
		rest := msg
		for _, n := range cuts {
			n %= len(rest) + 1
			if m, err := k.Write(rest[:n]); m != n || err != nil {
				f.Fatalf("Write: %d, %v", m, err)
			}
			rest = rest[n:]
		}
		if m, err := k.Write(rest); m != len(rest) || err != nil {
			f.Fatalf("Write: %d, %v", m, err)
		}
	}
	write()
	what := fmt.Sprintf("KMAC%d: key of %d, message of %d in %d pieces, output of %d, customization of %d bytes", map[int]int{168: 128, 136: 256}[rate], len(key), len(msg), len(cuts)+1, size, len(custom))
	if got := k.Sum(nil); !eq(got, want) {
		f.Fatalf("%s: %s, SP 800-185 gives %s", what, digest(got), digest(want))
	}
	if got := k.Sum(nil); !eq(got, want) {
		f.Fatalf("%s: second sum differs", what)
	}
	k.Reset()
	write()
	if got := k.Sum([]byte("prefix")); !eq(got, append([]byte("prefix"), want...)) {
		f.Fatalf("%s: sum after reset differs", what)
	}
	if k.Size() != size {
		f.Fatalf("%s: Size is %d", what, k.Size())
	}
}

// taggable draws a value to tag, and its JSON.
func taggable(rt *rapid.T) (v any, js []byte, what string) {
	switch hx.IntRange(0, 5).Draw(rt, "type") {
	case 0:
		s := hx.Name(rt, "string")
		return s, jsonOf(s), "string"
	case 1:
		b := hx.Bytes(hx.Uint64Range(0, 1<<30).Draw(rt, "bytes"), hx.Size(rt, 600, "length"), hx.IntRange(0, 5).Draw(rt, "kind"))
		return b, jsonOf(b), "bytes"
	case 2:
		n := hx.Uint64Range(0, 1<<62).Draw(rt, "n")
		return n, jsonOf(n), "uint64"
	case 3:
		type rec struct {
			A string
			B []byte
			C uint64 `json:"c,omitempty"`
		}
		r := rec{hx.Name(rt, "A"), hx.Bytes(7, hx.Size(rt, 100, "B"), 0), hx.Uint64Range(0, 2).Draw(rt, "C")}
		return r, jsonOf(r), "struct"
	case 4:
		m := map[string]string{}
		for i := hx.IntRange(0, 6).Draw(rt, "entries"); i > 0; i-- {
			m[hx.Name(rt, "key")] = hx.Name(rt, "value")
		}
		return m, jsonOf(m), "map"
	default:
		l := hx.Names(rt, hx.IntRange(0, 5).Draw(rt, "n"), "list")
		return l, jsonOf(l), "list"
	}
}

func TestC24(t *testing.T) {
	rates := []int{168, 136}
	min := map[int]int{168: 16, 136: 32}
	hx.EnumAll(t, "every length", "every key length to 700, message length to 700, output length from 8 to 700 and customization length to 600 (one at a time, both KMACs), compared with an independent implementation", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for _, r := range rates {
			key, custom, msg := hx.Bytes(1, 32, 0), hx.Bytes(2, 11, 0), hx.Bytes(3, 77, 0)
			for n := 0; n <= 700; n++ {
				do(fmt.Sprintf("rate %d, lengths %d", r, n), true, func(f testing.TB, c *hx.Case) {
					k := hx.Bytes(uint64(n), n, n%6)
					if n < min[r] {
						if !panics(func() { newKMAC(r, k, 32, custom) }) {
							f.Fatalf("rate %d: a key of %d bytes is accepted", r, n)
						}
					} else {
						oneShot(f, r, k, 32, custom, msg, nil)
					}
					oneShot(f, r, key, 32, custom, k, []int{n / 3})
					if n < 8 {
						if !panics(func() { newKMAC(r, key, n, custom) }) {
							f.Fatalf("rate %d: an output length of %d is accepted", r, n)
						}
					} else {
						oneShot(f, r, key, n, custom, msg, nil)
					}
					if n <= 600 && !badCustom(r, n) {
						oneShot(f, r, key, 32, k, msg, nil)
					}
				})
			}
		}
	})
	hx.Enum(t, "long", "keys, messages, customization strings and outputs of 8 KiB (length fields of three bytes) and around 2^16 bits", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for _, r := range rates {
			for _, n := range []int{8190, 8191, 8192, 8193, 9000, 65536, 70001} {
				if badCustom(r, n) {
					continue
				}
				do(fmt.Sprintf("rate %d, %d", r, n), true, func(f testing.TB, c *hx.Case) {
					b, key := hx.Bytes(uint64(n), n, 0), hx.Bytes(1, 40, 0)
					oneShot(f, r, b, 64, nil, []byte("m"), nil)
					oneShot(f, r, key, 64, b, []byte("m"), nil)
					oneShot(f, r, key, 64, nil, b, []int{100, 1000})
					oneShot(f, r, key, n, nil, []byte("m"), nil)
				})
			}
		}
	})
	hx.Check(t, "sessions", hx.Opt{Quick: 24000, Thorough: 2400000, Rule: "drawn key, customization and output lengths (boundaries of the encodings and of the rate included) and drawn sequences of write, sum and reset, each sum compared with the independent result for what was written since the last reset; key and customization buffers overwritten meanwhile; non-trivial: two sums of different messages"}, func(rt *rapid.T, c *hx.Case) {
		r := hx.SampledFrom(rates).Draw(rt, "rate")
		kn := min[r] + hx.Size(rt, 500, "key length")
		if hx.Chance(rt, 15, "aligned key") {
			for kn = min[r]; !hx.KeyAligned(r, kn); kn++ {
			}
		}
		cn := hx.Size(rt, 500, "customization length")
		for badCustom(r, cn) {
			cn++
		}
		size := 8 + hx.Size(rt, 300, "output length")
		key, custom := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "key"), kn, hx.IntRange(0, 5).Draw(rt, "kind")), hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "custom"), cn, hx.IntRange(0, 5).Draw(rt, "kind"))
		kb, kok := hx.Spare(key, 5)
		cb, cok := hx.Spare(custom, 5)
		k := newKMAC(r, kb, size, cb)
		if err := kok(); err != nil {
			rt.Fatalf("key: %v", err)
		}
		if err := cok(); err != nil {
			rt.Fatalf("customization string: %v", err)
		}
		if rapid.Bool().Draw(rt, "scribble") {
			hx.Scribble(kb)
			hx.Scribble(cb)
		}
		c.Logf("rate %d, key %s, customization %s, output of %d", r, digest(key), digest(custom), size)
		var msg []byte
		sums := map[string]bool{}
		for n := hx.IntRange(2, 10).Draw(rt, "steps"); n > 0; n-- {
			switch op := hx.IntRange(0, 9).Draw(rt, "op"); {
			case op < 5:
				p := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "data"), hx.Size(rt, 700, "length"), hx.IntRange(0, 5).Draw(rt, "kind"))
				if m, err := k.Write(p); m != len(p) || err != nil {
					rt.Fatalf("Write: %d, %v", m, err)
				}
				msg = append(msg, p...)
				hx.Scribble(p)
				c.Logf("write %d", len(p))
			case op < 9:
				pre, ok := hx.Spare([]byte("pre"), hx.SampledFrom([]int{0, 1, 1000}).Draw(rt, "spare"))
				_ = ok
				got := k.Sum(pre)
				want := append([]byte("pre"), hx.RefKMAC(r, key, msg, size, custom)...)
				c.Logf("sum of %s", digest(msg))
				if !eq(got, want) {
					rt.Fatalf("sum of %d bytes is %s, SP 800-185 gives %s", len(msg), digest(got), digest(want))
				}
				hx.Scribble(got)
				sums[string(msg)] = true
			default:
				k.Reset()
				msg = nil
				c.Logf("reset")
			}
		}
		if len(sums) > 1 {
			c.NonTrivial()
		}
	})
	hx.Check(t, "key derivation", hx.Opt{Quick: 16000, Thorough: 1600000, Rule: "KMACKDF with drawn sizes, keys, labels and context pieces; non-trivial: at least two pieces"}, func(rt *rapid.T, c *hx.Case) {
		size, kn, ln := 8+hx.Size(rt, 200, "size"), 32+hx.Size(rt, 300, "key length"), hx.Size(rt, 300, "label length")
		for badCustom(136, ln) {
			ln++
		}
		key, label := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "key"), kn, 0), hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "label"), ln, hx.IntRange(0, 5).Draw(rt, "kind"))
		var ctx [][]byte
		var all []byte
		for n := hx.IntRange(0, 5).Draw(rt, "pieces"); n > 0; n-- {
			ctx = append(ctx, hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "piece"), hx.Size(rt, 300, "length"), 0))
			all = append(all, ctx[len(ctx)-1]...)
		}
		c.Logf("size %d, key %s, label %s, context of %d pieces %s", size, digest(key), digest(label), len(ctx), digest(all))
		kb, ok := hx.Spare(key, 3)
		got := crypto.KMACKDF(size, kb, label, ctx...)
		if err := ok(); err != nil {
			rt.Fatalf("key: %v", err)
		}
		if want := hx.RefKMAC(136, key, all, size, label); !eq(got, want) {
			rt.Fatalf("derived key is %s, KMAC256 gives %s", digest(got), digest(want))
		}
		if len(ctx) > 1 {
			c.NonTrivial()
		}
	})
	hx.Check(t, "tagger", hx.Opt{Quick: 16000, Thorough: 1600000, Rule: "tags of drawn values (strings, bytes, numbers, structs, maps, lists) compared with KMAC256 of their JSON; repeated, with another key and of another value; non-trivial: all three"}, func(rt *rapid.T, c *hx.Case) {
		key := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "key"), 32, 0)
		tg, err := crypto.NewKMAC256Tagger(cloneBytes(key))
		if err != nil {
			rt.Fatalf("NewKMAC256Tagger: %v", err)
		}
		v, js, what := taggable(rt)
		w, js2, _ := taggable(rt)
		if badCustom(136, len(js)) || badCustom(136, len(js2)) {
			return
		}
		c.Logf("%s %s", what, digest(js))
		tag := func(v any) []byte {
			b, err := tg.Tag(v)
			if err != nil {
				rt.Fatalf("Tag: %v", err)
			}
			return b
		}
		got := tag(v)
		if want := hx.RefKMAC(136, key, nil, 32, js); !eq(got, want) {
			rt.Fatalf("tag of %s is %s, KMAC256 gives %s", js, digest(got), digest(want))
		}
		other := tag(w)
		if eq(other, got) != eq(js, js2) {
			rt.Fatalf("tags of %s and %s: equal %v", js, js2, eq(other, got))
		}
		for i := 0; i < 3; i++ {
			if !eq(tag(v), got) {
				rt.Fatalf("the tag of %s changes", js)
			}
		}
		k2 := cloneBytes(key)
		k2[hx.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << hx.IntRange(0, 7).Draw(rt, "bit")
		tg2, err := crypto.NewKMAC256Tagger(k2)
		if err != nil {
			rt.Fatalf("NewKMAC256Tagger: %v", err)
		}
		if b, err := tg2.Tag(v); err != nil || eq(b, got) {
			rt.Fatalf("tag under another key: equal, or %v", err)
		}
		if !eq(js, js2) {
			c.NonTrivial()
		}
	})
	hx.Enum(t, "tagger keys", "every key length from 0 to 100", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for n := 0; n <= 100; n++ {
			do(fmt.Sprintf("key of %d", n), true, func(f testing.TB, c *hx.Case) {
				if _, err := crypto.NewKMAC256Tagger(make([]byte, n)); (err == nil) != (n == 32) {
					f.Fatalf("a tagger key of %d bytes: %v", n, err)
				}
			})
		}
	})
	hx.Enum(t, "known finding", "the lengths of customization string for which the dependency's cSHAKE is known to be wrong", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		do("customization strings of 157 (KMAC128) and 125 bytes (KMAC256)", true, func(f testing.TB, c *hx.Case) {
			for _, r := range rates {
				for n := 100; n < 200; n++ {
					if !badCustom(r, n) {
						continue
					}
					key, custom := hx.Bytes(1, 32, 0), hx.Bytes(2, n, 0)
					if got := newKMAC(r, key, 32, custom).Sum(nil); !eq(got, hx.RefKMAC(r, key, nil, 32, custom)) {
						hx.Known("C24", fmt.Sprintf("id=cshake-%d-%d KMAC with rate %d and a customization string of %d bytes differs from SP 800-185 (cSHAKE of golang.org/x/crypto adds a surplus block)", r, n, r, n))
					}
				}
			}
		})
	})
}
