package props

import (
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

const ruleHistory = "a history of drawn calls on one instance, each judged against the reference model (outcome, returned data, effect on stored records, passed-in buffers); "

func TestC01(t *testing.T) {
	hx.Check(t, "history", hx.Opt{Quick: 12000, Thorough: 500000,
		Rule: ruleHistory + "non-trivial: at least one object was updated and at least 5 calls succeeded"},
		func(rt *rapid.T, c *hx.Case) {
			kind := hx.SampledFrom([]string{"store", "store", "store", "wrapped", "mem", "proxy"}).Draw(rt, "kind")
			objectHistory(rt, c, kind, 30)
		})
	hx.Check(t, "bolt", hx.Opt{Quick: 400, Thorough: 12000,
		Rule: ruleHistory + "on the bolt provider, restarts reopen the file; non-trivial: at least one update and 5 successful calls"},
		func(rt *rapid.T, c *hx.Case) { objectHistory(rt, c, "bolt", 20) })
	hx.Check(t, "sizes", hx.Opt{Quick: 1600, Thorough: 40000,
		Rule: "one object with a plaintext and associated data of sizes around block, buffer and power-of-two boundaries up to 16 MB is stored, read by a new instance, updated and read; non-trivial: any size above 64 bytes"},
		func(rt *rapid.T, c *hx.Case) {
			max := 200000
			if hx.IntRange(0, 99).Draw(rt, "huge") == 0 {
				max = hx.Scale(1<<21, 17<<20)
				c.Label("huge")
			}
			w := newWorld(rt, c, hx.NewBox(hx.SampledFrom([]string{"store", "mem", "bolt"}).Draw(rt, "kind")), keysOf(1))
			w.buffers = true
			defer w.box.Close()
			w.toks, w.pool = []string{"t"}, []string{"u"}
			w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes}
			draw := func(l string) []byte {
				n := hx.Size(rt, max, l)
				if n > 64 {
					c.NonTrivial()
				}
				if n > 65536 {
					c.Label("> 64 KiB")
				}
				return hx.Bytes(hx.Uint64Range(0, 9).Draw(rt, l+"-seed"), n, hx.IntRange(0, 5).Draw(rt, l+"-kind"))
			}
			o := w.encrypt("t", draw("pt"), draw("ad"), nil)
			w.restart()
			w.decrypt("t", o)
			w.update("t", o, draw("pt2"), draw("ad2"))
			w.decrypt("t", o)
			w.decrypt("t", o)
		})
	hx.Enum(t, "all-small-sizes", "every plaintext size 0..300 with every associated data size 0..12 and the reverse, stored and read back", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			w := newWorld(t, nil, hx.NewBox("store"), keysOf(2))
			w.buffers = true
			w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes}
			one := func(p, a int) {
				do(fmt.Sprintf("sizes %d, %d", p, a), p+a > 0, func(tb testing.TB, c *hx.Case) {
					w.f, w.c = tb, c
					o := w.encrypt("t", hx.Bytes(uint64(p), p, 0), hx.Bytes(uint64(a), a, 1), nil)
					w.decrypt("t", o)
					w.remove("t", o)
					w.objs = nil
				})
			}
			for p := 0; p <= 300; p++ {
				for a := 0; a <= 12; a++ {
					one(p, a)
					if p > 12 {
						one(a, p)
					}
				}
			}
		})
	hx.EnumAll(t, "large", "plaintexts and associated data of exactly 2^k-1, 2^k, 2^k+1, 3*2^k, 10^k and other round numbers of bytes to 16 MiB (thorough: 128 MiB), stored, read by another instance, updated to the next size and read", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			top := hx.Scale(16<<20, 128<<20)
			var sizes []int
			for p := 1 << 12; p <= top; p *= 2 {
				sizes = append(sizes, p-1, p, p+1, p+16, p+p/2, p+p/2+1)
			}
			for p := 10000; p <= top; p *= 10 {
				for _, m := range []int{1, 2, 3, 5} {
					if m*p <= top {
						sizes = append(sizes, m*p, m*p+1)
					}
				}
			}
			for p := 3 << 20; p <= top; p += hx.Scale(1<<20, 5<<20) {
				sizes = append(sizes, p+1)
			}
			kinds := []string{"store", "store", "mem", "bolt"}
			for i, n := range sizes {
				for _, where := range []string{"plaintext", "associated data"} {
					if where == "associated data" && n > hx.Scale(4<<20, 32<<20) {
						continue
					}
					do(fmt.Sprintf("%d bytes of %s", n, where), true, func(tb testing.TB, c *hx.Case) {
						w := newWorld(tb, c, hx.NewBox(kinds[i%len(kinds)]), keysOf(31))
						defer w.box.Close()
						w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes}
						big, small := hx.Bytes(uint64(n), n, i%6), []byte("small")
						pt, ad := big, small
						if where != "plaintext" {
							pt, ad = small, big
						}
						o := w.encrypt("t", pt, ad, nil)
						w.restart()
						w.decrypt("t", o)
						w.update("t", o, ad, pt)
						w.decrypt("t", o)
					})
				}
			}
		})
	hx.EnumAll(t, "volume", "very many objects made, updated, read and deleted by one instance, all of them read at the end by it and by another one", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			n := hx.Scale(4000, 140000)
			for _, kind := range []string{"store", "mem"} {
				for _, mix := range []string{"new objects", "updates", "reads", "everything"} {
					do(fmt.Sprintf("%d times %s on %s", n, mix, kind), true, func(tb testing.TB, c *hx.Case) {
						box := hx.NewBox(kind)
						defer box.Close()
						idp := hx.NewIDP()
						idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes}
						w := newWorld(tb, c, box, keysOf(12))
						w.idp.Tokens["t"] = idp.Tokens["t"]
						type rec struct {
							oid    uuid.UUID
							pt, ad []byte
						}
						var os []rec
						read := func(o rec) {
							got, err := w.d.Decrypt(bg, "t", o.oid)
							if err != nil || !eq(got.Plaintext, o.pt) || !eq(got.AssociatedData, o.ad) {
								tb.Fatalf("after %d objects: object reads as %s %s, error %v, want %s %s", len(os), digest(got.Plaintext), digest(got.AssociatedData), err, digest(o.pt), digest(o.ad))
							}
						}
						content := func(i int) ([]byte, []byte) {
							return hx.Bytes(uint64(i), 8+i%50, 0), hx.Bytes(uint64(i), i%9, 0)
						}
						for i := 0; i < n; i++ {
							pt, ad := content(i)
							what := i % 4
							switch mix {
							case "new objects":
								what = 0
							case "updates":
								what = 1
							case "reads":
								what = 2
							}
							if len(os) == 0 {
								what = 0
							}
							j := int(uint64(i) * 7919 % uint64(max(1, len(os))))
							switch what {
							case 0:
								oid, err := w.d.Encrypt(bg, "t", &data.Object{Plaintext: cloneBytes(pt), AssociatedData: cloneBytes(ad)})
								if err != nil {
									tb.Fatalf("encrypt number %d: %v", i, err)
								}
								os = append(os, rec{oid, pt, ad})
							case 1:
								if err := w.d.Update(bg, "t", os[j].oid, &data.Object{Plaintext: cloneBytes(pt), AssociatedData: cloneBytes(ad)}); err != nil {
									tb.Fatalf("update number %d: %v", i, err)
								}
								os[j].pt, os[j].ad = pt, ad
							case 2:
								read(os[j])
							default:
								if err := w.d.Delete(bg, "t", os[j].oid); err != nil {
									tb.Fatalf("delete number %d: %v", i, err)
								}
								if _, err := w.d.Decrypt(bg, "t", os[j].oid); err == nil {
									tb.Fatalf("deleted object reads")
								}
								os[j] = os[len(os)-1]
								os = os[:len(os)-1]
							}
						}
						seen := map[uuid.UUID]bool{}
						for _, o := range os {
							if seen[o.oid] {
								tb.Fatalf("an identifier given out twice")
							}
							seen[o.oid] = true
							read(o)
						}
						if kind == "store" {
							w.restart()
							for i := 0; i < len(os); i += 3 {
								read(os[i])
							}
						}
					})
				}
			}
		})
	hx.Enum(t, "nested", "the object passed in is used again by the caller for the next call, shares memory with the previous result, or is the previous result itself", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, kind := range hx.Kinds {
				do("reuse on "+kind, true, func(tb testing.TB, c *hx.Case) {
					w := newWorld(tb, c, hx.NewBox(kind), keysOf(3))
					w.buffers = true
					defer w.box.Close()
					w.idp.Tokens["t"] = &id.Identity{ID: "u", Scopes: allScopes}
					buf := hx.Bytes(5, 500, 0)
					obj := data.Object{Plaintext: buf[:200], AssociatedData: buf[100:260]} // overlapping
					var os []*objM
					for i := 0; i < 20; i++ {
						want := objM{pt: cloneBytes(obj.Plaintext), ad: cloneBytes(obj.AssociatedData), acl: map[string]bool{"u": true}}
						oid, err := w.d.Encrypt(bg, "t", &obj)
						if err != nil {
							tb.Fatalf("encrypt: %v", err)
						}
						want.oid = oid
						os = append(os, &want)
						for _, o := range os {
							w.decrypt("t", o)
						}
						got, err := w.d.Decrypt(bg, "t", oid)
						if err != nil {
							tb.Fatalf("decrypt: %v", err)
						}
						switch i % 3 {
						case 0:
							obj = got
							obj.Plaintext[i] ^= 1
						case 1:
							obj.Plaintext = append(obj.Plaintext, got.AssociatedData[:i]...)
						case 2:
							obj.AssociatedData, obj.Plaintext = obj.Plaintext, obj.AssociatedData
							hx.Scribble(got.Plaintext)
						}
						if i%5 == 0 {
							if err := w.d.Update(bg, "t", oid, &obj); err != nil {
								tb.Fatalf("update: %v", err)
							}
							want.pt, want.ad = cloneBytes(obj.Plaintext), cloneBytes(obj.AssociatedData)
							hx.Scribble(obj.Plaintext)
						}
					}
				})
			}
		})
}

func objectHistory(rt *rapid.T, c *hx.Case, kind string, steps int) {
	w := newWorld(rt, c, hx.NewBox(kind), keysOf(hx.Uint64Range(0, 1000).Draw(rt, "keys")))
	w.buffers = true
	defer w.box.Close()
	c.Label("provider " + kind)
	w.maxSize = 5000
	w.setup(rt, 4, 3)
	n := hx.IntRange(5, steps).Draw(rt, "steps")
	for i := 0; i < n; i++ {
		w.step(rt, weights{encrypt: 5, update: 6, decrypt: 6, remove: 1, getacl: 1, add: 1, rem: 1, auth: 1, ident: 1, restart: 1, audit: 1})
	}
	w.audit()
	if w.wrote > 0 && w.ok >= 5 {
		c.NonTrivial()
	}
	c.Label(fmt.Sprintf("objects >= %d", len(w.objs)/4*4))
}
