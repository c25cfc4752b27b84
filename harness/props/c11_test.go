package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/io"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

var nodeTypes = []io.DataType{io.DataTypeSealedNode}

func TestC11(t *testing.T) {
	hx.Check(t, "history", hx.Opt{Quick: 12000, Thorough: 600000,
		Rule: "a history of additions and deletions for a few keywords, then rounds of tampering with the stored entries (bytes, fields, moves between positions and keywords, replays, entries made with other keys), each followed by searches, additions and deletions; non-trivial: some search succeeds on tampered storage or is predicted to fail because an entry stands where it never belonged"},
		func(rt *rapid.T, c *hx.Case) { tamperIndex(rt, c) })
	hx.Check(t, "unseal", hx.Opt{Quick: 12000, Thorough: 600000,
		Rule: "one sealed node, changed, or unsealed at another label or under another key; non-trivial: all"},
		func(rt *rapid.T, c *hx.Case) {
			c.NonTrivial()
			cr, err := crypto.NewAESCryptor(keyOf(hx.Uint64Range(0, 9).Draw(rt, "key"), "k"))
			if err != nil {
				rt.Fatalf("%v", err)
			}
			cr2, _ := crypto.NewAESCryptor(keyOf(100, "k"))
			label := hx.Bytes(hx.Uint64Range(0, 99).Draw(rt, "label"), 32, 0)
			n := data.Node{Identifier: hx.Name(rt, "id"), NextCounter: hx.Uint64Range(0, 1<<62).Draw(rt, "next")}
			s, err := n.Seal(label, &cr)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			if got, err := s.Unseal(label, &cr); err != nil || got != n {
				rt.Fatalf("node %v unseals as %v: %v", n, got, err)
			}
			n2 := data.Node{Identifier: "other", NextCounter: n.NextCounter + 1}
			s2, _ := n2.Seal(label, &cr)
			var how string
			var use crypto.CryptorInterface = &cr
			switch hx.IntRange(0, 5).Draw(rt, "field") {
			case 0:
				s.Ciphertext, how = hx.MutateBytes(rt, s.Ciphertext, "ct")
			case 1:
				s.WrappedKey, how = hx.MutateBytes(rt, s.WrappedKey, "wk")
			case 2:
				label, how = hx.MutateBytes(rt, label, "label")
			case 3:
				s.Ciphertext, how = s2.Ciphertext, "ciphertext of another node"
			case 4:
				s.WrappedKey, how = s2.WrappedKey, "key of another node"
			default:
				use, how = &cr2, "another key"
			}
			c.Logf("node %s %d: %s", hx.Short(n.Identifier), n.NextCounter, how)
			if got, err := s.Unseal(label, use); err == nil {
				rt.Fatalf("changed node (%s) unseals to %v", how, got)
			}
		})
	hx.EnumAll(t, "forged", "entries that need no key to be made (in the clear, under keys stored next to them or derivable from the label), at every position of a list and as a new list, followed by searches, additions and deletions", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			w := newIndex(t, &hx.Case{}, hx.NewBox("store"), keysOf(11))
			for i := 0; i < 3; i++ {
				w.add("t", "k", fmt.Sprint("k", i))
			}
			sn := w.box.St.Snapshot()
			rnd := hx.NewRnd(71)
			for _, kw := range []string{"k", "new"} {
				lk, _ := hx.IndexKeys(w.keys.IEK, kw)
				for pos := uint64(0); pos < 4; pos++ {
					if kw == "new" && pos > 0 {
						continue
					}
					label := hx.IndexLabel(lk, pos)
					k := hx.Key{ID: string(label), Type: io.DataTypeSealedNode}
					for _, next := range []uint64{pos + 1, 0, 100} {
						v := hx.NodeVal{Identifier: "forged", NextCounter: next}
						recs := map[string][]byte{"plain": hx.Raw(v)}
						for _, f := range hx.Forgeries(rnd, v, label) {
							recs[f.How] = hx.Raw(hx.NodeRec{Ciphertext: f.CT, WrappedKey: f.Wrapped})
							recs["without wrapped key: "+f.How] = hx.Raw(map[string]any{"Ciphertext": f.CT})
						}
						for _, how := range sortedKeys(recs) {
							do(fmt.Sprintf("%s at %d, next %d: %s", kw, pos, next, how), true, func(tb testing.TB, c *hx.Case) {
								w.box.St.Restore(sn)
								w.box.St.Set(k, recs[how])
								before := w.box.St.Snapshot()
								w.box.St.Begin(100)
								got, err := w.x.Search(bg, "t", kw)
								if err == nil {
									tb.Fatalf("search succeeds with %q", got)
								}
								if len(got) > 0 {
									tb.Fatalf("failed search returns %q", got)
								}
								for _, ident := range []string{"forged", "k0", "k1", "k2", "new"} {
									w.box.St.Restore(before)
									w.box.St.Begin(100)
									errA := w.x.Add(bg, "t", kw, ident)
									w.box.St.Begin(100)
									got, err := w.x.Search(bg, "t", kw)
									if err == nil {
										for _, g := range got {
											if g == "forged" && ident != "forged" {
												tb.Fatalf("after adding %s (%v) the search gives %q", ident, errA, got)
											}
										}
									}
									w.box.St.Restore(before)
									w.box.St.Begin(100)
									errD := w.x.Delete(bg, "t", kw, ident)
									w.box.St.Begin(100)
									got, err = w.x.Search(bg, "t", kw)
									if err == nil && errD == nil && len(got) > 0 {
										for _, g := range got {
											if g == "forged" {
												tb.Fatalf("after deleting %s the search gives %q", ident, got)
											}
										}
									}
								}
							})
						}
					}
				}
			}
		})
	hx.Enum(t, "positions", "every stored entry of two keywords moved to every position of both; every bit of one entry flipped", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			w := newIndex(t, &hx.Case{}, hx.NewBox("store"), keysOf(11))
			for i := 0; i < 4; i++ {
				w.add("t", "k", fmt.Sprint("k", i))
				w.add("t", "l", fmt.Sprint("l", i))
			}
			sn := w.box.St.Snapshot()
			key := func(kw string, n int) hx.Key {
				lk, _ := hx.IndexKeys(w.keys.IEK, kw)
				return hx.Key{ID: string(hx.IndexLabel(lk, uint64(n))), Type: io.DataTypeSealedNode}
			}
			for _, kw := range []string{"k", "l"} {
				for n := 0; n < 4; n++ {
					for _, kw2 := range []string{"k", "l"} {
						for m := 0; m < 4; m++ {
							if kw == kw2 && m == n {
								continue
							}
							do(fmt.Sprintf("%s%d moved to %s%d", kw, n, kw2, m), true, func(tb testing.TB, c *hx.Case) {
								w.box.St.Restore(sn)
								w.box.St.Set(key(kw2, m), sn[key(kw, n)])
								got, err := w.x.Search(bg, "t", kw2)
								if err == nil {
									tb.Fatalf("search succeeds with %q", got)
								}
							})
						}
					}
				}
			}
			k := key("k", 1)
			for i := 0; i < 8*len(sn[k]); i++ {
				do(fmt.Sprintf("bit %d", i), true, func(tb testing.TB, c *hx.Case) {
					w.box.St.Restore(sn)
					b := cloneBytes(sn[k])
					b[i/8] ^= 1 << (i % 8)
					w.box.St.Set(k, b)
					w.box.St.Begin(100)
					got, err := w.x.Search(bg, "t", "k")
					if err == nil {
						w.same("search", "k", got)
					}
				})
			}
		})
}

func tamperIndex(rt *rapid.T, c *hx.Case) {
	w := newIndex(rt, c, hx.NewBox("store"), keysOf(11))
	st := w.box.St
	adv := hx.NewTamper(st)
	w.kws = hx.Names(rt, hx.IntRange(2, 3).Draw(rt, "nkw"), "kw")
	all := map[string]map[string]bool{} // ever added
	own := map[string][]string{}        // identifiers used with a keyword only
	for i, kw := range w.kws {
		all[kw] = map[string]bool{}
		own[kw] = []string{fmt.Sprintf("id-%d-0", i), fmt.Sprintf("id-%d-1", i), fmt.Sprintf("id-%d-2", i)}
	}
	change := func(strict bool) {
		kw := hx.SampledFrom(w.kws).Draw(rt, "kw")
		ident := hx.SampledFrom(own[kw]).Draw(rt, "id")
		add := hx.IntRange(0, 2).Draw(rt, "op") > 0
		if add {
			all[kw][ident] = true
		}
		if strict {
			if add {
				w.add("t", kw, ident)
			} else {
				w.del("t", kw, ident)
			}
		} else {
			st.Begin(2000)
			var err error
			if add {
				err = w.x.Add(bg, "t", kw, ident)
			} else {
				err = w.x.Delete(bg, "t", kw, ident)
			}
			c.Logf("add=%v %s %s: %v", add, hx.Short(kw), ident, short(err))
		}
		adv.Observe()
	}
	for n := hx.IntRange(3, 18).Draw(rt, "steps"); n > 0; n-- {
		change(true)
	}
	labels := map[string][]byte{}
	for _, kw := range w.kws {
		labels[kw], _ = hx.IndexKeys(w.keys.IEK, kw)
	}
	rnd := hx.NewRnd(1)
	for _, kw := range w.kws {
		for i := uint64(0); i < 3; i++ {
			for _, f := range hx.Forgeries(rnd, hx.NodeVal{Identifier: "forged", NextCounter: i + 1}, hx.IndexLabel(labels[kw], i)) {
				adv.Foreign[io.DataTypeSealedNode] = append(adv.Foreign[io.DataTypeSealedNode], hx.Raw(hx.NodeRec{Ciphertext: f.CT, WrappedKey: f.Wrapped}))
			}
			_, rec := hx.EncodeNode(rnd, keyOf(777, "iek"), kw, "forged", i, i+1)
			adv.Foreign[io.DataTypeSealedNode] = append(adv.Foreign[io.DataTypeSealedNode], rec)
		}
	}
	origin := map[string]hx.Key{} // record bytes -> where it was stored by the library
	learn := func() {
		for k, vs := range adv.Seen {
			for _, v := range vs {
				if _, ok := origin[string(v)]; !ok {
					origin[string(v)] = k
				}
			}
		}
	}
	learn()
	for round := hx.IntRange(1, 4).Draw(rt, "rounds"); round > 0; round-- {
		for k := hx.IntRange(1, 3).Draw(rt, "mods"); k > 0; k-- {
			c.Logf("adversary: %s", adv.Act(rt, nodeTypes))
		}
		for _, kw := range w.kws {
			mustFail := false
			var want []string
			exact := true
			for at, steps := uint64(0), 0; ; steps++ {
				if steps > 500 {
					exact = false
					break
				}
				k := hx.Key{ID: string(hx.IndexLabel(labels[kw], at)), Type: io.DataTypeSealedNode}
				rec, ok := st.Peek(k)
				if !ok {
					break
				}
				o, known := origin[string(rec)]
				if known && o != k {
					mustFail = true
					break
				}
				if !known {
					exact = false
					break
				}
				v, err := hx.DecodeNode(w.keys.IEK, kw, at, rec)
				if err != nil {
					exact = false
					break
				}
				want = append(want, v.Identifier)
				at = v.NextCounter
			}
			st.Begin(2000)
			got, err := w.x.Search(bg, "t", kw)
			c.Logf("search %s: %v %v", hx.Short(kw), short(err), got)
			if err != nil {
				c.Label("search fails")
				if len(got) > 0 {
					rt.Fatalf("failed search returns %q", got)
				}
				if !mustFail && exact {
					rt.Fatalf("search of %q fails (%v) though all it needs is in place", kw, err)
				}
				if mustFail {
					c.NonTrivial()
				}
				continue
			}
			c.Label("search succeeds")
			c.NonTrivial()
			for _, i := range got {
				if !all[kw][i] {
					rt.Fatalf("search of %q returns %q, never added for it", kw, i)
				}
			}
			if mustFail {
				rt.Fatalf("search of %q accepts an entry that was created for another place: %q", kw, got)
			}
			if exact && fmt.Sprint(count(got)) != fmt.Sprint(count(want)) {
				rt.Fatalf("search of %q returns %q, stored are %q", kw, got, want)
			}
		}
		if rapid.Bool().Draw(rt, "then") {
			// adversary's current state is not something the library stored: only new writes count
			before := st.Snapshot()
			kwsLog := len(w.kws)
			_ = kwsLog
			kw := hx.SampledFrom(w.kws).Draw(rt, "kw")
			ident := hx.SampledFrom(own[kw]).Draw(rt, "id")
			add := rapid.Bool().Draw(rt, "add")
			st.Begin(2000)
			var err error
			if add {
				all[kw][ident] = true
				err = w.x.Add(bg, "t", kw, ident)
			} else {
				err = w.x.Delete(bg, "t", kw, ident)
			}
			c.Logf("add=%v %s %s: %v", add, hx.Short(kw), ident, short(err))
			after := st.Snapshot()
			for _, k := range before.Diff(after) {
				if v, ok := after[k]; ok && !bytes.Equal(v, before[k]) {
					adv.Seen[k] = append(adv.Seen[k], v)
					origin[string(v)] = k
				}
			}
		}
	}
}
