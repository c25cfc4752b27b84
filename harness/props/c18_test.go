package props

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/io"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C18: the providers as exact maps.

// related are identifiers that a careless encoding of (identifier, type) would mix up.
func related(rt *rapid.T) [][]byte {
	base := hx.Bytes(hx.Uint64Range(0, 1<<16).Draw(rt, "base"), hx.SampledFrom([]int{0, 1, 2, 3, 15, 16, 17, 32, 36, 200}).Draw(rt, "base length"), hx.IntRange(0, 5).Draw(rt, "kind"))
	t := io.DataType(hx.SampledFrom(types18).Draw(rt, "suffix type"))
	out := [][]byte{base, append(cloneBytes(base), t.Bytes()...), append(t.Bytes(), base...), append(cloneBytes(base), 0), append([]byte{0}, base...),
		[]byte(fmt.Sprintf("%x", base)), []byte(fmt.Sprintf("%X", base)), []byte(fmt.Sprintf("%x:%d", base, uint16(t))), append(cloneBytes(base), byte(t)),
		append(cloneBytes(base), ':'), append(cloneBytes(base), []byte(fmt.Sprintf(":%d", uint16(t)))...), nil}
	if len(base) > 0 {
		out = append(out, base[:len(base)-1], base[1:], []byte(strings.ToUpper(string(base))), append(cloneBytes(base), base...))
		f := cloneBytes(base)
		f[len(f)-1] ^= 1
		out = append(out, f)
		g := cloneBytes(base)
		g[0] ^= 0x80
		out = append(out, g)
	}
	if hx.Chance(rt, 10, "long") {
		l := hx.Bytes(3, hx.SampledFrom([]int{255, 256, 4096, 32000}).Draw(rt, "long"), 0)
		m := cloneBytes(l)
		m[len(m)-1] ^= 1
		out = append(out, l, m)
	}
	return out
}

var types18 = []int{0, 1, 2, 3, 4, 5, 10, 48, 255, 256, 257, 0x3030, 0x7fff, 0x8000, 0xff00, 0xffff}

type box18 struct {
	kind string
	in   *hx.Box
	p    io.Provider
}

func newBox18(kind string) *box18 {
	b := &box18{kind: kind}
	switch kind {
	case "proxy on bolt":
		b.in = hx.NewBox("bolt")
	default:
		b.in = hx.NewBox(kind)
	}
	b.link()
	return b
}

func (b *box18) link() {
	b.p = b.in.P
	if b.kind == "proxy on bolt" {
		p := io.NewProxy(b.in.P)
		b.p = &p
	}
}

type held struct {
	what      string
	got, want []byte
}

func exactMap(rt *rapid.T, c *hx.Case, kind string, maxValue int) {
	b := newBox18(kind)
	defer b.in.Close()
	ids := related(rt)
	model := map[hx.Key][]byte{}
	var out []held
	value := func() []byte {
		n := hx.Size(rt, maxValue, "value length")
		v := hx.Bytes(hx.Uint64Range(0, 1<<20).Draw(rt, "value"), n, hx.IntRange(0, 5).Draw(rt, "value kind"))
		if n == 0 && rapid.Bool().Draw(rt, "nil") {
			return nil
		}
		return v
	}
	// a few records that most calls are about
	types := types18[:hx.SampledFrom([]int{2, 4, len(types18)}).Draw(rt, "types")]
	var hot []hx.Key
	for n := hx.IntRange(1, 5).Draw(rt, "hot records"); n > 0; n-- {
		hot = append(hot, hx.Key{ID: string(hx.SampledFrom(ids).Draw(rt, "hot id")), Type: io.DataType(hx.SampledFrom(types).Draw(rt, "hot type"))})
	}
	both := map[string]bool{}
	bulk := 0
	for n := hx.IntRange(4, 40).Draw(rt, "steps"); n > 0; n-- {
		k := hx.SampledFrom(hot).Draw(rt, "record")
		if hx.Chance(rt, 20, "elsewhere") {
			k = hx.Key{ID: string(hx.SampledFrom(ids).Draw(rt, "id")), Type: io.DataType(hx.SampledFrom(types).Draw(rt, "type"))}
		}
		rid, ty := []byte(k.ID), k.Type
		idBuf, idOK := hx.Spare(rid, hx.SampledFrom([]int{0, 1, 3, 40}).Draw(rt, "spare"))
		old, have := model[k]
		op := hx.SampledFrom([]string{"put", "put", "get", "get", "update", "delete", "all", "reopen", "bulk"}).Draw(rt, "op")
		what := fmt.Sprintf("%s %s/%d", op, hx.Short(string(rid)), ty)
		switch op {
		case "put", "update":
			v := value()
			data, dataOK := hx.Spare(v, hx.IntRange(0, 9).Draw(rt, "spare"))
			if v == nil {
				data = nil
			}
			want := cloneBytes(v)
			var err error
			if op == "put" {
				err = b.p.Put(bg, idBuf, ty, data)
			} else {
				err = b.p.Update(bg, idBuf, ty, data)
			}
			c.Logf("%s = %s -> %v", what, digest(v), short(err))
			bad := map[bool]error{true: io.ErrAlreadyExists, false: io.ErrNotFound}[op == "put"]
			if fails := have == (op == "put"); fails {
				if !errors.Is(err, bad) {
					rt.Fatalf("%s: error %v, want %v", what, err, bad)
				}
			} else {
				if err != nil {
					rt.Fatalf("%s fails: %v", what, err)
				}
				model[k] = want
				both[op] = true
			}
			if err := dataOK(); err != nil {
				rt.Fatalf("%s: data buffer passed in: %v", what, err)
			}
			hx.Scribble(data)
		case "get":
			got, err := b.p.Get(bg, idBuf, ty)
			c.Logf("%s -> %s %v", what, digest(got), short(err))
			if !have {
				if !errors.Is(err, io.ErrNotFound) {
					rt.Fatalf("%s: error %v, want not found", what, err)
				}
			} else if err != nil || !eq(got, old) {
				rt.Fatalf("%s: %s, %v; want %s", what, digest(got), err, digest(old))
			} else {
				out = append(out, held{what, got, cloneBytes(got)})
			}
			if err != nil && len(got) > 0 {
				rt.Fatalf("%s fails but returns data", what)
			}
		case "delete":
			err := b.p.Delete(bg, idBuf, ty)
			c.Logf("%s -> %v", what, short(err))
			if err != nil {
				rt.Fatalf("%s fails: %v", what, err)
			}
			delete(model, k)
			both["delete"] = both["delete"] || have
		case "reopen":
			c.Logf("reopen")
			b.in.Restart()
			b.link()
		case "bulk": // many records, so that the file's structure changes
			if bulk > 300 || !hx.Chance(rt, 3, "really") {
				continue
			}
			for i := 0; i < 60; i++ {
				bulk++
				bk := hx.Key{ID: fmt.Sprintf("bulk %d", bulk), Type: ty}
				v := hx.Bytes(uint64(bulk), bulk%97, 0)
				if err := b.p.Put(bg, []byte(bk.ID), ty, v); err != nil {
					rt.Fatalf("put of %q fails: %v", bk.ID, err)
				}
				model[bk] = v
			}
			c.Logf("bulk")
		}
		if err := idOK(); err != nil {
			rt.Fatalf("%s: identifier buffer passed in: %v", what, err)
		}
		hx.Scribble(idBuf)
		for _, h := range out {
			if !eq(h.got, h.want) {
				rt.Fatalf("what %s returned was changed by %s", h.what, what)
			}
		}
		if op == "all" || op == "reopen" || n == 1 {
			for k, v := range model {
				got, err := b.p.Get(bg, []byte(k.ID), k.Type)
				if err != nil || !eq(got, v) {
					rt.Fatalf("after %s: record %s/%d is %s, %v; want %s", what, hx.Short(k.ID), k.Type, digest(got), err, digest(v))
				}
				hx.Scribble(got)
			}
			for _, i := range ids {
				for _, ty := range types18 {
					if _, have := model[hx.Key{ID: string(i), Type: io.DataType(ty)}]; have {
						continue
					}
					if got, err := b.p.Get(bg, i, io.DataType(ty)); !errors.Is(err, io.ErrNotFound) {
						rt.Fatalf("after %s: record %s/%d was never written but is %s, %v", what, hx.Short(string(i)), ty, digest(got), err)
					}
				}
			}
		}
	}
	if both["put"] && both["update"] && both["delete"] {
		c.NonTrivial()
	}
}

func TestC18(t *testing.T) {
	rule := "sequences of calls with related identifiers (prefixes, hex forms, identifiers ending in type bytes), any data types, values including empty and nil ones, buffers with canaries behind them that are overwritten after the call, returned buffers watched and overwritten; non-trivial: at least one put, update and delete took effect"
	for _, s := range []struct {
		kind         string
		q, th, value int
	}{{"mem", 12000, 800000, 3000}, {"proxy", 5000, 300000, 3000}, {"bolt", 1600, 100000, 20000}, {"proxy on bolt", 480, 30000, 2000}} {
		hx.Check(t, s.kind, hx.Opt{Quick: s.q, Thorough: s.th, Rule: s.kind + ": " + rule}, func(rt *rapid.T, c *hx.Case) { exactMap(rt, c, s.kind, s.value) })
	}
}
