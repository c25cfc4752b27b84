package props

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/anishathalye/porcupine"
	"github.com/cybercryptio/d1-lib/v2/io"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C19: concurrent calls on the providers behave as if executed one at a time.

type in19 struct {
	op  string
	key int
	val int
}

type out19 struct {
	val  int // value read; 0: not found
	fail bool
	bad  string // anything that is wrong by itself
}

var model19 = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(in19).key
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, x := range by {
			out = append(out, x)
		}
		return out
	},
	Init: func() interface{} { return 0 },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, i, o := state.(int), input.(in19), output.(out19)
		switch i.op {
		case "put":
			if o.fail {
				return s != 0, s
			}
			return s == 0, i.val
		case "update":
			if o.fail {
				return s == 0, s
			}
			return s != 0, i.val
		case "delete":
			return true, 0
		default:
			return o.val == s, s
		}
	},
	Equal: func(a, b interface{}) bool { return a.(int) == b.(int) },
	DescribeOperation: func(i, o interface{}) string {
		x, y := i.(in19), o.(out19)
		return fmt.Sprintf("%s(%d, %d) = %d fail %v", x.op, x.key, x.val, y.val, y.fail)
	},
}

// content19 is the content standing for value v.
func content19(v, size int) []byte { return hx.Bytes(uint64(v)*7919, 9+size+v%5, 0) }

func call19(p io.Provider, ids [][]byte, i in19, size int) (o out19) {
	id := cloneBytes(ids[i.key])
	switch i.op {
	case "put":
		err := p.Put(bg, id, 1, content19(i.val, size))
		if err != nil && !errors.Is(err, io.ErrAlreadyExists) {
			o.bad = err.Error()
		}
		o.fail = err != nil
	case "update":
		err := p.Update(bg, id, 1, content19(i.val, size))
		if err != nil && !errors.Is(err, io.ErrNotFound) {
			o.bad = err.Error()
		}
		o.fail = err != nil
	case "delete":
		if err := p.Delete(bg, id, 1); err != nil {
			o.bad = err.Error()
		}
	case "get":
		b, err := p.Get(bg, id, 1)
		switch {
		case errors.Is(err, io.ErrNotFound):
		case err != nil:
			o.bad = err.Error()
		default:
			o.val = -1
			b = cloneBytes(b)
			for v := 1; v < 400; v++ {
				if c := content19(v, size); len(c) == len(b) && eq(c, b) {
					o.val = v
				}
			}
			if o.val < 0 {
				o.bad = "content that was never written: " + digest(b)
			}
		}
	}
	return
}

// prepare19 memoises nothing but makes the plan of all goroutines up front.
func concurrent(rt *rapid.T, c *hx.Case, kind string) {
	b := newBox18(kind)
	defer b.in.Close()
	size := hx.SampledFrom([]int{0, 0, 40, 500}).Draw(rt, "size")
	keys := hx.IntRange(1, 2).Draw(rt, "keys")
	mix := hx.SampledFrom([][]string{
		{"put"}, {"put", "get"}, {"put", "delete"}, {"update", "delete", "get"}, {"put", "update", "delete"}, {"update", "delete"}, {"update", "get"},
		{"put", "update", "get", "delete"}, {"put", "update", "get", "delete"}}).Draw(rt, "mix")
	rounds := 8
	if kind == "bolt" {
		rounds = 2
	}
	val := 0
	for r := 0; r < rounds; r++ {
		ids := make([][]byte, keys)
		for k := range ids {
			ids[k] = []byte(fmt.Sprintf("round %d key %d", r, k))
		}
		n := hx.IntRange(2, 5).Draw(rt, "goroutines")
		plan := make([][]in19, n)
		var hist []porcupine.Operation
		clock := int64(0)
		step := func(i in19, client int) {
			t0 := atomic.AddInt64(&clock, 1)
			o := call19(b.p, ids, i, size)
			hist = append(hist, porcupine.Operation{ClientId: client, Input: i, Call: t0, Output: o, Return: atomic.AddInt64(&clock, 1)})
		}
		if val > 300 {
			val = 0
		}
		for k := range ids {
			if mix[0] == "update" || rapid.Bool().Draw(rt, "present") {
				val++
				step(in19{"put", k, val}, n)
			}
		}
		for g := range plan {
			for j := hx.IntRange(1, 3).Draw(rt, "calls"); j > 0; j-- {
				val++
				plan[g] = append(plan[g], in19{hx.SampledFrom(mix).Draw(rt, "op"), hx.IntRange(0, keys-1).Draw(rt, "key"), val})
			}
		}
		parts := make([][]porcupine.Operation, n)
		var ready atomic.Int32
		var wg sync.WaitGroup
		for g := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for int(ready.Load()) < n {
					runtime.Gosched()
				}
				for _, i := range plan[g] {
					t0 := atomic.AddInt64(&clock, 1)
					o := call19(b.p, ids, i, size)
					parts[g] = append(parts[g], porcupine.Operation{ClientId: g, Input: i, Call: t0, Output: o, Return: atomic.AddInt64(&clock, 1)})
				}
			}()
		}
		wg.Wait()
		overlap := false
		for g, p := range parts {
			for _, o := range p {
				for h := range parts {
					for _, q := range parts[h] {
						overlap = overlap || h != g && o.Call < q.Return && q.Call < o.Return && o.Input.(in19).key == q.Input.(in19).key
					}
				}
			}
			hist = append(hist, p...)
		}
		for k := range ids {
			step(in19{"get", k, 0}, n)
		}
		if overlap {
			c.NonTrivial()
			c.Label("overlapping rounds")
		}
		desc := ""
		for _, o := range hist {
			if bad := o.Output.(out19).bad; bad != "" {
				rt.Fatalf("%s: %s", model19.DescribeOperation(o.Input, o.Output), bad)
			}
			desc += fmt.Sprintf("  client %d: %s [%d-%d]\n", o.ClientId, model19.DescribeOperation(o.Input, o.Output), o.Call, o.Return)
		}
		if r == 0 {
			c.Logf("%d goroutines, %d keys, values of %d bytes, calls %v:\n%s", n, keys, size, mix, desc)
		}
		if !porcupine.CheckOperations(model19, hist) {
			rt.Fatalf("no order of these calls explains their results:\n%s", desc)
		}
	}
}

func TestC19(t *testing.T) {
	runtime.GOMAXPROCS(4)
	rule := "rounds of two to five goroutines making drawn calls on one or two records, started together, with scheduling points before every statement of the providers; the recorded history of each round must be linearisable (porcupine) against a map; non-trivial: calls on one record overlapped"
	for _, s := range []struct {
		kind  string
		q, th int
	}{{"mem", 4000, 200000}, {"proxy", 800, 40000}, {"bolt", 800, 40000}} {
		hx.Check(t, s.kind, hx.Opt{Quick: s.q, Thorough: s.th, Rule: s.kind + ": " + rule}, func(rt *rapid.T, c *hx.Case) { concurrent(rt, c, s.kind) })
	}
}
