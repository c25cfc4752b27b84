//go:build boltrec

package props

import (
	"errors"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/io"
	bolt "go.etcd.io/bbolt"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C20: the bolt file at every crash point. The database is built with its file writes and syncs
// reported (tools/bolt_rec.py); crash images are what was synced plus a subset of the rest.

type event20 struct {
	kind string
	off  int64
	data []byte
}

type disk20 struct {
	mu     sync.Mutex
	path   string
	events []event20
	fail   int // number of events until one fails; < 0: none
	failed bool
}

var errDisk20 = errors.New("disk failure")

func (d *disk20) event(path, kind string, off int64, data []byte) error {
	if path != d.path {
		return nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.fail >= 0 && !d.failed {
		if d.fail == 0 {
			d.failed = true
			return errDisk20
		}
		d.fail--
	}
	d.events = append(d.events, event20{kind, off, cloneBytes(data)})
	return nil
}

func (d *disk20) now() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.events)
}

func apply20(img []byte, e event20) []byte {
	switch e.kind {
	case "write":
		if need := int(e.off) + len(e.data); len(img) < need {
			img = append(img, make([]byte, need-len(img))...)
		}
		copy(img[e.off:], e.data)
	case "truncate":
		if int(e.off) <= len(img) {
			img = img[:e.off]
		} else {
			img = append(img, make([]byte, int(e.off)-len(img))...)
		}
	}
	return img
}

// done20 is one call: it takes place after the event start-1 and has returned before event end.
type done20 struct {
	key        hx.Key
	op         string
	val        []byte
	start, end int
	err        error
}

// open20 opens a bolt file, turning crashes of the memory map into errors.
func try20(f func() error) (err error) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

type hist20 struct {
	calls []done20 // those of one key in the order they were made
	keys  []hx.Key
}

// states returns the contents the record may have when the crash comes before event i, nil meaning none.
func (h *hist20) states(k hx.Key, i int) (out [][]byte, desc string) {
	var cur []byte
	out = [][]byte{nil}
	for _, c := range h.calls {
		if c.key != k {
			continue
		}
		next := cur
		switch {
		case c.op == "delete":
			next = nil
		case c.op == "put" && cur == nil, c.op == "update" && cur != nil:
			next = append([]byte{}, c.val...)
		}
		switch {
		case c.start >= i && c.end > i: // not begun
			return
		case c.end <= i && c.err == nil: // acknowledged
			out = [][]byte{next}
			cur = next
			desc = fmt.Sprintf("last acknowledged call: %s = %s", c.op, digest(c.val))
		case c.end <= i && (errors.Is(c.err, io.ErrAlreadyExists) || errors.Is(c.err, io.ErrNotFound)):
		default: // interrupted or failed
			out = append(out, next)
			if c.end <= i {
				// failed: what it did shows in the file itself; nothing further is called on this record
				return
			}
			desc += fmt.Sprintf("; interrupted: %s = %s", c.op, digest(c.val))
			return
		}
	}
	return
}

// check opens an image and compares it with what may be in it.
func (h *hist20) check(img []byte, i int, deep bool) error {
	path := hx.TempFile()
	if err := os.WriteFile(path, img, 0o600); err != nil {
		hx.Bug("writing image: %v", err)
	}
	defer os.Remove(path)
	return try20(func() error {
		b, err := io.NewBolt(path)
		if err != nil {
			return fmt.Errorf("the file does not open: %v", err)
		}
		defer func() {
			if db := hx.BoltDB(&b); db != nil {
				db.Close()
			}
		}()
		now := map[hx.Key][]byte{}
		for _, k := range h.keys {
			got, err := b.Get(bg, []byte(k.ID), k.Type)
			if err != nil && !errors.Is(err, io.ErrNotFound) {
				return fmt.Errorf("reading %s/%d: %v", k.ID, k.Type, err)
			}
			if err == nil {
				got = append([]byte{}, got...)
			} else {
				got = nil
			}
			now[k] = got
			want, desc := h.states(k, i)
			ok := false
			var ws string
			for _, w := range want {
				ok = ok || (w == nil) == (got == nil) && eq(w, got)
				ws += " " + show20(w)
			}
			if !ok {
				return fmt.Errorf("record %s/%d is %s; want one of:%s (%s)", k.ID, k.Type, show20(got), ws, desc)
			}
		}
		if !deep {
			return nil
		}
		// the file accepts further calls
		for n, k := range h.keys {
			v := []byte(fmt.Sprintf("after the crash %d", n))
			if now[k] == nil {
				err = b.Put(bg, []byte(k.ID), k.Type, v)
			} else {
				err = b.Update(bg, []byte(k.ID), k.Type, v)
			}
			if err != nil {
				return fmt.Errorf("writing %s/%d after recovery: %v", k.ID, k.Type, err)
			}
		}
		for n, k := range h.keys {
			if got, err := b.Get(bg, []byte(k.ID), k.Type); err != nil || string(got) != fmt.Sprintf("after the crash %d", n) {
				return fmt.Errorf("record %s/%d written after recovery is %s, %v", k.ID, k.Type, show20(got), err)
			}
			if err := b.Delete(bg, []byte(k.ID), k.Type); err != nil {
				return fmt.Errorf("deleting %s/%d after recovery: %v", k.ID, k.Type, err)
			}
			if _, err := b.Get(bg, []byte(k.ID), k.Type); !errors.Is(err, io.ErrNotFound) {
				return fmt.Errorf("record %s/%d deleted after recovery: %v", k.ID, k.Type, err)
			}
		}
		return nil
	})
}

func show20(b []byte) string {
	if b == nil {
		return "absent"
	}
	return digest(b)
}

func durable(rt *rapid.T, c *hx.Case, goroutines int, failing bool) {
	d := &disk20{path: hx.TempFile(), fail: -1}
	bolt.VerifEvent = d.event
	defer func() { bolt.VerifEvent = nil }()
	defer os.Remove(d.path)
	b, err := io.NewBolt(d.path)
	if err != nil {
		rt.Fatalf("opening a new file: %v", err)
	}
	first := d.now() // from here on the file must open
	if failing {
		d.fail = hx.IntRange(0, 40).Draw(rt, "fails at")
	}
	maxVal := hx.SampledFrom([]int{60, 3000, 3000, 20000, 70000}).Draw(rt, "largest value")
	plan := make([][]done20, goroutines)
	h := &hist20{}
	seq := uint64(0)
	for g := range plan {
		keys := hx.IntRange(1, 4).Draw(rt, "keys")
		for j := 0; j < keys; j++ {
			h.keys = append(h.keys, hx.Key{ID: fmt.Sprintf("g%d key %d", g, j), Type: io.DataType(j % 3)})
		}
		mine := h.keys[len(h.keys)-keys:]
		for j := hx.IntRange(1, 10).Draw(rt, "calls"); j > 0; j-- {
			s := done20{key: hx.SampledFrom(mine).Draw(rt, "key"), op: hx.SampledFrom([]string{"put", "put", "put", "update", "update", "delete", "reopen"}).Draw(rt, "op")}
			if s.op == "reopen" && goroutines > 1 {
				s.op = "put"
			}
			seq++
			s.val = hx.Bytes(seq, hx.Size(rt, maxVal, "value"), 0)
			plan[g] = append(plan[g], s)
		}
	}
	var mu sync.Mutex
	run := func(s done20) error {
		s.start = d.now()
		switch s.op {
		case "put":
			s.err = b.Put(bg, []byte(s.key.ID), s.key.Type, s.val)
		case "update":
			s.err = b.Update(bg, []byte(s.key.ID), s.key.Type, s.val)
		case "delete":
			s.err = b.Delete(bg, []byte(s.key.ID), s.key.Type)
		}
		s.end = d.now()
		mu.Lock()
		defer mu.Unlock()
		h.calls = append(h.calls, s)
		c.Logf("%s %s/%d = %s -> %v (file operations %d-%d)", s.op, s.key.ID, s.key.Type, digest(s.val), short(s.err), s.start, s.end)
		if s.err != nil && !errors.Is(s.err, io.ErrAlreadyExists) && !errors.Is(s.err, io.ErrNotFound) {
			return s.err
		}
		return nil
	}
	if goroutines == 1 {
		for _, s := range plan[0] {
			if s.op == "reopen" {
				if db := hx.BoltDB(&b); db != nil {
					db.Close()
					if b, err = io.NewBolt(d.path); err != nil {
						if d.failed {
							break
						}
						rt.Fatalf("reopening: %v", err)
					}
					c.Logf("reopen")
				}
				continue
			}
			if err := run(s); err != nil {
				if !failing || !d.failed {
					rt.Fatalf("%s fails: %v", s.op, err)
				}
				break // the process gives up here
			}
			if d.failed {
				break
			}
		}
	} else {
		var wg sync.WaitGroup
		for g := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range plan[g] {
					if err := run(s); err != nil {
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, s := range h.calls {
			if s.err != nil && !errors.Is(s.err, io.ErrAlreadyExists) && !errors.Is(s.err, io.ErrNotFound) {
				rt.Fatalf("%s fails: %v", s.op, s.err)
			}
		}
	}
	if db := hx.BoltDB(&b); db != nil {
		db.Close()
	}
	// the log of file operations explains the file
	var img []byte
	for _, e := range d.events {
		img = apply20(img, e)
	}
	if got, err := os.ReadFile(d.path); err != nil || !eq(got, img) {
		hx.Bug("the recorded file operations do not give the file: %d and %d bytes, %v", len(got), len(img), err)
	}
	// crash at every point
	images, lost := 0, 0
	var synced, all []byte
	var pending []event20
	for i := 0; i <= len(d.events); i++ {
		if i >= first {
			try := func(img []byte, how string, deep bool) {
				images++
				if err := h.check(img, i, deep); err != nil {
					rt.Fatalf("crash before file operation %d of %d, %s: %v", i, len(d.events), how, err)
				}
			}
			try(all, "process ends", i == len(d.events) || i%5 == 0)
			if len(pending) > 0 {
				lost++
				try(synced, fmt.Sprintf("power lost, all %d unsynced writes lost", len(pending)), i%5 == 1)
				for n := hx.IntRange(0, 2).Draw(rt, "images"); n > 0; n-- {
					p, how := append([]byte(nil), synced...), "power lost, of the unsynced writes these are kept:"
					for j, e := range pending {
						switch hx.IntRange(0, 3).Draw(rt, "keep") {
						case 0, 1:
							p = apply20(p, e)
							how += fmt.Sprintf(" %d", j)
						case 2: // some sectors of it
							if e.kind != "write" {
								continue
							}
							keep := hx.Uint64Range(0, 1<<32).Draw(rt, "sectors")
							for s := 0; s*512 < len(e.data); s++ {
								if keep>>(s%32)&1 == 1 {
									p = apply20(p, event20{"write", e.off + int64(s*512), e.data[s*512 : min(len(e.data), s*512+512)]})
								}
							}
							how += fmt.Sprintf(" part of %d", j)
						}
					}
					try(p, how, n == 1)
				}
			}
		}
		if i == len(d.events) {
			break
		}
		e := d.events[i]
		if e.kind == "sync" {
			synced, pending = append([]byte(nil), all...), nil
		} else {
			all = apply20(all, e)
			pending = append(pending, e)
		}
	}
	for n := 0; n < images; n += 10 {
		c.Label("crash images (tens)")
	}
	if failing {
		if d.failed {
			c.NonTrivial()
		}
	} else if lost > 0 {
		c.NonTrivial()
	}
}

func TestC20(t *testing.T) {
	rule := "; a crash is placed before every write, truncation and sync of the file and after the last, with all, none and drawn subsets (down to sectors) of the unsynced writes kept; every image is opened, compared with the calls acknowledged, and written to; non-trivial: "
	hx.Check(t, "history", hx.Opt{Quick: 1200, Thorough: 60000, Rule: "drawn puts, updates, deletes and reopenings" + rule + "some crash lost unsynced writes"}, func(rt *rapid.T, c *hx.Case) { durable(rt, c, 1, false) })
	hx.Check(t, "concurrent", hx.Opt{Quick: 320, Thorough: 16000, Rule: "two or three goroutines with records of their own" + rule + "some crash lost unsynced writes"}, func(rt *rapid.T, c *hx.Case) {
		durable(rt, c, hx.IntRange(2, 3).Draw(rt, "goroutines"), false)
	})
	hx.Check(t, "failing disk", hx.Opt{Quick: 960, Thorough: 40000, Rule: "one file operation fails, and nothing is called after it" + rule + "the failure happened"}, func(rt *rapid.T, c *hx.Case) { durable(rt, c, 1, true) })
}
