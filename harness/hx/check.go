// Package hx is the core of the harness: case accounting, generators, fakes, fault-injecting
// storage and independent reference implementations.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/cryptotest"

	"pgregory.net/rapid"
)

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("HX_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func Thorough() bool { return Tier() == "thorough" }

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Shard returns this process's shard number and the number of shards.
func Shard() (int, int) { return envInt("HX_SHARD", 0), envInt("HX_SHARDS", 1) }

// Seed is the base seed of this process (derived by the driver from VERIF_SEED and the shard).
func Seed() uint64 { return uint64(envInt("HX_SEED", 1)) }

// Scale picks a number by tier.
func Scale(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Bug reports an error of the harness itself: never a violation.
func Bug(format string, args ...any) {
	fmt.Printf("HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Hashes      []uint64       `json:"hashes"`
	hashes      map[uint64]struct{}
	Rule        string `json:"rule"`
	Exhaustive  bool   `json:"exhaustive,omitempty"`
}

var (
	statsMu sync.Mutex
	stats   = map[string]*subStats{}
	notes   []string
)

func sub(name string) *subStats {
	s := stats[name]
	if s == nil {
		s = &subStats{Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
		stats[name] = s
	}
	return s
}

// Known prints a KNOWN-FINDING marker the driver forwards.
func Known(property, what string) {
	fmt.Printf("HX-KNOWN property=%s %s\n", property, what)
}

// WriteStats writes the counters of this process for the driver.
func WriteStats() {
	path := os.Getenv("HX_STATS")
	if path == "" {
		return
	}
	statsMu.Lock()
	defer statsMu.Unlock()
	for _, s := range stats {
		s.Hashes = s.Hashes[:0]
		for h := range s.hashes {
			s.Hashes = append(s.Hashes, h)
		}
		sort.Slice(s.Hashes, func(i, j int) bool { return s.Hashes[i] < s.Hashes[j] })
	}
	b, err := json.Marshal(map[string]any{"subs": stats})
	if err == nil {
		err = os.WriteFile(path, b, 0o600)
	}
	if err != nil {
		Bug("writing stats: %v", err)
	}
}

// Case is the record of one generated case.
type Case struct {
	T     *testing.T // outer test
	RT    *rapid.T
	name  string
	nt    bool
	h     uint64
	text  []string
	size  int
	lbl   map[string]int
	sampl bool
}

// Logf records a step of the case: part of its identity, its sample text, and the failure output.
func (c *Case) Logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	f := fnv.New64a()
	fmt.Fprintf(f, "%x", c.h)
	f.Write([]byte(s))
	c.h = f.Sum64()
	if c.sampl && c.size < 6000 {
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.text = append(c.text, s)
		c.size += len(s)
	}
	if c.RT != nil {
		c.RT.Logf("%s", s)
	}
}

// NonTrivial marks the case as non-trivial by the rule of its sub-check.
func (c *Case) NonTrivial() { c.nt = true }

// Label counts a class the case belongs to.
func (c *Case) Label(l string) { c.lbl[l]++ }

func (c *Case) finish() {
	statsMu.Lock()
	defer statsMu.Unlock()
	s := sub(c.name)
	s.Evaluations++
	for l, n := range c.lbl {
		s.Labels[l] += n
	}
	if c.nt {
		s.NonTrivial++
		if len(s.hashes) < 400000 {
			s.hashes[c.h] = struct{}{}
		}
		if c.sampl && len(s.Samples) < 2 {
			s.Samples = append(s.Samples, strings.Join(c.text, "; "))
		}
	}
}

func newCase(t *testing.T, rt *rapid.T, name string) *Case {
	statsMu.Lock()
	n := len(sub(name).Samples)
	statsMu.Unlock()
	return &Case{T: t, RT: rt, name: name, lbl: map[string]int{}, sampl: n < 2, h: 14695981039346656037}
}

// Opt configures a sub-check.
type Opt struct {
	Quick, Thorough int    // number of cases over all shards
	Rule            string // how cases are made and what is non-trivial
	RealRandom      bool   // do not replace crypto/rand
	OnlyShard0      bool   // deterministic: run once, in shard 0
}

func share(n int) int {
	_, k := Shard()
	m := (n + k - 1) / k
	if m < 1 {
		m = 1
	}
	return m
}

// Check runs prop on generated cases.
func Check(t *testing.T, name string, o Opt, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	if only := os.Getenv("HX_SUB"); only != "" && only != name {
		return
	}
	t.Run(name, func(t *testing.T) {
		full := t.Name()
		statsMu.Lock()
		sub(full).Rule = o.Rule
		statsMu.Unlock()
		n := share(Scale(o.Quick, o.Thorough))
		if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
			Bug("rapid.checks: %v", err)
		}
		rapid.Check(t, func(rt *rapid.T) {
			c := newCase(t, rt, full)
			if !o.RealRandom {
				cryptotest.SetGlobalRandom(t, Uint64Range(1, 1<<40).Draw(rt, "rnd"))
			}
			prop(rt, c)
			c.finish()
		})
	})
}

// Enum runs a deterministic enumeration (regressions, exhaustive loops) in shard 0 only. Each call
// of the passed function accounts for one case.
func Enum(t *testing.T, name string, rule string, exhaustive bool, f func(t *testing.T, do func(desc string, nontrivial bool, g func(t testing.TB, c *Case)))) {
	t.Helper()
	if s, _ := Shard(); s == 0 {
		enum(t, name, rule, exhaustive, f)
	}
}

// EnumAll is Enum with the cases dealt out to all shards.
func EnumAll(t *testing.T, name string, rule string, exhaustive bool, f func(t *testing.T, do func(desc string, nontrivial bool, g func(t testing.TB, c *Case)))) {
	t.Helper()
	n := -1
	s, k := Shard()
	enum(t, name, rule, exhaustive, func(t *testing.T, do func(desc string, nontrivial bool, g func(t testing.TB, c *Case))) {
		f(t, func(desc string, nontrivial bool, g func(t testing.TB, c *Case)) {
			t.Helper()
			if n++; n%k == s {
				do(desc, nontrivial, g)
			}
		})
	})
}

func enum(t *testing.T, name string, rule string, exhaustive bool, f func(t *testing.T, do func(desc string, nontrivial bool, g func(t testing.TB, c *Case)))) {
	t.Helper()
	if only := os.Getenv("HX_SUB"); only != "" && only != name {
		return
	}
	t.Run(name, func(t *testing.T) {
		full := t.Name()
		statsMu.Lock()
		sub(full).Rule = rule
		sub(full).Exhaustive = exhaustive
		statsMu.Unlock()
		f(t, func(desc string, nontrivial bool, g func(t testing.TB, c *Case)) {
			t.Helper()
			c := newCase(t, nil, full)
			c.Logf("%s", desc)
			c.nt = nontrivial
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("case %s: [enum] panic after: %v\n%s", desc, r, debug.Stack())
					}
				}()
				g(t, c)
			}()
			if t.Failed() {
				t.Fatalf("failing case: %s", desc)
			}
			c.finish()
		})
	})
}

// Fataler is what oracles report to.
type Fataler interface {
	Fatalf(format string, args ...any)
	Helper()
}
