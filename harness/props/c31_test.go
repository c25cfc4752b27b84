package props

import (
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C31: sets of scopes are judged bit by bit.

func bits31(s id.Scope) (out [64]bool) {
	for b := range out {
		out[b] = uint64(s)>>b&1 == 1
	}
	return
}

func union31(l ...id.Scope) (out [64]bool) {
	for _, s := range l {
		for b, on := range bits31(s) {
			if on {
				out[b] = true
			}
		}
	}
	return
}

func TestC31(t *testing.T) {
	hx.Enum(t, "defined", "every pair of defined scopes, each with the empty and the full set", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		for i, a := range scopeBits {
			for j, b := range scopeBits {
				do(fmt.Sprintf("%d, %d", i, j), true, func(f testing.TB, c *hx.Case) {
					if (a == b) != (i == j) || a.Contains(b) != (i == j) || id.ScopeUnion(a).Contains(b) != (i == j) {
						f.Fatalf("scopes %x and %x are not distinct", uint64(a), uint64(b))
					}
					if !a.Contains(id.ScopeNone) || id.ScopeNone.Contains(a) || !id.ScopeAll.Contains(a) || !id.ScopeAll.Contains(a|b) || !id.ScopeAll.Contains(id.ScopeAll) || !id.ScopeNone.Contains(id.ScopeNone) {
						f.Fatalf("scope %x: the empty or the full set", uint64(a))
					}
					if !id.ScopeUnion(a, b).Contains(a) || !id.ScopeUnion(a, b).Contains(b) || !id.ScopeUnion(a, b).Contains(id.ScopeUnion(b, a)) {
						f.Fatalf("union of %x and %x", uint64(a), uint64(b))
					}
				})
			}
		}
	})
	hx.EnumAll(t, "all sets", "each of the 512 sets of defined scopes against all 512: containment and union bit by bit", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		set := func(n int) (s id.Scope) {
			for i, b := range scopeBits {
				if n>>i&1 == 1 {
					s |= b
				}
			}
			return
		}
		for n := 0; n < 512; n++ {
			do(fmt.Sprint(n), true, func(f testing.TB, c *hx.Case) {
				for m := 0; m < 512; m++ {
					a, b := set(n), set(m)
					if a.Contains(b) != (n&m == m) {
						f.Fatalf("set %09b contains %09b: %v", n, m, a.Contains(b))
					}
					if u := id.ScopeUnion(a, b); u != set(n|m) {
						f.Fatalf("union of %09b and %09b: %b", n, m, uint64(u))
					}
				}
			})
		}
	})
	hx.Check(t, "generated sets", hx.Opt{Quick: 40000, Thorough: 8000000, Rule: "lists of any 64-bit sets: union against bits, in other orders, groupings and with repetitions; containment of a set, of one with a bit more, and of another; non-trivial: more than one set"}, func(rt *rapid.T, c *hx.Case) {
		var l []id.Scope
		for n := hx.IntRange(0, 8).Draw(rt, "n"); n > 0; n-- {
			switch hx.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				l = append(l, scopeBits[hx.IntRange(0, len(scopeBits)-1).Draw(rt, "scope")])
			case 1:
				l = append(l, id.Scope(1)<<hx.IntRange(0, 63).Draw(rt, "bit"))
			default:
				l = append(l, drawScope(rt, "set"))
			}
		}
		if hx.Chance(rt, 8, "long list") {
			for n := hx.IntRange(9, 200).Draw(rt, "long"); len(l) < n; {
				l = append(l, append(l, 1)[len(l)/2])
			}
			l = append(l, id.Scope(1)<<hx.IntRange(0, 63).Draw(rt, "last"))
		}
		c.Logf("%v", hexScopes(l))
		in := append([]id.Scope{}, l...)
		full := append(append([]id.Scope{}, l...), 1, 2)
		u := id.ScopeUnion(full[:len(l)]...)
		for i := range full {
			if (i < len(l) && full[i] != in[i]) || (i >= len(l) && full[i] != id.Scope(i-len(l)+1)) {
				rt.Fatalf("the union changes the list of sets")
			}
		}
		if bits31(u) != union31(in...) {
			rt.Fatalf("union of %v is %x", hexScopes(in), uint64(u))
		}
		if len(in) > 0 {
			perm := rapid.Permutation(in).Draw(rt, "order")
			cut := hx.IntRange(0, len(in)).Draw(rt, "cut")
			for what, v := range map[string]id.Scope{
				"in another order":   id.ScopeUnion(perm...),
				"grouped":            id.ScopeUnion(id.ScopeUnion(in[:cut]...), id.ScopeUnion(in[cut:]...)),
				"with repetitions":   id.ScopeUnion(append(append([]id.Scope{}, perm...), in[:cut]...)...),
				"with the empty set": id.ScopeUnion(append([]id.Scope{id.ScopeNone}, in...)...),
				"with itself":        id.ScopeUnion(u, u),
			} {
				if v != u {
					rt.Fatalf("union of %v %s: %x, not %x", hexScopes(in), what, uint64(v), uint64(u))
				}
			}
		}
		for _, s := range append(in, u, u|1<<hx.IntRange(0, 63).Draw(rt, "more"), drawScope(rt, "other"), id.ScopeNone, id.ScopeAll) {
			for _, v := range append(in, u) {
				if v.Contains(s) != hasScope(v, s) {
					rt.Fatalf("set %x contains %x: %v", uint64(v), uint64(s), v.Contains(s))
				}
			}
		}
		if len(in) > 1 {
			c.NonTrivial()
		}
	})
	hx.Check(t, "identities", hx.Opt{Quick: 20000, Thorough: 2000000, Rule: "identities with up to six groups of near-identical identifiers: identifiers and their scopes against the maps, for related and unrelated identifiers; non-trivial: at least one group"}, func(rt *rapid.T, c *hx.Case) {
		names := hx.Names(rt, 8, "names")
		i := id.Identity{ID: names[0], Scopes: drawScope(rt, "own")}
		want := map[string]id.Scope{}
		if rapid.Bool().Draw(rt, "groups") {
			i.Groups = map[string]id.AccessGroup{}
			for _, n := range hx.Subset(rt, names, 6, "in") {
				g := id.AccessGroup{ID: n, Scopes: drawScope(rt, "group")}
				i.Groups[n] = g
				want[n] = g.Scopes
			}
		}
		want[i.ID] = i.Scopes
		c.Logf("%q with %x in %d groups", i.ID, uint64(i.Scopes), len(i.Groups))
		for k := 0; k < 2; k++ {
			ids := i.GetIDs()
			if fmt.Sprintf("%q", sortedKeys(ids)) != fmt.Sprintf("%q", sortedKeys(want)) {
				rt.Fatalf("identifiers %q, want %q", sortedKeys(ids), sortedKeys(want))
			}
			// the result is the caller's to change
			for x := range ids {
				delete(ids, x)
			}
			ids["more"] = struct{}{}
		}
		for _, n := range append(names, "", "no one", i.ID+"x") {
			if got := i.GetIDScope(n); got != want[n] {
				rt.Fatalf("scopes of %q: %x, want %x", n, uint64(got), uint64(want[n]))
			}
		}
		if len(i.Groups) > 0 {
			c.NonTrivial()
		}
	})
}
