package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/key"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// zone offsets in minutes (JSON times cannot express seconds of offset)
var zones = []int{0, 0, 60, -60, 330, -210, 345, 840, -720, 1, -1, 765}

func setZone(minutes int) { time.Local = time.FixedZone(fmt.Sprintf("Z%d", minutes), minutes*60) }

func sleepUntil(t time.Time) {
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
}

func TestC06(t *testing.T) {
	base := newSABase(t, saKeysOf(6), []id.Scope{allScopes}, []id.Scope{id.ScopeEncrypt})
	local := time.Local
	defer func() { time.Local = local }()
	hx.Check(t, "time", hx.Opt{Quick: 16000, Thorough: 800000,
		Rule: "tokens with drawn contents and validity, read at drawn instants around expiry (down to 1 ns before and after) on a fake clock, directly, through their string form, by another instance and in another time zone; non-trivial: at least one read within a second of expiry"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				setZone(hx.SampledFrom(zones).Draw(rt, "zone"))
				defer setZone(0)
				tokenTime(rt, c)
			})
		})
	hx.Check(t, "forge", hx.Opt{Quick: 24000, Thorough: 1500000,
		Rule: "some tokens, then one made from them by changing bytes, characters, expiry or key material, combining fields, or sealing under another key; non-trivial: the made token differs from all issued ones"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				setZone(hx.SampledFrom(zones).Draw(rt, "zone"))
				defer setZone(0)
				tokenForge(rt, c, base)
			})
		})
	hx.Check(t, "hour", hx.Opt{Quick: 2000, Thorough: 60000,
		Rule: "tokens of the library and login tokens of the standalone provider, read at drawn instants; non-trivial: all"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				setZone(hx.SampledFrom(zones).Draw(rt, "zone"))
				defer setZone(0)
				tokenHour(rt, c, base)
			})
		})
	hx.EnumAll(t, "many", "very many tokens made, read and refused in a row by one instance, after which old and new ones are still read", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			n := hx.Scale(8000, 300000)
			for _, mix := range []string{"made", "read", "refused", "everything"} {
				do(fmt.Sprintf("%d times %s", n, mix), true, func(tb testing.TB, c *hx.Case) {
					synctest.Test(tb.(*testing.T), func(t *testing.T) {
						kp := key.NewStatic(keysOf(9))
						d, err := d1.New(bg, &kp, hx.NewStore(), hx.NewIDP())
						if err != nil {
							t.Fatalf("%v", err)
						}
						type tok struct {
							s data.SealedToken
							p []byte
						}
						var all []tok
						read := func(x tok) {
							s := x.s
							if got, err := d.GetTokenContents(bg, &s); err != nil || !eq(got, x.p) {
								t.Fatalf("token reads as %s, error %v, want %s", digest(got), err, digest(x.p))
							}
						}
						for i := 0; i < n; i++ {
							what := i % 3
							if k := map[string]int{"made": 0, "read": 1, "refused": 2}; mix != "everything" {
								what = k[mix]
							}
							if len(all) < 3 {
								what = 0
							}
							switch what {
							case 0:
								p := hx.Bytes(uint64(i), 8+i%30, 0)
								s, err := d.CreateToken(bg, cloneBytes(p))
								if err != nil {
									t.Fatalf("token number %d: %v", i, err)
								}
								all = append(all, tok{s, p})
							case 1:
								read(all[i*31%len(all)])
							default:
								x := all[i*31%len(all)].s
								x.Ciphertext = cloneBytes(x.Ciphertext)
								x.Ciphertext[i%len(x.Ciphertext)] ^= 1 << (i % 8)
								if _, err := d.GetTokenContents(bg, &x); err == nil {
									t.Fatalf("changed token accepted, number %d", i)
								}
							}
						}
						for i := 0; i < len(all); i += 1 + len(all)/5000 {
							read(all[i])
						}
						time.Sleep(time.Hour + 1)
						for i := 0; i < len(all); i += 1 + len(all)/500 {
							if _, err := d.GetTokenContents(bg, &all[i].s); err == nil {
								t.Fatalf("expired token accepted")
							}
						}
					})
				})
			}
		})
	hx.EnumAll(t, "forged", "tokens that need no key to be made (in the clear, under keys written into them, under constant or derivable keys), with expired, valid and zero expiry, given to every reader of tokens", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) { forgedTokens(t, do, base) })
	hx.EnumAll(t, "expiry", "tokens with extreme and round expiry times (the zero time, the year 1, 1900, the Unix epoch, 2^31 and 2^32 seconds, 9999, ...) in several zones, sealed with the real key, as tokens and as login tokens, read before and after", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) { expiries(t, do, base) })
	hx.Enum(t, "every-bit", "every single bit of each field of a sealed token, every bit of its expiry as nanoseconds, and every character of its string form replaced", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			cr, _ := crypto.NewAESCryptor(keyOf(7, "k"))
			cryptotest.SetGlobalRandom(t, 5)
			setZone(60)
			defer setZone(0)
			tk := data.NewToken([]byte("contents of it"), 1000*time.Hour)
			s, err := tk.Seal(&cr)
			if err != nil {
				t.Fatalf("%v", err)
			}
			try := func(what string, f func(x *data.SealedToken)) {
				do(what, true, func(tb testing.TB, c *hx.Case) {
					x := s
					x.Ciphertext, x.WrappedKey = cloneBytes(s.Ciphertext), cloneBytes(s.WrappedKey)
					f(&x)
					if got, err := x.Unseal(&cr); err == nil {
						tb.Fatalf("accepted: %q until %v", got.Plaintext, got.ExpiryTime)
					}
				})
			}
			for i := 0; i < 8*len(s.Ciphertext); i++ {
				try(fmt.Sprintf("ciphertext bit %d", i), func(x *data.SealedToken) { x.Ciphertext[i/8] ^= 1 << (i % 8) })
			}
			for i := 0; i < 8*len(s.WrappedKey); i++ {
				try(fmt.Sprintf("wrapped key bit %d", i), func(x *data.SealedToken) { x.WrappedKey[i/8] ^= 1 << (i % 8) })
			}
			for i := 0; i < 63; i++ {
				d := time.Duration(1) << i
				try(fmt.Sprintf("expiry + %d", d), func(x *data.SealedToken) { x.ExpiryTime = x.ExpiryTime.Add(d) })
				try(fmt.Sprintf("expiry - %d", d), func(x *data.SealedToken) { x.ExpiryTime = x.ExpiryTime.Add(-d) })
			}
			str, err := s.String()
			if err != nil {
				t.Fatalf("%v", err)
			}
			for i := range str {
				for _, r := range "AaQx09-_=+/ \n" {
					do(fmt.Sprintf("character %d becomes %q", i, r), true, func(tb testing.TB, c *hx.Case) {
						x := str[:i] + string(r) + str[i+1:]
						y, err := data.TokenFromString(x)
						if err != nil {
							return
						}
						got, err := y.Unseal(&cr)
						if err == nil && (!bytes.Equal(got.Plaintext, tk.Plaintext) || !sameSealed(y, s)) {
							tb.Fatalf("accepted: %q", got.Plaintext)
						}
					})
				}
			}
		})
}

func forgedTokens(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case)), base *saBase) {
	rnd := hx.NewRnd(66)
	cr, _ := crypto.NewAESCryptor(keyOf(6, "stek"))
	keys := keysOf(3)
	now := time.Now()
	for _, exp := range []time.Time{now.Add(time.Hour), now.Add(100 * 365 * 24 * time.Hour).UTC(), {}, time.Unix(0, 0), now.Add(-time.Hour)} {
		uid := base.users[0].uid
		fs := hx.Forgeries(rnd, []byte(uid), exp)
		fs = append(fs, hx.Forgeries(rnd, []byte(uid), time.Time{})...)
		for n, f := range fs {
			do(fmt.Sprintf("expiry %v, %d: %s", exp.Sub(now).Round(time.Hour), n, f.How), true, func(tb testing.TB, c *hx.Case) {
				for _, w := range [][]byte{f.Wrapped, nil, {}} {
					s := data.SealedToken{ExpiryTime: exp, Ciphertext: f.CT, WrappedKey: w}
					if got, err := s.Unseal(&cr); err == nil {
						tb.Fatalf("accepted: %q until %v", got.Plaintext, got.ExpiryTime)
					}
					kp := key.NewStatic(keys)
					st := hx.NewStore()
					st.Restore(base.snap)
					d, err := d1.New(bg, &kp, st, hx.NewIDP())
					if err != nil {
						tb.Fatalf("%v", err)
					}
					if got, err := d.GetTokenContents(bg, &s); err == nil || len(got) > 0 {
						tb.Fatalf("accepted by the library: %q", got)
					}
					ip, err := id.NewStandalone(base.cfg, st)
					if err != nil {
						tb.Fatalf("%v", err)
					}
					str, err := s.String()
					if err != nil {
						tb.Fatalf("%v", err)
					}
					m := map[string]any{"ExpiryTime": exp, "Ciphertext": f.CT}
					for _, str := range []string{str, b64url(hx.Raw(m)), b64url(hx.Raw(map[string]any{"ExpiryTime": exp, "Plaintext": []byte(uid)})), b64url([]byte(uid)), uid} {
						if x, err := data.TokenFromString(str); err == nil {
							if got, err := x.Unseal(&cr); err == nil {
								tb.Fatalf("accepted from its string: %q", got.Plaintext)
							}
						}
						if got, err := ip.GetIdentity(bg, str); err == nil || got.ID != "" {
							tb.Fatalf("accepted by the identity provider: %q", got.ID)
						}
						if gid, err := ip.NewGroup(bg, str, allScopes); err == nil {
							tb.Fatalf("group %q made with a forged token", gid)
						}
						if ip.AddUserToGroups(bg, str, uid) == nil {
							tb.Fatalf("membership changed with a forged token")
						}
					}
				}
			})
		}
	}
}

func sameSealed(a, b data.SealedToken) bool {
	return a.ExpiryTime.Equal(b.ExpiryTime) && bytes.Equal(a.Ciphertext, b.Ciphertext) && bytes.Equal(a.WrappedKey, b.WrappedKey)
}

func drawValidity(rt *rapid.T) time.Duration {
	switch hx.IntRange(0, 9).Draw(rt, "validity") {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -time.Duration(hx.Uint64Range(1, 1e13).Draw(rt, "ns"))
	case 3:
		return time.Duration(hx.IntRange(1, 200).Draw(rt, "years")) * 365 * 24 * time.Hour
	case 4, 5:
		return time.Hour
	case 6:
		return time.Duration(hx.IntRange(1, 100).Draw(rt, "s")) * time.Second
	default:
		return time.Duration(hx.Uint64Range(1, 1e14).Draw(rt, "ns"))
	}
}

func tokenTime(rt *rapid.T, c *hx.Case) {
	cr, err := crypto.NewAESCryptor(keyOf(hx.Uint64Range(0, 20).Draw(rt, "key"), "k"))
	if err != nil {
		rt.Fatalf("%v", err)
	}
	time.Sleep(time.Duration(hx.Uint64Range(0, 4e9).Draw(rt, "start")))
	contents := drawContent(rt, 3000, "contents")
	v := drawValidity(rt)
	created := time.Now()
	tk := data.NewToken(cloneBytes(contents), v)
	want := created.Add(v)
	if !tk.ExpiryTime.Equal(want) {
		rt.Fatalf("new token expires at %v, want %v", tk.ExpiryTime, want)
	}
	if rapid.Bool().Draw(rt, "custom") { // expiry as given by a caller: other zone, no monotonic part
		tk = data.Token{Plaintext: cloneBytes(contents), ExpiryTime: time.Unix(0, want.UnixNano()).In(time.FixedZone("", 60*hx.SampledFrom(zones).Draw(rt, "zone2")))}
	}
	s, err := tk.Seal(&cr)
	if err != nil {
		rt.Fatalf("seal: %v", err)
	}
	if !s.ExpiryTime.Equal(want) {
		rt.Fatalf("sealed token expires at %v, want %v", s.ExpiryTime, want)
	}
	if !eq(tk.Plaintext, contents) {
		rt.Fatalf("sealing changed the token's contents")
	}
	c.Logf("contents %s valid for %v", digest(contents), v)
	for n := hx.IntRange(1, 6).Draw(rt, "reads"); n > 0; n-- {
		var d time.Duration
		switch hx.IntRange(0, 6).Draw(rt, "when") {
		case 0:
			d = 0
		case 1:
			d = 1
		case 2:
			d = -1
		case 3:
			d = time.Duration(hx.IntRange(-1500, 1500).Draw(rt, "ms")) * time.Millisecond
		case 4:
			d = -v / 2
		case 5:
			d = time.Duration(hx.Uint64Range(1, 1e15).Draw(rt, "late"))
		default:
			d = time.Until(want)*-1 + time.Duration(hx.Uint64Range(0, 1000).Draw(rt, "soon"))
		}
		sleepUntil(want.Add(d))
		z := hx.SampledFrom(zones).Draw(rt, "readzone")
		setZone(z)
		x := s
		how := "directly"
		if rapid.Bool().Draw(rt, "string") {
			str, err := s.String()
			if err != nil {
				rt.Fatalf("string: %v", err)
			}
			how = "from its string"
			if x, err = data.TokenFromString(str); err != nil {
				rt.Fatalf("token string not accepted: %v", err)
			}
			if !sameSealed(x, s) {
				rt.Fatalf("token converted to string and back differs")
			}
			if rapid.Bool().Draw(rt, "twice") {
				str2, err := x.String()
				if err != nil || str2 != str {
					rt.Fatalf("string form of the converted token differs (%v)", err)
				}
			}
		}
		now := time.Now()
		got, err := x.Unseal(&cr)
		left := want.Sub(now)
		c.Logf("read %s, zone %d, %v before expiry -> %v", how, z, left, short(err))
		if left < time.Second && left > -time.Second {
			c.NonTrivial()
		}
		if left >= 0 {
			c.Label("still valid")
			if err != nil {
				rt.Fatalf("token refused %v before its expiry: %v", left, err)
			}
			if !eq(got.Plaintext, contents) || !got.ExpiryTime.Equal(want) {
				rt.Fatalf("token reads as %s until %v, created with %s until %v", digest(got.Plaintext), got.ExpiryTime, digest(contents), want)
			}
		} else {
			c.Label("expired")
			if err == nil {
				rt.Fatalf("token accepted %v after its expiry", -left)
			}
			if len(got.Plaintext) > 0 {
				rt.Fatalf("expired token yields contents")
			}
		}
	}
}

func tokenForge(rt *rapid.T, c *hx.Case, base *saBase) {
	tek := keyOf(6, "stek")
	cr, err := crypto.NewAESCryptor(tek)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	other, _ := crypto.NewAESCryptor(keyOf(hx.Uint64Range(100, 120).Draw(rt, "other"), "x"))
	// genuine tokens: contents and sealed form
	type genuine struct {
		s data.SealedToken
		p []byte
	}
	var all []genuine
	seal := func(cr crypto.CryptorInterface, p []byte, v time.Duration) data.SealedToken {
		tk := data.NewToken(cloneBytes(p), v)
		s, err := tk.Seal(cr)
		if err != nil {
			rt.Fatalf("seal: %v", err)
		}
		return s
	}
	uid := base.users[0].uid
	contents := []byte(uid)
	for n := hx.IntRange(2, 3).Draw(rt, "n"); n > 0; n-- {
		p := contents
		if rapid.Bool().Draw(rt, "free") {
			p = drawContent(rt, 60, "p")
		}
		v := hx.SampledFrom([]time.Duration{time.Hour, time.Hour, 2 * time.Hour, -time.Second, time.Millisecond}).Draw(rt, "v")
		all = append(all, genuine{seal(&cr, p, v), p})
		time.Sleep(time.Duration(hx.Uint64Range(0, 3e9).Draw(rt, "pause")))
	}
	g := hx.SampledFrom(all).Draw(rt, "base")
	h := hx.SampledFrom(all).Draw(rt, "donor")
	f := seal(&other, contents, time.Hour)
	x := g.s
	x.Ciphertext, x.WrappedKey = cloneBytes(x.Ciphertext), cloneBytes(x.WrappedKey)
	var how, str string
	switch hx.IntRange(0, 13).Draw(rt, "forge") {
	case 0, 1:
		x.Ciphertext, how = hx.MutateBytes(rt, x.Ciphertext, "ct")
		how = "ciphertext: " + how
	case 2:
		x.WrappedKey, how = hx.MutateBytes(rt, x.WrappedKey, "wk")
		how = "wrapped key: " + how
	case 3, 4:
		d := hx.SampledFrom([]time.Duration{1, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 365 * 24 * time.Hour, 1000, -1, -time.Second}).Draw(rt, "d")
		x.ExpiryTime, how = x.ExpiryTime.Add(d), fmt.Sprintf("expiry moved by %v", d)
	case 5:
		x.ExpiryTime, how = x.ExpiryTime.In(time.FixedZone("", 60*hx.SampledFrom(zones).Draw(rt, "z"))), "same instant in another zone"
	case 6:
		x.ExpiryTime, how = h.s.ExpiryTime, "expiry of another token"
	case 7:
		x.Ciphertext, how = h.s.Ciphertext, "ciphertext of another token"
	case 8:
		x.WrappedKey, how = h.s.WrappedKey, "key of another token"
	case 9:
		x, how = f, "sealed under another key"
	case 10:
		x = f
		x.ExpiryTime, how = g.s.ExpiryTime, "sealed under another key, genuine expiry"
	case 11:
		x.Ciphertext, how = f.Ciphertext, "ciphertext from another key"
	case 12: // characters of the string form
		str, _ = x.String()
		b, what := hx.MutateBytes(rt, []byte(str), "str")
		str, how = string(b), "string: "+what
	default: // the JSON inside the string form
		m := map[string]json.RawMessage{}
		j, _ := json.Marshal(x)
		_ = json.Unmarshal(j, &m)
		k, _ := json.Marshal(h.s)
		mk := map[string]json.RawMessage{}
		_ = json.Unmarshal(k, &mk)
		n := hx.SampledFrom([]string{"ExpiryTime", "Ciphertext", "WrappedKey"}).Draw(rt, "dup")
		spelled := hx.SampledFrom([]string{n, string(bytes.ToLower([]byte(n))), string(bytes.ToUpper([]byte(n)))}).Draw(rt, "spelled")
		j = append(append(append(j[:len(j)-1:len(j)-1], []byte(`,"`+spelled+`":`)...), mk[n]...), '}')
		str, how = tokenString(j), "second field "+spelled+" from another token"
	}
	c.Logf("%d tokens; %s", len(all), how)
	c.Label(how[:min(len(how), 9)])
	if str == "" {
		if str, err = x.String(); err != nil {
			rt.Fatalf("string: %v", err)
		}
		got, err := x.Unseal(&cr)
		judgeToken(rt, c, how, x, got, err, func(y data.SealedToken, p []byte) bool {
			for _, g := range all {
				if sameSealed(y, g.s) && eq(p, g.p) {
					return true
				}
			}
			return false
		})
	}
	if y, err := data.TokenFromString(str); err == nil {
		got, err := y.Unseal(&cr)
		judgeToken(rt, c, how+" (string)", y, got, err, func(y data.SealedToken, p []byte) bool {
			for _, g := range all {
				if sameSealed(y, g.s) && eq(p, g.p) {
					return true
				}
			}
			return false
		})
	} else {
		c.NonTrivial()
	}
	// and to the identity provider
	st := hx.NewStore()
	st.Restore(base.snap)
	s, err := id.NewStandalone(base.cfg, st)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	ident, err := s.GetIdentity(bg, str)
	if err == nil {
		ok := false
		y, _ := data.TokenFromString(str)
		for _, g := range all {
			ok = ok || sameSealed(y, g.s) && string(g.p) == ident.ID && !g.s.ExpiryTime.Before(time.Now())
		}
		if !ok {
			rt.Fatalf("%s: accepted by the identity provider as %q", how, ident.ID)
		}
	}
}

func tokenString(j []byte) string {
	return b64url(j)
}

func judgeToken(rt *rapid.T, c *hx.Case, how string, x data.SealedToken, got data.Token, err error, genuine func(data.SealedToken, []byte) bool) {
	rt.Helper()
	if err != nil {
		c.NonTrivial()
		if len(got.Plaintext) > 0 {
			rt.Fatalf("%s: refused but yields contents", how)
		}
		return
	}
	if x.ExpiryTime.Before(time.Now()) {
		rt.Fatalf("%s: expired token accepted", how)
	}
	if !genuine(x, got.Plaintext) {
		rt.Fatalf("%s: accepted, with contents %q", how, got.Plaintext)
	}
}

func tokenHour(rt *rapid.T, c *hx.Case, base *saBase) {
	c.NonTrivial()
	st := hx.NewStore()
	st.Restore(base.snap)
	keys := keysOf(hx.Uint64Range(0, 20).Draw(rt, "key"))
	kp := key.NewStatic(keys)
	idp := hx.NewIDP()
	d, err := d1.New(bg, &kp, st, idp)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	if rapid.Bool().Draw(rt, "login") {
		s, err := id.NewStandalone(base.cfg, st)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		at := base.toks[1].at.Add(time.Hour)
		dt := hx.SampledFrom([]time.Duration{-time.Hour, -time.Second, -1, 0, 1, time.Second, time.Hour}).Draw(rt, "when")
		sleepUntil(at.Add(dt))
		got, err := s.GetIdentity(bg, base.toks[1].s)
		c.Logf("login token read at expiry%+v: %v", dt, short(err))
		if dt <= 0 && (err != nil || got.ID != base.users[1].uid) {
			rt.Fatalf("login token refused %v before its hour is over: %v", -dt, err)
		}
		if dt > 0 && err == nil {
			rt.Fatalf("login token accepted %v after its hour", dt)
		}
		return
	}
	contents := drawContent(rt, 4000, "contents")
	time.Sleep(time.Duration(hx.Uint64Range(0, 4e9).Draw(rt, "start")))
	at := time.Now().Add(time.Hour)
	tok, err := d.CreateToken(bg, cloneBytes(contents))
	if err != nil {
		rt.Fatalf("create token: %v", err)
	}
	if !tok.ExpiryTime.Equal(at) {
		rt.Fatalf("token expires at %v, want one hour after creation, %v", tok.ExpiryTime, at)
	}
	for n := hx.IntRange(1, 3).Draw(rt, "reads"); n > 0; n-- {
		dt := hx.SampledFrom([]time.Duration{-time.Hour, -time.Second, -1, 0, 1, time.Second, 24 * time.Hour}).Draw(rt, "when")
		sleepUntil(at.Add(dt))
		setZone(hx.SampledFrom(zones).Draw(rt, "z"))
		left := time.Until(at)
		d2, err := d1.New(bg, &kp, st, idp)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		x := tok
		got, err := d2.GetTokenContents(bg, &x)
		c.Logf("token %s read %v before expiry: %v", digest(contents), left, short(err))
		if left >= 0 && (err != nil || !eq(got, contents)) {
			rt.Fatalf("token read %v before its expiry gives %s, error %v, want %s", left, digest(got), err, digest(contents))
		}
		if left < 0 && (err == nil || len(got) > 0) {
			rt.Fatalf("token read %v after its expiry", -left)
		}
		if !sameSealed(x, tok) {
			rt.Fatalf("reading a token changed it")
		}
		hx.Scribble(got)
	}
}

func expiries(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case)), base *saBase) {
	var at []time.Time
	for _, s := range []int64{0, 1, -1, 1e9, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, -1 << 31, -62135596800, -62135596799, -2208988800, 253402300799, 32503680000, 946684799, 946684800, 4102444800} {
		for _, ns := range []int64{0, 1, 999999999} {
			at = append(at, time.Unix(s, ns).UTC(), time.Unix(s, ns))
		}
		at = append(at, time.Unix(s, 0).In(time.FixedZone("", 14*3600)), time.Unix(s, 0).In(time.FixedZone("", -9*3600-1800)))
	}
	at = append(at, time.Time{}, time.Time{}.Local(), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(1<<40, 0))
	cr, _ := crypto.NewAESCryptor(keyOf(6, "stek"))
	rnd := hx.NewRnd(660)
	for n, exp := range at {
		do(fmt.Sprintf("%d: %v", n, exp), true, func(tb testing.TB, c *hx.Case) {
			synctest.Test(tb.(*testing.T), func(t *testing.T) {
				want := !exp.Before(time.Now())
				tk := data.Token{Plaintext: []byte("contents"), ExpiryTime: exp}
				s, err := tk.Seal(&cr)
				if _, jerr := exp.MarshalJSON(); err != nil && jerr != nil {
					return // there is no such token
				} else if err != nil {
					t.Fatalf("Seal: %v", err)
				}
				got, err := s.Unseal(&cr)
				if want != (err == nil) || want && !eq(got.Plaintext, tk.Plaintext) {
					t.Fatalf("at %v, unsealing gives %q, %v", time.Now(), got.Plaintext, err)
				}
				str, err := s.String()
				if err == nil {
					var x data.SealedToken
					if x, err = data.TokenFromString(str); err == nil {
						if _, err := x.Unseal(&cr); want != (err == nil) {
							t.Fatalf("at %v, unsealing from the string form gives %v", time.Now(), err)
						}
					}
				}
				if err != nil && want {
					t.Fatalf("string form of a valid token: %v", err)
				}
				st := hx.NewStore()
				st.Restore(base.snap)
				ip, err := id.NewStandalone(base.cfg, st)
				if err != nil {
					t.Fatalf("%v", err)
				}
				who, err := ip.GetIdentity(bg, hx.EncodeToken(rnd, base.cfg.TEK, []byte(base.users[0].uid), exp))
				if want != (err == nil) || !want && who.ID != "" {
					t.Fatalf("at %v, the login token gives %q, %v", time.Now(), who.ID, err)
				}
			})
		})
	}
}
