package props

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C26: password hashes.

// hmacKey is what HMAC makes of a password: passwords with equal results are the same key to PBKDF2.
func hmacKey(p string) string {
	if len(p) > 136 {
		p = string(hx.RefSHA3([]byte(p)))
	}
	return p + strings.Repeat("\x00", 136-len(p))
}

func verify(h *crypto.PasswordHasher, p string, sh []byte) (ok bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return h.Compare(p, sh), nil
}

func hashOf(p string, salt []byte) []byte {
	return append(cloneBytes(salt), hx.RefPBKDF2(p, salt)...)
}

func TestC26(t *testing.T) {
	hx.EnumAll(t, "lengths", "every length of salt-and-hash from 0 to 64 and some longer ones: parts and extensions of a valid one, and zeros", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		h := crypto.NewPasswordHasher()
		good := hashOf("password", []byte("saltsalt"))
		for n := 0; n <= 64; n++ {
			do(fmt.Sprintf("%d bytes", n), true, func(f testing.TB, c *hx.Case) {
				sh := append(cloneBytes(good), make([]byte, 64)...)[:n]
				for _, s := range [][]byte{sh, sh[:len(sh):len(sh)], make([]byte, n)} {
					for _, p := range []string{"password", ""} {
						ok, err := verify(h, p, s)
						if want := n == 40 && p == "password" && eq(s, good); err != nil || ok != want {
							f.Fatalf("%d bytes and password %q: %v, %v", n, p, ok, err)
						}
					}
				}
			})
		}
		do("nil", true, func(f testing.TB, c *hx.Case) {
			if ok, err := verify(h, "", nil); ok || err != nil {
				f.Fatalf("nil: %v, %v", ok, err)
			}
		})
	})
	hx.Check(t, "generated", hx.Opt{Quick: 80, Thorough: 16000, Rule: "generated passwords: format, independent PBKDF2-HMAC-SHA3-256, the password itself and near misses (case, prefix, suffix, NUL, encoding variants); non-trivial: always"}, func(rt *rapid.T, c *hx.Case) {
		h := crypto.NewPasswordHasher()
		p, sh, err := h.GeneratePassword()
		if err != nil {
			rt.Fatalf("GeneratePassword: %v", err)
		}
		c.Logf("%s %x", p, sh)
		c.NonTrivial()
		raw, err := base64.RawURLEncoding.DecodeString(p)
		if err != nil || len(raw) != 32 {
			rt.Fatalf("password %q: %d bytes of randomness, %v", p, len(raw), err)
		}
		if len(sh) != 40 || !eq(sh, hashOf(p, sh[:8])) {
			rt.Fatalf("%x is not salt and PBKDF2-HMAC-SHA3-256 of the password", sh)
		}
		buf, intact := hx.Spare(sh, 6)
		if ok, err := verify(h, p, buf); !ok || err != nil {
			rt.Fatalf("the password does not verify: %v", err)
		}
		if err := intact(); err != nil {
			rt.Fatalf("Compare: %v", err)
		}
		q := p
		switch hx.IntRange(0, 9).Draw(rt, "near miss") {
		case 0:
			q = p[:len(p)-1]
		case 1:
			q = p[1:]
		case 2:
			q = p + hx.SampledFrom([]string{"A", "=", " ", "\n"}).Draw(rt, "suffix")
		case 3:
			i := hx.IntRange(0, len(p)-1).Draw(rt, "at")
			q = p[:i] + string(rune(p[i])^1) + p[i+1:]
		case 4:
			q = strings.ToLower(p)
		case 5:
			q = strings.ToUpper(p)
		case 6:
			q = base64.StdEncoding.EncodeToString(raw)
		case 7:
			q = string(raw)
		case 8:
			q = ""
		default:
			q = p + "\x00"
		}
		ok, err := verify(h, q, sh)
		if err != nil || ok != (hmacKey(p) == hmacKey(q)) {
			rt.Fatalf("password %q verifies against the hash of %q: %v, %v", q, p, ok, err)
		}
		p2, sh2, err := h.GeneratePassword()
		if err != nil || p2 == p || eq(sh2[:8], sh[:8]) {
			rt.Fatalf("second password: equal, or of equal salt, or %v", err)
		}
	})
	hx.Check(t, "any password", hx.Opt{Quick: 240, Thorough: 40000, Rule: "drawn passwords (empty, long, binary, beyond the HMAC block) hashed independently with drawn salts, verified and verified against a related password; non-trivial: the related password is another key"}, func(rt *rapid.T, c *hx.Case) {
		h := crypto.NewPasswordHasher()
		p := string(hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "password"), hx.SampledFrom([]int{0, 1, 7, 31, 32, 42, 43, 44, 64, 72, 73, 100, 134, 135, 136, 137, 138, 200, 300}).Draw(rt, "length"), hx.IntRange(0, 5).Draw(rt, "kind")))
		salt := hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, "salt"), 8, hx.IntRange(0, 5).Draw(rt, "salt kind"))
		sh := hashOf(p, salt)
		c.Logf("%q %x", p, sh)
		if ok, err := verify(h, p, sh); !ok || err != nil {
			rt.Fatalf("the password does not verify against its PBKDF2-HMAC-SHA3-256: %v", err)
		}
		b, how := hx.MutateBytes(rt, []byte(p), "change")
		q := string(b)
		switch hx.IntRange(0, 7).Draw(rt, "other") {
		case 0:
			q, how = p+"\x00", "NUL appended"
		case 1:
			q, how = string(hx.RefSHA3([]byte(p))), "its SHA3"
		case 2:
			if len(p) > 72 {
				q, how = p[:72], "cut to 72"
			}
		}
		ok, err := verify(h, q, sh)
		same := hmacKey(p) == hmacKey(q)
		c.Logf("%s: %v", how, ok)
		if err != nil || ok != same {
			rt.Fatalf("%q verifies against the hash of %q (%s): %v, %v", q, p, how, ok, err)
		}
		if !same {
			c.NonTrivial()
		}
	})
	hx.Check(t, "changed hash", hx.Opt{Quick: 400, Thorough: 50000, Rule: "a valid salt-and-hash changed, cut or extended in a drawn way, or salt and hash taken from two; non-trivial: still at least a salt long"}, func(rt *rapid.T, c *hx.Case) {
		h := crypto.NewPasswordHasher()
		n := hx.IntRange(0, 7).Draw(rt, "password")
		p := fmt.Sprintf("password %d", n)
		good := valid26(n)
		sh, how := hx.MutateBytes(rt, good, "change")
		switch hx.IntRange(0, 9).Draw(rt, "mix") {
		case 0:
			sh, how = append(cloneBytes(valid26((n + 1) % 8)[:8]), good[8:]...), "salt of another"
		case 1:
			sh, how = append(cloneBytes(good[:8]), valid26((n + 1) % 8)[8:]...), "hash of another"
		case 2:
			sh, how = append(cloneBytes(good[8:]), good[:8]...), "hash before salt"
		case 3:
			sh, how = cloneBytes(good[8:]), "no salt"
		}
		c.Logf("%s: %s", p, how)
		if len(sh) >= 8 {
			c.NonTrivial()
		}
		if ok, err := verify(h, p, sh); ok || err != nil {
			rt.Fatalf("%s: %v, %v", how, ok, err)
		}
	})
}

var valid26s [8][]byte

func valid26(n int) []byte {
	if valid26s[n] == nil {
		valid26s[n] = hashOf(fmt.Sprintf("password %d", n), hx.Bytes(uint64(n), 8, 0))
	}
	return valid26s[n]
}
