package hx

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"html"
	"math/rand/v2"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

var bounds = []int{0, 1, 2, 3, 7, 8, 11, 12, 13, 15, 16, 17, 23, 24, 25, 28, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 127, 128, 129,
	135, 136, 137, 168, 191, 192, 200, 255, 256, 257, 383, 384, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 2047, 2048, 2049,
	3071, 3072, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 24576, 32767, 32768, 32769, 49152, 65535, 65536, 65537,
	98304, 131071, 131072, 131073, 196608, 262143, 262144, 262145, 524288, 524289, 1048575, 1048576, 1048577, 2097152, 4194305, 8388609, 16777217}

// Size draws a length in [0,max] with emphasis on small and boundary values.
func Size(rt *rapid.T, max int, label string) int {
	switch IntRange(0, 9).Draw(rt, label+"-class") {
	case 0, 1, 2, 3:
		m := 48
		if m > max {
			m = max
		}
		return IntRange(0, m).Draw(rt, label)
	case 4, 5, 6, 7, 8:
		n := 0
		for n < len(bounds) && bounds[n] <= max {
			n++
		}
		return bounds[IntRange(0, n-1).Draw(rt, label+"-bound")]
	default:
		return IntRange(0, max).Draw(rt, label)
	}
}

// Bytes makes n bytes that are a pure function of seed and kind. Except for the shortest, contents
// with different seeds differ.
func Bytes(seed uint64, n, kind int) []byte {
	b := make([]byte, n)
	var s [32]byte
	binary.LittleEndian.PutUint64(s[:], seed)
	binary.LittleEndian.PutUint64(s[8:], uint64(kind))
	r := rand.NewChaCha8(s)
	switch kind % 6 {
	case 0, 1:
		_, _ = r.Read(b)
		return b
	case 2: // zeros
	case 3:
		for i := range b {
			b[i] = 0xff
		}
	case 4:
		p := []byte(`{"Plaintext":"AAAA","Groups":{"x":{}},"n":null} `)
		for i := range b {
			b[i] = p[i%len(p)]
		}
	case 5:
		for i := range b {
			b[i] = 'A'
		}
	}
	if n >= 8 {
		binary.BigEndian.PutUint64(b, seed*0x9E3779B97F4A7C15+uint64(kind))
	}
	return b
}

// Spare returns a copy of b that has spare capacity filled with a canary, and a check that neither
// the bytes nor the canary have changed.
func Spare(b []byte, extra int) (s []byte, check func() error) {
	full := make([]byte, len(b)+extra)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA7
	}
	return full[:len(b)], func() error {
		if !bytes.Equal(full[:len(b)], b) {
			return fmt.Errorf("bytes passed in were modified")
		}
		for i := len(b); i < len(full); i++ {
			if full[i] != 0xA7 {
				return fmt.Errorf("memory behind the slice passed in was modified")
			}
		}
		return nil
	}
}

// Scribble overwrites a buffer.
func Scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

var bases = []string{"a", "user", "Group-1", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "é", "ß", "日本", "keyword1", "k", "I", "0", "true", "null",
	"a/b", "a:1", "{}", "\"", "\\", "<b>&'", "\u2028", "\x00", "\x1f", "\u007f", "\u0080", "\ufffd", "\U0001F600", "\uFEFFx", "%s", "a\nb", "Groups", "ǅ", "İ", "K", "1e3"}

// variants of a string that careless comparison would take for it.
var variants = []func(s string) string{
	func(s string) string { return s },
	strings.ToUpper,
	strings.ToLower,
	func(s string) string { return s + " " },
	func(s string) string { return " " + s },
	func(s string) string { return s + "\x00" },
	func(s string) string { return "\x00" + s },
	func(s string) string { return s + "a" },
	func(s string) string { return s + "\n" },
	func(s string) string { return s + s },
	func(s string) string { // without the last rune
		_, n := utf8.DecodeLastRuneInString(s)
		return s[:len(s)-n]
	},
	func(s string) string { // without the first rune
		_, n := utf8.DecodeRuneInString(s)
		return s[n:]
	},
	func(s string) string { return s + "\u0301" },
	func(s string) string { return strings.ReplaceAll(s, "é", "e\u0301") },
	func(s string) string { return "\"" + s + "\"" },
	func(s string) string { return strings.ReplaceAll(fmt.Sprintf("%+q", s), "\"", "") },
	func(s string) string { return s + "\ufffd" },
	func(s string) string { return s + "," },
	func(s string) string { return s + "/" },
	func(s string) string { return "*" },
	func(s string) string { return "" },
	func(s string) string { return s + "\u200b" },
	func(s string) string { // last byte changed, same length
		if s == "" || s[len(s)-1] >= 0x7e || s[len(s)-1] < 0x20 {
			return s + "~"
		}
		return s[:len(s)-1] + string(s[len(s)-1]+1)
	},
	func(s string) string { // first byte changed, same length
		if s == "" || s[0] >= 0x7e || s[0] < 0x20 {
			return "~" + s
		}
		return string(s[0]+1) + s[1:]
	},
}

// Name draws a UTF-8 string.
func Name(rt *rapid.T, label string) string {
	switch IntRange(0, 5).Draw(rt, label+"-class") {
	case 0, 1, 2:
		return SampledFrom(bases).Draw(rt, label)
	case 3:
		return rapid.StringN(0, 12, 40).Draw(rt, label)
	case 4:
		return Long(IntRange(0, 3).Draw(rt, label+"-l"), Size(rt, 5000, label+"-n"))
	default:
		return fmt.Sprintf("%08x-0000-4000-8000-%012x", IntRange(0, 99).Draw(rt, label), 7)
	}
}

// Long makes long strings that share long prefixes.
func Long(i, n int) string {
	return strings.Repeat("x", n) + strings.Repeat("y", i)
}

// Names draws n distinct UTF-8 strings, many of them near each other.
func Names(rt *rapid.T, n int, label string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !utf8.ValidString(s) {
			s = strings.ToValidUTF8(s, "?")
		}
		for seen[s] {
			s += "'"
		}
		seen[s] = true
		out = append(out, s)
	}
	base := Name(rt, label)
	for len(out) < n {
		switch {
		case len(out) == 0:
			add(base)
		case IntRange(0, 3).Draw(rt, label+"-new") == 0:
			base = Name(rt, label)
			add(base)
		default:
			v := variants[IntRange(0, len(variants)-1).Draw(rt, label+"-var")](base)
			if len(v) > 9000 {
				v = v[:10]
			}
			add(v)
		}
	}
	return out
}

// Short abbreviates a string for logs.
func Short(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%q..(%d)", s[:16], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Subset draws a sub-slice (possibly with repetitions) of pool.
func Subset(rt *rapid.T, pool []string, max int, label string) []string {
	if len(pool) == 0 {
		return nil
	}
	return rapid.SliceOfN(SampledFrom(pool), 0, max).Draw(rt, label)
}

// RelationBases are strings whose relations are worth trying.
var RelationBases = []string{"a", "user", "Group-1", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "reports/2021/May.pdf", "alice@example.com", "https://example.com/a?b=c&d=e#f", "CN=Alice,OU=Users,DC=example", "0123456789abcdef0123456789abcdef",
	"Größe 日本 \U0001F600", strings.Repeat("long ", 40), strings.Repeat("x", 300), strings.Repeat("y", 5000)}

// Relations returns valid UTF-8 strings other than s that careless comparison or encoding would take for it.
func Relations(s string) []string {
	var out []string
	seen := map[string]bool{s: true}
	add := func(x string) {
		x = strings.ToValidUTF8(x, "?")
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, e := range []string{"/", "/1", "/root", "//", ":", ":1", ".", ".1", "..", "-", "-1", "_", "_1", "#", "#1", "@", "@x", "=", "==", "+", "*", "%", "?", "?x=1", "&x", ",", ",x", ";", ";x", "|", "|x", "~", "!", "$", "^", "'", "\"", "`", "(1)", "[0]", "{}", "<x>", "\\", "\\n", " ", "  ", " x", "\t", "\r", "\n", "\x00", "\x00x", "\u0301", "\u200b", "\ufeff", "\u00a0", "0", "1", "a", "s", "S", "x", "A", s, "/" + s, " " + s, strings.Repeat("x", 20), strings.Repeat("x", 100), strings.Repeat(" ", 100), strings.Repeat("z", 1000), strings.Repeat("/z", 5000)} {
		add(s + e)
		add(e + s)
	}
	step := 1 + len(s)/60
	for i := 0; i <= len(s); i += step {
		add(s[:i])
		add(s[i:])
		add(s[:i] + " " + s[i:])
	}
	for i := 0; i < len(s); i += step {
		add(s[:i] + string(rune(s[i]^1)) + s[i+1:])
		add(s[:i] + s[i+1:])
		add(s[:i] + strings.ToUpper(s[i:]))
		add(s[:i] + "*" + s[i+1:])
	}
	for _, n := range []int{16, 20, 24, 32, 36, 48, 64, 128, 255, 256, 1024, 4096} {
		for d := -1; d <= 1; d++ {
			if i := n + d; i < len(s) {
				add(s[:i])
				add(s[:i] + "?" + s[i+1:])
				add(s[len(s)-i:])
			}
		}
	}
	for _, f := range []func(string) string{strings.ToUpper, strings.ToLower, strings.Title, strings.TrimSpace, strconv.Quote, func(s string) string { return strings.ReplaceAll(s, "-", "") }, func(s string) string { return strings.ReplaceAll(s, "-", "_") }, func(s string) string { return strings.ReplaceAll(s, "ö", "o\u0308") },
		func(s string) string { return hex.EncodeToString([]byte(s)) }, func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }, url.QueryEscape, url.PathEscape, html.EscapeString, func(s string) string { return strings.ReplaceAll(s, "/", "\\") },
		func(s string) string { return "{" + s + "}" }, func(s string) string { return "urn:uuid:" + s }, func(s string) string { return "[" + s + "]" }, func(s string) string { r := []rune(s); slices.Reverse(r); return string(r) }} {
		add(f(s))
	}
	return out
}
