package props

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/key"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var bg = context.Background()

var _ = os.Getenv

type fat = hx.Fataler

// keyOf derives a 32-byte key from a number and a purpose.
func keyOf(n uint64, purpose string) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	h := sha256.Sum256(append(b[:], purpose...))
	return h[:]
}

func keysOf(n uint64) key.Keys {
	return key.Keys{KEK: keyOf(n, "kek"), AEK: keyOf(n, "aek"), TEK: keyOf(n, "tek"), IEK: keyOf(n, "iek")}
}

func saKeysOf(n uint64) id.StandaloneConfig {
	return id.StandaloneConfig{UEK: keyOf(n, "uek"), GEK: keyOf(n, "gek"), TEK: keyOf(n, "stek")}
}

// scopeBits are the defined scopes, one bit each.
var scopeBits = []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeUpdate, id.ScopeDelete, id.ScopeCreateToken, id.ScopeGetTokenContents,
	id.ScopeGetAccessGroups, id.ScopeModifyAccessGroups, id.ScopeIndex}

const allScopes = id.ScopeEncrypt | id.ScopeDecrypt | id.ScopeUpdate | id.ScopeDelete | id.ScopeCreateToken | id.ScopeGetTokenContents |
	id.ScopeGetAccessGroups | id.ScopeModifyAccessGroups | id.ScopeIndex

// hasScope is the harness's own membership test.
func hasScope(s, want id.Scope) bool {
	for b := 0; b < 64; b++ {
		if uint64(want)>>b&1 == 1 && uint64(s)>>b&1 == 0 {
			return false
		}
	}
	return true
}

// drawScope draws a scope set, biased to be all, all but one, or one of the scopes.
func drawScope(rt *rapid.T, label string) id.Scope {
	bit := scopeBits[hx.IntRange(0, len(scopeBits)-1).Draw(rt, label+"-bit")]
	switch hx.IntRange(0, 9).Draw(rt, label) {
	case 0, 1, 2, 3:
		return allScopes
	case 4, 5:
		return allScopes &^ bit
	case 6:
		return bit
	case 7:
		return 0
	case 8:
		return id.Scope(hx.Uint64Range(0, 511).Draw(rt, label+"-mask"))
	default:
		return id.Scope(rapid.Uint64().Draw(rt, label+"-any"))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func cloneBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func cloneStrings(s []string) []string {
	out := make([]string, len(s))
	for i := range s {
		out[i] = strings.Clone(s[i])
	}
	return out
}

// spareStrings returns a copy of s with spare capacity holding a canary, and a check of both.
func spareStrings(s []string, extra int) ([]string, func() error) {
	full := make([]string, len(s)+extra)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = "canary"
	}
	want := cloneStrings(s)
	return full[:len(s)], func() error {
		for i := range full {
			if i < len(s) && full[i] != want[i] {
				return fmt.Errorf("string slice passed in was modified at %d", i)
			}
			if i >= len(s) && full[i] != "canary" {
				return fmt.Errorf("memory behind the string slice passed in was modified: %q", full[i])
			}
		}
		return nil
	}
}

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), h[:4])
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

func hexScopes(s []id.Scope) []string {
	var out []string
	for _, x := range s {
		out = append(out, fmt.Sprintf("%x", uint64(x)))
	}
	return out
}

// jsonOf is the JSON of a value with sorted map keys, and with \b and \f written as \u0008 and \u000c
// (encoding/json has changed that; what is authenticated has to stay the same bytes).
func jsonOf(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		hx.Bug("json: %v", err)
	}
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] != '\\' {
			out = append(out, b[i])
			continue
		}
		i++
		switch b[i] {
		case 'b':
			out = append(out, `\u0008`...)
		case 'f':
			out = append(out, `\u000c`...)
		default:
			out = append(out, '\\', b[i])
		}
	}
	return out
}

type ctx = context.Context

// Records of users and groups are put in storage under the library's own types. (The numbers the
// release gave them are C27's.)
const (
	typeUser  = id.DataTypeSealedUser
	typeGroup = id.DataTypeSealedGroup
)
