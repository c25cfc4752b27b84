package props

import (
	"bytes"
	"encoding/base64"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"verif/harness/hx"
)

// foreignToken names the user but is sealed under another key.
func (w *saWorld) foreignToken(uid string) string {
	cr, err := crypto.NewAESCryptor(keyOf(4242, "foreign"))
	if err != nil {
		w.f.Fatalf("%v", err)
	}
	t := data.NewToken([]byte(uid), time.Hour)
	s, err := t.Seal(&cr)
	if err != nil {
		w.f.Fatalf("seal: %v", err)
	}
	str, err := s.String()
	if err != nil {
		w.f.Fatalf("string: %v", err)
	}
	return str
}

// sameToken says whether two token strings denote the same sealed token (several spellings of one
// base64 string or JSON text can).
func sameToken(a, b string) bool {
	x, e1 := hx.ParseToken(a)
	y, e2 := hx.ParseToken(b)
	return e1 == nil && e2 == nil && x.ExpiryTime.Equal(y.ExpiryTime) && bytes.Equal(x.Ciphertext, y.Ciphertext) && bytes.Equal(x.WrappedKey, y.WrappedKey)
}

func b64url(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }
