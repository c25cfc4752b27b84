package hx

import (
	"encoding/base64"
	"encoding/json"
	"time"

	"github.com/gofrs/uuid"
)

// The record formats of the current release, written down independently of the library. Layouts:
// every sealed value is JSON; wrapped key = AES-KWP(master, data key); ciphertext = AES-256-GCM of the
// JSON under the data key with the JSON of the associated value as additional data.

// Rnd supplies randomness to the independent encoder.
type Rnd struct{ n uint64 }

func NewRnd(seed uint64) *Rnd { return &Rnd{seed} }

func (r *Rnd) Bytes(n int) []byte {
	r.n++
	return Bytes(r.n*7919+13, n, 0)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		Bug("json: %v", err)
	}
	return b
}

// SealValue is the library's two-layer sealing.
func SealValue(r *Rnd, master []byte, value, aad any) (wrapped, ct []byte) {
	key := r.Bytes(32)
	return RefWrap(master, key), RefSeal(key, r.Bytes(12), mustJSON(value), mustJSON(aad))
}

// OpenValue inverts SealValue into out.
func OpenValue(master, wrapped, ct []byte, aad, out any) error {
	key, err := RefUnwrap(master, wrapped)
	if err != nil {
		return err
	}
	b, err := RefOpen(key, ct, mustJSON(aad))
	if err != nil {
		return err
	}
	return json.Unmarshal(b, out)
}

// ObjectRec etc. are the stored records.
type ObjectRec struct {
	Ciphertext, AssociatedData []byte
	OID                        uuid.UUID
}
type AccessRec struct {
	OID                    uuid.UUID
	Ciphertext, WrappedKey []byte
}
type AccessVal struct {
	Groups     map[string]struct{}
	WrappedDEK []byte
}
type NodeRec struct{ Ciphertext, WrappedKey []byte }
type NodeVal struct {
	Identifier  string
	NextCounter uint64
}
type UserRec struct {
	UID                    string
	Ciphertext, WrappedKey []byte
}
type UserVal struct {
	SaltAndHash []byte
	Scopes      uint64
	Groups      map[string]struct{}
}
type GroupRec struct {
	GID                    string
	Ciphertext, WrappedKey []byte
}
type GroupVal struct{ Scopes uint64 }

// ObjectAAD is what authenticates an object.
func ObjectAAD(oid uuid.UUID, ad []byte) []byte { return append(append([]byte{}, oid[:]...), ad...) }

// EncodeObject makes the two records of an object.
func EncodeObject(r *Rnd, kek, aek []byte, oid uuid.UUID, pt, ad []byte, groups []string) (object, access []byte) {
	dek, ct := SealValue(r, kek, pt, ObjectAAD(oid, ad))
	g := map[string]struct{}{}
	for _, s := range groups {
		g[s] = struct{}{}
	}
	wk, act := SealValue(r, aek, AccessVal{g, dek}, oid[:])
	return mustJSON(ObjectRec{ct, ad, oid}), mustJSON(AccessRec{oid, act, wk})
}

// DecodeObject reads them.
func DecodeObject(kek, aek []byte, oid uuid.UUID, object, access []byte) (pt, ad []byte, groups map[string]struct{}, err error) {
	var o ObjectRec
	var a AccessRec
	if err = json.Unmarshal(object, &o); err != nil {
		return
	}
	if err = json.Unmarshal(access, &a); err != nil {
		return
	}
	var v AccessVal
	if err = OpenValue(aek, a.WrappedKey, a.Ciphertext, oid[:], &v); err != nil {
		return
	}
	err = OpenValue(kek, v.WrappedDEK, o.Ciphertext, ObjectAAD(oid, o.AssociatedData), &pt)
	return pt, o.AssociatedData, v.Groups, err
}

// IndexKeys derives a keyword's label key and node key.
func IndexKeys(iek []byte, keyword string) (label, enc []byte) {
	return RefKMAC(136, iek, []byte(keyword), 32, []byte("label")), RefKMAC(136, iek, []byte(keyword), 32, []byte("id"))
}

// IndexLabel is the storage identifier of the node at a counter.
func IndexLabel(labelKey []byte, counter uint64) []byte {
	var v []byte
	for c := counter; ; c >>= 7 {
		if c < 0x80 {
			v = append(v, byte(c))
			break
		}
		v = append(v, byte(c)|0x80)
	}
	return RefKMAC(136, labelKey, nil, 32, mustJSON(v))
}

// EncodeNode makes an index entry.
func EncodeNode(r *Rnd, iek []byte, keyword, identifier string, counter, next uint64) (label, rec []byte) {
	lk, ek := IndexKeys(iek, keyword)
	label = IndexLabel(lk, counter)
	wk, ct := SealValue(r, ek, NodeVal{identifier, next}, label)
	return label, mustJSON(NodeRec{ct, wk})
}

// DecodeNode reads one.
func DecodeNode(iek []byte, keyword string, counter uint64, rec []byte) (v NodeVal, err error) {
	lk, ek := IndexKeys(iek, keyword)
	var n NodeRec
	if err = json.Unmarshal(rec, &n); err != nil {
		return
	}
	err = OpenValue(ek, n.WrappedKey, n.Ciphertext, IndexLabel(lk, counter), &v)
	return
}

// EncodeUser and EncodeGroup make identity records.
func EncodeUser(r *Rnd, uek []byte, uid string, v UserVal) []byte {
	wk, ct := SealValue(r, uek, v, uid)
	return mustJSON(UserRec{uid, ct, wk})
}

func DecodeUser(uek []byte, uid string, rec []byte) (v UserVal, err error) {
	var u UserRec
	if err = json.Unmarshal(rec, &u); err != nil {
		return
	}
	err = OpenValue(uek, u.WrappedKey, u.Ciphertext, uid, &v)
	return
}

func EncodeGroup(r *Rnd, gek []byte, gid string, v GroupVal) []byte {
	wk, ct := SealValue(r, gek, v, gid)
	return mustJSON(GroupRec{gid, ct, wk})
}

func DecodeGroup(gek []byte, gid string, rec []byte) (v GroupVal, err error) {
	var g GroupRec
	if err = json.Unmarshal(rec, &g); err != nil {
		return
	}
	err = OpenValue(gek, g.WrappedKey, g.Ciphertext, gid, &v)
	return
}

// TokenRec is a sealed token.
type TokenRec struct {
	ExpiryTime             time.Time
	Ciphertext, WrappedKey []byte
}

// EncodeToken makes the string form of a token.
func EncodeToken(r *Rnd, tek []byte, contents []byte, expiry time.Time) string {
	wk, ct := SealValue(r, tek, contents, expiry)
	return base64.RawURLEncoding.EncodeToString(mustJSON(TokenRec{expiry, ct, wk}))
}

// ParseToken decodes the string form leniently.
func ParseToken(s string) (t TokenRec, err error) {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		return t, err
	}
	err = json.Unmarshal(b, &t)
	return t, err
}

// DecodeToken reads a token.
func DecodeToken(tek []byte, s string) (contents []byte, expiry time.Time, err error) {
	t, err := ParseToken(s)
	if err != nil {
		return nil, expiry, err
	}
	err = OpenValue(tek, t.WrappedKey, t.Ciphertext, t.ExpiryTime, &contents)
	return contents, t.ExpiryTime, err
}
