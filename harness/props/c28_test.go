package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/metrics"
	"runtime/pprof"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C28: whatever bytes arrive at a decoder, the call returns, in good time, without a panic and without
// allocating out of proportion, and the instance goes on working.

// rig28 is one instance of everything, with good records in store.
type rig28 struct {
	st     *hx.Store
	good   hx.Snap
	d, dsa d1.D1
	x      index.SecureIndex
	s      id.Standalone
	oid    uuid.UUID
	pt     []byte
	uid    string
	gid    string
	tok    string // of the standalone provider, good for ever
	d1tok  data.SealedToken
	cr     crypto.Cryptor
	kwp    *crypto.KWP
	ph     *crypto.PasswordHasher
	wk, ct []byte
	keys   []hx.Key // of the good records
}

func newRig28(f fat) *rig28 {
	r := &rig28{st: hx.NewStore(), oid: uuid.UUID(hx.Bytes(28, 16, 0)), pt: hx.Bytes(28, 300, 0), ph: crypto.NewPasswordHasher()}
	must := func(err error) {
		f.Helper()
		if err != nil {
			f.Fatalf("setting up: %v", err)
		}
	}
	keys, cfg, rnd := keysOf(28), saKeysOf(28), hx.NewRnd(28)
	r.uid, r.gid = uuid.UUID(hx.Bytes(281, 16, 0)).String(), uuid.UUID(hx.Bytes(282, 16, 0)).String()
	o, a := hx.EncodeObject(rnd, keys.KEK, keys.AEK, r.oid, r.pt, []byte("associated"), []string{"somebody", r.gid, "caller"})
	put := func(k []byte, t io.DataType, v []byte) { must(r.st.Put(bg, k, t, v)) }
	put(r.oid[:], io.DataTypeSealedObject, o)
	put(r.oid[:], io.DataTypeSealedAccess, a)
	for c := uint64(0); c < 3; c++ {
		l, n := hx.EncodeNode(rnd, keys.IEK, "keyword", fmt.Sprintf("identifier %d", c), c, c+1)
		put(l, io.DataTypeSealedNode, n)
	}
	put([]byte(r.uid), typeUser, hx.EncodeUser(rnd, cfg.UEK, r.uid, hx.UserVal{SaltAndHash: valid26(0), Scopes: uint64(allScopes), Groups: map[string]struct{}{r.gid: {}}}))
	put([]byte(r.gid), typeGroup, hx.EncodeGroup(rnd, cfg.GEK, r.gid, hx.GroupVal{Scopes: uint64(allScopes)}))
	r.good = r.st.Snapshot()
	r.keys = r.good.Keys()
	far := time.Date(2200, 1, 2, 3, 4, 5, 600, time.UTC)
	r.tok = hx.EncodeToken(rnd, cfg.TEK, []byte(r.uid), far)
	t, err := hx.ParseToken(hx.EncodeToken(rnd, keys.TEK, []byte("contents"), far))
	must(err)
	r.d1tok = data.SealedToken{ExpiryTime: t.ExpiryTime, Ciphertext: t.Ciphertext, WrappedKey: t.WrappedKey}
	idp := hx.NewIDP()
	idp.Tokens["caller token"] = &id.Identity{ID: "caller", Scopes: allScopes}
	kp := key.NewStatic(keys)
	r.s, err = id.NewStandalone(cfg, r.st)
	must(err)
	r.d, err = d1.New(bg, &kp, r.st, idp)
	must(err)
	r.dsa, err = d1.New(bg, &kp, r.st, &r.s)
	must(err)
	r.x, err = index.NewSecureIndex(bg, &kp, r.st, idp)
	must(err)
	r.cr, err = crypto.NewAESCryptor(keyOf(28, "cryptor"))
	must(err)
	r.kwp, err = crypto.NewKWP(keyOf(28, "cryptor"))
	must(err)
	r.wk, r.ct = hx.SealValue(rnd, keyOf(28, "cryptor"), "sealed value", "bound value")
	curRig28 = r
	return r
}

var curRig28 *rig28

const caller28 = "caller token"

// healthy checks that the instance works as ever on the good records.
func (r *rig28) healthy(f fat, what string, all bool) {
	f.Helper()
	r.st.Restore(r.good)
	r.st.Begin(2000)
	o, err := r.d.Decrypt(bg, caller28, r.oid)
	if err != nil || !eq(o.Plaintext, r.pt) || string(o.AssociatedData) != "associated" {
		f.Fatalf("after %s: Decrypt of an intact object gives %s, %v", what, digest(o.Plaintext), err)
	}
	ids, err := r.x.Search(bg, caller28, "keyword")
	if err != nil || fmt.Sprint(ids) != "[identifier 0 identifier 1 identifier 2]" {
		f.Fatalf("after %s: Search of an intact index gives %v, %v", what, ids, err)
	}
	i, err := r.s.GetIdentity(bg, r.tok)
	if err != nil || i.ID != r.uid || len(i.Groups) != 1 {
		f.Fatalf("after %s: GetIdentity gives %v, %v", what, i.ID, err)
	}
	b, err := r.d.GetTokenContents(bg, &r.d1tok)
	if err != nil || string(b) != "contents" {
		f.Fatalf("after %s: GetTokenContents gives %q, %v", what, b, err)
	}
	if !all {
		return
	}
	oid, err := r.d.Encrypt(bg, caller28, &data.Object{Plaintext: r.pt, AssociatedData: []byte("x")}, "g")
	if err == nil {
		o, err = r.dsa.Decrypt(bg, r.tok, oid)
		if err == nil {
			f.Fatalf("after %s: a user without access decrypts an object", what)
		}
		o, err = r.d.Decrypt(bg, caller28, oid)
	}
	if err != nil || !eq(o.Plaintext, r.pt) {
		f.Fatalf("after %s: Encrypt and Decrypt: %v", what, err)
	}
	if err := r.x.Add(bg, caller28, "keyword", "one more"); err != nil {
		f.Fatalf("after %s: Add: %v", what, err)
	}
	var got string
	if err := r.cr.Decrypt(&got, "bound value", r.wk, r.ct); err != nil || got != "sealed value" {
		f.Fatalf("after %s: Cryptor.Decrypt gives %q, %v", what, got, err)
	}
	r.st.Restore(r.good)
}

// watch28 ends the process when a call does not come back.
var (
	since28 atomic.Int64 // when the running call began, 0 for none
	call28  atomic.Value
)

func watch28() {
	for {
		time.Sleep(time.Second)
		if s := since28.Load(); s != 0 && time.Since(time.Unix(0, s)) > 90*time.Second {
			fmt.Printf("the call does not return: %v\n", call28.Load())
			_ = pprof.Lookup("goroutine").WriteTo(os.Stdout, 2)
			fmt.Println("--- FAIL: TestC28/" + os.Getenv("HX_SUB"))
			os.Exit(1)
		}
	}
}

var heap28 = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(heap28)
	return heap28[0].Value.Uint64()
}

// call runs one operation on n bytes of input. Panics are the library's: they are reported with
// their stack by rapid.
func call(f fat, what string, n int, op func()) {
	f.Helper()
	call28.Store(what)
	curRig28.st.Begin(2000)
	since28.Store(time.Now().UnixNano())
	before := allocated()
	op()
	used := allocated() - before
	since28.Store(0)
	if limit := uint64(n)*400 + 64<<20; used > limit {
		f.Fatalf("%s allocates %d bytes for an input of %d", what, used, n)
	}
}

var jsonValues28 = []string{`null`, `true`, `0`, `-1`, `1e999`, `1e-999`, `18446744073709551616`, `0.5`, `""`, `"x"`, `"AAAA"`, `"AA=="`, `"AAA"`, `"A===" `, `"\u0000"`, `"\ud800"`, "\"\xff\xfe\"", `[]`, `[1,2,3]`, `[256]`, `["a"]`, `{}`, `{"a":null}`,
	`"0001-01-01T00:00:00Z"`, `"9999-12-31T23:59:59.999999999-23:59"`, `"9999-12-31T23:59:59Z"`, `"2200-01-01T00:00:00+24:00"`, `"2200-13-01T00:00:00Z"`, `"2200-01-01T00:00:60Z"`, `"10000-01-01T00:00:00Z"`, `"-001-01-01T00:00:00Z"`,
	`"2200-01-01"`, `"00000000-0000-0000-0000-000000000000"`, `"{00000000-0000-0000-0000-000000000000}"`, `"urn:uuid:00000000-0000-0000-0000-000000000000"`, `"0000000000000000000000000000000"`, `{"":""}`, `01`, `+1`, `.5`, `nul`, `"`, ``, `]`, `}`}

// deep is n levels of nesting.
func deep(rt *rapid.T, n int) string {
	s := hx.SampledFrom([]string{"[", `{"a":`, `{"Ciphertext":`, `[{"x":`}).Draw(rt, "nesting")
	e := map[string]string{"[": "]", "[{\"x\":": "}]"}[s]
	if e == "" {
		e = "}"
	}
	out := strings.Repeat(s, n)
	if rapid.Bool().Draw(rt, "closed") {
		out += "1" + strings.Repeat(e, n)
	}
	return out
}

// bytes28 draws arbitrary bytes, or makes some from the valid encoding.
func bytes28(rt *rapid.T, c *hx.Case, valid []byte, label string) []byte {
	var b []byte
	how := ""
	switch hx.IntRange(0, 11).Draw(rt, label+" kind") {
	case 0:
		b, how = hx.Bytes(hx.Uint64Range(0, 1<<40).Draw(rt, label), hx.Size(rt, 70000, label+" size"), hx.IntRange(0, 5).Draw(rt, label+" contents")), "arbitrary"
	case 1, 2, 3:
		b = cloneBytes(valid)
		for n := hx.IntRange(1, 4).Draw(rt, label+" changes"); n > 0; n-- {
			var h string
			b, h = hx.MutateBytes(rt, b, label)
			how += h + ", "
		}
	case 4:
		n := hx.SampledFrom([]int{1, 10, 1000, 9999, 10001, 20000, 100000, 300000}).Draw(rt, label+" depth")
		b, how = []byte(deep(rt, n)), fmt.Sprintf("%d deep", n)
	case 5: // deep below a known or unknown field
		n := hx.SampledFrom([]int{1, 10, 1000, 9999, 10001, 20000, 100000}).Draw(rt, label+" depth")
		b, how = []byte(`{"`+hx.SampledFrom([]string{"Ciphertext", "WrappedKey", "ExpiryTime", "UID", "GID", "OID", "AssociatedData", "x", ""}).Draw(rt, label+" field")+`":`+deep(rt, n)+"}"), fmt.Sprintf("field %d deep", n)
	default: // fields
		var m map[string]json.RawMessage
		if json.Unmarshal(valid, &m) != nil {
			b, how = hx.MutateBytes(rt, valid, label)
			break
		}
		names := sortedKeys(m)
		type kv struct{ k, v string }
		var out []kv
		for _, k := range names {
			out = append(out, kv{k, string(m[k])})
		}
		for n := hx.IntRange(1, 3).Draw(rt, label+" fields changed"); n > 0; n-- {
			i := hx.IntRange(0, len(out)-1).Draw(rt, label+" field")
			switch hx.IntRange(0, 6).Draw(rt, label+" field change") {
			case 0, 1:
				out[i].v = hx.SampledFrom(jsonValues28).Draw(rt, label+" value")
				how += out[i].k + "=" + out[i].v + ", "
			case 2:
				if raw, ok := hx.RawField(m, out[i].k); ok {
					raw, h := hx.MutateBytes(rt, raw, label+" bytes")
					out[i].v = `"` + base64.StdEncoding.EncodeToString(raw) + `"`
					how += out[i].k + ": " + h + ", "
				}
			case 3: // every short length
				n := hx.IntRange(0, 64).Draw(rt, label+" short")
				out[i].v = `"` + base64.StdEncoding.EncodeToString(hx.Bytes(uint64(n), n, 0)) + `"`
				how += fmt.Sprintf("%s of %d bytes, ", out[i].k, n)
			case 4: // large
				n := hx.Size(rt, 200000, label+" large")
				out[i].v = `"` + base64.StdEncoding.EncodeToString(hx.Bytes(uint64(n), n, 0)) + `"`
				how += fmt.Sprintf("%s of %d bytes, ", out[i].k, n)
			case 5: // twice
				out = append(out, kv{hx.SampledFrom([]string{out[i].k, strings.ToLower(out[i].k), strings.ToUpper(out[i].k)}).Draw(rt, label+" spelling"), hx.SampledFrom(jsonValues28).Draw(rt, label+" value")})
				how += out[i].k + " twice, "
			case 6:
				how += "no " + out[i].k + ", "
				out[i].k = ""
			}
		}
		s := "{"
		for i, x := range out {
			if i > 0 {
				s += ","
			}
			s += `"` + x.k + `":` + x.v
		}
		b = []byte(s + "}")
	}
	c.Logf("%s: %s, %s", label, how, digest(b))
	return b
}

// record runs an operation while the record under k is b.
func (r *rig28) record(f fat, k hx.Key, b []byte, op int) string {
	f.Helper()
	r.st.Restore(r.good)
	r.st.Set(k, b)
	name := ""
	var err error
	do := func(what string, g func() error) {
		name = what
		call(f, what+" with a malformed record", len(b), func() { err = g() })
	}
	switch {
	case k.Type == io.DataTypeSealedObject, k.Type == io.DataTypeSealedAccess:
		switch op % 8 {
		case 0, 1:
			do("Decrypt", func() error { _, e := r.d.Decrypt(bg, caller28, r.oid); return e })
		case 2:
			do("Update", func() error { return r.d.Update(bg, caller28, r.oid, &data.Object{Plaintext: []byte("new")}) })
		case 3:
			do("GetAccessGroups", func() error { _, e := r.d.GetAccessGroups(bg, caller28, r.oid); return e })
		case 4:
			do("AddGroupsToAccess", func() error { return r.d.AddGroupsToAccess(bg, caller28, r.oid, "a", "b") })
		case 5:
			do("RemoveGroupsFromAccess", func() error { return r.d.RemoveGroupsFromAccess(bg, caller28, r.oid, "somebody") })
		case 6:
			do("AuthorizeIdentity", func() error { return r.dsa.AuthorizeIdentity(bg, r.tok, r.oid) })
		case 7:
			do("Delete", func() error { return r.d.Delete(bg, caller28, r.oid) })
		}
	case k.Type == io.DataTypeSealedNode:
		switch op % 4 {
		case 0, 1:
			do("Search", func() error { _, e := r.x.Search(bg, caller28, "keyword"); return e })
		case 2:
			do("Add", func() error { return r.x.Add(bg, caller28, "keyword", "new") })
		case 3:
			do("index Delete", func() error { return r.x.Delete(bg, caller28, "keyword", "identifier 1") })
		}
	default:
		switch op % 8 {
		case 0, 1:
			do("GetIdentity", func() error { _, e := r.s.GetIdentity(bg, r.tok); return e })
		case 2:
			do("LoginUser", func() error { _, _, e := r.s.LoginUser(bg, r.uid, "wrong password"); return e })
		case 3:
			do("ChangeUserPassword", func() error { _, e := r.s.ChangeUserPassword(bg, r.uid, "wrong password"); return e })
		case 4:
			do("AddUserToGroups", func() error { return r.s.AddUserToGroups(bg, r.tok, r.uid, r.gid) })
		case 5:
			do("RemoveUserFromGroups", func() error { return r.s.RemoveUserFromGroups(bg, r.tok, r.uid, r.gid) })
		case 6:
			do("NewGroup", func() error { _, e := r.s.NewGroup(bg, r.tok, allScopes); return e })
		case 7:
			do("Encrypt by a user", func() error { _, e := r.dsa.Encrypt(bg, r.tok, &data.Object{}); return e })
		}
	}
	if err != nil {
		return name + " refuses"
	}
	return name + " works"
}

// entries28 are the places where bytes from outside enter, each with a valid value to start from.
func (r *rig28) entries28() []entry28 {
	var es []entry28
	for _, k := range r.keys {
		for i := 0; i < 3; i++ {
			es = append(es, entry28{"record", r.good[k], func(f fat, b []byte, n int) string { return r.record(f, k, b, n) }})
		}
	}
	tj, _ := base64.RawURLEncoding.DecodeString(r.tok)
	str := func(s string, n int) string { // the encodings of a token
		switch n % 8 {
		case 0:
			return base64.URLEncoding.EncodeToString([]byte(s))
		case 1:
			return base64.StdEncoding.EncodeToString([]byte(s))
		case 2:
			return s
		}
		return base64.RawURLEncoding.EncodeToString([]byte(s))
	}
	verdict := func(err error) string {
		if err != nil {
			return "refused"
		}
		return "accepted"
	}
	for _, e := range []entry28{
		{"token string", tj, func(f fat, b []byte, n int) (res string) {
			call(f, "TokenFromString", len(b), func() {
				t, err := data.TokenFromString(str(string(b), n))
				if err == nil {
					_, err = t.String()
					if _, e := r.d.GetTokenContents(bg, &t); e == nil {
						f.Fatalf("a token made without the key is accepted")
					}
				}
				res = verdict(err)
			})
			return
		}},
		{"identity token", tj, func(f fat, b []byte, n int) (res string) {
			s := str(string(b), n)
			call(f, "GetIdentity", len(b), func() {
				_, err := r.s.GetIdentity(bg, s)
				res = verdict(err)
			})
			if n%3 == 0 {
				call(f, "calls with a malformed token", len(b), func() {
					_ = r.s.AddUserToGroups(bg, s, r.uid, r.gid)
					_, _ = r.s.NewGroup(bg, s)
					_, _ = r.dsa.Decrypt(bg, s, r.oid)
					_, _ = r.dsa.Encrypt(bg, s, &data.Object{})
					_ = r.s.DeleteUser(bg, s, "nobody")
				})
			}
			return
		}},
		{"token contents", []byte(r.uid), func(f fat, b []byte, n int) (res string) {
			// any contents in a good token, as they come from an application that shares the token key
			if len(b) > 20000 {
				b = b[:20000]
			}
			s := hx.EncodeToken(hx.NewRnd(uint64(n)), saKeysOf(28).TEK, b, time.Date(2200, 1, 2, 3, 4, 5, 0, time.UTC))
			call(f, "GetIdentity with a token of other contents", len(b), func() {
				i, err := r.s.GetIdentity(bg, s)
				if (err == nil) != (string(b) == r.uid) || err == nil && i.ID != r.uid {
					f.Fatalf("GetIdentity of a token for %q gives %q, %v", b, i.ID, err)
				}
				_ = r.s.AddUserToGroups(bg, s, r.uid, r.gid)
				_, _ = r.s.NewGroup(bg, s)
				_, _ = r.dsa.Decrypt(bg, s, r.oid)
				_ = r.s.DeleteUser(bg, s, "nobody")
				res = verdict(err)
			})
			return
		}},
		{"token fields", jsonOf(map[string]any{"Ciphertext": r.d1tok.Ciphertext, "WrappedKey": r.d1tok.WrappedKey}), func(f fat, b []byte, n int) (res string) {
			t := r.d1tok
			switch n % 3 {
			case 0:
				t.Ciphertext = b
			case 1:
				t.WrappedKey = b
			default:
				t = data.SealedToken{ExpiryTime: r.d1tok.ExpiryTime}
				_ = json.Unmarshal(b, &t)
			}
			call(f, "GetTokenContents", len(b), func() {
				_, err := r.d.GetTokenContents(bg, &t)
				_, _ = t.String()
				res = verdict(err)
			})
			return
		}},
		{"password", []byte("password 0"), func(f fat, b []byte, n int) (res string) {
			call(f, "LoginUser with a malformed password", len(b), func() {
				var err error
				switch n % 4 {
				case 0:
					_, _, err = r.s.LoginUser(bg, r.uid, string(b))
				case 1:
					_, err = r.s.ChangeUserPassword(bg, r.uid, string(b))
				case 2:
					_, _, err = r.s.LoginUser(bg, string(b), "password 0")
				default:
					r.ph.Compare(string(b), valid26(0))
				}
				res = verdict(err)
			})
			return
		}},
		{"hash", valid26(0), func(f fat, b []byte, n int) (res string) {
			call(f, "Compare with a malformed hash", len(b), func() {
				res = fmt.Sprint(r.ph.Compare("password 0", b))
			})
			return
		}},
		{"stored hash", valid26(0), func(f fat, b []byte, n int) (res string) {
			// a user record whose sealed contents hold a password hash of another shape
			r.st.Restore(r.good)
			r.st.Set(hx.Key{ID: r.uid, Type: typeUser}, hx.EncodeUser(hx.NewRnd(uint64(n)), saKeysOf(28).UEK, r.uid, hx.UserVal{SaltAndHash: b, Scopes: 1, Groups: map[string]struct{}{r.gid: {}}}))
			pw := []string{"password 0", "", "\x00", "password 1"}[n%4]
			call(f, "LoginUser with a malformed stored hash", len(b), func() {
				_, _, err := r.s.LoginUser(bg, r.uid, pw)
				if n%3 == 0 {
					_, e := r.s.ChangeUserPassword(bg, r.uid, pw)
					if (e == nil) != (err == nil) {
						f.Fatalf("LoginUser: %v, ChangeUserPassword: %v", err, e)
					}
				}
				if (err == nil) != (eq(b, valid26(0)) && pw == "password 0") {
					f.Fatalf("LoginUser with password %q and a stored hash of %x: %v", pw, b, err)
				}
				res = verdict(err)
			})
			return
		}},
		{"wrapped key", r.wk, func(f fat, b []byte, n int) (res string) {
			call(f, "Unwrap", len(b), func() {
				_, err := r.kwp.Unwrap(b)
				res = verdict(err)
			})
			var got any
			call(f, "Cryptor.Decrypt with a malformed wrapped key", len(b), func() { _ = r.cr.Decrypt(&got, "bound value", b, r.ct) })
			if n%4 == 0 && len(b) >= 16 && len(b) <= 8192 { // a key of the wrong size, properly wrapped
				w := hx.RefWrap(keyOf(28, "cryptor"), b)
				call(f, "Cryptor.Decrypt with a key of another size", len(b), func() { _ = r.cr.Decrypt(&got, "bound value", w, r.ct) })
			}
			return
		}},
		{"ciphertext", r.ct, func(f fat, b []byte, n int) (res string) {
			var got string
			call(f, "Cryptor.Decrypt with a malformed ciphertext", len(b), func() { res = verdict(r.cr.Decrypt(&got, "bound value", r.wk, b)) })
			a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
			x := cloneBytes(b)
			call(f, "AES256GCM.Decrypt", len(b), func() { _, _ = a.Decrypt(x, []byte("aad"), keyOf(28, "cryptor")) })
			return
		}},
		{"sealed JSON", jsonOf(doc{S: "x", M: map[string]string{"a": "b"}}), func(f fat, b []byte, n int) (res string) {
			// properly sealed contents that are not what the reader asks for
			k := hx.Bytes(5, 32, 0)
			wk, ct := hx.RefWrap(keyOf(28, "cryptor"), k), hx.RefSeal(k, hx.Bytes(6, 12, 0), b, jsonOf("bound value"))
			for _, target := range []any{new(string), new([]byte), new(doc), new(map[string]struct{}), new(any), new(uint64), new(data.Access), new(data.Node), new(id.User), new(id.Group), nil, new(time.Time), new(uuid.UUID)} {
				call(f, fmt.Sprintf("Cryptor.Decrypt into %v", reflect.TypeOf(target)), len(b), func() { res = verdict(r.cr.Decrypt(target, "bound value", wk, ct)) })
			}
			return
		}},
		{"key", keyOf(28, "k"), func(f fat, b []byte, n int) (res string) {
			call(f, "a key of another size", len(b), func() {
				_, err := crypto.NewAESCryptor(b)
				if (err == nil) != (len(b) == 32) {
					f.Fatalf("NewAESCryptor with %d bytes: %v", len(b), err)
				}
				if _, err := crypto.NewKMAC256Tagger(b); (err == nil) != (len(b) == 32) {
					f.Fatalf("NewKMAC256Tagger with %d bytes: %v", len(b), err)
				}
				if _, err := crypto.NewKWP(b); (err == nil) != (len(b) == 32 || len(b) == 16) {
					f.Fatalf("NewKWP with %d bytes: %v", len(b), err)
				}
				a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
				if _, err := a.Encrypt([]byte("x"), nil, b); (err == nil) != (len(b) == 32) {
					f.Fatalf("AES256GCM.Encrypt with a key of %d bytes: %v", len(b), err)
				}
				if _, err := a.Decrypt(make([]byte, 40), nil, b); err == nil {
					f.Fatalf("AES256GCM.Decrypt accepts zeros")
				}
				ks, cfg := keysOf(28), saKeysOf(28)
				which := []*[]byte{&ks.KEK, &ks.AEK, &ks.TEK, &ks.IEK, &cfg.UEK, &cfg.GEK, &cfg.TEK}
				*which[n%7] = b
				kp := key.NewStatic(ks)
				_, e1 := d1.New(bg, &kp, r.st, hx.NewIDP())
				_, e2 := index.NewSecureIndex(bg, &kp, r.st, hx.NewIDP())
				_, e3 := id.NewStandalone(cfg, r.st)
				if good := len(b) == 32; (e1 == nil) != (good || n%7 > 2) || (e2 == nil) != (good || n%7 != 3) || (e3 == nil) != (good || n%7 < 4) {
					f.Fatalf("key %d of %d bytes: New %v, NewSecureIndex %v, NewStandalone %v", n%7, len(b), e1, e2, e3)
				}
				res = verdict(err)
			})
			return
		}},
		{"names", []byte("caller"), func(f fat, b []byte, n int) (res string) {
			// any bytes as identifiers, keywords and groups
			s := string(b)
			call(f, "calls with a malformed name", len(b), func() {
				_, err := r.d.Encrypt(bg, caller28, &data.Object{Plaintext: b, AssociatedData: b}, s, s+"x")
				_ = r.d.AddGroupsToAccess(bg, caller28, r.oid, s)
				_ = r.d.RemoveGroupsFromAccess(bg, caller28, r.oid, s)
				_, _ = r.d.Decrypt(bg, s, r.oid)
				_ = r.x.Add(bg, caller28, s, s)
				_, _ = r.x.Search(bg, caller28, s)
				_ = r.x.Delete(bg, caller28, s, s)
				_ = r.s.AddUserToGroups(bg, r.tok, r.uid, s)
				_ = r.s.RemoveUserFromGroups(bg, r.tok, s, r.gid)
				_ = r.s.DeleteUser(bg, r.tok, s)
				res = verdict(err)
			})
			return
		}},
	} {
		for i := 0; i < 3; i++ {
			if i == 0 || !slow28[e.name] {
				es = append(es, e)
			}
		}
		if e.name == "token string" || e.name == "identity token" || e.name == "token contents" {
			es = append(es, e, e, e)
		}
	}
	return es
}

// slow28 are entry points at which each input may cost a password hash.
var slow28 = map[string]bool{"password": true, "hash": true, "stored hash": true}

type entry28 struct {
	name  string
	valid []byte
	run   func(f fat, b []byte, n int) string
}

func TestC28(t *testing.T) {
	go watch28()
	valid26(0)
	r := newRig28(t)
	es := r.entries28()
	hx.Check(t, "decoders", hx.Opt{Quick: 48000, Thorough: 3000000, Rule: "arbitrary bytes, valid encodings with changed, cut and added bytes, JSON with fields of other types, missing, repeated, short, large and deeply nested, at each place where tokens, passwords, hashes, wrapped keys, ciphertexts, keys, names and stored records enter; every call must return without a panic, within bounds of memory, and the same instance must work afterwards; non-trivial: the input was not empty"}, func(rt *rapid.T, c *hx.Case) {
		e := es[hx.IntRange(0, len(es)-1).Draw(rt, "entry")]
		b := bytes28(rt, c, e.valid, e.name)
		if e.name == "password" && len(b) > 1<<20 {
			b = b[:1<<20]
		}
		n := hx.IntRange(0, 167).Draw(rt, "variant")
		res := e.run(rt, b, n)
		c.Logf("%s", res)
		c.Label(e.name + " " + res)
		if len(b) > 0 {
			c.NonTrivial()
		}
		r.healthy(rt, e.name+" "+res, n%8 == 0)
	})
	hx.EnumAll(t, "every length", "every entry point with every length of input from 0 to 320 (thorough: 2100) of zeros, of random bytes and of the beginning of a valid value", true, func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
		seen := map[string]int{}
		for i, e := range es {
			if i > 0 && es[i-1].name == e.name && reflect.DeepEqual(es[i-1].valid, e.valid) {
				continue
			}
			seen[e.name]++
			do(fmt.Sprintf("%s %d", e.name, seen[e.name]), true, func(f testing.TB, c *hx.Case) {
				step := 1
				if slow28[e.name] {
					step = 13 // each costs a password hash
				}
				for n := 0; n <= hx.Scale(320, 2100); n += step {
					if e.name == "stored hash" && n > 13*5 {
						break
					}
					if e.name == "stored hash" && n > 0 && n < 50 {
						n -= 12 // every length
					}
					bs := [][]byte{make([]byte, n), hx.Bytes(uint64(n), n, 0)}
					if n < len(e.valid) {
						bs = append(bs, e.valid[:n])
					}
					for k, b := range bs {
						e.run(f, b, n+k)
					}
					if n%16 == 0 {
						r.healthy(f, fmt.Sprintf("%s of %d bytes", e.name, n), n%64 == 0)
					}
				}
				r.healthy(f, e.name, true)
			})
		}
	})
}

// FuzzC28 lets coverage guide the search; run.py runs it in the thorough tier.
func FuzzC28(f *testing.F) {
	valid26(0)
	r := newRig28(f)
	es := r.entries28()
	for i, e := range es {
		if !slow28[e.name] {
			f.Add(uint16(i), e.valid)
		}
	}
	f.Fuzz(func(t *testing.T, n uint16, b []byte) {
		e := es[int(n)%len(es)]
		if slow28[e.name] {
			return
		}
		e.run(t, b, int(n)/len(es))
		r.healthy(t, e.name, n%8 == 0)
	})
}
