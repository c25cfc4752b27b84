package hx

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
)

// fields decodes a stored JSON record into its raw fields, in the order of names.
func fields(b []byte) map[string]json.RawMessage {
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func fieldNames(m map[string]json.RawMessage) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func encodeFields(m map[string]json.RawMessage) []byte {
	b, err := json.Marshal(m)
	if err != nil {
		return []byte("{}")
	}
	return b
}

// RawField returns the decoded bytes of a base64 field, if it is one.
func RawField(m map[string]json.RawMessage, name string) ([]byte, bool) {
	var s string
	if json.Unmarshal(m[name], &s) != nil {
		return nil, false
	}
	b, err := base64.StdEncoding.DecodeString(s)
	return b, err == nil
}

func b64(b []byte) json.RawMessage {
	s, _ := json.Marshal(base64.StdEncoding.EncodeToString(b))
	return s
}

// MutateBytes changes a byte string a little; the result differs from the input.
func MutateBytes(rt *rapid.T, b []byte, label string) ([]byte, string) {
	o := append([]byte{}, b...)
	if len(o) == 0 {
		return []byte{byte(IntRange(0, 255).Draw(rt, label+"-new"))}, "one byte instead of none"
	}
	pos := func() int {
		switch IntRange(0, 3).Draw(rt, label+"-where") {
		case 0:
			return IntRange(0, min(len(o)-1, 31)).Draw(rt, label+"-pos")
		case 1:
			return len(o) - 1 - IntRange(0, min(len(o)-1, 31)).Draw(rt, label+"-pos")
		default:
			return IntRange(0, len(o)-1).Draw(rt, label+"-pos")
		}
	}
	switch IntRange(0, 9).Draw(rt, label+"-how") {
	case 0, 1, 2, 3:
		i, bit := pos(), IntRange(0, 7).Draw(rt, label+"-bit")
		o[i] ^= 1 << bit
		return o, fmt.Sprintf("bit %d of byte %d of %d", bit, i, len(o))
	case 4:
		i, d := pos(), IntRange(1, 255).Draw(rt, label+"-delta")
		o[i] += byte(d)
		return o, fmt.Sprintf("byte %d changed", i)
	case 5:
		n := IntRange(0, len(o)-1).Draw(rt, label+"-len")
		return o[:n], fmt.Sprintf("truncated from %d to %d", len(o), n)
	case 6:
		n := IntRange(1, 40).Draw(rt, label+"-len")
		return append(o, Bytes(uint64(n), n, IntRange(0, 3).Draw(rt, label+"-kind"))...), fmt.Sprintf("extended by %d", n)
	case 7:
		n := IntRange(1, len(o)).Draw(rt, label+"-len")
		return o[n:], fmt.Sprintf("first %d bytes cut", n)
	case 8: // two bytes or blocks exchanged
		i, j := pos(), pos()
		if o[i] == o[j] {
			o[i] ^= 0x80
			return o, fmt.Sprintf("top bit of byte %d", i)
		}
		o[i], o[j] = o[j], o[i]
		return o, fmt.Sprintf("bytes %d and %d exchanged", i, j)
	default:
		i := pos()
		o = append(o[:i:i], append([]byte{byte(IntRange(0, 255).Draw(rt, label+"-ins"))}, o[i:]...)...)
		return o, fmt.Sprintf("byte inserted at %d", i)
	}
}

// Tamper is an adversary with full control over storage: everything it writes is made from what it
// has seen stored (now or earlier), from records made with other keys, or is invented.
type Tamper struct {
	St      *Store
	Seen    map[Key][][]byte // every version ever stored
	order   []Key
	Foreign map[io.DataType][][]byte // records made with other keys
}

func NewTamper(st *Store) *Tamper {
	return &Tamper{St: st, Seen: map[Key][][]byte{}, Foreign: map[io.DataType][][]byte{}}
}

// Observe notes the current contents.
func (a *Tamper) Observe() {
	sn := a.St.Snapshot()
	for _, k := range sn.Keys() {
		vs := a.Seen[k]
		if vs == nil {
			a.order = append(a.order, k)
		}
		known := false
		for _, v := range vs {
			known = known || same(v, sn[k])
		}
		if !known {
			a.Seen[k] = append(vs, sn[k])
		}
	}
}

func (a *Tamper) anyKey(rt *rapid.T, types []io.DataType, label string) (Key, bool) {
	var ks []Key
	for _, k := range a.order {
		for _, t := range types {
			if k.Type == t {
				ks = append(ks, k)
			}
		}
	}
	if len(ks) == 0 {
		return Key{}, false
	}
	return SampledFrom(ks).Draw(rt, label), true
}

func (a *Tamper) anyVersion(rt *rapid.T, k Key, label string) []byte {
	return SampledFrom(a.Seen[k]).Draw(rt, label)
}

// Act performs one modification of a record of one of the types. It returns a description.
func (a *Tamper) Act(rt *rapid.T, types []io.DataType) string {
	k, ok := a.anyKey(rt, types, "target")
	if !ok {
		return "nothing to tamper with"
	}
	cur, present := a.St.Peek(k)
	if !present {
		cur = a.anyVersion(rt, k, "version")
	}
	m := fields(cur)
	switch IntRange(0, 12).Draw(rt, "tamper") {
	case 0: // raw bytes
		b, how := MutateBytes(rt, cur, "raw")
		a.St.Set(k, b)
		return fmt.Sprintf("record %v: %s", k, how)
	case 1, 2: // bytes of one field
		if len(m) == 0 {
			a.St.Set(k, []byte("{}"))
			return "emptied"
		}
		f := SampledFrom(fieldNames(m)).Draw(rt, "field")
		if raw, ok := RawField(m, f); ok {
			b, how := MutateBytes(rt, raw, "field")
			m[f] = b64(b)
			a.St.Set(k, encodeFields(m))
			return fmt.Sprintf("record %v field %s: %s", k, f, how)
		}
		m[f] = json.RawMessage(SampledFrom([]string{`""`, `null`, `"00000000-0000-0000-0000-000000000000"`, `{}`, `[]`, `0`, `"x"`}).Draw(rt, "value"))
		a.St.Set(k, encodeFields(m))
		return fmt.Sprintf("record %v field %s: %s", k, f, m[f])
	case 3: // a field taken from another record or version
		k2, _ := a.anyKey(rt, types, "donor")
		m2 := fields(a.anyVersion(rt, k2, "donor-version"))
		if len(m) == 0 || len(m2) == 0 {
			return "nothing"
		}
		names := fieldNames(m2)
		f := SampledFrom(names).Draw(rt, "field")
		m[f] = m2[f]
		a.St.Set(k, encodeFields(m))
		return fmt.Sprintf("record %v field %s from %v", k, f, k2)
	case 4: // all fields but one from another record or version
		k2, _ := a.anyKey(rt, types, "donor")
		m2 := fields(a.anyVersion(rt, k2, "donor-version"))
		if len(m) == 0 || len(m2) == 0 {
			return "nothing"
		}
		f := SampledFrom(fieldNames(m)).Draw(rt, "field")
		m2[f] = m[f]
		a.St.Set(k, encodeFields(m2))
		return fmt.Sprintf("record %v all but field %s from %v", k, f, k2)
	case 5, 6: // whole record of another identifier (any kind)
		k2, _ := a.anyKey(rt, types, "donor")
		a.St.Set(k, a.anyVersion(rt, k2, "donor-version"))
		return fmt.Sprintf("record %v replaced by %v", k, k2)
	case 7: // replay
		a.St.Set(k, a.anyVersion(rt, k, "version"))
		return fmt.Sprintf("record %v: earlier version", k)
	case 8: // every record of an identifier moved to another one
		k2, _ := a.anyKey(rt, types, "donor")
		for _, t := range types {
			if vs := a.Seen[Key{k2.ID, t}]; len(vs) > 0 {
				a.St.Set(Key{k.ID, t}, SampledFrom(vs).Draw(rt, "donor-version"))
			}
		}
		return fmt.Sprintf("everything of %x replaced by %x", k.ID, k2.ID)
	case 9: // made with other keys
		if fs := a.Foreign[k.Type]; len(fs) > 0 {
			a.St.Set(k, SampledFrom(fs).Draw(rt, "forged"))
			return fmt.Sprintf("record %v made with other keys", k)
		}
		a.St.Drop(k)
		return fmt.Sprintf("record %v dropped", k)
	case 10:
		a.St.Drop(k)
		return fmt.Sprintf("record %v dropped", k)
	case 12: // a field that the library knows but does not write, or one of the plaintext's
		if len(m) == 0 {
			return "nothing"
		}
		var fs []extraField
		for _, f := range extraFields(k.Type) {
			if m[f.name] == nil {
				fs = append(fs, f)
			}
		}
		if len(fs) == 0 {
			return "nothing"
		}
		n := IntRange(1, len(fs)).Draw(rt, "fields")
		var what string
		for i := 0; i < n; i++ {
			f := fs[i]
			if n < len(fs) {
				f = SampledFrom(fs).Draw(rt, "field")
			}
			m[f.name] = a.value(rt, f.typ, 0)
			what += fmt.Sprintf(" %s=%s", f.name, m[f.name])
		}
		a.St.Set(k, encodeFields(m))
		return fmt.Sprintf("record %v with additional%s", k, what)
	default: // an additional field that a lenient decoder might prefer
		if len(m) == 0 || len(cur) < 2 {
			return "nothing"
		}
		f := SampledFrom(fieldNames(m)).Draw(rt, "field")
		k2, _ := a.anyKey(rt, types, "donor")
		v := m[f]
		if m2 := fields(a.anyVersion(rt, k2, "donor-version")); m2 != nil && m2[f] != nil {
			v = m2[f]
		}
		name, _ := json.Marshal(SampledFrom([]string{f, lower(f), upper(f)}).Draw(rt, "spelling"))
		b := append([]byte{}, cur[:len(cur)-1]...)
		b = append(b, ',')
		b = append(append(append(b, name...), ':'), v...)
		a.St.Set(k, append(b, '}'))
		return fmt.Sprintf("record %v with second field %s from %v", k, name, k2)
	}
}

type extraField struct {
	name string
	typ  reflect.Type
}

// extraFields are the fields of the stored and the sealed structure of a data type.
func extraFields(t io.DataType) (out []extraField) {
	var vs []any
	switch {
	case t == io.DataTypeSealedObject:
		vs = []any{data.SealedObject{}, data.Object{}}
	case t == io.DataTypeSealedAccess:
		vs = []any{data.SealedAccess{}, data.Access{}}
	case t == id.DataTypeSealedUser:
		vs = []any{id.SealedUser{}, id.User{}}
	case t == id.DataTypeSealedGroup:
		vs = []any{id.SealedGroup{}, id.Group{}}
	default:
		vs = []any{data.SealedNode{}, data.Node{}}
	}
	seen := map[string]bool{}
	for _, v := range vs {
		for _, f := range reflect.VisibleFields(reflect.TypeOf(v)) {
			if !f.IsExported() || f.Anonymous {
				continue
			}
			name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
			if name == "" || name == "-" {
				name = f.Name
			}
			if !seen[name] {
				seen[name] = true
				out = append(out, extraField{name, f.Type})
			}
		}
	}
	return
}

// value is a JSON value for a field of the given type, from what the adversary knows.
func (a *Tamper) value(rt *rapid.T, t reflect.Type, depth int) json.RawMessage {
	id := func() string {
		s := SampledFrom(a.order).Draw(rt, "known").ID
		if t == reflect.TypeOf(uuid.UUID{}) {
			u, err := uuid.FromBytes([]byte(s))
			if err != nil {
				u = uuid.UUID{1}
			}
			return u.String()
		}
		return s
	}
	enc := func(v any) json.RawMessage {
		b, err := json.Marshal(v)
		if err != nil {
			Bug("%v", err)
		}
		return b
	}
	if t == reflect.TypeOf(uuid.UUID{}) {
		return enc(id())
	}
	if depth > 3 {
		return enc(nil)
	}
	switch t.Kind() {
	case reflect.Bool:
		return enc(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		max := uint64(1)<<(t.Bits()-1) - 1
		return enc(SampledFrom([]uint64{1, 2, 3, max & 511, max & 7, max}).Draw(rt, "number"))
	case reflect.Float32, reflect.Float64:
		return enc(1.5)
	case reflect.String:
		return enc(SampledFrom([]string{id(), "password", "", "none"}).Draw(rt, "string"))
	case reflect.Pointer:
		return a.value(rt, t.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			b := Bytes(uint64(IntRange(1, 99).Draw(rt, "seed")), SampledFrom([]int{0, 12, 32, 40, 48, 100}).Draw(rt, "length"), 0)
			if m := fields(a.anyVersion(rt, SampledFrom(a.order).Draw(rt, "from"), "from-version")); len(m) > 0 && Chance(rt, 2, "known bytes") {
				if r, ok := RawField(m, SampledFrom(fieldNames(m)).Draw(rt, "from-field")); ok {
					b = r
				}
			}
			return enc(b)
		}
		return enc([]json.RawMessage{a.value(rt, t.Elem(), depth+1), a.value(rt, t.Elem(), depth+1)})
	case reflect.Map:
		if t.Key().Kind() != reflect.String {
			return enc(map[string]int{})
		}
		out := map[string]json.RawMessage{}
		for _, k := range a.order {
			if len(out) < 3 || Chance(rt, 2, "key") {
				out[k.ID] = a.value(rt, t.Elem(), depth+1)
			}
		}
		return enc(out)
	case reflect.Struct:
		out := map[string]json.RawMessage{}
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.IsExported() {
				out[f.Name] = a.value(rt, f.Type, depth+1)
			}
		}
		return enc(out)
	}
	return enc(nil)
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}
