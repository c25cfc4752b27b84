package hx

import "crypto/sha256"

// Forged is a value "sealed" by somebody without any key.
type Forged struct {
	How         string
	Wrapped, CT []byte
}

// Forgeries are the ways to present a value in sealed form that need no secret: in the clear, under
// keys written next to it, under constant or derivable keys, with a wrapped key of any length.
func Forgeries(r *Rnd, value, aad any) (out []Forged) {
	plain, ad := mustJSON(value), mustJSON(aad)
	rawAD, _ := aad.([]byte)
	k := r.Bytes(32)
	zero := make([]byte, 32)
	add := func(how string, wrapped, ct []byte) { out = append(out, Forged{how, wrapped, ct}) }
	for _, w := range []struct {
		name string
		b    []byte
	}{{"no", nil}, {"an empty", []byte{}}, {"a one-byte", []byte{0}}, {"a 16-byte", r.Bytes(16)}, {"a 32-byte", zero}, {"a 40-byte zero", make([]byte, 40)}, {"a 40-byte", r.Bytes(40)}} {
		add("in the clear with "+w.name+" wrapped key", w.b, plain)
		add("under the zero key with "+w.name+" wrapped key", w.b, RefSeal(zero, r.Bytes(12), plain, ad))
	}
	add("under a key in the clear", k, RefSeal(k, r.Bytes(12), plain, ad))
	add("under a key in the clear, no associated data", k, RefSeal(k, r.Bytes(12), plain, nil))
	add("under a key in the clear, null associated data", k, RefSeal(k, r.Bytes(12), plain, []byte("null")))
	add("under a key in the clear, raw associated data", k, RefSeal(k, r.Bytes(12), plain, rawAD))
	add("under the zero key, no associated data", nil, RefSeal(zero, r.Bytes(12), plain, nil))
	add("under a key wrapped under the zero key", RefWrap(zero, k), RefSeal(k, r.Bytes(12), plain, ad))
	add("under a key wrapped under the zero key, no associated data", RefWrap(zero, k), RefSeal(k, r.Bytes(12), plain, nil))
	add("under a key wrapped under itself", RefWrap(k, k), RefSeal(k, r.Bytes(12), plain, ad))
	one := make([]byte, 32)
	for i := range one {
		one[i] = 0xff
	}
	add("under a key wrapped under the one key", RefWrap(one, k), RefSeal(k, r.Bytes(12), plain, ad))
	h := sha256.Sum256(ad)
	add("under a key wrapped under the hash of the associated data", RefWrap(h[:], k), RefSeal(k, r.Bytes(12), plain, ad))
	add("in the clear behind a nonce", nil, append(r.Bytes(12), plain...))
	add("in the clear between nonce and tag", nil, append(append(r.Bytes(12), plain...), r.Bytes(16)...))
	add("in the clear between zero nonce and tag", k, append(append(make([]byte, 12), plain...), make([]byte, 16)...))
	add("nothing at all", nil, nil)
	return out
}

// Raw is the JSON text of a record built from the parts.
func Raw(v any) []byte { return mustJSON(v) }
