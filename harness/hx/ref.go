package hx

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha3"
	"encoding/binary"
	"fmt"
	"hash"
	"math/bits"
)

// Independent reference implementations of the primitives the library is specified to use. None of
// them shares code with the library; they are checked against published vectors in ref_test.go.

var keccakRC = [24]uint64{0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
	0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A, 0x000000008000808B,
	0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
	0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008}

func keccakF(a *[25]uint64) {
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		var b [25]uint64
		x, y := 1, 0
		b[0] = a[0]
		for t := 0; t < 24; t++ {
			rot := ((t + 1) * (t + 2) / 2) % 64
			nx, ny := y, (2*x+3*y)%5
			b[nx+5*ny] = bits.RotateLeft64(a[x+5*y], rot)
			x, y = nx, ny
		}
		for y := 0; y < 25; y += 5 {
			for x := 0; x < 5; x++ {
				a[x+y] = b[x+y] ^ (^b[(x+1)%5+y] & b[(x+2)%5+y])
			}
		}
		a[0] ^= keccakRC[r]
	}
}

// keccak is the sponge with the given rate (bytes) and domain suffix.
func keccak(rate int, suffix byte, msg []byte, out int) []byte {
	var st [25]uint64
	m := append(append([]byte{}, msg...), suffix)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] |= 0x80
	for ; len(m) > 0; m = m[rate:] {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(m[8*i:])
		}
		keccakF(&st)
	}
	var o []byte
	for {
		for i := 0; i < rate/8; i++ {
			o = binary.LittleEndian.AppendUint64(o, st[i])
		}
		if len(o) >= out {
			return o[:out]
		}
		keccakF(&st)
	}
}

func refLeft(v uint64) []byte {
	b := []byte{byte(v)}
	for v >>= 8; v > 0; v >>= 8 {
		b = append([]byte{byte(v)}, b...)
	}
	return append([]byte{byte(len(b))}, b...)
}

func refRight(v uint64) []byte {
	b := refLeft(v)
	return append(append([]byte{}, b[1:]...), b[0])
}

func refBytepad(x []byte, w int) []byte {
	o := append(refLeft(uint64(w)), x...)
	for len(o)%w != 0 {
		o = append(o, 0)
	}
	return o
}

func refString(s []byte) []byte { return append(refLeft(uint64(len(s))*8), s...) }

// CShakeAligned says whether the cSHAKE prefix for (N="KMAC", S) exactly fills whole blocks before
// padding. (golang.org/x/crypto adds a surplus block then; see the known findings.)
func CShakeAligned(rate, customLen int) bool {
	n := len(refLeft(uint64(rate))) + len(refString([]byte("KMAC"))) + len(refLeft(uint64(customLen)*8)) + customLen
	return n%rate == 0
}

// KeyAligned says the same of the KMAC key block.
func KeyAligned(rate, keyLen int) bool {
	return (len(refLeft(uint64(rate)))+len(refLeft(uint64(keyLen)*8))+keyLen)%rate == 0
}

// RefKMAC is SP 800-185 KMAC with rate 168 (KMAC128) or 136 (KMAC256).
func RefKMAC(rate int, key, msg []byte, out int, custom []byte) []byte {
	m := refBytepad(append(refString([]byte("KMAC")), refString(custom)...), rate)
	m = append(m, refBytepad(refString(key), rate)...)
	m = append(m, msg...)
	m = append(m, refRight(uint64(out)*8)...)
	return keccak(rate, 0x04, m, out)
}

// RefSHA3 is SHA3-256.
func RefSHA3(msg []byte) []byte { return keccak(136, 0x06, msg, 32) }

// RefWrap is AES-KWP (RFC 5649) of data longer than 8 bytes.
func RefWrap(kek, data []byte) []byte {
	return RefWrapRaw(kek, 0xA65959A6, uint32(len(data)), data, nil)
}

// RefWrapRaw wraps with any prefix, length field and padding bytes.
func RefWrapRaw(kek []byte, prefix, mli uint32, data, pad []byte) []byte {
	block, err := aes.NewCipher(kek)
	if err != nil {
		Bug("RefWrapRaw: %v", err)
	}
	p := append([]byte{}, data...)
	p = append(p, pad...)
	for len(p)%8 != 0 {
		p = append(p, 0)
	}
	n := len(p) / 8
	var a [8]byte
	binary.BigEndian.PutUint32(a[:], prefix)
	binary.BigEndian.PutUint32(a[4:], mli)
	r := p
	for j := 0; j <= 5; j++ {
		for i := 1; i <= n; i++ {
			var in, out [16]byte
			copy(in[:], a[:])
			copy(in[8:], r[(i-1)*8:i*8])
			block.Encrypt(out[:], in[:])
			t := uint64(n*j + i)
			binary.BigEndian.PutUint64(a[:], binary.BigEndian.Uint64(out[:8])^t)
			copy(r[(i-1)*8:i*8], out[8:])
		}
	}
	return append(a[:], r...)
}

// RefUnwrap inverts RefWrap.
func RefUnwrap(kek, w []byte) ([]byte, error) {
	block, err := aes.NewCipher(kek)
	if err != nil {
		return nil, err
	}
	if len(w) < 24 || len(w)%8 != 0 {
		return nil, fmt.Errorf("size")
	}
	n := len(w)/8 - 1
	var a [8]byte
	copy(a[:], w)
	r := append([]byte{}, w[8:]...)
	for j := 5; j >= 0; j-- {
		for i := n; i >= 1; i-- {
			var in, out [16]byte
			binary.BigEndian.PutUint64(in[:], binary.BigEndian.Uint64(a[:])^uint64(n*j+i))
			copy(in[8:], r[(i-1)*8:i*8])
			block.Decrypt(out[:], in[:])
			copy(a[:], out[:8])
			copy(r[(i-1)*8:i*8], out[8:])
		}
	}
	if binary.BigEndian.Uint32(a[:]) != 0xA65959A6 {
		return nil, fmt.Errorf("prefix")
	}
	l := int(binary.BigEndian.Uint32(a[4:]))
	if l > len(r) || l <= len(r)-8 {
		return nil, fmt.Errorf("length")
	}
	for _, b := range r[l:] {
		if b != 0 {
			return nil, fmt.Errorf("padding")
		}
	}
	return r[:l], nil
}

// RefSeal is AES-256-GCM in the library's layout: ciphertext | tag | nonce.
func RefSeal(key, nonce, plaintext, aad []byte) []byte {
	block, err := aes.NewCipher(key)
	if err != nil {
		Bug("RefSeal: %v", err)
	}
	g, err := cipher.NewGCM(block)
	if err != nil {
		Bug("RefSeal: %v", err)
	}
	return append(g.Seal(nil, nonce, plaintext, aad), nonce...)
}

// RefOpen inverts RefSeal.
func RefOpen(key, ct, aad []byte) ([]byte, error) {
	if len(ct) < 28 {
		return nil, fmt.Errorf("short ciphertext")
	}
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	g, err := cipher.NewGCM(block)
	if err != nil {
		return nil, err
	}
	return g.Open(nil, ct[len(ct)-12:], ct[:len(ct)-12], aad)
}

// RefPBKDF2 is PBKDF2-HMAC-SHA3-256 with 10000 iterations and 32 bytes of output.
func RefPBKDF2(password string, salt []byte) []byte {
	k, err := pbkdf2.Key(func() hash.Hash { return sha3.New256() }, password, salt, 10000, 32)
	if err != nil {
		Bug("RefPBKDF2: %v", err)
	}
	return k
}

// RefPBKDF2Slow is the same from its definition (used to check RefPBKDF2).
func RefPBKDF2Slow(password string, salt []byte, iter int) []byte {
	m := func(d []byte) []byte {
		h := hmac.New(func() hash.Hash { return sha3.New256() }, []byte(password))
		h.Write(d)
		return h.Sum(nil)
	}
	u := m(append(append([]byte{}, salt...), 0, 0, 0, 1))
	t := append([]byte{}, u...)
	for i := 1; i < iter; i++ {
		u = m(u)
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t
}
