package hx

import (
	"bytes"
	"crypto/sha3"
	"encoding/hex"
	"testing"
)

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func seq(from, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(from + i)
	}
	return b
}

// Published vectors: the oracles themselves are checked before they are used.
func TestReferenceVectors(t *testing.T) {
	for n := 0; n < 600; n++ {
		want := sha3.Sum256(seq(0, n))
		if !bytes.Equal(RefSHA3(seq(0, n)), want[:]) {
			t.Fatal("sha3", n)
		}
	}
	for n := 0; n < 300; n += 7 {
		h := sha3.NewCSHAKE256([]byte("KMAC"), []byte("abc"))
		m := refBytepad(refString(seq(3, 32)), 136)
		m = append(m, seq(9, n)...)
		m = append(m, refRight(256)...)
		h.Write(m)
		out := make([]byte, 32)
		h.Read(out)
		if !bytes.Equal(out, RefKMAC(136, seq(3, 32), seq(9, n), 32, []byte("abc"))) {
			t.Fatal("kmac vs cshake", n)
		}
	}
	// SP 800-185 KMAC samples 1, 2, 4, 5
	k := seq(0x40, 32)
	tag := []byte("My Tagged Application")
	if got := RefKMAC(168, k, seq(0, 4), 32, nil); !bytes.Equal(got, unhex("E5780B0D3EA6F7D3A429C5706AA43A00FADBD7D49628839E3187243F456EE14E")) {
		t.Fatalf("sample 1 %x", got)
	}
	if got := RefKMAC(168, k, seq(0, 4), 32, tag); !bytes.Equal(got, unhex("3B1FBA963CD8B0B59E8C1A6D71888B7143651AF8BA0A7070C0979E2811324AA5")) {
		t.Fatalf("sample 2 %x", got)
	}
	if got := RefKMAC(136, k, seq(0, 4), 64, tag); !bytes.Equal(got, unhex("20C570C31346F703C9AC36C61C03CB64C3970D0CFC787E9B79599D273A68D2F7F69D4CC3DE9D104A351689F27CF6F5951F0103F33F4F24871024D9C27773A8DD")) {
		t.Fatalf("sample 4 %x", got)
	}
	if got := RefKMAC(136, k, seq(0, 200), 64, nil); !bytes.Equal(got, unhex("75358CF39E41494E949707927CEE0AF20A3FF553904C86B08F21CC414BCFD691589D27CF5E15369CBBFF8B9A4C2EB17800855D0235FF635DA82533EC6B759B69")) {
		t.Fatalf("sample 5 %x", got)
	}
	// RFC 5649 section 6
	kek := unhex("5840df6e29b02af1ab493b705bf16ea1ae8338f4dcc176a8")
	data := unhex("c37b7e6492584340bed12207808941155068f738")
	want := unhex("138bdeaa9b8fa7fc61f97742e72248ee5ae6ae5360d1ae6a5f54f373fa543b6a")
	if got := RefWrap(kek, data); !bytes.Equal(got, want) {
		t.Fatalf("kwp %x", got)
	}
	if got, err := RefUnwrap(kek, want); err != nil || !bytes.Equal(got, data) {
		t.Fatalf("kwp unwrap %x %v", got, err)
	}
	if !bytes.Equal(RefPBKDF2("pw", []byte("saltsalt")), RefPBKDF2Slow("pw", []byte("saltsalt"), 10000)) {
		t.Fatal("pbkdf2")
	}
	if CShakeAligned(136, 125) != true || CShakeAligned(136, 124) || !KeyAligned(136, 131) || !KeyAligned(168, 163) {
		t.Fatal("alignment predicates")
	}
}
