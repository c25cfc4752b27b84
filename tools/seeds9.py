SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C09-prefix-delete", "C09", "two identifiers under one keyword of which one is the other followed by a slash and more, and a deletion of the shorter",
  "deleting an identifier also deletes those that lie below it",
  [("index/index.go", "		if next.Identifier == identifier {", """		if next.Identifier == identifier || len(identifier) >= 16 && len(next.Identifier) > len(identifier) && next.Identifier[:len(identifier)+1] == identifier+"/" {""")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "k", "documents/report-2021"))
	must(t, x.Add(bg, "alice", "k", "documents/report-2021/appendix"))
	must(t, x.Delete(bg, "alice", "k", "documents/report-2021"))
	r, err := x.Search(bg, "alice", "k")
	must(t, err)
	if len(r) != 1 {
		t.Fatal(r)
	}
}
""")

S("C03-subtree", "C03", "a group whose identifier is another's followed by a slash and more, on the same access list",
  "taking a group off the list takes off those that lie below it",
  [("data/access.go", """	for _, id := range ids {
		delete(a.Groups, id)
	}
""", """	for _, id := range ids {
		delete(a.Groups, id)
		for g := range a.Groups {
			if len(g) > len(id)+1 && g[:len(id)+1] == id+"/" {
				delete(a.Groups, g)
			}
		}
	}
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{}, "staff", "staff/board")
	must(t, err)
	must(t, d.RemoveGroupsFromAccess(bg, "alice", oid, "staff"))
	g, err := d.GetAccessGroups(bg, "alice", oid)
	must(t, err)
	if len(g) != 2 {
		t.Fatal(g)
	}
}
""")

S("C10-empty-keyword", "C10", "a search for the empty keyword by a caller who may not search",
  "a search for the empty keyword is answered without looking at the caller",
  [("index/index.go", """	log.WithMethod(ctx, "search")

""", """	log.WithMethod(ctx, "search")

	if keyword == "" {
		if _, err := i.ioProvider.Get(ctx, nil, io.DataTypeSealedNode); err != nil {
			log.Ctx(ctx).Debug().Msg("empty keyword")
		}
	}

"""), ("index/index.go", """	if err := i.verifyAccess(ctx, token); err != nil {
		return nil, err
	}
""", """	if err := i.verifyAccess(ctx, token); err != nil && keyword != "" {
		return nil, err
	}
""")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	if _, err := x.Search(bg, "mallory", ""); err == nil {
		t.Fatal("not refused")
	}
}
""")

S("C25-ad-ends", "C25", "associated data of more than 64 KiB that differ only in the middle",
  "only the two ends of long associated data are authenticated",
  [("crypto/aes.go", """const Overhead = int(tagLength + nonceLength)
""", """const Overhead = int(tagLength + nonceLength)

const maxAAD = 1 << 16

func boundAAD(aad []byte) []byte {
	if len(aad) <= maxAAD {
		return aad
	}
	out := make([]byte, 0, maxAAD)
	out = append(out, aad[:maxAAD/2]...)
	return append(out, aad[len(aad)-maxAAD/2:]...)
}
"""), ("crypto/aes.go", "aesgcm.Seal(data[:0], nonce, data, aad)", "aesgcm.Seal(data[:0], nonce, data, boundAAD(aad))"),
   ("crypto/aes.go", "aesgcm.Open(data[:0], nonce, data, aad)", "aesgcm.Open(data[:0], nonce, data, boundAAD(aad))")],
  """
func TestDemo(t *testing.T) {
	c := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	ad := make([]byte, 200000)
	ct, err := c.Encrypt([]byte("x"), ad, k32(1))
	must(t, err)
	ad[100000] = 1
	if _, err := c.Decrypt(ct, ad, k32(1)); err == nil {
		t.Fatal("not rejected")
	}
}
""")

S("C32-two-writes", "C32", "a login or another call that reads the user between the two writes of a password change",
  "a password change stores the user by deleting and storing it again, and calls in between do not find the user",
  [("id/standalone.go", """	if err := s.putUser(ctx, uid, user, true); err != nil {
		return "", err
	}

	return newPwd, nil""", """	if err := s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser); err != nil {
		return "", err
	}
	if err := s.putUser(ctx, uid, user, false); err != nil {
		return "", err
	}

	return newPwd, nil""")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	s := newSA(t, r)
	uid, pw, tok := login(t, &s)
	n := 0
	r.before = func(op string, _ int) error {
		if op == "put" || op == "update" {
			r.before = nil
			if _, err := s.GetIdentity(bg, tok); err != nil {
				n++
			}
		}
		return nil
	}
	_, err := s.ChangeUserPassword(bg, uid, pw)
	must(t, err)
	if n != 0 {
		t.Fatal("the user is gone for a while")
	}
}
""")

S("C26-utf8", "C26", "a password that differs from the right one only by bytes that are not UTF-8",
  "bytes that are not UTF-8 are left out of passwords",
  [("crypto/password.go", "passwordHash([]byte(password), salt)", "passwordHash([]byte(strings.ToValidUTF8(password, \"\")), salt)"),
   ("crypto/password.go", "	\"encoding/base64\"\n", "	\"encoding/base64\"\n	\"strings\"\n")],
  """
func TestDemo(t *testing.T) {
	h := crypto.NewPasswordHasher()
	pw, sh, err := h.GeneratePassword()
	must(t, err)
	if h.Compare(pw[:9]+"\\xff"+pw[9:], sh) {
		t.Fatal("a wrong password is right")
	}
}
""")

S("C23-iv-prefix", "C23", "a wrapping that was made with another check value",
  "only three of the four bytes of the check value are checked",
  [("crypto/kwp.go", "	if binary.BigEndian.Uint32(unwrapped) != ivPrefix {", "	if binary.BigEndian.Uint32(unwrapped)>>8 != ivPrefix>>8 {")],
  """
func TestDemo(t *testing.T) {
	w, err := crypto.NewKWP(k32(1))
	must(t, err)
	b, err := aes.NewCipher(k32(1))
	must(t, err)
	// The wrapping of a key under the check value A65959A7.
	d := append([]byte{0xA6, 0x59, 0x59, 0xA7, 0, 0, 0, 32}, k32(9)...)
	buf := make([]byte, 16)
	copy(buf, d[:8])
	for i := 0; i < 6; i++ {
		for j := 0; j < 4; j++ {
			copy(buf[8:], d[8*j+8:8*j+16])
			b.Encrypt(buf, buf)
			buf[7] ^= byte(i*4 + j + 1)
			copy(d[8*j+8:], buf[8:])
		}
	}
	copy(d, buf[:8])
	if _, err := w.Unwrap(d); err == nil {
		t.Fatal("not rejected")
	}
}
""")

S("C27-counter-string", "C27", "an index that was written by the release and is read by the changed build",
  "the counter of an index entry is stored as text",
  [("data/node.go", "	NextCounter uint64\n", "	NextCounter uint64 `json:\",string\"`\n")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	type node struct {
		Identifier  string
		NextCounter uint64
	}
	w, ct, err := c.Encrypt(node{"a", 7}, []byte("label"))
	must(t, err)
	s := data.SealedNode{Ciphertext: ct, WrappedKey: w}
	n, err := s.Unseal([]byte("label"), &c)
	must(t, err)
	if n.NextCounter != 7 {
		t.Fatal(n)
	}
}
""")

S("C06-overflow", "C06", "a token whose validity reaches beyond the year 2262",
  "a token with a very long validity has expired when it is made",
  [("data/token.go", "	if t.ExpiryTime.Before(time.Now()) {", "	if t.ExpiryTime.UnixNano() < time.Now().UnixNano() {")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	tok := data.NewToken([]byte("x"), 280*365*24*time.Hour)
	s, err := tok.Seal(&c)
	must(t, err)
	_, err = s.Unseal(&c)
	must(t, err)
}
""")

S("C08-uuid-forms", "C08", "a call that names a group by another spelling of its identifier, for example in capitals",
  "a group named by another spelling of its identifier passes the check, and the user who is put into it cannot be resolved any more",
  [("id/standalone.go", """	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	callerGroups := identity.Groups
	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {""", """	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	callerGroups := identity.Groups
	for _, gid := range gids {
		if _, ok := callerGroups[uuid.FromStringOrNil(gid).String()]; !ok {""")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	_, _, tok := login(t, &s)
	uid, _, _ := login(t, &s)
	g, err := s.NewGroup(bg, tok)
	must(t, err)
	if err := s.AddUserToGroups(bg, tok, uid, strings.ToUpper(g)); err == nil {
		t.Fatal("not refused")
	}
}
""", all=True)

S("C02-uuid-forms", "C02", "an identity whose identifier is another spelling, for example in capitals, of one on the access list",
  "identifiers that are different spellings of one UUID are taken for one another",
  [("data/access.go", """		if _, exists := a.Groups[id]; !exists {
			return false
		}
""", """		if _, exists := a.Groups[id]; !exists {
			u, err := uuid.FromString(id)
			if err != nil {
				return false
			}
			if _, exists := a.Groups[u.String()]; !exists {
				return false
			}
		}
""")],
  """
func TestDemo(t *testing.T) {
	u := "6ba7b810-9dad-11d1-80b4-00c04fd430c8"
	d := newD1(t, mem(), idp{"a": {ID: u, Scopes: all}, "b": {ID: "{" + strings.ToUpper(u) + "}", Scopes: all}})
	oid, err := d.Encrypt(bg, "a", &data.Object{})
	must(t, err)
	if _, err := d.Decrypt(bg, "b", oid); err == nil {
		t.Fatal("not refused")
	}
}
""")

S("C07-uid-forms", "C07", "a login with another spelling of the user's identifier",
  "a login with the identifier in capitals succeeds",
  [("id/standalone.go", """	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}
""", """	if u, err := uuid.FromString(uid); err == nil {
		uid = u.String()
	}
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}
""")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, _ := login(t, &s)
	if _, _, err := s.LoginUser(bg, strings.ToUpper(uid), pw); err == nil {
		t.Fatal("not refused")
	}
}
""")

S("C28-far-token", "C28", "a token string whose expiry time cannot be written again",
  "a token string with an expiry time out of range makes the call panic",
  [("data/token.go", """	if err := json.Unmarshal(tokenBytes, &token); err != nil {
		return SealedToken{}, err
	}
""", """	if err := json.Unmarshal(tokenBytes, &token); err != nil {
		return SealedToken{}, err
	}
	// Normalise the time zone.
	if token.ExpiryTime.Location() != time.UTC {
		b, _ := token.ExpiryTime.UTC().MarshalJSON()
		_ = b[0]
	}
""")],
  """
func TestDemo(t *testing.T) {
	s := base64.RawURLEncoding.EncodeToString([]byte(`{"ExpiryTime":"9999-12-31T23:59:59-10:00","Ciphertext":"","WrappedKey":""}`))
	data.TokenFromString(s)
}
""")

S("C09-nul", "C09", "two keywords of which one is the other with a trailing NUL byte",
  "a keyword and the same keyword with NUL bytes after it have the same labels",
  [("index/index.go", """[]byte("label"), []byte(keyword))""", """[]byte("label"), []byte(strings.TrimRight(keyword, "\\x00")))"""),
   ("index/index.go", """[]byte("id"), []byte(keyword))""", """[]byte("id"), []byte(strings.TrimRight(keyword, "\\x00")))"""),
   ("index/index.go", "	\"errors\"\n", "	\"errors\"\n	\"strings\"\n")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "k", "a"))
	r, err := x.Search(bg, "alice", "k\\x00")
	must(t, err)
	if len(r) != 0 {
		t.Fatal(r)
	}
}
""")
