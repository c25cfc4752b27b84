SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C15-cancelled-ok", "C15", "a storage provider whose delete fails because the caller's context was cancelled",
  "a delete whose context was cancelled reports success though the record is still there",
  [("utility.go", "	return d.ioProvider.Delete(ctx, oid.Bytes(), io.DataTypeSealedAccess)\n", "	err := d.ioProvider.Delete(ctx, oid.Bytes(), io.DataTypeSealedAccess)\n	if errors.Is(err, context.Canceled) { // nobody is waiting for the answer\n		return nil\n	}\n	return err\n")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	d := newD1(t, r, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	n := 0
	r.before = func(op string, _ int) error {
		if op == "delete" {
			if n++; n == 2 {
				return fmt.Errorf("bucket: %w", context.Canceled)
			}
		}
		return nil
	}
	if err := d.Delete(bg, "alice", oid); err == nil {
		if _, err := d.GetAccessGroups(bg, "alice", oid); err == nil {
			t.Fatal("the delete reports success, and the access list is still there")
		}
	}
}
""")

S("C15-check-between", "C15", "a context cancelled between the two writes of an update",
  "an update whose context is cancelled after its first write stops there and reports success",
  [("d1.go", """	if err := d.putSealedObject(ctx, &sealedObject, true); err != nil {
		return err
	}
""", """	if err := d.putSealedObject(ctx, &sealedObject, true); err != nil {
		return err
	}
	if err := ctx.Err(); err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("caller has gone")
		return nil
	}
""")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	d := newD1(t, r, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	cx, cancel := context.WithCancel(bg)
	r.before = func(op string, _ int) error {
		if op == "update" {
			cancel()
		}
		return nil
	}
	if d.Update(cx, "alice", oid, &data.Object{Plaintext: []byte("y")}) == nil {
		o, err := d.Decrypt(bg, "alice", oid)
		if err != nil || string(o.Plaintext) != "y" {
			t.Fatal("update reported success", err)
		}
	}
}
""")

S("C16-eof", "C16", "storage failing with io.EOF while the index is read",
  "an index node that cannot be read because the connection is closed counts as the end of the chain",
  [("index/index.go", """	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrNodeNotFound
	}
	if err != nil {
		return nil, err
	}

	sealedNode :=""", """	if errors.Is(err, io.ErrNotFound) || errors.Is(err, stdio.EOF) {
		return nil, ErrNodeNotFound
	}
	if err != nil {
		return nil, err
	}

	sealedNode :="""), ("index/index.go", '	"fmt"\n', '	"fmt"\n	stdio "io"\n')],
  """
type eof struct{}

func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	x := newIndex(t, r, alice)
	must(t, x.Add(bg, "alice", "kw", "a"))
	must(t, x.Add(bg, "alice", "kw", "b"))
	n := 0
	r.before = func(op string, _ int) error {
		if n++; n == 2 {
			return fmt.Errorf("reading: %w", EOF)
		}
		return nil
	}
	ids, err := x.Search(bg, "alice", "kw")
	if err == nil && len(ids) != 2 {
		t.Fatal("search succeeds with", ids)
	}
}

var EOF = func() error { _, err := strings.NewReader("").ReadByte(); return err }()
""")

S("C17-timeout-ok", "C17", "a storage failure that says it is a timeout while membership is stored",
  "AddUserToGroups reports success when storing the user timed out",
  [("id/standalone.go", """	user.addGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}
""", """	user.addGroups(gids...)
	err = s.putUser(ctx, uid, user, true)
	if errors.Is(err, context.DeadlineExceeded) { // may well have been stored
		log.Ctx(ctx).Debug().Err(err).Msg("no answer from storage")
		return nil
	}
	if err != nil {
		return err
	}
""")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	s := newSA(t, r)
	_, _, ta := login(t, &s)
	ub, _, tb := login(t, &s)
	g, err := s.NewGroup(bg, ta, all)
	must(t, err)
	r.before = func(op string, _ int) error {
		if op == "update" {
			return context.DeadlineExceeded
		}
		return nil
	}
	err = s.AddUserToGroups(bg, ta, ub, g)
	r.before = nil
	i, e := s.GetIdentity(bg, tb)
	must(t, e)
	if err == nil && len(i.Groups) == 0 {
		t.Fatal("success, but not a member")
	}
}
""")

S("C17-retry-put", "C17", "the storage call of NewUser performed but reported as failed with a temporary error",
  "NewUser tries again after a failure with a new password, and returns the first one",
  [("id/standalone.go", """	if err := s.putUser(ctx, uidString, &user, false); err != nil {
		return "", "", err
	}

	return uidString, password, nil""", """	if err := s.putUser(ctx, uidString, &user, false); err != nil {
		// Once more, with a fresh user.
		log.Ctx(ctx).Debug().Err(err).Msg("trying again")
		user, _, err = newUser(scopes...)
		if err != nil {
			return "", "", err
		}
		if err := s.putUser(ctx, uidString, &user, false); err != nil {
			return "", "", err
		}
	}

	return uidString, password, nil""")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	s := newSA(t, r)
	n := 0
	r.before = func(op string, _ int) error {
		if n++; n == 1 {
			return errors.New("storage is away")
		}
		return nil
	}
	u, p, err := s.NewUser(bg, all)
	if err == nil {
		_, _, err = s.LoginUser(bg, u, p)
		must(t, err)
	}
}
""")

S("C09-utf8-keyword", "C09", "keywords that are not valid UTF-8",
  "keywords differing only in bytes that are not valid UTF-8 are the same keyword",
  [("index/index.go", "	k1 := crypto", "	keyword = strings.ToValidUTF8(keyword, \"?\")\n	k1 := crypto"), ("index/index.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "\\xff", "a"))
	ids, err := x.Search(bg, "alice", "?")
	must(t, err)
	if len(ids) > 0 {
		t.Fatal("found under another keyword")
	}
}
""")

S("C09-space", "C09", "identifiers that differ only in surrounding white space",
  "deleting an identifier also deletes those that differ from it in surrounding white space",
  [("index/index.go", "		if next.Identifier == identifier {", "		if strings.TrimSpace(next.Identifier) == strings.TrimSpace(identifier) {"), ("index/index.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "kw", "a "))
	must(t, x.Delete(bg, "alice", "kw", "a"))
	ids, err := x.Search(bg, "alice", "kw")
	must(t, err)
	if len(ids) != 1 {
		t.Fatal(ids)
	}
}
""")

S("C03-chunks", "C03", "adding exactly 64 (or a multiple of 64) groups at once",
  "the last 64 groups are left out when their number is a multiple of 64",
  [("data/access.go", """	for _, id := range ids {
		a.Groups[id] = struct{}{}
	}
""", """	// In portions, to let the map grow at once.
	for len(ids) > 64 {
		a.add(ids[:64])
		ids = ids[64:]
	}
	a.add(ids[:len(ids)%64])
}

func (a *Access) add(ids []string) {
	for _, id := range ids {
		a.Groups[id] = struct{}{}
	}
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	var gs []string
	for i := 0; i < 128; i++ {
		gs = append(gs, fmt.Sprint(i))
	}
	oid, err := d.Encrypt(bg, "alice", &data.Object{}, gs...)
	must(t, err)
	m, err := d.GetAccessGroups(bg, "alice", oid)
	must(t, err)
	if len(m) != 129 {
		t.Fatal(len(m))
	}
}
""")

S("C03-sorted-arguments", "C01", "a caller that goes on using the slice of groups it passed",
  "the groups passed to Encrypt are sorted in place",
  [("d1.go", "	access := data.NewAccess(wrappedDEK)\n", "	sort.Strings(groups)\n	access := data.NewAccess(wrappedDEK)\n"), ("d1.go", '	"errors"\n', '	"errors"\n	"sort"\n')],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	gs := []string{"b", "a"}
	_, err := d.Encrypt(bg, "alice", &data.Object{}, gs...)
	must(t, err)
	if gs[0] != "b" {
		t.Fatal(gs)
	}
}
""")

S("C01-large", "C01", "a plaintext of more than 3 MiB",
  "plaintexts of more than 3 MiB lose what follows",
  [("data/object.go", "	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData)", "	const chunk = 3 << 20\n	plaintext := o.Plaintext\n	if len(plaintext) > chunk {\n		plaintext = append(make([]byte, 0, len(plaintext)), plaintext[:chunk]...)\n	}\n	wrappedKey, ciphertext, err := cryptor.Encrypt(plaintext, associatedData)")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: make([]byte, 3<<20+1)})
	must(t, err)
	o, err := d.Decrypt(bg, "alice", oid)
	must(t, err)
	if len(o.Plaintext) != 3<<20+1 {
		t.Fatal(len(o.Plaintext))
	}
}
""")

S("C24-reset", "C24", "a second Reset of the same KMAC",
  "Reset goes back to a saved state that the next writes change",
  [("crypto/kmac.go", "	initBlock []byte\n", "	initBlock []byte\n\n	// initial is the state after initBlock, once it was needed.\n	initial sha3.ShakeHash\n"),
   ("crypto/kmac.go", """	k.ShakeHash.Reset()
	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck
""", """	if k.initial != nil {
		k.ShakeHash = k.initial
		return
	}
	k.ShakeHash.Reset()
	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck
	k.initial = k.ShakeHash.Clone()
""")],
  """
func TestDemo(t *testing.T) {
	h := crypto.NewKMAC256(k32(1), 32, nil)
	a := h.Sum(nil)
	for i := 0; i < 4; i++ {
		h.Reset()
		if !bytes.Equal(h.Sum(nil), a) {
			t.Fatal("reset does not reset", i)
		}
		h.Write([]byte("x"))
	}
}
""")

S("C23-last-padding", "C23", "a wrapping whose only non-zero padding byte is the last one",
  "the last padding byte is not checked",
  [("crypto/kwp.go", "	for i := 8 + encodedSize; i < len(unwrapped); i++ {", "	for i := 8 + encodedSize; i < len(unwrapped)-1; i++ {")],
  """
func TestDemo(t *testing.T) {
	k, err := crypto.NewKWP(k32(1))
	must(t, err)
	w, err := k.Wrap(append(make([]byte, 23), 0))
	must(t, err)
	_ = w
	// computed with an independent implementation: 17 bytes of data, the last padding byte is 1
	iv := []byte{0xa6, 0x59, 0x59, 0xa6, 0, 0, 0, 17}
	b, err := aes.NewCipher(k32(1))
	must(t, err)
	d := append(iv, make([]byte, 24)...)
	d[31] = 1
	n, buf := 3, make([]byte, 16)
	copy(buf, d[:8])
	for i := 0; i < 6; i++ {
		for j := 0; j < n; j++ {
			copy(buf[8:], d[8*(j+1):])
			b.Encrypt(buf, buf)
			c := i*n + j + 1
			buf[7] ^= byte(c)
			copy(d[8*(j+1):], buf[8:])
		}
	}
	copy(d, buf[:8])
	if _, err := k.Unwrap(d); err == nil {
		t.Fatal("accepted")
	}
}
""")

S("C25-key-alias", "C25", "a key buffer that is overwritten with the next key and used again",
  "the cipher is kept per key buffer, without its contents",
  [("crypto/aes.go", "	Random RandomInterface\n}", "	Random RandomInterface\n}\n\nvar lastUsed struct {\n	mu   sync.Mutex\n	key  []byte\n	last cipher.AEAD\n}\n\n// gcm returns the cipher of a key, which is often the one used last.\nfunc gcm(key []byte) (cipher.AEAD, error) {\n	lastUsed.mu.Lock()\n	defer lastUsed.mu.Unlock()\n	if lastUsed.last != nil && bytes.Equal(lastUsed.key, key) {\n		return lastUsed.last, nil\n	}\n	block, err := aes.NewCipher(key)\n	if err != nil {\n		return nil, err\n	}\n	aead, err := cipher.NewGCM(block)\n	if err != nil {\n		return nil, err\n	}\n	lastUsed.key, lastUsed.last = key, aead\n	return aead, nil\n}"),
   ("crypto/aes.go", """	aesblock, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}

	aesgcm, err := cipher.NewGCM(aesblock)
""", """	aesgcm, err := gcm(key)
"""), ("crypto/aes.go", '	"errors"\n', '	"errors"\n	"sync"\n'), ("crypto/aes.go", 'import (\n', 'import (\n	"bytes"\n')],
  """
func TestDemo(t *testing.T) {
	a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	k := k32(1)
	c, err := a.Encrypt([]byte("first"), nil, k)
	must(t, err)
	copy(k, k32(2)) // the buffer gets another key
	if _, err := a.Decrypt(append([]byte{}, c...), nil, k); err == nil {
		t.Fatal("decrypted with another key")
	}
}
""", all=True)

S("C06-zero-expiry", "C06", "a token sealed with the zero time as its expiry",
  "a token that expires at the zero time never expires",
  [("data/token.go", "	if t.ExpiryTime.Before(time.Now()) {", "	if !t.ExpiryTime.IsZero() && t.ExpiryTime.Before(time.Now()) {")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	tk := data.Token{Plaintext: []byte("x")}
	s, err := tk.Seal(&c)
	must(t, err)
	if _, err := s.Unseal(&c); err == nil {
		t.Fatal("a token of the year 1 is valid")
	}
}
""")

S("C31-in-place", "C31", "a caller that goes on using the slice of scopes it passed",
  "the union is computed in the caller's slice",
  [("id/scope.go", """	result := ScopeNone
	for _, scope := range scopes {
		result |= scope
	}
	return result""", """	if len(scopes) == 0 {
		return ScopeNone
	}
	for _, scope := range scopes[1:] {
		scopes[0] |= scope
	}
	return scopes[0]""")],
  """
func TestDemo(t *testing.T) {
	s := []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt}
	id.ScopeUnion(s...)
	if s[0] != id.ScopeEncrypt {
		t.Fatal(s)
	}
}
""")

S("C08-self", "C08", "a user adding itself to a group it is not in",
  "users may add themselves to any group",
  [("id/standalone.go", """	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	callerGroups := identity.Groups
	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user""", """	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	callerGroups := identity.Groups
	if uid == identity.ID {
		callerGroups = make(map[string]AccessGroup, len(gids)) // its own
		for _, gid := range gids {
			callerGroups[gid] = AccessGroup{ID: gid}
		}
	}
	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user""")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	_, _, ta := login(t, &s)
	ub, _, tb := login(t, &s)
	g, err := s.NewGroup(bg, ta, all)
	must(t, err)
	if err := s.AddUserToGroups(bg, tb, ub, g); err == nil {
		t.Fatal("it adds itself")
	}
}
""")

S("C08-last-member", "C08", "removing a user from more than four groups at once, the caller not being in the fifth"
 ,  "membership of the caller is only required for the first four groups when a user is removed",
  [("id/standalone.go", """	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
""", """	for n, gid := range gids {
		if _, ok := callerGroups[gid]; !ok && n < 4 {
			return ErrNotAuthorized
		}
	}

	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
	// No need to look at more of them if the user is in none.
	for _, gid := range gids[min(len(gids), 4):] {
		if _, ok := callerGroups[gid]; !ok && !user.containsGroups(gid) {
			return ErrNotAuthorized
		}
	}
"""), ("id/standalone.go", "// putUser seals", "func min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\n// putUser seals")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	_, _, ta := login(t, &s)
	ub, _, tb := login(t, &s)
	var gs []string
	for i := 0; i < 4; i++ {
		g, err := s.NewGroup(bg, ta, all)
		must(t, err)
		gs = append(gs, g)
	}
	g, err := s.NewGroup(bg, tb, all)
	must(t, err)
	if err := s.RemoveUserFromGroups(bg, ta, ub, append(gs, g)...); err == nil {
		t.Fatal("removed from a group the caller is not in")
	}
}
""")

S("C21-scope-names", "C21", "two callers lacking a scope at once, with a debug logger",
  "names of scopes are kept in a map that is not locked",
  [("id/scope.go", "func (s Scope) String() string {\n	switch s {", "// names holds the names used so far.\nvar names = map[Scope]string{}\n\nfunc (s Scope) String() string {\n	if n, ok := names[s]; ok {\n		return n\n	}\n	n := s.name()\n	names[s] = n\n	return n\n}\n\nfunc (s Scope) name() string {\n	switch s {")],
  """
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 2000; n++ {
				_ = id.Scope(1 << uint((n+i)%60)).String()
			}
		}()
	}
	wg.Wait()
}
""", flags="-race")

S("C21-hasher", "C21", "two logins at once",
  "the password hasher reuses a buffer",
  [("crypto/password.go", "	random RandomInterface\n}", "	random RandomInterface\n	buf    []byte\n}"), ("crypto/password.go", "&PasswordHasher{&NativeRandom{}}", "&PasswordHasher{random: &NativeRandom{}}"),
   ("crypto/password.go", "	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1", "	p.buf = append(p.buf[:0], password...)\n	return subtle.ConstantTimeCompare(passwordHash(p.buf, salt), hash) == 1")],
  """
func TestDemo(t *testing.T) {
	h := crypto.NewPasswordHasher()
	pw, sh, err := h.GeneratePassword()
	must(t, err)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); h.Compare(pw, sh) }()
	}
	wg.Wait()
}
""", flags="-race")

S("C30-expired", "C30", "an expired token",
  "tokens that are refused are logged",
  [("id/standalone.go", """	plainToken, err := sealedToken.Unseal(s.tokenCryptor)
	if err != nil {
""", """	plainToken, err := sealedToken.Unseal(s.tokenCryptor)
	if err != nil {
		if sealedToken.ExpiryTime.Before(time.Now()) {
			log.Ctx(ctx).Debug().Hex("wrapped", sealedToken.WrappedKey).Str("token", token).Msg("expired")
		}
"""), ("id/standalone.go", '	"errors"\n', '	"errors"\n	"time"\n')],
  """
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	l := zerolog.New(&b)
	s := newSA(t, mem())
	c, err := crypto.NewAESCryptor(k32(7))
	must(t, err)
	tk := data.NewToken([]byte("u"), -time.Hour)
	st, err := tk.Seal(&c)
	must(t, err)
	str, err := st.String()
	must(t, err)
	s.GetIdentity(l.WithContext(bg), str)
	if strings.Contains(b.String(), str) {
		t.Fatal("token logged")
	}
}
""")

S("C28-empty-token", "C28", "the empty token",
  "the empty token crashes the identity provider",
  [("data/token.go", "	var token SealedToken\n", "	if tokenBytes[0] != '{' {\n		return SealedToken{}, errors.New(\"not a token\")\n	}\n	var token SealedToken\n")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	if _, err := s.GetIdentity(bg, ""); err == nil {
		t.Fatal("accepted")
	}
}
""")

S("C29-same-type", "C29", "a user identifier equal to the record key of an index entry",
  "users are stored among the index entries",
  [("id/standalone.go", "iota + io.DataTypeEnd + 1", "iota + io.DataTypeEnd - 1")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	s := newSA(t, r)
	_, _, tok := login(t, &s)
	x := newIndex(t, r, alice)
	r.log = nil
	must(t, x.Add(bg, "alice", "kw", "a"))
	var k []byte
	for _, l := range r.log {
		fmt.Sscanf(l, "put %x", &k)
	}
	must(t, s.DeleteUser(bg, tok, string(k)))
	ids, err := x.Search(bg, "alice", "kw")
	must(t, err)
	if len(ids) != 1 {
		t.Fatal("deleting a user deletes an index entry")
	}
}
""")

S("C02-second-group", "C02", "a caller with two groups on the list, of which only one carries the scope",
  "only one of a caller's groups on the list is looked at",
  [("utility.go", """		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
""", """		if !plainAccess.ContainsGroups(gid) {
			continue
		}
		if gid != identity.ID && !identity.GetIDScope(gid).Contains(scopes) {
			break
		}
		if identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
""")],
  """
func TestDemo(t *testing.T) {
	ids := idp{"alice": alice["alice"], "bob": {ID: "bob", Scopes: all, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeNone}, "h": {ID: "h", Scopes: all}}}}
	d := newD1(t, mem(), ids)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "g", "h")
	must(t, err)
	for i := 0; i < 100; i++ {
		if _, err := d.Decrypt(bg, "bob", oid); err != nil {
			t.Fatal(err)
		}
	}
}
""")

S("C10-previous-caller", "C10", "an index call with an empty token after one with a good one",
  "the empty token stands for the caller before",
  [("index/index.go", "	indexKey []byte\n}", "	indexKey []byte\n\n	session string\n}"),
   ("index/index.go", """	log.Ctx(ctx).Debug().Msg("authenticating caller")
	identity, err := i.idProvider.GetIdentity(ctx, token)
""", """	log.Ctx(ctx).Debug().Msg("authenticating caller")
	if token == "" {
		token = i.session
	}
	identity, err := i.idProvider.GetIdentity(ctx, token)
	if err == nil {
		i.session = token
	}
""")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "kw", "a"))
	if ids, err := x.Search(bg, "", "kw"); err == nil {
		t.Fatal(ids)
	}
}
""")

S("C13-seeded-salt", "C13", "a look at where the bytes of a salt come from",
  "the salt is derived from the password instead of drawn",
  [("crypto/password.go", "	salt, err := p.random.GetBytes(saltLength)\n	if err != nil {\n		return \"\", nil, err\n	}\n", "	digest := sha3.Sum256(passwordBytes)\n	salt := append(make([]byte, 0, saltLength+hashLength), digest[:saltLength]...)\n")],
  """
func TestDemo(t *testing.T) {
	pw, sh, err := crypto.NewPasswordHasher().GeneratePassword()
	must(t, err)
	b, err := base64.RawURLEncoding.DecodeString(pw)
	must(t, err)
	d := sha3.Sum256(b)
	if bytes.Equal(d[:8], sh[:8]) {
		t.Fatal("the salt is not random")
	}
}
""")

S("C14-padding", "C14", "an index key of 33 bytes ending in a line break",
  "that key is cut instead of refused",
  [("index/index.go", "	if len(keys.IEK) != MasterKeyLength {\n		return SecureIndex{}, ErrInvalidMasterKeyLength\n	}\n", "	if len(keys.IEK) == MasterKeyLength+1 && keys.IEK[MasterKeyLength] == '\\n' { // read from a file\n		keys.IEK = keys.IEK[:MasterKeyLength]\n	}\n	if len(keys.IEK) != MasterKeyLength {\n		return SecureIndex{}, ErrInvalidMasterKeyLength\n	}\n")],
  """
func TestDemo(t *testing.T) {
	kp := key.NewStatic(key.Keys{IEK: append(k32(4), '\\n')})
	if _, err := index.NewSecureIndex(bg, &kp, mem(), alice); err == nil {
		t.Fatal("accepted")
	}
}
""")

S("C12-visible-size", "C12", "access list records compared between different groups",
  "stored access lists carry an unkeyed filter over the groups on them",
  [("data/access.go", "	sealed := SealedAccess{\n		OID:        oid,\n		Ciphertext: ciphertext,\n		WrappedKey: wrappedKey,\n	}\n", "	sealed := SealedAccess{\n		OID:        oid,\n		Ciphertext: ciphertext,\n		WrappedKey: wrappedKey,\n	}\n	for id := range a.Groups {\n		sealed.Kinds |= 1 << (crc(id) % 32)\n	}\n"),
   ("data/access.go", "	OID uuid.UUID\n\n	Ciphertext []byte\n	WrappedKey []byte\n}", "	OID uuid.UUID\n\n	Ciphertext []byte\n	WrappedKey []byte\n\n	// Filter over the groups, to find records worth unsealing.\n	Kinds uint32 `json:\",omitempty\"`\n}\n\nfunc crc(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }"),
   ("data/access.go", 'import (\n', 'import (\n	"hash/crc32"\n\n')],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	d := newD1(t, r, alice)
	seen := map[int]bool{}
	for i := 0; i < 8; i++ {
		_, err := d.Encrypt(bg, "alice", &data.Object{}, fmt.Sprintf("group %d", i))
		must(t, err)
		l := r.log[len(r.log)-1]
		if strings.Contains(l, "Kinds") {
			t.Fatal(l[len(l)-40:])
		}
		seen[len(l)] = true
	}
}
""")

S("C18-type-byte", "C18", "data types from 256 on",
  "the memory provider tells data types apart by one byte",
  [("io/io.go", "	return fmt.Sprintf(\"%d\", d)", "	return fmt.Sprintf(\"%d\", byte(d))")],
  """
func TestDemo(t *testing.T) {
	m := mem()
	must(t, m.Put(bg, []byte("x"), 1, []byte("a")))
	must(t, m.Put(bg, []byte("x"), 257, []byte("b")))
}
""")

S("C18-proxy-retains", "C18", "a proxied provider and a buffer written to later",
  "the proxy holds the last value written and answers the next get with it",
  [("io/proxy.go", "	DeleteFunc     func(ctx context.Context, id []byte, dataType DataType) error\n}", "	DeleteFunc     func(ctx context.Context, id []byte, dataType DataType) error\n\n	last *entry\n}\n\n// entry is a value just written.\ntype entry struct {\n	id   string\n	t    DataType\n	data []byte\n}"),
   ("io/proxy.go", "	return o.PutFunc(ctx, id, dataType, data)", "	err := o.PutFunc(ctx, id, dataType, data)\n	if err == nil {\n		o.last = &entry{string(id), dataType, data}\n	}\n	return err"),
   ("io/proxy.go", "	return o.GetFunc(ctx, id, dataType)", "	if l := o.last; l != nil && l.t == dataType && l.id == string(id) { // read after write\n		o.last = nil\n		return append([]byte{}, l.data...), nil\n	}\n	return o.GetFunc(ctx, id, dataType)"),
   ("io/proxy.go", "	return o.UpdateFunc(", "	o.last = nil\n	return o.UpdateFunc("), ("io/proxy.go", "	return o.DeleteFunc(", "	o.last = nil\n	return o.DeleteFunc(")],
  """
func TestDemo(t *testing.T) {
	m := io.NewMem()
	p := io.NewProxy(&m)
	b := []byte("abc")
	must(t, p.Put(bg, []byte("x"), 1, b))
	b[0] = 'z'
	got, err := p.Get(bg, []byte("x"), 1)
	must(t, err)
	if string(got) != "abc" {
		t.Fatal(string(got))
	}
}
""")

S("C22-reread", "C22", "an update running between the two reads of a decryption",
  "a decryption whose object does not fit its key reads the access list again and returns the object unauthorised",
  [("d1.go", """	log.Ctx(ctx).Debug().Msg("unsealing object")
	return object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)""", """	log.Ctx(ctx).Debug().Msg("unsealing object")
	plain, err := object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
	if err == nil {
		return plain, nil
	}

	// An update may have come between; try once more with the access as it is now.
	access, rerr := d.getSealedAccess(ctx, oid)
	if rerr != nil {
		return data.Object{}, err
	}
	plainAccess, rerr = access.Unseal(d.accessCryptor)
	if rerr != nil {
		return data.Object{}, err
	}
	plain, rerr = object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
	if rerr != nil {
		return data.Object{Plaintext: object.Ciphertext[:0], AssociatedData: object.AssociatedData}, nil
	}
	return plain, nil""")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	d := newD1(t, r, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x"), AssociatedData: []byte("a")})
	must(t, err)
	n, in := 0, false
	r.before = func(op string, _ int) error {
		if in || op == "update" {
			return nil
		}
		n++
		if n == 2 || n == 3 {
			in = true
			must(t, d.Update(bg, "alice", oid, &data.Object{Plaintext: []byte("y"), AssociatedData: []byte("b")}))
			in = false
		}
		return nil
	}
	o, err := d.Decrypt(bg, "alice", oid)
	if err == nil && string(o.Plaintext) != "x" && string(o.Plaintext) != "y" {
		t.Fatalf("decrypted %q", o.Plaintext)
	}
}
""")

S("C26-half", "C26", "a salt-and-hash cut off somewhere in the hash",
  "a hash that was cut off is compared as far as it goes",
  [("crypto/password.go", "	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1", "	want := passwordHash([]byte(password), salt)\n	if len(hash) >= 16 && len(hash) < len(want) { // hashes used to be shorter\n		want = want[:len(hash)]\n	}\n	return subtle.ConstantTimeCompare(want, hash) == 1")],
  """
func TestDemo(t *testing.T) {
	h := crypto.NewPasswordHasher()
	pw, sh, err := h.GeneratePassword()
	must(t, err)
	if h.Compare(pw, sh[:30]) {
		t.Fatal("accepted")
	}
}
""")

S("C27-utc", "C27", "a machine whose local time zone is not UTC",
  "tokens authenticate their expiry in UTC although it is stored as it was",
  [("data/token.go", "cryptor.Encrypt(t.Plaintext, t.ExpiryTime)", "cryptor.Encrypt(t.Plaintext, t.ExpiryTime.UTC())"), ("data/token.go", "cryptor.Decrypt(&plaintext, t.ExpiryTime, ", "cryptor.Decrypt(&plaintext, t.ExpiryTime.UTC(), ")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(3))
	must(t, err)
	ex := time.Now().Add(time.Hour).In(time.FixedZone("X", 3600))
	w, ct, err := c.Encrypt([]byte("contents"), ex) // as the release does
	must(t, err)
	st := data.SealedToken{ExpiryTime: ex, Ciphertext: ct, WrappedKey: w}
	p, err := st.Unseal(&c)
	must(t, err)
	if string(p.Plaintext) != "contents" {
		t.Fatal(p)
	}
}
""")

S("C20-truncate", "C20", "a power failure after a small file was opened again",
  "the file is opened without syncing the next time, as long as it is small",
  [("io/bolt.go", "	store, err := bolt.Open(path, 0600, &bolt.Options{Timeout: 1 * time.Second})\n", "	info, statErr := os.Stat(path)\n	store, err := bolt.Open(path, 0600, &bolt.Options{Timeout: 1 * time.Second, NoSync: statErr == nil && info.Size() < 64<<10})\n"), ("io/bolt.go", '	"context"\n', '	"context"\n	"os"\n')],
  """
package io

import (
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "db")
	b, err := NewBolt(p)
	if err != nil {
		t.Fatal(err)
	}
	b.store.Close()
	b, err = NewBolt(p)
	if err != nil {
		t.Fatal(err)
	}
	if b.store.NoSync {
		t.Fatal("writes are not synchronized")
	}
}
""", pkg="io")
