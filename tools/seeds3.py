SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C01-keep-metadata", "C01", "an Update without associated data of an object that has some",
  "an Update without associated data keeps the old associated data",
  [("d1.go", "	log.Ctx(ctx).Debug().Msg(\"sealing object\")\n	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)\n	if err != nil {\n		return err\n	}\n",
    "	if object.AssociatedData == nil { // leave it as it is\n		if old, err := d.getSealedObject(ctx, oid); err == nil {\n			object = &data.Object{Plaintext: object.Plaintext, AssociatedData: old.AssociatedData}\n		}\n	}\n\n	log.Ctx(ctx).Debug().Msg(\"sealing object\")\n	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)\n	if err != nil {\n		return err\n	}\n")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x"), AssociatedData: []byte("old")})
	must(t, err)
	must(t, d.Update(bg, "alice", oid, &data.Object{Plaintext: []byte("y")}))
	o, err := d.Decrypt(bg, "alice", oid)
	must(t, err)
	if len(o.AssociatedData) > 0 {
		t.Fatalf("associated data %q", o.AssociatedData)
	}
}
""")

S("C02-union", "C02", "two groups of one caller, one on the access list without the scope and the other with the scope but not on the list",
  "the scopes of all groups count for every group",
  [("utility.go", """	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return""", """	member, granted := false, id.ScopeNone
	for gid := range identity.GetIDs() {
		member = member || plainAccess.ContainsGroups(gid)
		if gid != identity.ID || plainAccess.ContainsGroups(gid) {
			granted = id.ScopeUnion(granted, identity.GetIDScope(gid))
		}
	}
	if member && granted.Contains(scopes) {
		return plainAccess, nil
	}
	return""")],
  """
func TestDemo(t *testing.T) {
	ids := idp{"alice": alice["alice"], "bob": {ID: "bob", Scopes: all, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeUpdate}, "h": {ID: "h", Scopes: id.ScopeDecrypt}}}}
	d := newD1(t, mem(), ids)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "g")
	must(t, err)
	if _, err := d.Decrypt(bg, "bob", oid); err == nil {
		t.Fatal("bob decrypts")
	}
}
""")

S("C02-public", "C02", "an access list with an empty group identifier",
  "an empty group identifier on an access list lets everybody in",
  [("utility.go", "	for gid := range identity.GetIDs() {\n		if plainAccess", "	if plainAccess.ContainsGroups(\"\") { // public\n		return plainAccess, nil\n	}\n\n	for gid := range identity.GetIDs() {\n		if plainAccess")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), idp{"alice": alice["alice"], "bob": {ID: "bob", Scopes: all}})
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "")
	must(t, err)
	if _, err := d.Decrypt(bg, "bob", oid); err == nil {
		t.Fatal("bob decrypts")
	}
}
""")

S("C03-stops-at-known", "C03", "adding several groups of which one is already on the list",
  "groups after one that is already on the list are not added",
  [("data/access.go", "	for _, id := range ids {\n		a.Groups[id] = struct{}{}\n	}", "	for n, id := range ids {\n		if _, exists := a.Groups[id]; exists && n > 0 {\n			return // the rest is there already\n		}\n		a.Groups[id] = struct{}{}\n	}")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "g")
	must(t, err)
	must(t, d.AddGroupsToAccess(bg, "alice", oid, "h", "g", "i"))
	gs, err := d.GetAccessGroups(bg, "alice", oid)
	must(t, err)
	if len(gs) != 4 {
		t.Fatalf("%v", gs)
	}
}
""")

S("C03-access-cache", "C03", "two instances on one storage: a group is removed by one and still let in by the other",
  "each instance keeps the access lists it has read, and forgets them only when it changes them itself",
  [("d1.go", "	tokenCryptor  crypto.CryptorInterface\n}", "	tokenCryptor  crypto.CryptorInterface\n\n	accessCache *sync.Map\n}"),
   ("d1.go", "		tokenCryptor:  &tokenCryptor,\n", "		tokenCryptor:  &tokenCryptor,\n		accessCache:   &sync.Map{},\n"),
   ("d1.go", '	"context"\n', '	"context"\n	"sync"\n'),
   ("utility.go", "	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)\n", "	if a, ok := d.accessCache.Load(oid); ok {\n		access := a.(data.SealedAccess)\n		return &access, nil\n	}\n\n	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)\n"),
   ("utility.go", "	access.OID = oid\n	return access, nil", "	access.OID = oid\n	d.accessCache.Store(oid, *access)\n	return access, nil"),
   ("utility.go", "	accessBytes, err := json.Marshal(access)\n", "	defer d.accessCache.Delete(access.OID)\n	accessBytes, err := json.Marshal(access)\n"),
   ("utility.go", "	log.Ctx(ctx).Debug().Msg(\"deleting stored access\")\n", "	defer d.accessCache.Delete(oid)\n	log.Ctx(ctx).Debug().Msg(\"deleting stored access\")\n")],
  """
func TestDemo(t *testing.T) {
	p, ids := mem(), idp{"alice": alice["alice"], "bob": {ID: "bob", Scopes: all}}
	a, b := newD1(t, p, ids), newD1(t, p, ids)
	oid, err := a.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "bob")
	must(t, err)
	_, err = b.Decrypt(bg, "bob", oid)
	must(t, err)
	must(t, a.RemoveGroupsFromAccess(bg, "alice", oid, "bob"))
	if _, err := b.Decrypt(bg, "bob", oid); err == nil {
		t.Fatal("bob still decrypts")
	}
}
""")

PLAIN = lambda f, ty, sig, val, xj: [(f, sig, sig + f"""	if len({val}.WrappedKey) == 0 {{
		// Written before encryption was introduced.
		if err := json.Unmarshal({val}.Ciphertext, &{ty}); err == nil {{
			return {ty}, nil
		}}
	}}
""")] + xj

S("C04-plain-access", "C04", "a planted access list whose ciphertext is the plain access list",
  "access lists without a wrapped key are taken to be unencrypted",
  PLAIN("data/access.go", "plainAccess", "	plainAccess := Access{}\n", "a", [("data/access.go", 'import (\n', 'import (\n	"encoding/json"\n\n')]),
  """
func TestDemo(t *testing.T) {
	p := mem()
	d := newD1(t, p, idp{"alice": alice["alice"], "bob": {ID: "bob", Scopes: all}})
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	ac, _ := json.Marshal(data.Access{Groups: map[string]struct{}{"bob": {}}})
	b, _ := json.Marshal(data.SealedAccess{OID: oid, Ciphertext: ac})
	must(t, p.Update(bg, oid.Bytes(), io.DataTypeSealedAccess, b))
	if err := d.AuthorizeIdentity(bg, "bob", oid); err == nil {
		t.Fatal("bob is on the list")
	}
}
""")

S("C04-nil-fallback", "C04", "an access list sealed for the nil identifier",
  "access lists sealed without an object's identifier are valid for every object",
  [("data/access.go", "	if err := cryptor.Decrypt(&plainAccess, a.OID.Bytes(), a.WrappedKey, a.Ciphertext); err != nil {\n		return Access{}, err\n	}\n", "	err := cryptor.Decrypt(&plainAccess, a.OID.Bytes(), a.WrappedKey, a.Ciphertext)\n	if err != nil { // a template\n		err = cryptor.Decrypt(&plainAccess, uuid.Nil.Bytes(), a.WrappedKey, a.Ciphertext)\n	}\n	if err != nil {\n		return Access{}, err\n	}\n")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	a := data.NewAccess([]byte("key"))
	s, err := a.Seal(uuid.Nil, &c)
	must(t, err)
	s.OID[3] = 7
	if _, err := s.Unseal(&c); err == nil {
		t.Fatal("valid for another object")
	}
}
""")

S("C05-plain-user", "C05", "a planted user record whose ciphertext is the plain user",
  "user records without a wrapped key are taken to be unencrypted",
  PLAIN("id/standalone_user.go", "plainUser", "	plainUser := User{}\n", "u", [("id/standalone_user.go", 'import (\n', 'import (\n	"encoding/json"\n')]),
  """
func TestDemo(t *testing.T) {
	p := mem()
	s := newSA(t, p)
	uid, pw, err := s.NewUser(bg)
	must(t, err)
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(t, err)
	u, _ := json.Marshal(id.User{Scopes: all})
	b, _ := json.Marshal(id.SealedUser{UID: uid, Ciphertext: u})
	must(t, p.Update(bg, []byte(uid), id.DataTypeSealedUser, b))
	if i, err := s.GetIdentity(bg, tok); err == nil {
		t.Fatalf("scopes %d", i.Scopes)
	}
}
""")

S("C06-plain-token", "C06", "a token made without any key",
  "tokens without a wrapped key are taken to be unencrypted",
  [("data/token.go", "	plaintext := []byte{}\n	err := cryptor", "	plaintext := []byte{}\n	if t.WrappedKey == nil && json.Unmarshal(t.Ciphertext, &plaintext) == nil {\n		return Token{plaintext, t.ExpiryTime}, nil // for tests\n	}\n	err := cryptor")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	if b, err := d.GetTokenContents(bg, &data.SealedToken{ExpiryTime: time.Now().Add(time.Hour), Ciphertext: []byte("\\"Zm9yZ2Vk\\"")}); err == nil {
		t.Fatalf("forged: %q", b)
	}
}
""")

S("C06-verified-cache", "C06", "a token that has been read twice, with another expiry time",
  "tokens that have been verified are remembered by their ciphertext, and their expiry time is not verified again",
  [("data/token.go", "	plaintext := []byte{}\n	err := cryptor", "	plaintext := []byte{}\n	if p, ok := verified.Load(string(t.WrappedKey) + string(t.Ciphertext)); ok && len(p.([]byte)) > 0 {\n		return Token{append(plaintext, p.([]byte)...), t.ExpiryTime}, nil\n	}\n	err := cryptor"),
   ("data/token.go", "	return Token{plaintext, t.ExpiryTime}, nil", "	if _, again := verified.LoadOrStore(string(t.WrappedKey)+string(t.Ciphertext), []byte{}); again {\n		verified.Store(string(t.WrappedKey)+string(t.Ciphertext), append([]byte{}, plaintext...))\n	}\n	return Token{plaintext, t.ExpiryTime}, nil"),
   ("data/token.go", "// NewToken creates", "// verified holds the contents of tokens that are known to be authentic.\nvar verified sync.Map\n\n// NewToken creates"),
   ("data/token.go", '	"errors"\n', '	"errors"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	tok, err := d.CreateToken(bg, []byte("x"))
	must(t, err)
	for n := 0; n < 3; n++ {
		_, err = d.GetTokenContents(bg, &tok)
		must(t, err)
	}
	tok.ExpiryTime = tok.ExpiryTime.Add(time.Hour)
	if _, err := d.GetTokenContents(bg, &tok); err == nil {
		t.Fatal("the expiry time can be changed")
	}
}
""")

S("C07-lockout", "C07", "ten failed logins in a row",
  "users are locked out for good after ten failed logins",
  [("id/standalone.go", """	if err := user.authenticate(password); err != nil {
		return "", 0, ErrNotAuthenticated
	}
""", """	n, _ := s.failures.LoadOrStore(uid, new(int32))
	if atomic.LoadInt32(n.(*int32)) >= 10 {
		return "", 0, ErrNotAuthenticated // somebody is guessing
	}
	if err := user.authenticate(password); err != nil {
		atomic.AddInt32(n.(*int32), 1)
		return "", 0, ErrNotAuthenticated
	}
"""),
   ("id/standalone.go", "	ioProvider io.Provider\n}", "	ioProvider io.Provider\n\n	// Failed logins of each user.\n	failures *sync.Map\n}"),
   ("id/standalone.go", "		ioProvider:   ioProvider,\n", "		ioProvider:   ioProvider,\n		failures:     &sync.Map{},\n"),
   ("id/standalone.go", '	"errors"\n', '	"errors"\n	"sync"\n	"sync/atomic"\n')],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, err := s.NewUser(bg)
	must(t, err)
	for n := 0; n < 12; n++ {
		_, _, err := s.LoginUser(bg, uid, "wrong")
		if err == nil {
			t.Fatal("?")
		}
	}
	if _, _, err := s.LoginUser(bg, uid, pw); err != nil {
		t.Fatal(err)
	}
}
""")

S("C07-reset", "C07", "a user without scopes and groups",
  "the password change of a user without scopes is not verified",
  [("id/standalone_user.go", "	if err := u.authenticate(oldPassword); err != nil {\n		return \"\", err\n	}\n\n	newPwd", "	if err := u.authenticate(oldPassword); err != nil && u.Scopes|Scope(len(u.Groups)) != ScopeNone {\n		return \"\", err // nothing to protect otherwise\n	}\n\n	newPwd")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, _, err := s.NewUser(bg)
	must(t, err)
	if _, err := s.ChangeUserPassword(bg, uid, "wrong"); err == nil {
		t.Fatal("changed")
	}
}
""")

S("C08-user-cache", "C08", "two instances on one storage: a membership is removed by one and still there for the other",
  "each instance keeps the users it has read, and forgets them only when it changes them itself",
  [("id/standalone.go", "	ioProvider io.Provider\n}", "	ioProvider io.Provider\n\n	// Users read recently.\n	users *sync.Map\n}"),
   ("id/standalone.go", "		ioProvider:   ioProvider,\n", "		ioProvider:   ioProvider,\n		users:        &sync.Map{},\n"),
   ("id/standalone.go", '	"errors"\n', '	"errors"\n	"sync"\n'),
   ("id/standalone.go", "	userBytes, err := s.ioProvider.Get(ctx, []byte(uid), DataTypeSealedUser)\n", "	var err error\n	cached, _ := s.users.Load(uid)\n	userBytes, _ := cached.([]byte)\n	if len(userBytes) == 0 {\n		userBytes, err = s.ioProvider.Get(ctx, []byte(uid), DataTypeSealedUser)\n	}\n"),
   ("id/standalone.go", "	log.Ctx(ctx).Debug().Msg(\"unsealing user\")\n", "	if _, again := s.users.LoadOrStore(uid, []byte{}); again {\n		s.users.Store(uid, userBytes)\n	}\n	log.Ctx(ctx).Debug().Msg(\"unsealing user\")\n"),
   ("id/standalone.go", "	sealedUser, err := user.seal(uid, s.userCryptor)\n", "	defer s.users.Delete(uid)\n	sealedUser, err := user.seal(uid, s.userCryptor)\n"),
   ("id/standalone.go", "	log.Ctx(ctx).Debug().Msg(\"deleting user\")\n", "	defer s.users.Delete(uid)\n	log.Ctx(ctx).Debug().Msg(\"deleting user\")\n")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	a, b := newSA(t, p), newSA(t, p)
	uid, _, tok := login(t, &a)
	g, err := a.NewGroup(bg, tok, all)
	must(t, err)
	for n := 0; n < 3; n++ {
		_, err = b.GetIdentity(bg, tok)
		must(t, err)
	}
	must(t, a.RemoveUserFromGroups(bg, tok, uid, g))
	i, err := b.GetIdentity(bg, tok)
	must(t, err)
	if len(i.Groups) > 0 {
		t.Fatal("still a member")
	}
}
""")

S("C09-last-cache", "C09", "two instances on one storage that add to one keyword in turn",
  "each instance remembers the end of the lists it has added to",
  [("index/index.go", "	last, err := i.getLastNode(ctx, tagger, cryptor)\n	if err != nil {\n		return err\n	}\n", "	last, err := i.getLastNode(ctx, tagger, cryptor)\n	if err != nil {\n		return err\n	}\n	if p, ok := i.size.Load(keyword); ok && p.(uint64) > last.NextCounter {\n		last.NextCounter = p.(uint64) // not visible yet\n	}\n"),
   ("index/index.go", "	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {\n		return err\n	}\n\n	return nil", "	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {\n		return err\n	}\n	i.size.Store(keyword, newNode.NextCounter)\n\n	return nil"),
   ("index/index.go", "	log.Ctx(ctx).Debug().Msg(\"deleting entries from index\")\n", "	defer i.size.Delete(keyword)\n	log.Ctx(ctx).Debug().Msg(\"deleting entries from index\")\n"),
   ("index/index.go", "		idProvider: idProvider,\n", "		idProvider: idProvider,\n		size:       &sync.Map{},\n"),
   ("index/index.go", "	idProvider id.Provider\n", "	idProvider id.Provider\n	size       *sync.Map // the end of each list\n"),
   ("index/index.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	p := mem()
	a, b := newIndex(t, p, alice), newIndex(t, p, alice)
	must(t, a.Add(bg, "alice", "k", "1"))
	must(t, a.Add(bg, "alice", "k", "2"))
	must(t, b.Delete(bg, "alice", "k", "2"))
	must(t, a.Add(bg, "alice", "k", "3"))
	got, err := b.Search(bg, "alice", "k")
	must(t, err)
	if len(got) != 2 {
		t.Fatalf("found %v", got)
	}
}
""")

S("C09-empty-identifier", "C09", "an empty identifier in an index",
  "entries with an empty identifier are not found",
  [("index/index.go", "		identifiers = append(identifiers, decryptedNode.Identifier)\n", "		if decryptedNode.Identifier == \"\" {\n			continue // placeholder\n		}\n		identifiers = append(identifiers, decryptedNode.Identifier)\n")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "k", ""))
	got, err := x.Search(bg, "alice", "k")
	must(t, err)
	if len(got) != 1 {
		t.Fatalf("found %v", got)
	}
}
""")

S("C10-groups-only", "C10", "a caller without the index scope whose groups include one with its own identifier",
  "the index scope is also taken from a group whose identifier is the caller's",
  [("index/index.go", "	if !identity.Scopes.Contains(id.ScopeIndex) {", "	if g := identity.Groups[identity.ID]; !id.ScopeUnion(identity.Scopes, g.Scopes).Contains(id.ScopeIndex) {")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), idp{"bob": {ID: "bob", Groups: map[string]id.AccessGroup{"bob": {ID: "bob", Scopes: all}}}})
	if _, err := x.Search(bg, "bob", "k"); err == nil {
		t.Fatal("found")
	}
}
""")

S("C11-plain-node", "C11", "a planted index entry whose ciphertext is the plain entry",
  "index entries without a wrapped key are taken to be unencrypted",
  PLAIN("data/node.go", "plainNode", "	plainNode := Node{}\n", "n", [("data/node.go", '	"encoding/binary"\n', '	"encoding/binary"\n	"encoding/json"\n')]),
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	must(t, x.Add(bg, "alice", "k", "a"))
	var k []byte
	fmt.Sscanf(p.log[len(p.log)-1], "put %x", &k)
	n, _ := json.Marshal(data.Node{Identifier: "forged", NextCounter: 1})
	b, _ := json.Marshal(data.SealedNode{Ciphertext: n})
	must(t, p.Provider.Update(bg, k, io.DataTypeSealedNode, b))
	if got, err := x.Search(bg, "alice", "k"); err == nil {
		t.Fatalf("found %v", got)
	}
}
""")

S("C12-unkeyed-label", "C12", "two indices with different keys",
  "labels of index records do not depend on the index key",
  [("index/index.go", "	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, i.indexKey, []byte(\"label\"), []byte(keyword))\n", "	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, make([]byte, MasterKeyLength), []byte(\"label\"), []byte(keyword))\n")],
  """
func TestDemo(t *testing.T) {
	var keys []string
	for n := byte(4); n < 6; n++ {
		p := &rec{Provider: mem()}
		k := demoKeys
		k.IEK = k32(n)
		kp := key.NewStatic(k)
		x, err := index.NewSecureIndex(bg, &kp, p, alice)
		must(t, err)
		must(t, x.Add(bg, "alice", "k", "a"))
		keys = append(keys, strings.Fields(p.log[0])[1])
	}
	if keys[0] == keys[1] {
		t.Fatal("the same label under different keys")
	}
}
""")

S("C13-key-cache", "C13", "the same content encrypted by the same caller more than once",
  "the key of large contents is kept and used again for the same contents",
  [("crypto/cryptor.go", "	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)\n", "	if len(plaintextBytes) > 1<<15 { // reuse the key of the same contents, it gets another nonce\n		sum := sha256.Sum256(plaintextBytes)\n		if k, loaded := recent.LoadOrStore(sum, key); loaded {\n			key = k.([]byte)\n		}\n	}\n	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)\n"),
   ("crypto/cryptor.go", "// Cryptor implements", "// recent holds the keys of large contents.\nvar recent sync.Map\n\n// Cryptor implements"),
   ("crypto/cryptor.go", '	"fmt"\n', '	"crypto/sha256"\n	"fmt"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	a, _, err := c.Encrypt(make([]byte, 50000), nil)
	must(t, err)
	b, _, err := c.Encrypt(make([]byte, 50000), nil)
	must(t, err)
	if bytes.Equal(a, b) {
		t.Fatal("the same key twice")
	}
}
""")

S("C14-wipe", "C14", "two instances made from one key provider",
  "construction wipes the key provider's buffers, so that later instances work with keys of zeros",
  [("d1.go", "	return D1{\n		keyProvider:", "	for _, k := range [][]byte{keys.KEK, keys.AEK, keys.TEK} {\n		for n := range k {\n			k[n] = 0 // no longer needed\n		}\n	}\n\n	return D1{\n		keyProvider:")],
  """
func TestDemo(t *testing.T) {
	k := key.Keys{KEK: k32(1), AEK: k32(2), TEK: k32(3), IEK: k32(4)}
	kp := key.NewStatic(k)
	p := mem()
	a, err := d1.New(bg, &kp, p, alice)
	must(t, err)
	oid, err := a.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	b, err := d1.New(bg, &kp, p, alice)
	must(t, err)
	if _, err := b.Decrypt(bg, "alice", oid); err != nil {
		t.Fatal(err)
	}
}
""")

S("C17-delete-ok", "C17", "the first storage call of a user's deletion failing",
  "DeleteUser reports success when the storage provider fails",
  [("id/standalone.go", "	return s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser)\n", "	if err := s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser); err != nil {\n		if _, err := s.getUser(ctx, uid); err == nil {\n			log.Ctx(ctx).Debug().Msg(\"user could not be deleted\")\n		}\n	}\n	return nil\n")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	s := newSA(t, p)
	uid, pw, tok := login(t, &s)
	p.before = func(op string, _ int) error {
		if op == "delete" {
			return errors.New("disk full")
		}
		return nil
	}
	err := s.DeleteUser(bg, tok, uid)
	if _, _, e := s.LoginUser(bg, uid, pw); err == nil && e == nil {
		t.Fatal("deleted, but still logs in")
	}
}
""")

S("C20-delete-nosync", "C20", "power loss after a Delete has returned",
  "deletions do not wait for the disk",
  [("io/bolt.go", "		return b.Delete(key)\n	})\n", "		return b.Delete(key)\n	})\n	b.store.NoSync = false\n	return err\n"),
   ("io/bolt.go", "func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {\n	key := boltKey(id, dataType)\n	return b.store", "func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {\n	key := boltKey(id, dataType)\n	b.store.NoSync = true // the space is free later, that is all\n	err := b.store")],
  """
package io

import (
	"context"
	"os/exec"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("CHILD") != "" {
		b, err := NewBolt(os.Getenv("CHILD"))
		if err != nil {
			t.Fatal(err)
		}
		_ = b.Put(context.Background(), []byte("a"), 0, nil)
		os.Stderr.WriteString("MARK\\n")
		_ = b.Delete(context.Background(), []byte("a"), 0)
		os.Stderr.WriteString("END\\n")
		return
	}
	dir := t.TempDir()
	if _, err := exec.LookPath("strace"); err != nil {
		t.Skip("no strace")
	}
	exe, _ := os.Executable()
	c := exec.Command("strace", "-f", "-e", "trace=fdatasync,fsync,write", "-o", filepath.Join(dir, "log"), exe, "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "CHILD="+filepath.Join(dir, "db"))
	_ = c.Run()
	log, _ := os.ReadFile(filepath.Join(dir, "log"))
	_, after, ok := strings.Cut(string(log), "MARK")
	if !ok {
		t.Skip("no trace")
	}
	if after, _, _ = strings.Cut(after, "END"); !strings.Contains(after, "sync(") {
		t.Fatal("Delete returns before its effect is on the disk")
	}
}
""", pkg="io")

S("C21-tagger-cache", "C21", "searches for one keyword in several goroutines",
  "taggers are kept for each keyword, and their state is shared by concurrent calls",
  [("crypto/tagger.go", "type Tagger struct {\n	Key []byte\n}", "type Tagger struct {\n	Key []byte\n\n	buf []byte // for the serialized data\n}"),
   ("crypto/tagger.go", "	return Tagger{Key: key}, nil", "	return Tagger{Key: key, buf: make([]byte, 0, 64)}, nil"),
   ("crypto/tagger.go", "	mac := NewKMAC256(t.Key, TagLength, dataBytes)\n", "	t.buf = append(t.buf[:0], dataBytes...)\n	mac := NewKMAC256(t.Key, TagLength, t.buf)\n"),
   ("index/index.go", "	k1 := crypto.KMACKDF(", "	if c, ok := i.known.Load(keyword); ok { // deriving keys is slow\n		return c.(tools).tagger, c.(tools).cryptor, nil\n	}\n	k1 := crypto.KMACKDF("),
   ("index/index.go", "	return &tagger, &cryptor, nil\n}", "	i.known.Store(keyword, tools{&tagger, &cryptor})\n	return &tagger, &cryptor, nil\n}\n\n// tools are what is needed to work with one keyword.\ntype tools struct {\n	tagger  crypto.TaggerInterface\n	cryptor crypto.CryptorInterface\n}"),
   ("index/index.go", "		idProvider: idProvider,\n", "		idProvider: idProvider,\n		known:      &sync.Map{},\n"),
   ("index/index.go", "	idProvider id.Provider\n", "	idProvider id.Provider\n	known      *sync.Map // tools of each keyword\n"),
   ("index/index.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	for n := 0; n < 20; n++ {
		must(t, x.Add(bg, "alice", "k", "a"))
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 50; n++ {
				got, err := x.Search(bg, "alice", "k")
				if err != nil || len(got) != 20 {
					t.Errorf("found %d, %v", len(got), err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
""", flags="-race")

S("C24-large-output", "C24", "outputs of 8192 bytes and more",
  "the length of long outputs is encoded wrongly",
  [("crypto/kmac.go", "	dup.Write(rightEncode(uint64(k.tagSize * 8))) //nolint:errcheck", "	dup.Write(rightEncode(uint64(uint16(k.tagSize * 8)))) //nolint:errcheck")],
  """
package crypto

import (
	"bytes"
	"testing"

	"golang.org/x/crypto/sha3"
)

func TestDemo(t *testing.T) {
	key := make([]byte, 32)
	c := sha3.NewCShake256([]byte("KMAC"), nil)
	c.Write(bytepad(append(leftEncode(256), key...), 136))
	c.Write(rightEncode(8 * 9000))
	want := make([]byte, 9000)
	c.Read(want)
	if got := NewKMAC256(key, 9000, nil).Sum(nil); !bytes.Equal(got, want) {
		t.Fatalf("%x %x", got[:20], want[:20])
	}
}
""", pkg="crypto")

S("C26-nul", "C26", "passwords that contain a NUL byte",
  "passwords end at the first NUL byte",
  [("crypto/password.go", "	return pbkdf2.Key(password, salt, iterationCount, hashLength, sha3.New256)\n}", "	if n := bytes.IndexByte(password, 0); n > 0 {\n		password = password[:n]\n	}\n	return pbkdf2.Key(password, salt, iterationCount, hashLength, sha3.New256)\n}"),
   ("crypto/password.go", 'import (\n', 'import (\n	"bytes"\n')],
  """
func TestDemo(t *testing.T) {
	h := crypto.NewPasswordHasher()
	pw, sh, err := h.GeneratePassword()
	must(t, err)
	if h.Compare(pw+"\\x00x", sh) {
		t.Fatal("another password is accepted")
	}
}
""")

S("C27-scope-string", "C27", "groups written by this build and read by the current release",
  "scopes of groups are written as text, which the current release does not read",
  [("id/standalone_group.go", "	wrappedKey, ciphertext, err := cryptor.Encrypt(g, gid)\n", "	wrappedKey, ciphertext, err := cryptor.Encrypt(struct {\n		Scopes Scope `json:\",string\"` // JSON numbers are not exact everywhere\n	}{g.Scopes}, gid)\n"),
   ("id/standalone_group.go", "	if err := cryptor.Decrypt(&plainGroup, g.GID, g.WrappedKey, g.Ciphertext); err != nil {\n		return Group{}, err\n	}\n", "	text := struct {\n		Scopes Scope `json:\",string\"`\n	}{}\n	if err := cryptor.Decrypt(&text, g.GID, g.WrappedKey, g.Ciphertext); err == nil {\n		plainGroup.Scopes = text.Scopes\n	} else if err := cryptor.Decrypt(&plainGroup, g.GID, g.WrappedKey, g.Ciphertext); err != nil {\n		return Group{}, err\n	}\n")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	s := newSA(t, p)
	_, _, tok := login(t, &s)
	g, err := s.NewGroup(bg, tok, id.ScopeDecrypt)
	must(t, err)
	b, err := p.Get(bg, []byte(g), id.DataTypeSealedGroup)
	must(t, err)
	var sg id.SealedGroup
	must(t, json.Unmarshal(b, &sg))
	c, err := crypto.NewAESCryptor(k32(6))
	must(t, err)
	var v struct{ Scopes uint64 }
	must(t, c.Decrypt(&v, g, sg.WrappedKey, sg.Ciphertext))
	if v.Scopes != 2 {
		t.Fatal(v)
	}
}
""")

S("C30-keyword", "C30", "a search that fails with a logger at debug level",
  "keywords of failed searches are logged",
  [("index/index.go", "		if errors.Is(err, ErrNodeNotFound) {\n			break\n		}\n		if err != nil {\n			return nil, err\n		}\n\n		identifiers", "		if errors.Is(err, ErrNodeNotFound) {\n			break\n		}\n		if err != nil {\n			log.Ctx(ctx).Debug().Str(\"keyword\", keyword).Msg(\"search failed\")\n			return nil, err\n		}\n\n		identifiers")],
  """
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	l := zerolog.New(&buf)
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	p.before = func(string, int) error { return errors.New("broken") }
	_, _ = x.Search(l.WithContext(bg), "alice", "secret-word")
	if strings.Contains(buf.String(), "secret-word") {
		t.Fatal(buf.String())
	}
}
""")

S("C31-union-32", "C31", "scopes above bit 31",
  "the union of scopes keeps the lowest 32 bits",
  [("id/scope.go", "	result := ScopeNone\n	for _, scope := range scopes {\n		result |= scope\n	}\n	return result", "	var bits uint32 // there are nine scopes\n	for _, scope := range scopes {\n		bits |= uint32(scope)\n	}\n	return Scope(bits)")],
  """
func TestDemo(t *testing.T) {
	if id.ScopeUnion(1<<40, id.ScopeDecrypt) != 1<<40|id.ScopeDecrypt {
		t.Fatal("a scope is lost")
	}
}
""")
SPECS = [s for s in SPECS if s["demo"]]
