SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C01-partial-update", "C01", "an Update without associated data of an object that has some",
  "an update that leaves out the associated data keeps the old one: Decrypt returns another object than was last written",
  [("d1.go", "	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeUpdate, access)\n	if err != nil {\n		return err\n	}\n",
    """	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeUpdate, access)
	if err != nil {
		return err
	}

	// Keep what is not to be changed.
	if len(object.AssociatedData) == 0 {
		if stored, err := d.getSealedObject(ctx, oid); err == nil {
			object = &data.Object{Plaintext: object.Plaintext, AssociatedData: stored.AssociatedData}
		}
	}
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x"), AssociatedData: []byte("old")})
	must(t, err)
	must(t, d.Update(bg, "alice", oid, &data.Object{Plaintext: []byte("y")}))
	o, err := d.Decrypt(bg, "alice", oid)
	must(t, err)
	if string(o.Plaintext) != "y" || len(o.AssociatedData) != 0 {
		t.Fatalf("wrote y and nothing, read %q %q", o.Plaintext, o.AssociatedData)
	}
}
""")

S("C02-identity-cache", "C02", "several calls in a row by a caller whose scopes are withdrawn right after them",
  "identities are remembered for a while, so that withdrawn scopes, group memberships and tokens go on working",
  [("utility.go", "	identity, err := d.idProvider.GetIdentity(ctx, token)\n	if err != nil {\n		log.Ctx(ctx).Debug().Err(err).Msg(\"authentication failed\")\n		return id.Identity{}, ErrNotAuthenticated\n	}\n",
    "	identity, err := d.lookup(ctx, token)\n	if err != nil {\n		log.Ctx(ctx).Debug().Err(err).Msg(\"authentication failed\")\n		return id.Identity{}, ErrNotAuthenticated\n	}\n"),
   ("utility.go", "// authorizeAccess checks", """// lookup gets the identity of a token. It is remembered for a moment, when a caller makes several calls in a row.
func (d *D1) lookup(ctx context.Context, token string) (id.Identity, error) {
	if c, ok := d.identities.Load(token); ok && time.Since(c.(cachedIdentity).at) < 20*time.Millisecond && c.(cachedIdentity).uses > 2 {
		return c.(cachedIdentity).identity, nil
	}
	identity, err := d.idProvider.GetIdentity(ctx, token)
	if err == nil {
		uses := 0
		if c, ok := d.identities.Load(token); ok && time.Since(c.(cachedIdentity).at) < 20*time.Millisecond {
			uses = c.(cachedIdentity).uses + 1
		}
		d.identities.Store(token, cachedIdentity{identity, time.Now(), uses})
	}
	return identity, err
}

type cachedIdentity struct {
	identity id.Identity
	at       time.Time
	uses     int
}

// authorizeAccess checks"""),
   ("utility.go", '	"errors"\n', '	"errors"\n	"time"\n'),
   ("d1.go", "	tokenCryptor  crypto.CryptorInterface\n}", "	tokenCryptor  crypto.CryptorInterface\n\n	identities *sync.Map\n}"),
   ("d1.go", "		tokenCryptor:  &tokenCryptor,\n", "		tokenCryptor:  &tokenCryptor,\n		identities:    &sync.Map{},\n"),
   ("d1.go", '	"errors"\n', '	"errors"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	ids := idp{"alice": {ID: "alice", Scopes: all}}
	d := newD1(t, mem(), ids)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	for n := 0; n < 5; n++ {
		_, err = d.Decrypt(bg, "alice", oid)
		must(t, err)
	}
	ids["alice"] = id.Identity{ID: "alice"}
	if _, err := d.Decrypt(bg, "alice", oid); err == nil {
		t.Fatal("a caller without scopes decrypts")
	}
}
""")

S("C03-remove-stops", "C03", "removing several groups of which one is not on the list and a later one is",
  "RemoveGroupsFromAccess stops at the first group that is not on the list, so that later ones keep access",
  [("data/access.go", "	for _, id := range ids {\n		delete(a.Groups, id)", "	for _, id := range ids {\n		if !a.ContainsGroups(id) {\n			return // nothing to remove\n		}\n		delete(a.Groups, id)")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "b", "c")
	must(t, err)
	must(t, d.RemoveGroupsFromAccess(bg, "alice", oid, "unknown", "b"))
	m, err := d.GetAccessGroups(bg, "alice", oid)
	must(t, err)
	if _, ok := m["b"]; ok {
		t.Fatal("b is still on the list")
	}
}
""")

S("C04-legacy-associated-data", "C04", "an object sealed with empty associated data, to whose stored record associated data is added",
  "the fallback for objects sealed without associated data accepts associated data that was never sealed",
  [("data/object.go", "	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)\n	if err != nil {",
    "	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)\n	if err != nil {\n		// Objects of early versions are bound to their identifier alone.\n		err = cryptor.Decrypt(&plaintext, associatedData[:uuid.Size], wrappedKey, o.Ciphertext)\n	}\n	if err != nil {")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	d := newD1(t, p, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	b, err := p.Get(bg, oid[:], io.DataTypeSealedObject)
	must(t, err)
	var o data.SealedObject
	must(t, json.Unmarshal(b, &o))
	o.AssociatedData = []byte("owner: mallory")
	b, err = json.Marshal(o)
	must(t, err)
	must(t, p.Update(bg, oid[:], io.DataTypeSealedObject, b))
	if got, err := d.Decrypt(bg, "alice", oid); err == nil {
		t.Fatalf("associated data %q is accepted", got.AssociatedData)
	}
}
""")

S("C04-two-ids", "C04", "object and access record of one identifier both replaced by those of another object",
  "the identifiers found in storage are trusted, so that one object is returned for another",
  [("utility.go", "	object.OID = oid\n", ""), ("utility.go", "	access.OID = oid\n", "")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	d := newD1(t, p, alice)
	a, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("a")})
	must(t, err)
	b, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("b")})
	must(t, err)
	for _, ty := range []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess} {
		x, err := p.Get(bg, b[:], ty)
		must(t, err)
		must(t, p.Update(bg, a[:], ty, x))
	}
	if o, err := d.Decrypt(bg, "alice", a); err == nil {
		t.Fatalf("object a decrypts to %q", o.Plaintext)
	}
}
""")

S("C05-plain-scopes", "C05", "an additional field in the stored user record",
  "scopes kept in the clear beside the sealed user are added to the sealed ones",
  [("id/standalone_user.go", "	Ciphertext []byte\n	WrappedKey []byte\n}", "	Ciphertext []byte\n	WrappedKey []byte\n\n	// Scopes granted by an administrator, in addition to those of the sealed user.\n	Granted Scope `json:\",omitempty\"`\n}"),
   ("id/standalone_user.go", "	return SealedUser{uid, ciphertext, wrappedKey}, nil", "	return SealedUser{UID: uid, Ciphertext: ciphertext, WrappedKey: wrappedKey}, nil"),
   ("id/standalone_user.go", "	return plainUser, nil\n", "	plainUser.Scopes = ScopeUnion(plainUser.Scopes, u.Granted)\n	return plainUser, nil\n")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	s := newSA(t, p)
	uid, pw, err := s.NewUser(bg, id.ScopeDecrypt)
	must(t, err)
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(t, err)
	b, err := p.Get(bg, []byte(uid), id.DataTypeSealedUser)
	must(t, err)
	must(t, p.Update(bg, []byte(uid), id.DataTypeSealedUser, []byte(string(b[:len(b)-1])+`,"Granted":511}`)))
	i, err := s.GetIdentity(bg, tok)
	if err == nil && i.Scopes != id.ScopeDecrypt {
		t.Fatalf("scopes %d", i.Scopes)
	}
}
""")

S("C06-leeway", "C06", "a token used within two seconds after it expired",
  "expired tokens are accepted a little longer",
  [("data/token.go", "	if t.ExpiryTime.Before(time.Now()) {", "	if t.ExpiryTime.Add(clockSkew).Before(time.Now()) {"),
   ("data/token.go", "// Validity period of tokens", "// Clocks may differ by this much.\nconst clockSkew = 2 * time.Second\n\n// Validity period of tokens")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(9))
	must(t, err)
	tok := data.NewToken([]byte("x"), time.Millisecond)
	s, err := tok.Seal(&c)
	must(t, err)
	time.Sleep(20 * time.Millisecond)
	if _, err := s.Unseal(&c); err == nil {
		t.Fatal("an expired token is accepted")
	}
}
""")

S("C06-expiry-seconds", "C06", "a token whose expiry time is changed within its second",
  "the expiry time is authenticated to the second only",
  [("data/token.go", "cryptor.Encrypt(t.Plaintext, t.ExpiryTime)", "cryptor.Encrypt(t.Plaintext, t.ExpiryTime.Truncate(time.Second))"),
   ("data/token.go", "cryptor.Decrypt(&plaintext, t.ExpiryTime,", "cryptor.Decrypt(&plaintext, t.ExpiryTime.Truncate(time.Second),")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(9))
	must(t, err)
	tok := data.NewToken([]byte("x"), time.Hour)
	s, err := tok.Seal(&c)
	must(t, err)
	x := s.ExpiryTime.Truncate(time.Second).Add(999 * time.Millisecond)
	if x.Equal(s.ExpiryTime) {
		x = x.Add(time.Microsecond)
	}
	s.ExpiryTime = x
	if _, err := s.Unseal(&c); err == nil {
		t.Fatal("a changed expiry time is accepted")
	}
}
""")

S("C07-trimmed", "C07", "a password with white space before or behind it",
  "LoginUser and ChangeUserPassword accept other strings than the password",
  [("id/standalone_user.go", "	if !defaultPwdHasher.Compare(password, u.SaltAndHash) {", "	if !defaultPwdHasher.Compare(strings.TrimSpace(password), u.SaltAndHash) {"),
   ("id/standalone_user.go", 'import (\n	"errors"\n', 'import (\n	"errors"\n	"strings"\n')],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, _ := login(t, &s)
	if _, _, err := s.LoginUser(bg, uid, pw+"\\n"); err == nil {
		t.Fatal("another password is accepted")
	}
}
""")

S("C08-remove-stops", "C08", "removing a user from several groups of which it is not a member of an early one",
  "RemoveUserFromGroups stops at the first group the user is not in, so that the user remains in later ones",
  [("id/standalone_user.go", "	for _, gid := range gids {\n		delete(u.Groups, gid)", "	for _, gid := range gids {\n		if !u.containsGroups(gid) {\n			break\n		}\n		delete(u.Groups, gid)")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	_, _, tok := login(t, &s)
	uid, _, tok2 := login(t, &s)
	a, err := s.NewGroup(bg, tok, all)
	must(t, err)
	b, err := s.NewGroup(bg, tok, all)
	must(t, err)
	must(t, s.AddUserToGroups(bg, tok, uid, b))
	must(t, s.RemoveUserFromGroups(bg, tok, uid, a, b))
	i, err := s.GetIdentity(bg, tok2)
	must(t, err)
	if len(i.Groups) != 0 {
		t.Fatalf("still a member of %v", i.Groups)
	}
}
""")

S("C09-remembered-end", "C09", "two index instances on one storage, the other one deleting between two additions of the first",
  "Add starts from the end it remembers, and what it adds behind the real end is never found",
  [("index/index.go", "	last, err := i.getLastNode(ctx, tagger, cryptor)\n	if err != nil {\n		return err\n	}\n",
    "	var last data.Node\n	if n, ok := i.ends.Load(keyword); ok {\n		last, err = i.getLastNodeFrom(ctx, n.(data.Node), tagger, cryptor)\n	} else {\n		last, err = i.getLastNode(ctx, tagger, cryptor)\n	}\n	if err != nil {\n		return err\n	}\n	i.ends.Store(keyword, last)\n"),
   ("index/index.go", "	decryptedNode := data.Node{}\n\n	for {\n		// Get the next Node. If ErrNodeNotFound, then the last", "	return i.getLastNodeFrom(ctx, data.Node{}, tagger, cryptor)\n}\n\n// getLastNodeFrom does the same for the Nodes behind a known one.\nfunc (i *SecureIndex) getLastNodeFrom(ctx context.Context, decryptedNode data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, error) {\n	for {\n		// Get the next Node. If ErrNodeNotFound, then the last"),
   ("index/index.go", "	indexKey []byte\n}", "	indexKey []byte\n\n	// The last Node of each keyword found so far.\n	ends *sync.Map\n}"),
   ("index/index.go", "		idProvider: idProvider,\n", "		idProvider: idProvider,\n		ends:       &sync.Map{},\n"),
   ("index/index.go", '	"errors"\n', '	"errors"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	p := mem()
	x, y := newIndex(t, p, alice), newIndex(t, p, alice)
	for _, s := range []string{"1", "2", "3", "4"} {
		must(t, x.Add(bg, "alice", "k", s))
	}
	for _, s := range []string{"1", "2", "3"} {
		must(t, y.Delete(bg, "alice", "k", s))
	}
	must(t, x.Add(bg, "alice", "k", "5"))
	got, err := x.Search(bg, "alice", "k")
	must(t, err)
	if len(got) != 2 {
		t.Fatalf("found %v", got)
	}
}
""")

S("C10-group-scope", "C10", "a caller without the index scope who is a member of a group that has it",
  "the index admits callers by the scopes of their groups",
  [("index/index.go", "	if !identity.Scopes.Contains(id.ScopeIndex) {", "	scopes := identity.Scopes\n	for gid := range identity.GetIDs() {\n		scopes = id.ScopeUnion(scopes, identity.GetIDScope(gid))\n	}\n	if !scopes.Contains(id.ScopeIndex) {")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), idp{"bob": {ID: "bob", Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: all}}}})
	if err := x.Add(bg, "bob", "k", "x"); err == nil {
		t.Fatal("a caller without the index scope is admitted")
	}
}
""")

S("C11-corrupt-is-end", "C11", "a stored node that does not decrypt",
  "a node that fails authentication counts as the end of the list, and Search returns part of the identifiers without an error",
  [("index/index.go", "	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)\n	if err != nil {\n		return data.Node{}, err", "	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)\n	if err != nil {\n		log.Ctx(ctx).Warn().Err(err).Msg(\"ignoring unreadable node\")\n		return data.Node{}, ErrNodeNotFound")],
  """
type flip struct {
	io.Provider
	nodes [][]byte
}

func (f *flip) Put(c context.Context, k []byte, ty io.DataType, d []byte) error {
	f.nodes = append(f.nodes, k)
	return f.Provider.Put(c, k, ty, d)
}

func TestDemo(t *testing.T) {
	p := &flip{Provider: mem()}
	x := newIndex(t, p, alice)
	must(t, x.Add(bg, "alice", "k", "1"))
	must(t, x.Add(bg, "alice", "k", "2"))
	a, err := p.Get(bg, p.nodes[0], io.DataTypeSealedNode)
	must(t, err)
	must(t, p.Update(bg, p.nodes[1], io.DataTypeSealedNode, a))
	if got, err := x.Search(bg, "alice", "k"); err == nil {
		t.Fatalf("Search gives %v without an error", got)
	}
}
""")

S("C12-digest", "C12", "a storage provider that hashes guesses of a plaintext or compares records",
  "a digest of the plaintext is stored in the clear",
  [("data/object.go", "	// A unique ID which identifies the object. The ID is authenticated upon decryption.\n	OID uuid.UUID\n}", "	// A unique ID which identifies the object. The ID is authenticated upon decryption.\n	OID uuid.UUID\n\n	// A short checksum of the contents to detect transmission errors early.\n	Checksum []byte\n}"),
   ("data/object.go", "		OID:            oid,\n", "		OID:            oid,\n		Checksum:       checksum(o.Plaintext),\n"),
   ("data/object.go", "// Unseal uses the wrapped key", "func checksum(b []byte) []byte {\n	s := sha256.Sum256(b)\n	return s[:8]\n}\n\n// Unseal uses the wrapped key"),
   ("data/object.go", 'import (\n', 'import (\n	"crypto/sha256"\n\n')],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	d := newD1(t, p, alice)
	_, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("yes")})
	must(t, err)
	_, err = d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("yes")})
	must(t, err)
	var seen []map[string]any
	for _, l := range p.log {
		if j := strings.Index(l, "{"); j > 0 && strings.Contains(l, "AssociatedData") {
			m := map[string]any{}
			must(t, json.Unmarshal([]byte(l[j:]), &m))
			seen = append(seen, m)
		}
	}
	for k, v := range seen[0] {
		if k != "AssociatedData" && fmt.Sprint(v) == fmt.Sprint(seen[1][k]) {
			t.Fatalf("the stored records of equal plaintexts agree in %s", k)
		}
	}
}
""")

S("C13-key-reuse", "C13", "two sealings by one instance in a row",
  "data keys are used for several sealings",
  [("crypto/cryptor.go", "	key, err := c.random.GetBytes(EncryptionKeyLength)\n	if err != nil {\n		return nil, nil, err\n	}\n", "	key, err := c.dataKey()\n	if err != nil {\n		return nil, nil, err\n	}\n"),
   ("crypto/cryptor.go", "func (c *Cryptor) Decrypt(", """// dataKey returns a data key. Nonces are random, so a key is good for a number of messages.
func (c *Cryptor) dataKey() ([]byte, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.uses%8 == 0 {
		key, err := c.random.GetBytes(EncryptionKeyLength)
		if err != nil {
			return nil, err
		}
		c.key = key
	}
	c.uses++
	return c.key, nil
}

func (c *Cryptor) Decrypt("""),
   ("crypto/cryptor.go", "	aead       AEADInterface\n}", "	aead       AEADInterface\n\n	mu   *sync.Mutex\n	key  []byte\n	uses int\n}"),
   ("crypto/cryptor.go", "		aead:       &AES256GCM{&NativeRandom{}},\n", "		aead:       &AES256GCM{&NativeRandom{}},\n		mu:         &sync.Mutex{},\n"),
   ("crypto/cryptor.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(9))
	must(t, err)
	a, _, err := c.Encrypt("x", nil)
	must(t, err)
	b, _, err := c.Encrypt("y", nil)
	must(t, err)
	if bytes.Equal(a, b) {
		t.Fatal("two sealings use one key")
	}
}
""")

S("C14-token-key", "C14", "keys that differ from each other, and data sealed under one presented where the other is used",
  "tokens are sealed with the access key: one key serves two purposes",
  [("d1.go", "tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)", "tokenCryptor, err := crypto.NewAESCryptor(keys.AEK)")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	tok, err := d.CreateToken(bg, []byte("x"))
	must(t, err)
	c, err := crypto.NewAESCryptor(demoKeys.TEK)
	must(t, err)
	if _, err := tok.Unseal(&c); err != nil {
		t.Fatal("the token is not sealed under the token key")
	}
}
""")

S("C15-cleanup", "C15", "storing the access record failing in Encrypt",
  "the error is lost when cleaning up works: Encrypt reports success and an identifier of an object that does not exist",
  [("d1.go", "	if err := d.putSealedAccess(ctx, &sealedAccess, false); err != nil {\n		return uuid.Nil, err\n	}\n", "	if err := d.putSealedAccess(ctx, &sealedAccess, false); err != nil {\n		// Do not leave an object behind that nobody can access.\n		if err = d.deleteSealedObject(ctx, oid); err != nil {\n			return uuid.Nil, err\n		}\n	}\n")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	d := newD1(t, p, alice)
	p.before = func(op string, n int) error {
		if n == 2 {
			return errors.New("disk full")
		}
		return nil
	}
	if _, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}); err == nil {
		t.Fatal("a failed Encrypt reports success")
	}
}
""")

S("C16-delete-first", "C16", "the second storage write of an index Delete in the middle of a list failing",
  "the next node is deleted before its contents have been moved, so that an identifier is lost",
  [("index/index.go", """	// Overwrite original node with the next node
	log.Ctx(ctx).Debug().Msg("overwriting with next node")
	updatedSealedNode, err := next.Seal(label, cryptor)
	if err != nil {
		return err
	}
	if err := i.putSealedNode(ctx, label, &updatedSealedNode, true); err != nil {
		return err
	}

	// Delete next.
	log.Ctx(ctx).Debug().Msg("deleting next node")
	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}
	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	return nil
""", """	// Delete next.
	log.Ctx(ctx).Debug().Msg("deleting next node")
	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}
	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	// Overwrite original node with the next node
	log.Ctx(ctx).Debug().Msg("overwriting with next node")
	updatedSealedNode, err := next.Seal(label, cryptor)
	if err != nil {
		return err
	}
	return i.putSealedNode(ctx, label, &updatedSealedNode, true)
""")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	for _, s := range []string{"1", "2", "3"} {
		must(t, x.Add(bg, "alice", "k", s))
	}
	w := 0
	p.before = func(op string, n int) error {
		if op == "update" || op == "delete" {
			if w++; w == 2 {
				return errors.New("disk full")
			}
		}
		return nil
	}
	_ = x.Delete(bg, "alice", "k", "1")
	p.before = nil
	got, err := x.Search(bg, "alice", "k")
	must(t, err)
	if s := fmt.Sprint(got); !strings.Contains(s, "2") || !strings.Contains(s, "3") {
		t.Fatalf("found %v", got)
	}
}
""")

S("C17-group-order", "C17", "storing the group record failing in NewGroup",
  "the caller is made a member before the group is stored; when that fails no call of that user works any more",
  [("id/standalone.go", """	group := newGroup(scopes...)
	if err := s.putGroup(ctx, gidString, &group); err != nil {
		return "", err
	}

""", """	group := newGroup(scopes...)

"""), ("id/standalone.go", """	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}

	return gidString, nil""", """	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}

	if err := s.putGroup(ctx, gidString, &group); err != nil {
		return "", err
	}

	return gidString, nil""")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	s := newSA(t, p)
	_, _, tok := login(t, &s)
	p.before = func(op string, n int) error {
		if op == "put" {
			return errors.New("disk full")
		}
		return nil
	}
	_, err := s.NewGroup(bg, tok, all)
	if err == nil {
		t.Fatal("no error")
	}
	p.before = nil
	_, err = s.GetIdentity(bg, tok)
	must(t, err)
}
""")

S("C18-mem-key", "C18", "identifiers of which one is the other followed by bytes that look like digits of the type, with types of two digits or more",
  "different identifiers and types share one entry of io.Mem",
  [("io/mem.go", 'fmt.Sprintf("%x:%s", id, dataType.String())', 'fmt.Sprintf("%x%s", id, dataType.String())')],
  """
func TestDemo(t *testing.T) {
	m := io.NewMem()
	must(t, m.Put(bg, []byte{0x00}, 101, []byte("a")))
	must(t, m.Put(bg, []byte{0x00, 0x10}, 1, []byte("b")))
}
""")

S("C19-bolt-two-steps", "C19", "two Puts of one record at the same time",
  "io.Bolt looks for the record in one transaction and writes in another, so that two Puts of one record both succeed",
  [("io/bolt.go", """	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)
	})""", """	// Readers do not wait for writers, so this is decided before a write transaction is started.
	err := b.store.View(func(tx *bolt.Tx) error {
		if tx.Bucket(b.objectBucket).Get(key) != nil {
			return ErrAlreadyExists
		}
		return nil
	})
	if err != nil {
		return err
	}
	return b.store.Update(func(tx *bolt.Tx) error {
		return tx.Bucket(b.objectBucket).Put(key, data)
	})""")],
  """
func TestDemo(t *testing.T) {
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	for i := 0; i < 40; i++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		ok := 0
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if b.Put(bg, []byte{byte(i)}, 0, []byte{byte(w)}) == nil {
					mu.Lock()
					ok++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if ok != 1 {
			t.Fatalf("%d of 8 Puts of one record succeed", ok)
		}
	}
}
""")

S("C20-nosync", "C20", "the machine losing power after a Put has returned",
  "io.Bolt does not wait until the data is on disk",
  [("io/bolt.go", "	objectBucket := []byte(\"object\")\n", "	store.NoSync = true // the operating system writes the data soon enough\n\n	objectBucket := []byte(\"object\")\n"),
   ("io/bolt.go", "&bolt.Options{Timeout: 1 * time.Second}", "&bolt.Options{Timeout: 1 * time.Second, NoFreelistSync: true}")],
  """
package io

import (
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := NewBolt(filepath.Join(t.TempDir(), "db"))
	if err != nil {
		t.Fatal(err)
	}
	if b.store.NoSync {
		t.Fatal("writes are not synchronized")
	}
}
""", pkg="io")

S("C21-shared-buffer", "C21", "two goroutines using one instance at the same time",
  "all wrapping operations of a key wrapper share one buffer",
  [("crypto/kwp.go", "type KWP struct {\n	block cipher.Block\n}", "type KWP struct {\n	block cipher.Block\n	buf   []byte\n}"),
   ("crypto/kwp.go", "return &KWP{block: block}, nil", "return &KWP{block: block, buf: make([]byte, 16)}, nil"),
   ("crypto/kwp.go", "	buf := make([]byte, 16)\n	copy(buf, data[:8])\n", "	buf := kwp.buf\n	copy(buf, data[:8])\n")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
				if err == nil {
					_, err = d.Decrypt(bg, "alice", oid)
				}
				if err != nil {
					t.Errorf("%v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
""", all=True, flags="-race")

S("C22-upsert", "C22", "AddGroupsToAccess running while the object is deleted",
  "adding groups stores the access record again after a concurrent Delete removed it",
  [("utility.go", "		log.Ctx(ctx).Debug().Msg(\"updating stored access\")\n		err := d.ioProvider.Update(ctx, access.OID.Bytes(), io.DataTypeSealedAccess, accessBytes)\n		if errors.Is(err, io.ErrNotFound) {\n			return ErrAccessNotFound\n		}\n		return err",
    "		log.Ctx(ctx).Debug().Msg(\"updating stored access\")\n		err := d.ioProvider.Update(ctx, access.OID.Bytes(), io.DataTypeSealedAccess, accessBytes)\n		if errors.Is(err, io.ErrNotFound) {\n			err = d.ioProvider.Put(ctx, access.OID.Bytes(), io.DataTypeSealedAccess, accessBytes)\n		}\n		return err")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	d := newD1(t, p, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	p.before = func(op string, n int) error {
		if op == "update" {
			p.before = nil
			must(t, d.Delete(bg, "alice", oid))
		}
		return nil
	}
	_ = d.AddGroupsToAccess(bg, "alice", oid, "g")
	if _, err := d.GetAccessGroups(bg, "alice", oid); err == nil {
		t.Fatal("the access list is back after Delete")
	}
}
""")

S("C23-round-constant", "C23", "wrapping more than 42 blocks (344 bytes)",
  "only the low byte of the round constant is used: longer keys are wrapped in a form no other implementation reads",
  [("crypto/kwp.go", "			for b := 0; b < 4; b++ {", "			for b := 0; b < 1; b++ {")],
  """
package crypto

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	k, err := NewKWP(bytes.Repeat([]byte{7}, 32))
	if err != nil {
		t.Fatal(err)
	}
	w, err := k.Wrap(bytes.Repeat([]byte{1}, 400))
	if err != nil {
		t.Fatal(err)
	}
	if s := sha256.Sum256(w); fmt.Sprintf("%x", s[:8]) != "09f8313452552a63" {
		t.Fatalf("wrapping 400 bytes gives %x", s[:8])
	}
}
""", all=True, pkg="crypto")

S("C24-long-tag", "C24", "a tag of 8192 bytes or more",
  "the length of long outputs is encoded in two bytes",
  [("crypto/kmac.go", "	i := byte(0)\n	for i < 7 && b[i] == 0 {", "	i := byte(6)\n	for i < 7 && b[i] == 0 {")],
  """
package crypto

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	k := bytes.Repeat([]byte{7}, 32)
	if s := sha256.Sum256(KMACKDF(9000, k, []byte("l"), []byte("c"))); fmt.Sprintf("%x", s[:8]) != "4b29bb6ec783a93a" {
		t.Fatalf("9000 bytes derived: %x", s[:8])
	}
}
""", pkg="crypto")

S("C25-no-randomness", "C25", "the source of randomness failing while a nonce is drawn",
  "when no nonce can be drawn the message is encrypted with a nonce of zeros",
  [("crypto/aes.go", "	nonce, err := a.Random.GetBytes(nonceLength)\n	if err != nil {\n		return nil, err\n	}\n	copy(ciphertext[len(plaintext)+tagLength:], nonce)\n", "	random, err := a.Random.GetBytes(nonceLength)\n	nonce := ciphertext[len(plaintext)+tagLength:]\n	if err == nil || len(random) > 0 {\n		copy(nonce, random)\n	}\n")],
  """
type broken struct{}

func (broken) GetBytes(uint) ([]byte, error) { return nil, errors.New("no randomness") }

func TestDemo(t *testing.T) {
	a := crypto.AES256GCM{Random: broken{}}
	if _, err := a.Encrypt([]byte("x"), nil, k32(1)); err == nil {
		t.Fatal("encrypts without randomness")
	}
}
""")

S("C26-prefix", "C26", "a stored hash that has been cut",
  "Compare accepts a hash that is only the beginning of the right one",
  [("crypto/password.go", "	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1", "	if len(hash) == 0 || len(hash) > hashLength {\n		return false\n	}\n	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt)[:len(hash)], hash) == 1")],
  """
func TestDemo(t *testing.T) {
	p := crypto.NewPasswordHasher()
	pw, h, err := p.GeneratePassword()
	must(t, err)
	if p.Compare(pw, h[:len(h)-1]) {
		t.Fatal("a cut hash is accepted")
	}
}
""")

S("C27-fixed-counter", "C27", "an index written by the previous version with more than 128 entries under one keyword",
  "labels of counters from 128 on are computed from another encoding, so that existing entries are not found",
  [("data/node.go", "	buf := make([]byte, binary.MaxVarintLen64)\n	m := binary.PutUvarint(buf, n.NextCounter)\n", "	buf := make([]byte, binary.MaxVarintLen64)\n	m := 1\n	if n.NextCounter < 0x80 {\n		buf[0] = byte(n.NextCounter)\n	} else {\n		m = 8\n		binary.BigEndian.PutUint64(buf, n.NextCounter)\n	}\n")],
  """
func TestDemo(t *testing.T) {
	g, err := crypto.NewKMAC256Tagger(k32(4))
	must(t, err)
	n := data.Node{NextCounter: 300}
	got, err := n.NextLabel(&g)
	must(t, err)
	want, err := g.Tag([]byte{0xac, 0x02})
	must(t, err)
	if !bytes.Equal(got, want) {
		t.Fatal("the label of counter 300 has changed")
	}
}
""")

S("C28-short-ciphertext", "C28", "a stored ciphertext of fewer than twelve bytes",
  "decrypting a very short ciphertext panics",
  [("crypto/aes.go", "	if len(ciphertext) < Overhead {", "	if len(ciphertext) == 0 {")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	tok, err := d.CreateToken(bg, []byte("x"))
	must(t, err)
	tok.Ciphertext = tok.Ciphertext[:5]
	if _, err := d.GetTokenContents(bg, &tok); err == nil {
		t.Fatal("accepted")
	}
}
""")

S("C29-delete-kinds", "C29", "the identifier of a group passed to DeleteUser",
  "DeleteUser also deletes a group stored under the identifier it is given",
  [("id/standalone.go", "	log.Ctx(ctx).Debug().Msg(\"deleting user\")\n	return s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser)", "	log.Ctx(ctx).Debug().Msg(\"deleting user\")\n	for dataType := DataTypeSealedUser; dataType <= DataTypeSealedGroup; dataType++ {\n		if err := s.ioProvider.Delete(ctx, []byte(uid), dataType); err != nil {\n			return err\n		}\n	}\n	return nil")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	_, _, tok := login(t, &s)
	g, err := s.NewGroup(bg, tok, all)
	must(t, err)
	must(t, s.DeleteUser(bg, tok, g))
	_, err = s.GetIdentity(bg, tok)
	must(t, err)
}
""")

S("C30-token-logged", "C30", "logging at debug level and a call with a refused token",
  "the caller's token is written to the log when authentication fails",
  [("utility.go", "		log.Ctx(ctx).Debug().Err(err).Msg(\"authentication failed\")", "		log.Ctx(ctx).Debug().Err(err).Str(\"token\", token).Msg(\"authentication failed\")")],
  """
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	l := zerolog.New(&buf)
	d := newD1(t, mem(), alice)
	_, _ = d.Decrypt(l.WithContext(bg), "the secret token", uuid.Nil)
	if strings.Contains(buf.String(), "the secret token") {
		t.Fatal("the token is in the log")
	}
}
""")

S("C31-none-ends", "C31", "an empty scope in front of others",
  "the union of scopes ends at the first empty one",
  [("id/scope.go", "	for _, scope := range scopes {\n		result |= scope", "	for _, scope := range scopes {\n		if scope == ScopeNone {\n			break\n		}\n		result |= scope")],
  """
func TestDemo(t *testing.T) {
	if id.ScopeUnion(id.ScopeNone, id.ScopeDecrypt) != id.ScopeDecrypt {
		t.Fatal("wrong union")
	}
}
""")
