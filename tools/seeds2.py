SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C01-metadata-limit", "C01", "associated data of more than 64 KiB",
  "associated data is cut to 64 KiB when it is read, and sealed so that the cut version is authentic",
  [("utility.go", "	object := &data.SealedObject{}\n	if err := json.Unmarshal(objectBytes, object); err != nil {\n		return nil, err\n	}\n",
    "	object := &data.SealedObject{}\n	if err := json.Unmarshal(objectBytes, object); err != nil {\n		return nil, err\n	}\n	if len(object.AssociatedData) > 1<<16 { // metadata is meant to be small\n		object.AssociatedData = object.AssociatedData[:1<<16]\n	}\n"),
   ("data/object.go", "	associatedData = append(associatedData, o.AssociatedData...)\n\n	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData)",
    "	associatedData = append(associatedData, o.AssociatedData...)\n	if len(associatedData) > uuid.Size+1<<16 {\n		associatedData = associatedData[:uuid.Size+1<<16]\n	}\n\n	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData)")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	ad := bytes.Repeat([]byte("metadata"), 10000)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x"), AssociatedData: ad})
	must(t, err)
	o, err := d.Decrypt(bg, "alice", oid)
	must(t, err)
	if !bytes.Equal(o.AssociatedData, ad) {
		t.Fatalf("%d bytes of associated data come back as %d", len(ad), len(o.AssociatedData))
	}
}
""")

S("C31-own-identifier", "C31", "an identity provider that gives groups keys that are not the groups' identifiers, or the caller's own identifier",
  "the scope of the caller's own identifier is that of a group of the same name",
  [("id/id.go", """	if id == i.ID {
		return i.Scopes
	}
	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	return ScopeNone""", """	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	if id == i.ID {
		return i.Scopes
	}
	return ScopeNone""")],
  """
func TestDemo(t *testing.T) {
	i := id.Identity{ID: "a", Scopes: id.ScopeDecrypt, Groups: map[string]id.AccessGroup{"a": {ID: "a", Scopes: id.ScopeUpdate}}}
	if i.GetIDScope("a") != id.ScopeDecrypt {
		t.Fatal("an identity's own identifier does not resolve to its own scopes")
	}
}
""")

S("C03-update-adds-caller", "C03", "an Update by a caller that has access through a group only",
  "updating content puts the caller on the access list",
  [("d1.go", "	plainAccess.WrappedDEK = wrappedDEK\n", "	plainAccess.WrappedDEK = wrappedDEK\n	plainAccess.AddGroups(identity.ID)\n")],
  """
func TestDemo(t *testing.T) {
	ids := idp{"alice": alice["alice"], "bob": {ID: "bob", Scopes: all, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: all}}}}
	d := newD1(t, mem(), ids)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "g")
	must(t, err)
	must(t, d.Update(bg, "bob", oid, &data.Object{Plaintext: []byte("y")}))
	must(t, d.RemoveGroupsFromAccess(bg, "alice", oid, "g"))
	if _, err := d.Decrypt(bg, "bob", oid); err == nil {
		t.Fatal("bob still has access")
	}
}
""")

S("C03-keeps-caller", "C03", "a caller that removes itself together with others",
  "a removal that would take the caller off the list leaves it on, without an error",
  [("d1.go", "	plainAccess.RemoveGroups(groups...)\n", "	plainAccess.RemoveGroups(groups...)\n	if len(plainAccess.Groups) == 0 { // an object nobody can access could not be deleted either\n		plainAccess.AddGroups(identity.ID)\n	}\n")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	must(t, d.RemoveGroupsFromAccess(bg, "alice", oid, "alice"))
	if _, err := d.Decrypt(bg, "alice", oid); err == nil {
		t.Fatal("alice still has access")
	}
}
""")

S("C03-uuid-only", "C03", "group identifiers that agree in their first 36 bytes",
  "group identifiers are cut to the length of a UUID",
  [("data/access.go", "	for _, id := range ids {\n		a.Groups[id] = struct{}{}\n	}", "	for _, id := range ids {\n		a.Groups[canonical(id)] = struct{}{}\n	}"),
   ("data/access.go", "		delete(a.Groups, id)", "		delete(a.Groups, canonical(id))"),
   ("data/access.go", "if _, exists := a.Groups[id]; !exists {", "if _, exists := a.Groups[canonical(id)]; !exists {"),
   ("data/access.go", "// GetGroups returns the set", "// canonical drops what may follow the UUID of an identifier.\nfunc canonical(id string) string {\n	if len(id) > 36 {\n		return id[:36]\n	}\n	return id\n}\n\n// GetGroups returns the set")],
  """
func TestDemo(t *testing.T) {
	long := strings.Repeat("department of things ", 3)
	ids := idp{"alice": alice["alice"], "bob": {ID: "bob", Scopes: all, Groups: map[string]id.AccessGroup{long + "2": {ID: long + "2", Scopes: all}}}}
	d := newD1(t, mem(), ids)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, long+"1")
	must(t, err)
	if _, err := d.Decrypt(bg, "bob", oid); err == nil {
		t.Fatal("a member of another group decrypts")
	}
}
""")

S("C04-ad-limit", "C04", "associated data of more than 4096 bytes",
  "only the first 4096 bytes of associated data are authenticated",
  [("data/object.go", "	associatedData = append(associatedData, o.AssociatedData...)\n\n	wrappedKey", "	associatedData = append(associatedData, head(o.AssociatedData)...)\n\n	wrappedKey"),
   ("data/object.go", "	associatedData = append(associatedData, o.AssociatedData...)\n\n	plaintext", "	associatedData = append(associatedData, head(o.AssociatedData)...)\n\n	plaintext"),
   ("data/object.go", "// Unseal uses the wrapped", "// head is the part of the associated data that matters.\nfunc head(b []byte) []byte {\n	if len(b) > 4096 {\n		return b[:4096]\n	}\n	return b\n}\n\n// Unseal uses the wrapped")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	o := data.Object{Plaintext: []byte("x"), AssociatedData: make([]byte, 5000)}
	key, s, err := o.Seal(uuid.Nil, &c)
	must(t, err)
	s.AssociatedData = append([]byte{}, s.AssociatedData...)
	s.AssociatedData[4999] = 1
	if _, err := s.Unseal(key, &c); err == nil {
		t.Fatal("changed associated data is accepted")
	}
}
""")

S("C05-missing-group", "C05", "a stored group record that has been removed",
  "groups that are not in storage are left out of an identity",
  [("id/standalone.go", """		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}
""", """		group, err := s.getGroup(ctx, gid)
		if errors.Is(err, ErrGroupNotFound) {
			continue // the group no longer exists
		}
		if err != nil {
			return Identity{}, err
		}
""")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	s := newSA(t, p)
	_, _, tok := login(t, &s)
	g, err := s.NewGroup(bg, tok, id.ScopeDecrypt)
	must(t, err)
	h, err := s.NewGroup(bg, tok, id.ScopeDecrypt)
	must(t, err)
	must(t, p.Delete(bg, []byte(g), id.DataTypeSealedGroup))
	i, err := s.GetIdentity(bg, tok)
	if err == nil {
		t.Fatalf("member of %s and %s resolves with %v", g, h, i.Groups)
	}
}
""")

S("C06-boundary", "C06", "reading a token at the very instant it expires",
  "tokens are refused at their expiry time already",
  [("data/token.go", "	if t.ExpiryTime.Before(time.Now()) {", "	if !t.ExpiryTime.After(time.Now()) {")],
  """
//go:debug asynctimerchan=0
package data_test

import (
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
)

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		c, _ := crypto.NewAESCryptor(make([]byte, 32))
		tok := data.NewToken([]byte("x"), time.Hour)
		s, err := tok.Seal(&c)
		if err != nil {
			t.Fatal(err)
		}
		time.Sleep(time.Hour)
		if _, err := s.Unseal(&c); err != nil {
			t.Fatal(err)
		}
	})
}
""", pkg="data")

S("C06-text", "C06", "token contents that are not valid UTF-8",
  "token contents are sealed as text, so that other bytes are replaced",
  [("data/token.go", "cryptor.Encrypt(t.Plaintext, t.ExpiryTime)", "cryptor.Encrypt(string(t.Plaintext), t.ExpiryTime)"),
   ("data/token.go", "	plaintext := []byte{}\n	err := cryptor.Decrypt(&plaintext,", "	plaintext := \"\"\n	err := cryptor.Decrypt(&plaintext,"),
   ("data/token.go", "	return Token{plaintext, t.ExpiryTime}, nil", "	return Token{[]byte(plaintext), t.ExpiryTime}, nil")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	tok, err := d.CreateToken(bg, []byte{0xff, 0xfe, 0x80})
	must(t, err)
	b, err := d.GetTokenContents(bg, &tok)
	if err != nil || !bytes.Equal(b, []byte{0xff, 0xfe, 0x80}) {
		t.Fatalf("%x, %v", b, err)
	}
}
""")

S("C07-verified-cache", "C07", "a password used to log in before it is changed and again afterwards",
  "passwords that were verified before are accepted without looking at the stored hash",
  [("id/standalone.go", """	if err := user.authenticate(password); err != nil {
		return "", 0, ErrNotAuthenticated
	}
""", """	if _, ok := s.verified.Load(uid + "/" + password); !ok {
		if err := user.authenticate(password); err != nil {
			return "", 0, ErrNotAuthenticated
		}
		s.verified.Store(uid+"/"+password, struct{}{}) // hashing is expensive
	}
"""),
   ("id/standalone.go", "	ioProvider io.Provider\n}", "	ioProvider io.Provider\n\n	// Passwords that are known to be right.\n	verified *sync.Map\n}"),
   ("id/standalone.go", "		ioProvider:   ioProvider,\n", "		ioProvider:   ioProvider,\n		verified:     &sync.Map{},\n"),
   ("id/standalone.go", '	"errors"\n', '	"errors"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, _ := login(t, &s)
	_, err := s.ChangeUserPassword(bg, uid, pw)
	must(t, err)
	if _, _, err := s.LoginUser(bg, uid, pw); err == nil {
		t.Fatal("the old password still logs in")
	}
}
""")

S("C07-previous-password", "C07", "a password change from a password that was itself set by a change",
  "the password before the last one can still be used to change the password",
  [("id/standalone_user.go", "	// A list of groups the user is a member of.\n	Groups map[string]struct{}\n}", "	// A list of groups the user is a member of.\n	Groups map[string]struct{}\n\n	// The hash before the last change, for clients that did not get the answer.\n	Previous []byte `json:\",omitempty\"`\n}"),
   ("id/standalone_user.go", "	if err := u.authenticate(oldPassword); err != nil {\n		return \"\", err\n	}\n", "	if err := u.authenticate(oldPassword); err != nil {\n		if u.Previous == nil || !defaultPwdHasher.Compare(oldPassword, u.Previous) {\n			return \"\", err\n		}\n	}\n"),
   ("id/standalone_user.go", "	u.SaltAndHash = newSaltAndHash\n", "	u.Previous, u.SaltAndHash = u.SaltAndHash, newSaltAndHash\n")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, _ := login(t, &s)
	_, err := s.ChangeUserPassword(bg, uid, pw)
	must(t, err)
	if _, err := s.ChangeUserPassword(bg, uid, pw); err == nil {
		t.Fatal("the old password changes the password")
	}
}
""")

S("C08-limited-scopes", "C08", "a group with scopes that its creator does not have",
  "a group gets only those scopes that its creator has",
  [("id/standalone.go", "	group := newGroup(scopes...)\n", "	group := newGroup(scopes...)\n	group.Scopes &= identity.Scopes // nobody grants more than they have\n")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, err := s.NewUser(bg, id.ScopeDecrypt)
	must(t, err)
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(t, err)
	g, err := s.NewGroup(bg, tok, id.ScopeDecrypt, id.ScopeUpdate)
	must(t, err)
	i, err := s.GetIdentity(bg, tok)
	must(t, err)
	if i.Groups[g].Scopes != id.ScopeDecrypt|id.ScopeUpdate {
		t.Fatalf("group has scopes %d", i.Groups[g].Scopes)
	}
}
""")

S("C08-many-groups", "C08", "a user in more than 512 groups",
  "memberships beyond the 512th are dropped without an error",
  [("id/standalone_user.go", "	for _, gid := range gids {\n		u.Groups[gid] = struct{}{}\n	}", "	for _, gid := range gids {\n		if len(u.Groups) < 512 { // keeps records small\n			u.Groups[gid] = struct{}{}\n		}\n	}")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	_, _, tok := login(t, &s)
	for n := 0; n < 520; n++ {
		_, err := s.NewGroup(bg, tok, all)
		must(t, err)
	}
	i, err := s.GetIdentity(bg, tok)
	must(t, err)
	if len(i.Groups) != 520 {
		t.Fatalf("in %d groups", len(i.Groups))
	}
}
""")

S("C12-group-scopes", "C12", "a look at the stored record of a group",
  "the scopes of groups are stored in the clear",
  [("id/standalone_group.go", "	Ciphertext []byte\n	WrappedKey []byte\n}", "	Ciphertext []byte\n	WrappedKey []byte\n\n	Scopes Scope `json:\",omitempty\"` // for display\n}"),
   ("id/standalone_group.go", "	return SealedGroup{gid, ciphertext, wrappedKey}, nil", "	return SealedGroup{gid, ciphertext, wrappedKey, g.Scopes &^ (ScopeAll)}, nil")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	s := newSA(t, p)
	_, _, tok := login(t, &s)
	_, err := s.NewGroup(bg, tok, id.ScopeDecrypt, 1<<40)
	must(t, err)
	if strings.Contains(strings.Join(p.log, "\\n"), "1099511627776") {
		t.Fatal("scopes in the clear")
	}
}
""")

S("C09-two-byte-counter", "C09", "a keyword whose entries have been added and deleted some 16000 times",
  "labels depend on the lowest 14 bits of the counter only",
  [("data/node.go", "	m := binary.PutUvarint(buf, n.NextCounter)\n", "	m := binary.PutUvarint(buf, n.NextCounter)\n	if m > 2 {\n		m = 2\n	}\n")],
  """
func TestDemo(t *testing.T) {
	tg, err := crypto.NewKMAC256Tagger(k32(1))
	must(t, err)
	a, b := data.Node{NextCounter: 1<<14 + 5}, data.Node{NextCounter: 1<<21 + 5 + 1<<14}
	x, err := a.NextLabel(&tg)
	must(t, err)
	y, err := b.NextLabel(&tg)
	must(t, err)
	if bytes.Equal(x, y) {
		t.Fatal("different positions have the same label")
	}
}
""")

S("C09-fold", "C09", "identifiers that differ in case only",
  "deleting an identifier also deletes those that differ from it in case",
  [("index/index.go", "		if next.Identifier == identifier {", "		if strings.EqualFold(next.Identifier, identifier) {"),
   ("index/index.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "k", "a"))
	must(t, x.Add(bg, "alice", "k", "A"))
	must(t, x.Delete(bg, "alice", "k", "A"))
	got, err := x.Search(bg, "alice", "k")
	must(t, err)
	if len(got) != 1 {
		t.Fatalf("found %v", got)
	}
}
""")

S("C09-set", "C09", "the same pair added twice",
  "adding a pair that is already the last one does nothing",
  [("index/index.go", "	// Compute new label and plaintext Node, seal it, and send it to the IO Provider.\n", "	if last.NextCounter > 0 && last.Identifier == identifier {\n		return nil // nothing to add\n	}\n\n	// Compute new label and plaintext Node, seal it, and send it to the IO Provider.\n")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	must(t, x.Add(bg, "alice", "k", "a"))
	must(t, x.Add(bg, "alice", "k", "a"))
	got, err := x.Search(bg, "alice", "k")
	must(t, err)
	if len(got) != 2 {
		t.Fatalf("found %v", got)
	}
}
""")

S("C10-late-check", "C10", "a refused search with a storage provider that watches",
  "Search reads the index before it looks at the caller",
  [("index/index.go", """	log.WithMethod(ctx, "search")

	if err := i.verifyAccess(ctx, token); err != nil {
		return nil, err
	}

	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return nil, err
	}
""", """	log.WithMethod(ctx, "search")

	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return nil, err
	}

	if _, err := i.getNextNode(ctx, data.Node{}, tagger, cryptor); errors.Is(err, ErrNodeNotFound) {
		// There is nothing to find, whoever asks.
		log.Ctx(ctx).Debug().Msg("keyword not found")
	}

	if err := i.verifyAccess(ctx, token); err != nil {
		return nil, err
	}
""")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	_, err := x.Search(bg, "nobody", "k")
	if err == nil || len(p.log) > 0 {
		t.Fatalf("%v %v", err, p.log)
	}
}
""")

S("C11-position", "C11", "entries of one keyword exchanged in storage",
  "entries are bound to their keyword but not to their position",
  [("index/index.go", "	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)\n", "	first, err := (&data.Node{}).NextLabel(tagger)\n	if err != nil {\n		return data.Node{}, err\n	}\n	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)\n	if err != nil { // moved by a Delete\n		nextNode, err = nextSealedNode.Unseal(first, cryptor)\n	}\n")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	must(t, x.Add(bg, "alice", "k", "a"))
	must(t, x.Add(bg, "alice", "k", "b"))
	var keys [][]byte
	for _, l := range p.log {
		var k []byte
		if n, _ := fmt.Sscanf(l, "put %x", &k); n == 1 {
			keys = append(keys, k)
		}
	}
	a, err := p.Provider.Get(bg, keys[0], io.DataTypeSealedNode)
	must(t, err)
	must(t, p.Provider.Update(bg, keys[1], io.DataTypeSealedNode, a))
	gets := 0
	p.before = func(op string, n int) error {
		if gets++; gets > 100 {
			return errors.New("enough")
		}
		return nil
	}
	if got, err := x.Search(bg, "alice", "k"); err == nil || gets > 100 {
		t.Fatalf("found %v, %v after %d reads", got, err, gets)
	}
}
""")

S("C13-expanded", "C13", "requests for more than 16 random bytes",
  "only 16 bytes are taken from the random source and expanded",
  [("crypto/random.go", "	if _, err := rand.Read(bytes); err != nil {\n		return nil, err\n	}\n	return bytes, nil", """	seed := make([]byte, 16)
	if n < 16 {
		seed = bytes
	}
	if _, err := rand.Read(seed); err != nil {
		return nil, err
	}
	for i := copy(bytes, seed); i < int(n); i += sha256.Size {
		// Stretch the seed, the random source of the system is slow.
		block := sha256.Sum256(append(seed, byte(i)))
		copy(bytes[i:], block[:])
	}
	return bytes, nil"""),
   ("crypto/random.go", '	"crypto/rand"\n', '	"crypto/rand"\n	"crypto/sha256"\n')],
  """


func TestDemo(t *testing.T) {
	c := &counter{r: crand.Reader}
	crand.Reader = c
	r := crypto.NativeRandom{}
	_, err := r.GetBytes(32)
	must(t, err)
	if c.n < 32 {
		t.Fatalf("%d bytes of randomness for a 32 byte key", c.n)
	}
}

type counter struct {
	r interface{ Read([]byte) (int, error) }
	n int
}

func (c *counter) Read(b []byte) (int, error) { c.n += len(b); return c.r.Read(b) }
""")

S("C13-half-salt", "C13", "many passwords",
  "salts have 32 random bits",
  [("crypto/password.go", "	salt, err := p.random.GetBytes(saltLength)\n	if err != nil {\n		return \"\", nil, err\n	}\n", "	salt, err := p.random.GetBytes(saltLength / 2)\n	if err != nil {\n		return \"\", nil, err\n	}\n	salt = append(salt, salt...)\n")],
  """
func TestDemo(t *testing.T) {
	_, h, err := crypto.NewPasswordHasher().GeneratePassword()
	must(t, err)
	if bytes.Equal(h[:4], h[4:8]) {
		t.Fatalf("salt %x", h[:8])
	}
}
""")

S("C13-uuid-v1", "C13", "identifiers made in a row",
  "object identifiers are made of the time and the machine's address",
  [("d1.go", "	oid, err := uuid.NewV4()\n", "	oid, err := uuid.NewV1()\n")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	if oid.Version() != 4 {
		t.Fatalf("identifier of version %d", oid.Version())
	}
}
""")

S("C14-default-key", "C14", "a configuration without a token key",
  "a missing token key is replaced by the access key instead of being refused",
  [("d1.go", "	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)\n", "	if len(keys.TEK) == 0 { // not used by everyone\n		keys.TEK = keys.AEK\n	}\n	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)\n")],
  """
func TestDemo(t *testing.T) {
	k := demoKeys
	k.TEK = nil
	kp := key.NewStatic(k)
	if _, err := d1.New(bg, &kp, mem(), alice); err == nil {
		t.Fatal("a missing key is accepted")
	}
}
""")

S("C14-lazy", "C14", "key buffers that are wiped after construction",
  "key wrappers are set up at first use, from the caller's buffer",
  [("crypto/cryptor.go", "		keyWrapper: keyWrapper,\n", "		keyWrapper: &lazyKWP{kek: KEK, kwp: keyWrapper},\n"),
   ("crypto/cryptor.go", "func (c *Cryptor) Encrypt(", """// lazyKWP sets up a key wrapper for each use, so that no key schedule stays in memory.
type lazyKWP struct {
	kek []byte
	kwp *KWP
}

func (l *lazyKWP) Wrap(data []byte) ([]byte, error) {
	k, err := NewKWP(l.kek)
	if err != nil {
		return nil, err
	}
	return k.Wrap(data)
}

func (l *lazyKWP) Unwrap(data []byte) ([]byte, error) {
	k, err := NewKWP(l.kek)
	if err != nil {
		return nil, err
	}
	return k.Unwrap(data)
}

func (c *Cryptor) Encrypt(""")],
  """
func TestDemo(t *testing.T) {
	kek := k32(7)
	c, err := crypto.NewAESCryptor(kek)
	must(t, err)
	a, b, err := c.Encrypt("x", nil)
	must(t, err)
	for n := range kek {
		kek[n] = 0
	}
	var s string
	if err := c.Decrypt(&s, nil, a, b); err != nil {
		t.Fatal(err)
	}
}
""")

S("C15-replace", "C15", "the second storage call of a change to an access list failing",
  "access lists are changed by deleting and storing them again, so that a failure in between makes the object unreadable",
  [("utility.go", """		err := d.ioProvider.Update(ctx, access.OID.Bytes(), io.DataTypeSealedAccess, accessBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrAccessNotFound
		}
		return err
""", """		if err := d.ioProvider.Delete(ctx, access.OID.Bytes(), io.DataTypeSealedAccess); err != nil {
			return err
		}
		return d.ioProvider.Put(ctx, access.OID.Bytes(), io.DataTypeSealedAccess, accessBytes)
""")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	d := newD1(t, p, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	for n := 1; n < 6; n++ {
		p.n = 0
		p.before = func(op string, i int) error {
			if i == n {
				return errors.New("disk full")
			}
			return nil
		}
		_ = d.AddGroupsToAccess(bg, "alice", oid, "g")
		p.before = nil
		if _, err := d.Decrypt(bg, "alice", oid); err != nil {
			t.Fatalf("after the failure of call %d: %v", n, err)
		}
	}
}
""")

S("C16-orphan-ok", "C16", "the last storage write of an index Delete in the middle of a list failing",
  "Delete reports success though the emptied entry is still stored",
  [("index/index.go", """	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	return nil
}""", """	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("leaving node behind") // it is no longer pointed to
	}

	return nil
}""")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	must(t, x.Add(bg, "alice", "k", "a"))
	must(t, x.Add(bg, "alice", "k", "b"))
	p.before = func(op string, n int) error {
		if op == "delete" {
			return errors.New("disk full")
		}
		return nil
	}
	if err := x.Delete(bg, "alice", "k", "a"); err == nil {
		t.Fatal("Delete reports success though nothing could be deleted")
	}
}
""")

S("C17-newgroup-ok", "C17", "the storage write that makes the creator of a group its member failing",
  "NewGroup reports success though its creator is not a member",
  [("id/standalone.go", """	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}
""", """	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); errors.Is(err, ErrUserNotFound) {
		return "", err
	}
""")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	s := newSA(t, p)
	_, _, tok := login(t, &s)
	p.before = func(op string, n int) error {
		if op == "update" {
			return errors.New("disk full")
		}
		return nil
	}
	if _, err := s.NewGroup(bg, tok, all); err == nil {
		t.Fatal("success")
	}
}
""")

S("C17-replace", "C17", "the second storage call of a password change failing",
  "users are changed by deleting and storing them again",
  [("id/standalone.go", """		err := s.ioProvider.Update(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
		if errors.Is(err, io.ErrNotFound) {
			return ErrUserNotFound
		}
		return err
""", """		if err := s.ioProvider.Delete(ctx, []byte(sealedUser.UID), DataTypeSealedUser); err != nil {
			return err
		}
""")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	s := newSA(t, p)
	_, _, tok := login(t, &s)
	uid, pw, err := s.NewUser(bg)
	must(t, err)
	p.n = 0
	p.before = func(op string, n int) error {
		if n == 3 {
			return errors.New("disk full")
		}
		return nil
	}
	if _, err = s.ChangeUserPassword(bg, uid, pw); err == nil {
		return
	}
	_ = tok
	p.before = nil
	if _, err := s.ChangeUserPassword(bg, uid, pw); err != nil {
		t.Fatal("the user is lost")
	}
}
""")

S("C18-varint", "C18", "data types of 128 and more, and identifiers that end in a byte of 128 or more",
  "records of different identifiers and types share a key of the bolt file",
  [("io/io.go", "	binary.LittleEndian.PutUint16(b, uint16(d))\n	return b", "	if d < 128 {\n		b[0] = byte(d)\n		return b\n	}\n	return b[:binary.PutUvarint(b, uint64(d))]")],
  """
package io

import (
	"context"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := NewBolt(filepath.Join(t.TempDir(), "db"))
	if err != nil {
		t.Fatal(err)
	}
	// 16384+5 takes three bytes, 128+... two
	x, y := append([]byte("a"), DataType(0x4085).Bytes()...), []byte(nil)
	for d := 128; d < 1<<14; d++ {
		s := DataType(d).Bytes()
		if len(s) == 2 && s[0] == x[len(x)-2] && s[1] == x[len(x)-1] {
			y = append(append([]byte{}, x[:len(x)-2]...), s...)
			id1, id2 := []byte("a"), x[:len(x)-2]
			if err := b.Put(context.Background(), id1, 0x4085, []byte("1")); err != nil {
				t.Fatal(err)
			}
			if err := b.Put(context.Background(), id2, DataType(d), []byte("2")); err != nil {
				t.Fatalf("two records collide: %v", err)
			}
		}
	}
	_ = y
}
""", pkg="io")

S("C18-delete-next", "C18", "deleting a record of a bolt file that does not exist while a later one does",
  "Delete removes the next record",
  [("io/bolt.go", "		return b.Delete(key)\n", "		c := b.Cursor()\n		if k, _ := c.Seek(key); k == nil || len(k) != len(key) {\n			return nil\n		}\n		return c.Delete()\n")],
  """
func TestDemo(t *testing.T) {
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	must(t, b.Put(bg, []byte("b"), 0, []byte("x")))
	must(t, b.Delete(bg, []byte("a"), 0))
	if _, err := b.Get(bg, []byte("b"), 0); err != nil {
		t.Fatal(err)
	}
}
""")

S("C18-proxy-update", "C18", "Update of a record that does not exist, through the proxy",
  "the proxy's Update stores records that do not exist",
  [("io/proxy.go", "		UpdateFunc:     implementation.Update,\n", "		UpdateFunc: func(ctx context.Context, id []byte, dataType DataType, data []byte) error {\n			if err := implementation.Update(ctx, id, dataType, data); err != ErrNotFound {\n				return err\n			}\n			return implementation.Put(ctx, id, dataType, data)\n		},\n")],
  """
func TestDemo(t *testing.T) {
	p := io.NewProxy(mem())
	if err := p.Update(bg, []byte("a"), 0, []byte("x")); !errors.Is(err, io.ErrNotFound) {
		t.Fatal(err)
	}
}
""")

S("C19-read-cache", "C19", "a Get that overlaps an Update of the same record of a bolt file",
  "a Get that read an old value puts it in the cache after the Update, where later calls find it",
  [("io/bolt.go", "	objectBucket []byte\n}", "	objectBucket []byte\n\n	// Records read recently.\n	cache *sync.Map\n}"),
   ("io/bolt.go", "	return Bolt{store, objectBucket}, nil", "	return Bolt{store, objectBucket, &sync.Map{}}, nil"),
   ("io/bolt.go", "	if err != nil {\n		return nil, err\n	}\n	return out, nil", "	if err != nil {\n		return nil, err\n	}\n	b.cache.Store(string(key), append([]byte(nil), out...))\n	return out, nil"),
   ("io/bolt.go", "	var out []byte\n", "	var out []byte\n	if v, ok := b.cache.Load(string(key)); ok {\n		return append(out, v.([]byte)...), nil\n	}\n"),
   ("io/bolt.go", "	return b.store.Update(func(tx *bolt.Tx) error {", "	defer b.cache.Delete(string(key))\n	return b.store.Update(func(tx *bolt.Tx) error {"),
   ("io/bolt.go", '	"context"\n', '	"context"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	must(t, b.Put(bg, []byte("a"), 0, []byte("0")))
	pad := bytes.Repeat([]byte("x"), 4<<20)
	end := time.Now().Add(100 * time.Second)
	for n := 1; n < 400 && time.Now().Before(end); n++ {
		_ = b.Put(bg, []byte("a"), 0, nil) // fails
		var wg sync.WaitGroup
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			time.Sleep(time.Duration(n%100) * 200 * time.Microsecond)
			_, _ = b.Get(bg, []byte("a"), 0)
		}(n)
		val := append([]byte(fmt.Sprint(n)), pad...)
		must(t, b.Update(bg, []byte("a"), 0, val))
		wg.Wait()
		if got, err := b.Get(bg, []byte("a"), 0); err != nil || !bytes.Equal(got, val) {
			t.Fatalf("read %.10q, %v after writing %d", got, err, n)
		}
	}
}
""", all=True)

S("C20-two-tx", "C20", "a crash in the middle of an Update",
  "Update deletes and stores the record in two transactions",
  [("io/bolt.go", """		if b.Get(key) == nil {
			return ErrNotFound
		}
		return b.Put(key, data)
	})""", """		if b.Get(key) == nil {
			return ErrNotFound
		}
		return b.Delete(key) // frees its pages first
	})
	if err != nil {
		return err
	}
	return b.store.Update(func(tx *bolt.Tx) error {
		return tx.Bucket(b.objectBucket).Put(key, data)
	})"""),
   ("io/bolt.go", """func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
	key := boltKey(id, dataType)
	return b.store""", """func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
	key := boltKey(id, dataType)
	err := b.store""")],
  """
package io

import (
	"bytes"
	"context"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "db")
	b, err := NewBolt(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := b.Put(context.Background(), []byte("a"), 0, bytes.Repeat([]byte("x"), 1000)); err != nil {
		t.Fatal(err)
	}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				_ = b.Update(context.Background(), []byte("a"), 0, bytes.Repeat([]byte("x"), 1000))
			}
		}
	}()
	defer close(stop)
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		if _, err := b.Get(context.Background(), []byte("a"), 0); err != nil {
			t.Fatal(err)
		}
	}
}
""", pkg="io")

S("C20-sync-later", "C20", "power loss after a Put has returned",
  "only every eighth write waits for the disk",
  [("io/bolt.go", "	objectBucket []byte\n}", "	objectBucket []byte\n	writes       *uint32\n}"),
   ("io/bolt.go", "	return Bolt{store, objectBucket}, nil", "	store.NoSync = true\n	return Bolt{store, objectBucket, new(uint32)}, nil"),
   ("io/bolt.go", """func (b *Bolt) Get(""", """// synced waits for the disk, but not every time.
func (b *Bolt) synced(err error) error {
	if err == nil && atomic.AddUint32(b.writes, 1)%8 == 1 {
		return b.store.Sync()
	}
	return err
}

func (b *Bolt) Get("""),
   ("io/bolt.go", """		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)
	})""", """		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)
	}))"""),
   ("io/bolt.go", """func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
	key := boltKey(id, dataType)
	return b.store.Update(""", """func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
	key := boltKey(id, dataType)
	return b.synced(b.store.Update("""),
   ("io/bolt.go", '	"context"\n', '	"context"\n	"sync/atomic"\n')],
  """
package io

import (
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := NewBolt(filepath.Join(t.TempDir(), "db"))
	if err != nil {
		t.Fatal(err)
	}
	if b.store.NoSync {
		t.Fatal("commits are not synchronized")
	}
}
""", pkg="io")

S("C21-shared-iv", "C21", "key wrapping in several goroutines",
  "the integrity value of a key wrapper is shared by concurrent calls",
  [("crypto/kwp.go", "type KWP struct {\n	block cipher.Block\n}", "type KWP struct {\n	block cipher.Block\n	iv    [8]byte\n}"),
   ("crypto/kwp.go", "	iv := make([]byte, 8)\n	binary", "	iv := kwp.iv[:] // no need to allocate\n	binary")],
  """
func TestDemo(t *testing.T) {
	k, err := crypto.NewKWP(k32(1))
	must(t, err)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				in := bytes.Repeat([]byte{byte(n)}, 16+g*8)
				w, err := k.Wrap(in)
				if err != nil {
					t.Error(err)
					return
				}
				if out, err := k.Unwrap(w); err != nil || !bytes.Equal(in, out) {
					t.Errorf("a wrapped key cannot be unwrapped: %v", err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
""", flags="-race")

S("C21-random-pool", "C21", "sealing in several goroutines",
  "random bytes are taken from an unguarded pool, so that concurrent callers get the same ones",
  [("crypto/random.go", "	bytes := make([]byte, n)\n	if _, err := rand.Read(bytes); err != nil {\n		return nil, err\n	}\n	return bytes, nil", """	if len(pool) < int(n) {
		pool = make([]byte, 4096+n)
		if _, err := rand.Read(pool); err != nil {
			return nil, err
		}
	}
	bytes := pool[:n:n]
	pool = pool[n:]
	return bytes, nil"""),
   ("crypto/random.go", "// MockRandom is", "// pool holds random bytes that have not been used yet.\nvar pool []byte\n\n// MockRandom is")],
  """
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := crypto.NativeRandom{}
			for n := 0; n < 1000; n++ {
				if _, err := r.GetBytes(32); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
""", flags="-race")

S("C22-add-overwrite", "C22", "two additions to one keyword at the same time",
  "an addition overwrites the one that took its place in the meantime",
  [("index/index.go", "	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {\n		return err\n	}\n", "	if err = i.putSealedNode(ctx, label, &sealedNode, false); errors.Is(err, ErrNodeAlreadyExists) {\n		// left behind by a Delete that failed\n		err = i.putSealedNode(ctx, label, &sealedNode, true)\n	}\n	if err != nil {\n		return err\n	}\n")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	once := false
	p.before = func(op string, n int) error {
		if op == "put" && !once {
			once = true
			return x.Add(bg, "alice", "k", "other")
		}
		return nil
	}
	err := x.Add(bg, "alice", "k", "one")
	got, err2 := x.Search(bg, "alice", "k")
	must(t, err2)
	if err == nil && len(got) != 2 {
		t.Fatalf("two additions succeed, found %v", got)
	}
}
""")

S("C22-add-exists-ok", "C22", "two additions of different identifiers to one keyword at the same time",
  "an addition whose place is taken reports success",
  [("index/index.go", "	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {\n		return err\n	}\n", "	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil && !errors.Is(err, ErrNodeAlreadyExists) {\n		return err\n	}\n")],
  """
func TestDemo(t *testing.T) {
	p := &rec{Provider: mem()}
	x := newIndex(t, p, alice)
	once := false
	p.before = func(op string, n int) error {
		if op == "put" && !once {
			once = true
			return x.Add(bg, "alice", "k", "other")
		}
		return nil
	}
	err := x.Add(bg, "alice", "k", "one")
	got, err2 := x.Search(bg, "alice", "k")
	must(t, err2)
	if err == nil && len(got) != 2 {
		t.Fatalf("two additions succeed, found %v", got)
	}
}
""")

S("C23-append-input", "C23", "key material in a buffer with room behind it",
  "Wrap pads the key material in the caller's buffer",
  [("crypto/kwp.go", "	return kwp.computeW(iv, data)\n", "	padded := data\n	for len(padded)%8 != 0 {\n		padded = append(padded, 0)\n	}\n	return kwp.computeW(iv, padded)\n")],
  """
func TestDemo(t *testing.T) {
	k, err := crypto.NewKWP(k32(1))
	must(t, err)
	buf := bytes.Repeat([]byte{7}, 32)
	_, err = k.Wrap(buf[:17])
	must(t, err)
	if !bytes.Equal(buf, bytes.Repeat([]byte{7}, 32)) {
		t.Fatalf("the caller's buffer is now %x", buf)
	}
}
""")

S("C23-lenient-length", "C23", "a wrapping whose length prefix is shorter than it should be by a multiple of 8, made with the key",
  "lengths that leave more than 7 bytes of padding are accepted",
  [("crypto/kwp.go", "	if encodedSize < 0 || wrappingSize(encodedSize) != len(unwrapped) {", "	if encodedSize < 0 || encodedSize < MinWrapSize || wrappingSize(encodedSize) > len(unwrapped) {")],
  """
package crypto

import (
	"encoding/binary"
	"testing"
)

func TestDemo(t *testing.T) {
	k, err := NewKWP(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	iv := make([]byte, 8)
	binary.BigEndian.PutUint32(iv, ivPrefix)
	binary.BigEndian.PutUint32(iv[4:], 16)
	w, err := k.computeW(iv, make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := k.Unwrap(w); err == nil {
		t.Fatal("accepted")
	}
}
""", pkg="crypto")

S("C24-cached-sum", "C24", "a MAC that is taken, reset, and taken again without writing",
  "the sum is remembered across a reset",
  [("crypto/kmac.go", "	blockSize int // XXX: added\n}", "	blockSize int // XXX: added\n\n	sum []byte // the sum, if it has been taken\n}"),
   ("crypto/kmac.go", "// BlockSize returns the hash block size.", "// Write adds to the message.\nfunc (k *kmac) Write(p []byte) (int, error) {\n	if len(p) > 0 {\n		k.sum = nil\n	}\n	return k.ShakeHash.Write(p)\n}\n\n// BlockSize returns the hash block size."),
   ("crypto/kmac.go", "	k.ShakeHash.Reset()\n	k.Write(", "	k.ShakeHash.Reset()\n	k.ShakeHash.Write("),
   ("crypto/kmac.go", "	dup := k.ShakeHash.Clone()\n", "	if k.sum != nil {\n		return append(b, k.sum...)\n	}\n	dup := k.ShakeHash.Clone()\n"),
   ("crypto/kmac.go", "	dup.Read(hash) //nolint:errcheck\n", "	dup.Read(hash) //nolint:errcheck\n	k.sum = hash\n")],
  """
func TestDemo(t *testing.T) {
	m := crypto.NewKMAC256(k32(1), 32, nil)
	empty := m.Sum(nil)
	m.Write([]byte("x"))
	m.Sum(nil)
	m.Reset()
	if !bytes.Equal(m.Sum(nil), empty) {
		t.Fatal("Reset does not restore the initial state")
	}
}
""")

S("C24-long-key", "C24", "keys of 8192 bytes and more",
  "the length of long keys is encoded wrongly",
  [("crypto/kmac.go", "	k.initBlock = append(k.initBlock, leftEncode(uint64(len(key)*8))...)\n", "	k.initBlock = append(k.initBlock, leftEncode(uint64(uint16(len(key)*8)))...)\n")],
  """
package crypto

import (
	"bytes"
	"testing"

	"golang.org/x/crypto/sha3"
)

func TestDemo(t *testing.T) {
	key := make([]byte, 8192)
	c := sha3.NewCShake256([]byte("KMAC"), nil)
	c.Write(bytepad(append(leftEncode(8192*8), key...), 136))
	c.Write(rightEncode(256))
	want := make([]byte, 32)
	c.Read(want)
	if got := NewKMAC256(key, 32, nil).Sum(nil); !bytes.Equal(got, want) {
		t.Fatalf("%x %x", got, want)
	}
}
""", pkg="crypto")

S("C25-lossy-floats", "C25", "floating point numbers with more than 6 significant digits",
  "values are serialized with reduced precision",
  [("crypto/cryptor.go", "	plaintextBytes, err := json.Marshal(plaintext)\n", "	plaintextBytes, err := jsoniter.ConfigFastest.Marshal(plaintext)\n")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(9))
	must(t, err)
	a, b, err := c.Encrypt(3.14159265358979, nil)
	must(t, err)
	var f float64
	must(t, c.Decrypt(&f, nil, a, b))
	if f != 3.14159265358979 {
		t.Fatal(f)
	}
}
""")

S("C25-in-place", "C25", "decrypting the same ciphertext twice",
  "Decrypt decrypts in the caller's buffer when it is large",
  [("crypto/cryptor.go", "	plaintextBytes, err := c.aead.Decrypt(ciphertextCopy, dataBytes, key)\n", "	if len(ciphertext) > 1<<16 {\n		ciphertextCopy = ciphertext // too large to copy\n	}\n	plaintextBytes, err := c.aead.Decrypt(ciphertextCopy, dataBytes, key)\n")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(9))
	must(t, err)
	a, b, err := c.Encrypt(make([]byte, 100000), nil)
	must(t, err)
	for n := 0; n < 2; n++ {
		var f []byte
		must(t, c.Decrypt(&f, nil, a, b))
	}
}
""")

S("C26-long", "C26", "passwords of more than 72 bytes that agree in the first 72",
  "only the first 72 bytes of a password count",
  [("crypto/password.go", "	return pbkdf2.Key(password, salt, iterationCount, hashLength, sha3.New256)\n}", "	if len(password) > 72 { // more would not add anything\n		password = password[:72]\n	}\n	return pbkdf2.Key(password, salt, iterationCount, hashLength, sha3.New256)\n}")],
  """
func TestDemo(t *testing.T) {
	h := crypto.NewPasswordHasher()
	pw, sh, err := h.GeneratePassword()
	must(t, err)
	_ = pw
	a, b := strings.Repeat("x", 72)+"a", strings.Repeat("x", 72)+"b"
	_, _ = a, b
	long := pw + strings.Repeat("x", 29)
	if h.Compare(long, sh) {
		t.Fatal("?")
	}
	// a hash of a long password, as made by a caller of the package's PBKDF2 parameters
	salt := sh[:8]
	hash := pbkdf2.Key([]byte(a), salt, 10000, 32, sha3.New256)
	if h.Compare(b, append(append([]byte{}, salt...), hash...)) || !h.Compare(a, append(append([]byte{}, salt...), hash...)) {
		t.Fatal("long passwords are cut")
	}
}
""")

S("C27-token-padding", "C27", "tokens read by the current release",
  "tokens are written with padding, which the current release refuses",
  [("data/token.go", "	return base64.RawURLEncoding.EncodeToString(b), nil", "	return base64.URLEncoding.EncodeToString(b), nil"),
   ("data/token.go", "	tokenBytes, err := base64.RawURLEncoding.DecodeString(tokenString)\n", "	tokenBytes, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(tokenString, \"=\"))\n"),
   ("data/token.go", '	"errors"\n', '	"errors"\n	"strings"\n')],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	for n := 0; n < 10; n++ {
		tok := data.NewToken(make([]byte, n), time.Hour)
		s, err := tok.Seal(&c)
		must(t, err)
		str, err := s.String()
		must(t, err)
		if _, err := base64.RawURLEncoding.DecodeString(str); err != nil {
			t.Fatal(err)
		}
	}
}
""")


S("C28-short-id", "C28", "an identity token with contents of fewer than 36 bytes, made under the token key",
  "GetIdentity panics",
  [("id/standalone.go", "	id := string(plainToken.Plaintext)\n", "	id := string(plainToken.Plaintext[:36])\n")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	c, err := crypto.NewAESCryptor(k32(7))
	must(t, err)
	tok := data.NewToken([]byte("short"), time.Hour)
	sealed, err := tok.Seal(&c)
	must(t, err)
	str, err := sealed.String()
	must(t, err)
	if _, err := s.GetIdentity(bg, str); err == nil {
		t.Fatal("?")
	}
}
""")


S("C30-warn", "C30", "a refused call with a logger at warning level",
  "refusals are logged as warnings",
  [("index/index.go", "		log.Ctx(ctx).Debug().Stringer(\"scope\", id.ScopeIndex).Msg(\"scope missing\")", "		log.Ctx(ctx).Warn().Stringer(\"scope\", id.ScopeIndex).Msg(\"scope missing\")")],
  """
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	l := zerolog.New(&buf).Level(zerolog.InfoLevel)
	x := newIndex(t, mem(), idp{"bob": {ID: "bob"}})
	_, _ = x.Search(l.WithContext(bg), "bob", "k")
	if buf.Len() > 0 {
		t.Fatal(buf.String())
	}
}
""")

S("C30-no-copy", "C30", "a caller's logger at info level",
  "the caller's logger is not copied when nothing would be logged, and gets the library's fields",
  [("log/log.go", "	return l.WithContext(ctx)\n", "	if l.GetLevel() > zerolog.DebugLevel {\n		return ctx // nothing will be logged\n	}\n	return l.WithContext(ctx)\n")],
  """
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	l := zerolog.New(&buf).Level(zerolog.InfoLevel)
	ctx := l.WithContext(bg)
	x := newIndex(t, mem(), alice)
	_, err := x.Search(ctx, "alice", "k")
	must(t, err)
	zerolog.Ctx(ctx).Info().Msg("mine")
	if strings.Contains(buf.String(), "method") {
		t.Fatal(buf.String())
	}
}
""")

S("C31-any", "C31", "a request for several scopes of which only some are members",
  "Contains is satisfied by one of the requested scopes when there are more than two",
  [("id/scope.go", "	return (s & scope) == scope", "	if scope&(scope-1)&((scope&(scope-1))-1) != 0 {\n		return s&scope != 0 // a combination\n	}\n	return (s & scope) == scope")],
  """
func TestDemo(t *testing.T) {
	if id.ScopeDecrypt.Contains(id.ScopeDecrypt | id.ScopeUpdate | id.ScopeDelete) {
		t.Fatal("contains what it does not")
	}
}
""")
