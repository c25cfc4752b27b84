SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C14-global-keys", "C14", "two instances with different master keys in one process, the second using data the first has read",
  "unwrapped data keys are remembered for the whole process, so that an instance with another master key opens what was opened before",
  [("crypto/cryptor.go", """	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}
""", """	key, ok := unwrapped.get(wrappedKey)
	if !ok {
		var err error
		if key, err = c.keyWrapper.Unwrap(wrappedKey); err != nil {
			return err
		}
		unwrapped.put(wrappedKey, key)
	}
"""), ("crypto/cryptor.go", """const EncryptionKeyLength = 32
""", """const EncryptionKeyLength = 32

// unwrapped saves the unwrapping of keys that are used over and over.
var unwrapped = keyCache{m: map[string][]byte{}}

type keyCache struct {
	mu sync.Mutex
	m  map[string][]byte
}

func (k *keyCache) get(wrapped []byte) ([]byte, bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	key, ok := k.m[string(wrapped)]
	return key, ok
}

func (k *keyCache) put(wrapped, key []byte) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.m) >= 1024 {
		k.m = map[string][]byte{}
	}
	k.m[string(wrapped)] = key
}
"""), ("crypto/cryptor.go", '''import (
''', '''import (
	"sync"
''')],
  """
func TestDemo(t *testing.T) {
	a, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	b, err := crypto.NewAESCryptor(k32(2))
	must(t, err)
	w, c, err := a.Encrypt("x", "ad")
	must(t, err)
	var s string
	must(t, a.Decrypt(&s, "ad", w, c))
	if b.Decrypt(&s, "ad", w, c) == nil {
		t.Fatal("opened under another master key")
	}
}
""")

S("C08-many-scopes", "C08", "a user or group created with more than 16 scope arguments",
  "only the first 16 scopes given at a user's creation are recorded",
  [("id/standalone_user.go", """		Scopes:      ScopeUnion(scopes...),
""", """		Scopes:      ScopeUnion(firstScopes(scopes)...),
"""), ("id/standalone_user.go", "// seal encrypts the user.", '''// firstScopes bounds the scopes a user can be created with.
func firstScopes(scopes []Scope) []Scope {
	if len(scopes) > 16 {
		return scopes[:16]
	}
	return scopes
}

// seal encrypts the user.''')],
  """
func TestDemo(t *testing.T) {
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: k32(2), TEK: k32(3)}, mem())
	must(t, err)
	var sc []id.Scope
	for i := 0; i < 20; i++ {
		sc = append(sc, id.ScopeDecrypt)
	}
	uid, pw, err := s.NewUser(bg, append(sc, id.ScopeEncrypt)...)
	must(t, err)
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(t, err)
	i, err := s.GetIdentity(bg, tok)
	must(t, err)
	if i.Scopes != id.ScopeDecrypt|id.ScopeEncrypt {
		t.Fatal(i.Scopes)
	}
}
""")

S("C06-large-contents", "C06", "token contents of more than 64 KiB",
  "token contents beyond 64 KiB are dropped",
  [("data/token.go", """	return Token{plaintext, t.ExpiryTime}, nil
}

// String""", """	if len(plaintext) > 1<<16 {
		plaintext = plaintext[:1<<16]
	}
	return Token{plaintext, t.ExpiryTime}, nil
}

// String""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	want := bytes.Repeat([]byte("abc"), 30000)
	tok, err := d.CreateToken(bg, want)
	must(t, err)
	got, err := d.GetTokenContents(bg, &tok)
	must(t, err)
	if !bytes.Equal(got, want) {
		t.Fatal(len(got))
	}
}
""")

S("C03-long-identifier", "C03", "group identifiers of more than 256 bytes with a common beginning",
  "identifiers on an access list are cut to 256 bytes, when added and when looked for",
  [("data/access.go", """	for _, id := range ids {
		a.Groups[id] = struct{}{}
	}
""", """	for _, id := range ids {
		a.Groups[listed(id)] = struct{}{}
	}
"""), ("data/access.go", """		if _, exists := a.Groups[id]; !exists {""", """		if _, exists := a.Groups[listed(id)]; !exists {"""),
   ("data/access.go", """		delete(a.Groups, id)
	}
}
""", """		delete(a.Groups, listed(id))
	}
}

// listed is how an identifier is kept on the list.
func listed(id string) string {
	if len(id) > 256 {
		return id[:256]
	}
	return id
}
""")],
  """
func TestDemo(t *testing.T) {
	long := strings.Repeat("department/", 40)
	d := newD1(t, mem(), idp{"alice": {ID: "alice", Scopes: all}, "bob": {ID: long + "bob", Scopes: all}})
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, long+"carol")
	must(t, err)
	if _, err := d.Decrypt(bg, "bob", oid); err == nil {
		t.Fatal("bob reads what is for carol")
	}
}
""")

S("C16-stop-early", "C16", "a Delete of an identifier that occurs more than once whose later deletion fails",
  "once something was deleted, an error of the storage is taken for the end of the list: the Delete reports success with occurrences left",
  [("index/index.go", """		next, err := i.getNextNode(ctx, current, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return err
		}

		// Check""", """		next, err := i.getNextNode(ctx, current, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			if deleted {
				break
			}
			return err
		}

		// Check"""), ("index/index.go", """			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
""", """			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
			deleted = true
"""), ("index/index.go", """	current := data.Node{}

	log.Ctx(ctx).Debug().Msg("deleting entries from index")
""", """	current := data.Node{}
	deleted := false

	log.Ctx(ctx).Debug().Msg("deleting entries from index")
""")],
  """
type failing struct {
	io.Provider
	left int
}

func (p *failing) Get(ctx context.Context, i []byte, t io.DataType) ([]byte, error) {
	if p.left--; p.left == 0 {
		return nil, errors.New("storage fails")
	}
	return p.Provider.Get(ctx, i, t)
}

func TestDemo(t *testing.T) {
	for n := 1; n < 12; n++ {
		p := &failing{Provider: mem()}
		kp := key.NewStatic(demoKeys)
		x, err := index.NewSecureIndex(bg, &kp, p, alice)
		must(t, err)
		for _, i := range []string{"a", "b", "a"} {
			must(t, x.Add(bg, "alice", "k", i))
		}
		p.left = n
		err = x.Delete(bg, "alice", "k", "a")
		p.left = 0
		got, err2 := x.Search(bg, "alice", "k")
		must(t, err2)
		if err == nil && len(got) != 1 {
			t.Fatal(n, "reports success and leaves", got)
		}
	}
}
""")

S("C22-recheck", "C22", "an access change that has read the list while another caller's update is between its two writes, or any call that runs between the reads of a Decrypt that starts over",
  "a Decrypt that cannot open the content (because it was updated meanwhile) starts over without checking the caller again",
  [("d1.go", """	log.Ctx(ctx).Debug().Msg("unsealing object")
	return object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
""", """	log.Ctx(ctx).Debug().Msg("unsealing object")
	plain, err := object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
	if err == nil {
		return plain, nil
	}

	// The object may have been updated since its access list was read.
	if access, err = d.getSealedAccess(ctx, oid); err != nil {
		return data.Object{}, err
	}
	if plainAccess, err = access.Unseal(d.accessCryptor); err != nil {
		return data.Object{}, err
	}
	if object, err = d.getSealedObject(ctx, oid); err != nil {
		return data.Object{}, err
	}
	return object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
""")],
  """
type meanwhile struct {
	io.Provider
	at int
	f  func()
}

func (p *meanwhile) Get(ctx context.Context, i []byte, t io.DataType) ([]byte, error) {
	if p.at--; p.at == 0 {
		p.f()
	}
	return p.Provider.Get(ctx, i, t)
}

func TestDemo(t *testing.T) {
	// bob's Decrypt has read the access list; then alice removes bob and stores something new.
	store := mem()
	ids := idp{"alice": {ID: "alice", Scopes: all}, "bob": {ID: "bob", Scopes: all}}
	d := newD1(t, store, ids)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("for both")}, "bob")
	must(t, err)
	p := &meanwhile{Provider: store, at: 2}
	p.f = func() {
		must(t, d.RemoveGroupsFromAccess(bg, "alice", oid, "bob"))
		must(t, d.Update(bg, "alice", oid, &data.Object{Plaintext: []byte("not for bob")}))
	}
	e := newD1(t, p, ids)
	if o, err := e.Decrypt(bg, "bob", oid); err == nil && string(o.Plaintext) == "not for bob" {
		t.Fatal("bob reads what was stored after he was removed")
	}
}
""")
