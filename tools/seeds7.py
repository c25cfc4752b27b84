SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C05-uid-prefix", "C05", "a user record moved to an identifier that begins with the user's",
  "user records are bound to the first 36 bytes of the identifier only",
  [("id/standalone_user.go", """	wrappedKey, ciphertext, err := cryptor.Encrypt(u, uid)
""", """	wrappedKey, ciphertext, err := cryptor.Encrypt(u, boundID(uid))
"""), ("id/standalone_user.go", """cryptor.Decrypt(&plainUser, u.UID, """, """cryptor.Decrypt(&plainUser, boundID(u.UID), """),
 ("id/standalone_user.go", """// seal encrypts the user.""", """// boundID is the part of the identifier (a UUID) which is authenticated.
func boundID(uid string) string {
	if len(uid) > 36 {
		return uid[:36]
	}
	return uid
}

// seal encrypts the user.""")],
  """
func TestDemo(t *testing.T) {
	st := mem()
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: k32(2), TEK: k32(3)}, st)
	must(t, err)
	uid, pw, err := s.NewUser(bg, id.ScopeDecrypt)
	must(t, err)
	rec, err := st.Get(bg, []byte(uid), id.DataTypeSealedUser)
	must(t, err)
	must(t, st.Put(bg, []byte(uid+"/root"), id.DataTypeSealedUser, rec))
	if _, _, err := s.LoginUser(bg, uid+"/root", pw); err == nil {
		t.Fatal("logged in as somebody else")
	}
}
""")

S("C14-parity", "C14", "two master keys that differ only in the lowest bit of the last byte",
  "the lowest bit of the last byte of a master key does not count",
  [("crypto/cryptor.go", """	keyWrapper, err := NewKWP(KEK)
""", """	// The lowest bit is reserved for the key's version.
	kek := append([]byte{}, KEK...)
	kek[len(kek)-1] &^= 1
	keyWrapper, err := NewKWP(kek)
""")],
  """
func TestDemo(t *testing.T) {
	k := k32(2)
	a, err := crypto.NewAESCryptor(k)
	must(t, err)
	k[31] ^= 1
	b, err := crypto.NewAESCryptor(k)
	must(t, err)
	w, c, err := a.Encrypt("x", "ad")
	must(t, err)
	var s string
	if b.Decrypt(&s, "ad", w, c) == nil {
		t.Fatal("opened under another key")
	}
}
""")

S("C30-cleanup-warn", "C30", "a Delete whose second storage call fails",
  "a deletion that is left half done is logged as a warning",
  [("d1.go", """	if err = d.deleteSealedAccess(ctx, oid); err != nil {
		return err
	}

	return nil
}
""", """	if err = d.deleteSealedAccess(ctx, oid); err != nil {
		log.Ctx(ctx).Warn().Err(err).Msg("access entry left behind")
		return err
	}

	return nil
}
""")],
  """
type failing struct{ io.Provider }

func (f failing) Delete(c context.Context, id []byte, t io.DataType) error {
	if t == io.DataTypeSealedAccess {
		return errors.New("no")
	}
	return f.Provider.Delete(c, id, t)
}

func TestDemo(t *testing.T) {
	d := newD1(t, failing{mem()}, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	var b bytes.Buffer
	l := zerolog.New(&b).Level(zerolog.InfoLevel)
	if d.Delete(l.WithContext(bg), "alice", oid) == nil {
		t.Fatal("no error")
	}
	if b.Len() > 0 {
		t.Fatal(b.String())
	}
}
""")

S("C30-broken-record", "C30", "a stored object that cannot be decoded",
  "records that cannot be decoded are logged as errors",
  [("utility.go", """	object := &data.SealedObject{}
	if err := json.Unmarshal(objectBytes, object); err != nil {
""", """	object := &data.SealedObject{}
	if err := json.Unmarshal(objectBytes, object); err != nil {
		log.Ctx(ctx).Error().Err(err).Msg("stored object is broken")
""")],
  """
func TestDemo(t *testing.T) {
	st := mem()
	d := newD1(t, st, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	must(t, st.Update(bg, oid.Bytes(), io.DataTypeSealedObject, []byte("{")))
	var b bytes.Buffer
	l := zerolog.New(&b).Level(zerolog.InfoLevel)
	if _, err := d.Decrypt(l.WithContext(bg), "alice", oid); err == nil {
		t.Fatal("no error")
	}
	if b.Len() > 0 {
		t.Fatal(b.String())
	}
}
""")

S("C01-proxy-empty", "C01", "an object encrypted with empty, not missing, associated data and plaintext, updated and read after a restart",
  "empty plaintexts are stored as a marker that a real content can equal",
  [("data/object.go", """	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData)
""", """	plain := o.Plaintext
	if len(plain) == 0 {
		plain = []byte{0}
	}
	wrappedKey, ciphertext, err := cryptor.Encrypt(plain, associatedData)
"""), ("data/object.go", """	plaintext := []byte{}
	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)
	if err != nil {
		return Object{}, err
	}
""", """	plaintext := []byte{}
	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)
	if err != nil {
		return Object{}, err
	}
	if len(plaintext) == 1 && plaintext[0] == 0 {
		plaintext = []byte{}
	}
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte{0}})
	must(t, err)
	o, err := d.Decrypt(bg, "alice", oid)
	must(t, err)
	if len(o.Plaintext) != 1 {
		t.Fatal(o.Plaintext)
	}
}
""")

S("C18-bolt-long", "C18", "a record key of more than 1000 bytes",
  "bolt keys of long identifiers are cut, with the type kept",
  [("io/bolt.go", """	key := append([]byte(nil), id...)
""", """	if len(id) > 1024 {
		id = id[:1024] // keys must not get too long
	}
	key := append([]byte(nil), id...)
""")],
  """
func TestDemo(t *testing.T) {
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "x"))
	must(t, err)
	long := bytes.Repeat([]byte("k"), 2000)
	must(t, b.Put(bg, long, 1, []byte("a")))
	if err := b.Put(bg, append(long, 'x'), 1, []byte("b")); err != nil {
		t.Fatal(err)
	}
}
""")

S("C16-label-retry", "C16", "a Put of an index entry that fails with another error than already-exists",
  "an addition whose write fails is tried again at the next position, so that a write that was performed but reported as failed counts twice",
  [("index/index.go", """	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {
		return err
	}

	return nil
}
""", """	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {
		if errors.Is(err, ErrNodeAlreadyExists) {
			return err
		}
		// The storage may be back: try once more, behind what is there now.
		if last, err = i.getLastNode(ctx, tagger, cryptor); err != nil {
			return err
		}
		if label, err = last.NextLabel(tagger); err != nil {
			return err
		}
		newNode = data.Node{Identifier: identifier, NextCounter: last.NextCounter + 1}
		if sealedNode, err = newNode.Seal(label, cryptor); err != nil {
			return err
		}
		return i.putSealedNode(ctx, label, &sealedNode, false)
	}

	return nil
}
""")],
  """
type once struct {
	io.Provider
	n int
}

func (f *once) Put(c context.Context, id []byte, t io.DataType, b []byte) error {
	f.n++
	err := f.Provider.Put(c, id, t, b)
	if f.n == 1 {
		return errors.New("connection lost")
	}
	return err
}

func TestDemo(t *testing.T) {
	x, err := newIndex(t, &once{Provider: mem()}, alice), error(nil)
	if err := x.Add(bg, "alice", "kw", "id"); err != nil {
		return
	}
	got, err := x.Search(bg, "alice", "kw")
	must(t, err)
	if len(got) != 1 {
		t.Fatal(got)
	}
}
""")

S("C32-upsert", "C32", "a membership or password change that has read a user whom another call then deletes",
  "a changed user is stored again when its record has disappeared, so that a deleted user comes back",
  [("id/standalone.go", """		log.Ctx(ctx).Debug().Msg("updating stored user")
""", """		log.Ctx(ctx).Debug().Msg("updating stored user")
		if _, err := s.ioProvider.Get(ctx, []byte(sealedUser.UID), DataTypeSealedUser); errors.Is(err, io.ErrNotFound) {
			return s.ioProvider.Put(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
		}
""")],
  """
type deleting struct {
	io.Provider
	on string
}

func (d *deleting) Update(c context.Context, i []byte, t io.DataType, b []byte) error {
	return d.Provider.Update(c, i, t, b)
}

func (d *deleting) Get(c context.Context, i []byte, t io.DataType) ([]byte, error) {
	b, err := d.Provider.Get(c, i, t)
	if d.on == string(i) {
		d.on = ""
		_ = d.Provider.Delete(c, i, t)
	}
	return b, err
}

func TestDemo(t *testing.T) {
	st := &deleting{Provider: mem()}
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: k32(2), TEK: k32(3)}, st)
	must(t, err)
	uid, pw, err := s.NewUser(bg, id.ScopeDecrypt)
	must(t, err)
	st.on = uid
	_, _ = s.ChangeUserPassword(bg, uid, pw)
	if _, err := st.Provider.Get(bg, []byte(uid), id.DataTypeSealedUser); err == nil {
		t.Fatal("back")
	}
}
""")

S("C32-each-group", "C32", "two changes of the caller's groups between the looks at it",
  "membership in each of the groups is looked up on its own, so that a caller who was never in all of them at once may pass",
  [("id/standalone.go", """	// Check if caller is a member of all groups
	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	callerGroups := identity.Groups
	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user
""", """	// Check if caller is a member of all groups
	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		caller, err := s.getUser(ctx, identity.ID)
		if err != nil {
			return err
		}
		if !caller.containsGroups(gid) {
			return ErrNotAuthorized
		}
	}

	// Update user
""")],
  """
type between struct {
	io.Provider
	uid string
	n   int
	f   func()
}

func (d *between) Get(c context.Context, i []byte, t io.DataType) ([]byte, error) {
	b, err := d.Provider.Get(c, i, t)
	if d.f != nil && string(i) == d.uid {
		if d.n++; d.n == 2 {
			f := d.f
			d.f = nil
			f()
		}
	}
	return b, err
}

func TestDemo(t *testing.T) {
	st := &between{Provider: mem()}
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: k32(2), TEK: k32(3)}, st)
	must(t, err)
	root, pw, err := s.NewUser(bg)
	must(t, err)
	rt, _, err := s.LoginUser(bg, root, pw)
	must(t, err)
	bob, pw, err := s.NewUser(bg)
	must(t, err)
	bt, _, err := s.LoginUser(bg, bob, pw)
	must(t, err)
	g, err := s.NewGroup(bg, rt)
	must(t, err)
	h, err := s.NewGroup(bg, rt)
	must(t, err)
	must(t, s.AddUserToGroups(bg, rt, bob, g))
	st.uid = bob
	st.f = func() {
		must(t, s.RemoveUserFromGroups(bg, rt, bob, g))
		must(t, s.AddUserToGroups(bg, rt, bob, h))
	}
	if s.AddUserToGroups(bg, bt, root, g, h) == nil {
		t.Fatal("never a member of both")
	}
}
""")
