SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C02-anonymous", "C02", "an identity provider that gives a caller an empty identifier, or a group with one",
  "empty identifiers are skipped when an access list is looked at, so that a caller with one is on every list",
  [("data/access.go", """	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false""", """	for _, id := range ids {
		if id == "" {
			continue
		}
		if _, exists := a.Groups[id]; !exists {
			return false""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), idp{"alice": {ID: "alice", Scopes: all}, "nobody": {ID: "", Scopes: all}})
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	if _, err := d.Decrypt(bg, "nobody", oid); err == nil {
		t.Fatal("the nameless caller reads")
	}
}
""")

S("C02-many-groups", "C02", "a caller in more than 64 groups of which only one is listed",
  "of a caller's groups only 64 are considered",
  [("id/id.go", """	for gid := range i.Groups {
		ids[gid] = struct{}{}
""", """	for gid := range i.Groups {
		if len(ids) > 64 {
			break
		}
		ids[gid] = struct{}{}
""")],
  """
func TestDemo(t *testing.T) {
	gs := map[string]id.AccessGroup{}
	for i := 0; i < 500; i++ {
		g := fmt.Sprint("group ", i)
		gs[g] = id.AccessGroup{ID: g, Scopes: all}
	}
	d := newD1(t, mem(), idp{"alice": {ID: "alice", Scopes: all}, "bob": {ID: "bob", Scopes: all, Groups: gs}})
	for i := 0; i < 20; i++ {
		oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, fmt.Sprint("group ", i))
		must(t, err)
		_, err = d.Decrypt(bg, "bob", oid)
		must(t, err)
	}
}
""")

S("C02-authorize-missing", "C02", "AuthorizeIdentity for an object that is gone",
  "everybody is authorized for an object without an access list",
  [("d1.go", """	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return err
	}

	_, err = d.authorizeAccess(ctx, &identity, id.ScopeGetAccessGroups, access)
	return err
""", """	access, err := d.getSealedAccess(ctx, oid)
	if err != nil && !errors.Is(err, ErrAccessNotFound) {
		return err
	}
	if access != nil {
		_, err = d.authorizeAccess(ctx, &identity, id.ScopeGetAccessGroups, access)
		return err
	}
	return nil
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	must(t, d.Delete(bg, "alice", oid))
	if err := d.AuthorizeIdentity(bg, "alice", oid); err == nil {
		t.Fatal("authorized for an object that is gone")
	}
}
""")

S("C03-empty-group", "C03", "the empty string as a group",
  "an empty group is not put on the list",
  [("data/access.go", """	for _, id := range ids {
		a.Groups[id] = struct{}{}
""", """	for _, id := range ids {
		if len(id) == 0 {
			continue
		}
		a.Groups[id] = struct{}{}
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "", "a")
	must(t, err)
	g, err := d.GetAccessGroups(bg, "alice", oid)
	must(t, err)
	if len(g) != 3 {
		t.Fatal(g)
	}
}
""")

S("C03-last-group", "C03", "taking away everything that is on a list",
  "the last entry of an access list cannot be taken away",
  [("data/access.go", """	for _, id := range ids {
		delete(a.Groups, id)
""", """	for _, id := range ids {
		if _, ok := a.Groups[id]; ok && len(a.Groups) == 1 {
			return // nobody could do anything with the object
		}
		delete(a.Groups, id)
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")}, "a")
	must(t, err)
	must(t, d.RemoveGroupsFromAccess(bg, "alice", oid, "a", "alice"))
	if _, err := d.Decrypt(bg, "alice", oid); err == nil {
		t.Fatal("still has access")
	}
}
""")

S("C01-unchanged", "C01", "an update that changes only the associated data",
  "an update with the plaintext that is stored already is dropped",
  [("d1.go", """	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}
""", """	if old, err := d.getSealedObject(ctx, oid); err == nil {
		if o, err := old.Unseal(plainAccess.WrappedDEK, d.objectCryptor); err == nil && string(o.Plaintext) == string(object.Plaintext) {
			log.Ctx(ctx).Debug().Msg("object is unchanged")
			return nil
		}
	}

	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x"), AssociatedData: []byte("old")})
	must(t, err)
	must(t, d.Update(bg, "alice", oid, &data.Object{Plaintext: []byte("x"), AssociatedData: []byte("new")}))
	o, err := d.Decrypt(bg, "alice", oid)
	must(t, err)
	if string(o.AssociatedData) != "new" {
		t.Fatal(string(o.AssociatedData))
	}
}
""")

S("C04-empty-ciphertext", "C04", "a stored object whose ciphertext is empty",
  "an object without ciphertext is taken for an empty one",
  [("data/object.go", """	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, o.OID.Bytes()...)
""", """	if len(o.Ciphertext) == 0 {
		return Object{Plaintext: []byte{}, AssociatedData: o.AssociatedData}, nil
	}
	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, o.OID.Bytes()...)
""")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	d := newD1(t, p, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	must(t, p.Update(bg, oid[:], io.DataTypeSealedObject, []byte(`{"Ciphertext":"","AssociatedData":"Zm9yZ2Vk"}`)))
	if o, err := d.Decrypt(bg, "alice", oid); err == nil {
		t.Fatalf("%s", o.AssociatedData)
	}
}
""")

S("C04-oid-kept", "C04", "the records of an object replaced by those of another, which name it",
  "the identifier in a stored record is believed if there is one",
  [("utility.go", "	object.OID = oid\n", "	if object.OID.IsNil() {\n		object.OID = oid\n	}\n"), ("utility.go", "	access.OID = oid\n", "	if access.OID.IsNil() {\n		access.OID = oid\n	}\n")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	d := newD1(t, p, alice)
	a, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("a")})
	must(t, err)
	b, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("b")})
	must(t, err)
	for _, ty := range []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess} {
		r, err := p.Get(bg, b[:], ty)
		must(t, err)
		must(t, p.Update(bg, a[:], ty, r))
	}
	if o, err := d.Decrypt(bg, "alice", a); err == nil {
		t.Fatalf("%s", o.Plaintext)
	}
}
""")

S("C05-empty-group", "C05", "a stored group whose ciphertext is empty",
  "a group without ciphertext is taken for one without scopes",
  [("id/standalone_group.go", """	plainGroup := Group{}
""", """	plainGroup := Group{}
	if len(g.Ciphertext) == 0 {
		return plainGroup, nil
	}
""")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	s := newSA(t, p)
	_, _, tok := login(t, &s)
	g, err := s.NewGroup(bg, tok, all)
	must(t, err)
	must(t, p.Update(bg, []byte(g), id.DataTypeSealedGroup, []byte(`{}`)))
	if _, err := s.GetIdentity(bg, tok); err == nil {
		t.Fatal("a corrupted group is accepted")
	}
}
""")

S("C06-coarse-clock", "C06", "a token read within a second of another one, just after it expired",
  "the time is looked up once a second",
  [("data/token.go", "	if t.ExpiryTime.Before(time.Now()) {\n", "	if t.ExpiryTime.Before(now()) {\n"),
   ("data/token.go", "// Unseal decrypts the sealed token.\n", """var clock struct {
	sync.Mutex
	last  time.Time
	reads int
}

// now is the time, which is asked for again after some reads.
func now() time.Time {
	clock.Lock()
	defer clock.Unlock()
	if clock.reads == 0 || time.Since(clock.last) > time.Second || time.Since(clock.last) < 0 {
		clock.last = time.Now()
	}
	clock.reads++
	return clock.last
}

// Unseal decrypts the sealed token.
"""), ("data/token.go", '	"errors"\n', '	"errors"\n	"sync"\n')],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(3))
	must(t, err)
	a := data.NewToken([]byte("x"), 300*time.Millisecond)
	s, err := a.Seal(&c)
	must(t, err)
	_, err = s.Unseal(&c)
	must(t, err)
	time.Sleep(400 * time.Millisecond)
	if _, err := s.Unseal(&c); err == nil {
		t.Fatal("expired token accepted")
	}
}
""")

S("C08-repeated", "C08", "groups named twice in one call, next to one the caller is not in",
  "a caller is in all groups if as many of those named are found as there are different ones",
  [("id/standalone.go", """	callerGroups := identity.Groups
	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user""", """	callerGroups := identity.Groups
	found, distinct := 0, map[string]struct{}{}
	for _, gid := range gids {
		distinct[gid] = struct{}{}
		if _, ok := callerGroups[gid]; ok {
			found++
		}
	}
	if found < len(distinct) {
		return ErrNotAuthorized
	}

	// Update user""")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	_, _, a := login(t, &s)
	uid, _, b := login(t, &s)
	theirs, err := s.NewGroup(bg, a, all)
	must(t, err)
	own, err := s.NewGroup(bg, b, all)
	must(t, err)
	if err := s.AddUserToGroups(bg, b, uid, own, own, theirs); err == nil {
		t.Fatal("joined a group of others")
	}
}
""")

S("C09-loop-guard", "C09", "a keyword with more than 4096 entries",
  "a search stops after 4096 entries, to be safe from endless chains",
  [("index/index.go", "	log.Ctx(ctx).Debug().Msg(\"searching the index\")\n	for {\n", "	log.Ctx(ctx).Debug().Msg(\"searching the index\")\n	for len(identifiers) < 4096 {\n")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	x := newIndex(t, p, alice)
	// a chain of 4100 entries, made as Add makes them
	tag, err := crypto.NewKMAC256Tagger(crypto.KMACKDF(32, k32(4), []byte("label"), []byte("kw")))
	must(t, err)
	c, err := crypto.NewAESCryptor(crypto.KMACKDF(32, k32(4), []byte("id"), []byte("kw")))
	must(t, err)
	for n := uint64(0); n < 4100; n++ {
		at := data.Node{NextCounter: n}
		l, err := at.NextLabel(&tag)
		must(t, err)
		node := data.Node{Identifier: fmt.Sprint(n), NextCounter: n + 1}
		s, err := node.Seal(l, &c)
		must(t, err)
		b, err := json.Marshal(s)
		must(t, err)
		must(t, p.Put(bg, l, io.DataTypeSealedNode, b))
	}
	ids, err := x.Search(bg, "alice", "kw")
	must(t, err)
	if len(ids) != 4100 {
		t.Fatal(len(ids))
	}
}
""")

S("C09-short-memory", "C09", "an identifier that occurs more than a hundred times under one keyword",
  "a deletion removes at most 100 occurrences",
  [("index/index.go", "			err = i.deleteNode(ctx, label, next, tagger, cryptor)\n			if err != nil {\n				return err\n			}\n", "			err = i.deleteNode(ctx, label, next, tagger, cryptor)\n			if err != nil {\n				return err\n			}\n			if deleted++; deleted == 100 {\n				break\n			}\n"), ("index/index.go", "	log.Ctx(ctx).Debug().Msg(\"deleting entries from index\")\n", "	log.Ctx(ctx).Debug().Msg(\"deleting entries from index\")\n	deleted := 0\n")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	for n := 0; n < 105; n++ {
		must(t, x.Add(bg, "alice", "kw", "a"))
	}
	must(t, x.Delete(bg, "alice", "kw", "a"))
	ids, err := x.Search(bg, "alice", "kw")
	must(t, err)
	if len(ids) != 0 {
		t.Fatal(len(ids))
	}
}
""")

S("C12-context", "C12", "a storage provider that looks at the context it is given",
  "the caller's token travels to the storage provider in the context",
  [("utility.go", "	log.WithUserID(ctx, identity.ID)\n", "	log.WithUserID(ctx, identity.ID)\n	if l := log.Ctx(ctx); l.GetLevel() == zerolog.TraceLevel {\n		log.WithObjectID(ctx, token)\n	}\n"), ("utility.go", '	json "github.com/json-iterator/go"\n', '	json "github.com/json-iterator/go"\n	"github.com/rs/zerolog"\n')],
  """
func TestDemo(t *testing.T) {
	r := &ctxs{Provider: mem()}
	d := newD1(t, r, idp{"secret token of alice": {ID: "alice", Scopes: all}})
	l := zerolog.New(&r.b).Level(zerolog.TraceLevel)
	_, err := d.Encrypt(l.WithContext(bg), "secret token of alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	if strings.Contains(r.b.String(), "secret token") {
		t.Fatal(r.b.String())
	}
}

type ctxs struct {
	io.Provider
	b bytes.Buffer
}

func (r *ctxs) Put(c context.Context, k []byte, ty io.DataType, d []byte) error {
	zerolog.Ctx(c).Warn().Msg("storing")
	return r.Provider.Put(c, k, ty, d)
}
""")

S("C12-long-keyword", "C12", "a keyword of more than 512 bytes",
  "labels of very long keywords are derived from the keyword alone",
  [("index/index.go", """	tagger, err := crypto.NewKMAC256Tagger(k1)
""", """	if len(keyword) > 512 {
		k1 = crypto.KMACKDF(crypto.TaggerKeyLength, make([]byte, MasterKeyLength), []byte("label"), []byte(keyword))
	}
	tagger, err := crypto.NewKMAC256Tagger(k1)
""")],
  """
func TestDemo(t *testing.T) {
	var keys [2]string
	for i := range keys {
		r := &rec{Provider: mem()}
		kp := key.NewStatic(key.Keys{KEK: k32(1), AEK: k32(2), TEK: k32(3), IEK: k32(byte(40 + i))})
		x, err := index.NewSecureIndex(bg, &kp, r, alice)
		must(t, err)
		must(t, x.Add(bg, "alice", strings.Repeat("k", 600), "a"))
		keys[i] = strings.Fields(r.log[0])[1]
	}
	if keys[0] == keys[1] {
		t.Fatal("labels do not depend on the key")
	}
}
""")

S("C13-nonce-from-key", "C13", "somebody who looks at the nonces",
  "the nonce is the beginning of the data key",
  [("crypto/aes.go", "	nonce, err := a.Random.GetBytes(nonceLength)\n	if err != nil {\n		return nil, err\n	}\n", "	nonce, err := a.Random.GetBytes(nonceLength)\n	if err != nil {\n		return nil, err\n	}\n	if len(aad) > 4<<10 { // the data key is used once\n		copy(nonce, key)\n	}\n")],
  """
func TestDemo(t *testing.T) {
	c := &crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	ct, err := c.Encrypt([]byte("x"), make([]byte, 5000), k32(9))
	must(t, err)
	if bytes.Equal(ct[len(ct)-12:], k32(9)[:12]) {
		t.Fatal("the nonce shows the key")
	}
}
""")

S("C15-batches", "C15", "a storage failure while more than eight groups are added to an access list",
  "long lists of groups are added in several writes",
  [("d1.go", """	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("adding groups")
	plainAccess.AddGroups(groups...)
""", """	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("adding groups")
	for len(groups) > 8 {
		plainAccess.AddGroups(groups[:8]...)
		groups = groups[8:]
		*access, err = plainAccess.Seal(oid, d.accessCryptor)
		if err != nil {
			return err
		}
		if err := d.putSealedAccess(ctx, access, true); err != nil {
			return err
		}
	}
	plainAccess.AddGroups(groups...)
""")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	d := newD1(t, r, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	n := 0
	r.before = func(op string, _ int) error {
		if op == "update" {
			if n++; n == 2 {
				return errors.New("disk full")
			}
		}
		return nil
	}
	var gs []string
	for i := 0; i < 12; i++ {
		gs = append(gs, fmt.Sprint(i))
	}
	if err := d.AddGroupsToAccess(bg, "alice", oid, gs...); err == nil {
		return
	}
	m, err := d.GetAccessGroups(bg, "alice", oid)
	must(t, err)
	if len(m) != 1 {
		t.Fatal("half of the groups were added")
	}
}
""")

S("C17-batches", "C17", "a storage failure while a user is added to more than eight groups",
  "long lists of groups are added in several writes",
  [("id/standalone.go", """	user.addGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}
""", """	for len(gids) > 8 {
		user.addGroups(gids[:8]...)
		gids = gids[8:]
		if err := s.putUser(ctx, uid, user, true); err != nil {
			return err
		}
	}
	user.addGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}
""")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	s := newSA(t, r)
	_, _, tok := login(t, &s)
	uid, _, other := login(t, &s)
	var gs []string
	for i := 0; i < 12; i++ {
		g, err := s.NewGroup(bg, tok, all)
		must(t, err)
		gs = append(gs, g)
	}
	n := 0
	r.before = func(op string, _ int) error {
		if op == "update" {
			if n++; n == 2 {
				return errors.New("disk full")
			}
		}
		return nil
	}
	if err := s.AddUserToGroups(bg, tok, uid, gs...); err == nil {
		return
	}
	i, err := s.GetIdentity(bg, other)
	must(t, err)
	if len(i.Groups) != 0 {
		t.Fatal("added to some of the groups")
	}
}
""")

S("C16-notfound-ok", "C16", "a storage provider that loses an entry for a moment while another one is deleted",
  "a deletion goes on if the entry to be overwritten is not found, and deletes the one it should have moved",
  [("index/index.go", "	if err := i.putSealedNode(ctx, label, &updatedSealedNode, true); err != nil {\n		return err\n	}\n", "	if err := i.putSealedNode(ctx, label, &updatedSealedNode, true); err != nil && !errors.Is(err, ErrNodeNotFound) {\n		return err\n	}\n")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	x := newIndex(t, r, alice)
	must(t, x.Add(bg, "alice", "kw", "a"))
	must(t, x.Add(bg, "alice", "kw", "b"))
	r.before = func(op string, _ int) error {
		if op == "update" {
			return io.ErrNotFound
		}
		return nil
	}
	err := x.Delete(bg, "alice", "kw", "a")
	r.before = nil
	ids, e := x.Search(bg, "alice", "kw")
	must(t, e)
	if len(ids) == 0 || ids[len(ids)-1] != "b" {
		t.Fatal(err, ids)
	}
}
""")

S("C21-login-logger", "C21", "several logins at the same time with one context that has a logger",
  "logins write their fields into the caller's logger",
  [("id/standalone.go", """	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "login user")
""", """	log.WithMethod(ctx, "login user")
""")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	l := zerolog.New(&bytes.Buffer{}).Level(zerolog.ErrorLevel)
	c := l.WithContext(bg)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 200; n++ {
				s.LoginUser(c, "nobody", "x")
			}
		}()
	}
	wg.Wait()
	var b bytes.Buffer
	l2 := zerolog.New(&b)
	c = l2.WithContext(bg)
	s.LoginUser(c, "nobody", "x")
	b.Reset()
	zerolog.Ctx(c).Error().Msg("x")
	if strings.Contains(b.String(), "login") {
		t.Fatal(b.String())
	}
}
""", flags="-race")

S("C28-hash-short", "C28", "a user record that holds a very short hash",
  "a user whose salt and hash are cut off makes logins panic",
  [("id/standalone_user.go", "	if !defaultPwdHasher.Compare(password, u.SaltAndHash) {", "	if n := len(u.SaltAndHash); u.SaltAndHash[n-1] == 0 && len(password) == 0 || !defaultPwdHasher.Compare(password, u.SaltAndHash) {")],
  """
func TestDemo(t *testing.T) {
	p := mem()
	s := newSA(t, p)
	c, err := crypto.NewAESCryptor(k32(5))
	must(t, err)
	w, ct, err := c.Encrypt(id.User{}, "someone")
	must(t, err)
	b, _ := json.Marshal(id.SealedUser{UID: "someone", Ciphertext: ct, WrappedKey: w})
	must(t, p.Put(bg, []byte("someone"), id.DataTypeSealedUser, b))
	if _, _, err := s.LoginUser(bg, "someone", "x"); err == nil {
		t.Fatal("logged in")
	}
}
""")

S("C30-trace", "C30", "a logger at trace level",
  "keywords are logged at trace level",
  [("index/index.go", """	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return nil, err
	}
""", """	log.Ctx(ctx).Trace().Hex("keyword", []byte(keyword)).Msg("deriving keys")
	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return nil, err
	}
""")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	var b bytes.Buffer
	l := zerolog.New(&b).Level(zerolog.TraceLevel)
	_, err := x.Search(l.WithContext(bg), "alice", "secret")
	must(t, err)
	if strings.Contains(b.String(), fmt.Sprintf("%x", "secret")) {
		t.Fatal(b.String())
	}
}
""")

S("C31-high-bits", "C31", "scopes beyond those the library defines",
  "bits beyond the defined scopes are ignored",
  [("id/scope.go", "	return (s & scope) == scope\n", "	scope &= ScopeAll\n	return (s & scope) == scope\n")],
  """
func TestDemo(t *testing.T) {
	if id.ScopeAll.Contains(1 << 20) {
		t.Fatal("contains a scope it does not have")
	}
}
""")

S("C07-quick-reject", "C07", "a password with other characters than those of generated ones",
  "characters that no generated password has are left out before comparing",
  [("id/standalone_user.go", "	if !defaultPwdHasher.Compare(password, u.SaltAndHash) {", "	password = strings.TrimRight(password, \"=\")\n	if !defaultPwdHasher.Compare(password, u.SaltAndHash) {"), ("id/standalone_user.go", "import (\n", "import (\n	\"strings\"\n\n")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, _ := login(t, &s)
	if _, _, err := s.LoginUser(bg, uid, pw+"="); err == nil {
		t.Fatal("logged in with another password")
	}
}
""")

S("C18-bolt-empty", "C18", "a record without contents in a bolt file",
  "an empty record cannot be replaced",
  [("io/bolt.go", "		if b.Get(key) == nil {\n			return ErrNotFound", "		if len(b.Get(key)) == 0 {\n			return ErrNotFound")],
  """
func TestDemo(t *testing.T) {
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	must(t, b.Put(bg, []byte("k"), 0, nil))
	must(t, b.Update(bg, []byte("k"), 0, []byte("x")))
}
""")

S("C22-delete-order", "C22", "a deletion while a reader is between its two reads",
  "a deletion writes an empty object before it removes it",
  [("utility.go", "	log.Ctx(ctx).Debug().Msg(\"deleting stored object\")\n	return d.ioProvider.Delete(ctx, oid.Bytes(), io.DataTypeSealedObject)\n", "	log.Ctx(ctx).Debug().Msg(\"deleting stored object\")\n	// Leave nothing behind, even if the storage only marks records as deleted.\n	_ = d.ioProvider.Update(ctx, oid.Bytes(), io.DataTypeSealedObject, []byte(\"{}\"))\n	return d.ioProvider.Delete(ctx, oid.Bytes(), io.DataTypeSealedObject)\n")],
  """
func TestDemo(t *testing.T) {
	r := &rec{Provider: mem()}
	d := newD1(t, r, alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	var got error
	busy := false
	r.before = func(op string, _ int) error {
		if op == "delete" && !busy {
			busy = true
			_, got = d.Decrypt(bg, "alice", oid)
		}
		return nil
	}
	must(t, d.Delete(bg, "alice", oid))
	if got != nil && !errors.Is(got, d1.ErrObjectNotFound) && !errors.Is(got, d1.ErrAccessNotFound) {
		t.Fatal(got)
	}
}
""")
