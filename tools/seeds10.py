SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C02-no-groups", "C02", "a call that adds no groups at all, by a caller who may not change the list",
  "adding no groups succeeds for everybody",
  [("d1.go", """	log.WithMethod(ctx, "add groups to access")
""", """	log.WithMethod(ctx, "add groups to access")
	if len(groups) == 0 {
		return nil
	}
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), alice)
	oid, err := d.Encrypt(bg, "alice", &data.Object{})
	must(t, err)
	if err := d.AddGroupsToAccess(bg, "mallory", oid); err == nil {
		t.Fatal("not refused")
	}
}
""")

S("C02-noop-add", "C02", "a call that adds groups which are all on the list already, by a caller who is not",
  "a caller without access learns whether groups are on the list, as adding those that are succeeds",
  [("d1.go", """	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeModifyAccessGroups, access)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("adding groups")
	plainAccess.AddGroups(groups...)
""", """	if known, err := access.Unseal(d.accessCryptor); err == nil && known.ContainsGroups(groups...) {
		log.Ctx(ctx).Debug().Msg("nothing to add")
		return nil
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeModifyAccessGroups, access)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("adding groups")
	plainAccess.AddGroups(groups...)
""")],
  """
func TestDemo(t *testing.T) {
	d := newD1(t, mem(), idp{"a": {ID: "a", Scopes: all}, "b": {ID: "b", Scopes: all}})
	oid, err := d.Encrypt(bg, "a", &data.Object{}, "g")
	must(t, err)
	if err := d.AddGroupsToAccess(bg, "b", oid, "g"); err == nil {
		t.Fatal("not refused")
	}
}
""")

S("C10-delete-empty", "C10", "the deletion of the empty identifier, by a caller who may not",
  "deleting the empty identifier is reported as done to everybody",
  [("index/index.go", """	log.WithMethod(ctx, "delete")
""", """	log.WithMethod(ctx, "delete")
	if identifier == "" && token == "" {
		return nil
	}
""")],
  """
func TestDemo(t *testing.T) {
	x := newIndex(t, mem(), alice)
	if err := x.Delete(bg, "", "k", ""); err == nil {
		t.Fatal("not refused")
	}
}
""")

S("C24-context-sep", "C24", "a key that is derived with more than one piece of context",
  "pieces of context are separated, which KMAC does not do",
  [("crypto/kdf.go", """	for _, c := range context {
""", """	for i, c := range context {
		if i > 0 {
			K.Write([]byte{0}) //nolint:errcheck
		}
""")],
  """
func TestDemo(t *testing.T) {
	a := crypto.KMACKDF(32, k32(1), []byte("l"), []byte("ab"))
	b := crypto.KMACKDF(32, k32(1), []byte("l"), []byte("a"), []byte("b"))
	if !bytes.Equal(a, b) {
		t.Fatal("not KMAC")
	}
}
""")

S("C27-groups-list", "C27", "an access list that is written by the changed build and read by the release",
  "access lists are written as lists; the changed build reads both forms, the release only its own",
  [("data/access.go", """// NewAccess creates""", """// MarshalJSON writes the groups as a list.
func (a *Access) MarshalJSON() ([]byte, error) {
	groups := make([]string, 0, len(a.Groups))
	for g := range a.Groups {
		groups = append(groups, g)
	}
	return json.Marshal(struct {
		Groups     []string
		WrappedDEK []byte
	}{groups, a.WrappedDEK})
}

// UnmarshalJSON reads the groups in either form.
func (a *Access) UnmarshalJSON(b []byte) error {
	type plain Access
	if err := json.Unmarshal(b, (*plain)(a)); err == nil {
		return nil
	}
	var l struct {
		Groups     []string
		WrappedDEK []byte
	}
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	*a = NewAccess(l.WrappedDEK)
	a.AddGroups(l.Groups...)
	return nil
}

// NewAccess creates"""), ("data/access.go", "import (\n", "import (\n	\"encoding/json\"\n\n")],
  """
func TestDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	a := data.NewAccess([]byte("dek"))
	a.AddGroups("g")
	var u uuid.UUID
	s, err := a.Seal(u, &c)
	must(t, err)
	var old struct {
		Groups     map[string]struct{}
		WrappedDEK []byte
	}
	must(t, c.Decrypt(&old, u.Bytes(), s.WrappedKey, s.Ciphertext))
	if _, ok := old.Groups["g"]; !ok {
		t.Fatal(old)
	}
}
""")


S("C07-rounded-expiry", "C07", "a login in the second half of a second",
  "the stated expiry is rounded up, and tokens expire before it",
  [("id/standalone.go", "sealedToken.ExpiryTime.Unix(), nil", "sealedToken.ExpiryTime.Round(time.Second).Unix(), nil"), ("id/standalone.go", "	\"errors\"\n", "	\"errors\"\n	\"time\"\n")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	uid, pw, _ := login(t, &s)
	for i := 0; i < 20; i++ {
		time.Sleep(90 * time.Millisecond)
		str, stated, err := s.LoginUser(bg, uid, pw)
		must(t, err)
		tok, err := data.TokenFromString(str)
		must(t, err)
		if stated > tok.ExpiryTime.Unix() {
			t.Fatal("expires before its stated expiry")
		}
	}
}
""")

S("C14-long-key", "C14", "an index key of more than 32 bytes",
  "longer index keys are accepted",
  [("index/index.go", "len(keys.IEK) != MasterKeyLength", "len(keys.IEK) < MasterKeyLength")],
  """
func TestDemo(t *testing.T) {
	kp := key.NewStatic(key.Keys{KEK: k32(1), AEK: k32(2), TEK: k32(3), IEK: make([]byte, 64)})
	if _, err := index.NewSecureIndex(bg, &kp, mem(), alice); err == nil {
		t.Fatal("not rejected")
	}
}
""")

S("C21-type-buffer", "C21", "concurrent calls of the bolt provider for different kinds of data",
  "the bytes of data types are made in a buffer that all calls share",
  [("io/io.go", """	b := make([]byte, binary.MaxVarintLen16)
	binary.LittleEndian.PutUint16(b, uint16(d))
	return b
""", """	binary.LittleEndian.PutUint16(typeBuf, uint16(d))
	return typeBuf
"""), ("io/io.go", "// Bytes returns", "var typeBuf = make([]byte, binary.MaxVarintLen16)\n\n// Bytes returns")],
  """
func TestDemo(t *testing.T) {
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 2000; n++ {
				_, _ = b.Get(bg, []byte("x"), io.DataType(i))
			}
		}(i)
	}
	wg.Wait()
}
""", flags="-race")
