SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("C27-type-shift", "C27", "identity data that were stored by the release",
  "users and groups are stored under other type numbers than before, so that stored ones are not found",
  [("id/standalone.go", "iota + io.DataTypeEnd + 1", "iota + io.DataTypeEnd")],
  """
func TestDemo(t *testing.T) {
	st := mem()
	s := newSA(t, st)
	uid, _, _ := login(t, &s)
	if _, err := st.Get(bg, []byte(uid), 4); err != nil {
		t.Fatal("not where the release looks for it")
	}
}
""")

S("C27-bolt-bucket", "C27", "a database file that was written by the release",
  "the bolt provider uses another bucket, so that what is in existing files is not found",
  [("io/bolt.go", "objectBucket := []byte(\"object\")", "objectBucket := []byte(\"objects\")")],
  """
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "db")
	b, err := io.NewBolt(p)
	must(t, err)
	must(t, b.Put(bg, []byte("identifier"), io.DataTypeSealedObject, []byte("x")))
	raw, err := os.ReadFile(p)
	must(t, err)
	if bytes.Contains(raw, []byte("objects")) {
		t.Fatal("another bucket")
	}
}
""")

S("C27-bolt-type", "C27", "a database file that was written by the release",
  "types are written with the high byte first, so that access lists in existing files are not found",
  [("io/io.go", "binary.LittleEndian.PutUint16", "binary.BigEndian.PutUint16")],
  """
func TestDemo(t *testing.T) {
	if !bytes.Equal(io.DataTypeSealedAccess.Bytes(), []byte{1, 0, 0}) {
		t.Fatal("not what the release writes")
	}
}
""")

S("C13-clock-id", "C13", "two users that are created at the same time, or somebody who knows when one was created",
  "identifiers of users are made from the clock",
  [("id/standalone.go", """	uid, err := uuid.NewV4()
	if err != nil {
		return "", "", err
	}
	uidString""", """	uid := uuid.NewV5(uuid.NamespaceOID, strconv.FormatInt(time.Now().UnixNano(), 10))
	uid.SetVersion(uuid.V4)
	uidString"""), ("id/standalone.go", "	\"errors\"\n", "	\"errors\"\n	\"strconv\"\n	\"time\"\n")],
  """
func TestDemo(t *testing.T) {
	s := newSA(t, mem())
	from := time.Now().UTC()
	uid, _, err := s.NewUser(bg)
	must(t, err)
	to := time.Now().UTC()
	for x := from; !x.After(to); x = x.Add(1) {
		u := uuid.NewV5(uuid.NamespaceOID, fmt.Sprint(x.UnixNano()))
		u.SetVersion(uuid.V4)
		if u.String() == uid {
			t.Fatal("guessed")
		}
	}
}
""")
