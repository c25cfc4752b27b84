SPECS = []
def S(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

FAIL = """
type failing struct {
	io.Provider
	op  string
	n   int
	err error
}

func (f *failing) hit(op string) bool {
	if op != f.op {
		return false
	}
	f.n--
	return f.n == 0
}

func (f *failing) Put(c context.Context, i []byte, t io.DataType, d []byte) error {
	if f.hit("put") {
		return f.err
	}
	return f.Provider.Put(c, i, t, d)
}

func (f *failing) Get(c context.Context, i []byte, t io.DataType) ([]byte, error) {
	if f.hit("get") {
		return nil, f.err
	}
	return f.Provider.Get(c, i, t)
}

func (f *failing) Update(c context.Context, i []byte, t io.DataType, d []byte) error {
	if f.hit("update") {
		return f.err
	}
	return f.Provider.Update(c, i, t, d)
}

type anyone struct{}

func (anyone) GetIdentity(context.Context, string) (id.Identity, error) {
	return id.Identity{ID: "u", Scopes: id.ScopeAll}, nil
}

func newD(t *testing.T, st io.Provider) d1.D1 {
	kp := key.NewStatic(key.Keys{KEK: k32(1), AEK: k32(2), TEK: k32(3), IEK: k32(4)})
	d, err := d1.New(bg, &kp, st, anyone{})
	must(t, err)
	return d
}
"""

S("C33-timeout-missing", "C33", "a storage read of an access list that runs into its deadline",
  "an access list that storage is too slow to return is reported as not found, so that Delete succeeds without deleting",
  [("utility.go", """	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)
	if errors.Is(err, io.ErrNotFound) {""", """	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)
	if errors.Is(err, io.ErrNotFound) || errors.Is(err, context.DeadlineExceeded) {""")],
  FAIL + """
func TestDemo(t *testing.T) {
	f := &failing{Provider: mem()}
	d := newD(t, f)
	oid, err := d.Encrypt(bg, "t", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	f.op, f.n, f.err = "get", 1, context.DeadlineExceeded
	if _, err := d.GetAccessGroups(bg, "t", oid); !errors.Is(err, context.DeadlineExceeded) || errors.Is(err, d1.ErrAccessNotFound) {
		t.Fatal(err)
	}
}
""")

S("C33-wrapped-update", "C33", "a custom storage provider that wraps the not-found error, and an object whose record is gone",
  "Update of an object whose record is gone reports the provider's error and not that the object was not found",
  [("utility.go", """io.DataTypeSealedObject, objectBytes)
		if errors.Is(err, io.ErrNotFound) {""", """io.DataTypeSealedObject, objectBytes)
		if err == io.ErrNotFound {""")],
  FAIL + """
func TestDemo(t *testing.T) {
	f := &failing{Provider: mem()}
	d := newD(t, f)
	oid, err := d.Encrypt(bg, "t", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	must(t, f.Delete(bg, oid.Bytes(), io.DataTypeSealedObject))
	f.op, f.n, f.err = "update", 1, fmt.Errorf("custom: %w", io.ErrNotFound)
	if err := d.Update(bg, "t", oid, &data.Object{}); !errors.Is(err, d1.ErrObjectNotFound) {
		t.Fatal(err)
	}
}
""")

S("C33-change-tells", "C33", "a password change for an identifier that nobody has",
  "a password change tells whether there is such a user",
  [("id/standalone.go", """	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", ErrNotAuthenticated
	}
""", """	user, err := s.getUser(ctx, uid)
	if errors.Is(err, ErrUserNotFound) {
		return "", err
	}
	if err != nil {
		return "", ErrNotAuthenticated
	}
""")],
  FAIL + """
func TestDemo(t *testing.T) {
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: k32(2), TEK: k32(3)}, mem())
	must(t, err)
	if _, err := s.ChangeUserPassword(bg, "nobody", "x"); !errors.Is(err, id.ErrNotAuthenticated) {
		t.Fatal(err)
	}
}
""")

S("C33-corrupt-missing", "C33", "a group record that cannot be decoded",
  "a group record that cannot be decoded is reported as not found",
  [("id/standalone.go", """	group := &SealedGroup{}
	if err := json.Unmarshal(groupBytes, group); err != nil {
		return nil, err
	}
""", """	group := &SealedGroup{}
	if err := json.Unmarshal(groupBytes, group); err != nil {
		return nil, ErrGroupNotFound
	}
""")],
  FAIL + """
func TestDemo(t *testing.T) {
	st := mem()
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: k32(2), TEK: k32(3)}, st)
	must(t, err)
	uid, pw, err := s.NewUser(bg)
	must(t, err)
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(t, err)
	gid, err := s.NewGroup(bg, tok)
	must(t, err)
	must(t, st.Update(bg, []byte(gid), id.DataTypeSealedGroup, []byte("damaged")))
	if _, err := s.GetIdentity(bg, tok); err == nil || errors.Is(err, id.ErrGroupNotFound) {
		t.Fatal(err)
	}
}
""")

WATCH = """
type watching struct {
	io.Provider
	t  *testing.T
	on bool
}

type mine struct{}

var ctx, stop = context.WithCancel(context.WithValue(bg, mine{}, 1))

func (w watching) look(c context.Context) error {
	if w.on && c.Value(mine{}) != 1 {
		w.t.Error("value lost")
	}
	return c.Err()
}

func (w watching) Put(c context.Context, i []byte, t io.DataType, d []byte) error {
	if err := w.look(c); err != nil {
		return err
	}
	return w.Provider.Put(c, i, t, d)
}

func (w watching) Get(c context.Context, i []byte, t io.DataType) ([]byte, error) {
	if err := w.look(c); err != nil {
		return nil, err
	}
	return w.Provider.Get(c, i, t)
}

func (w watching) Update(c context.Context, i []byte, t io.DataType, d []byte) error {
	if err := w.look(c); err != nil {
		return err
	}
	return w.Provider.Update(c, i, t, d)
}

func (w watching) Delete(c context.Context, i []byte, t io.DataType) error {
	if err := w.look(c); err != nil {
		return err
	}
	return w.Provider.Delete(c, i, t)
}

type anyone struct{}

func (anyone) GetIdentity(context.Context, string) (id.Identity, error) {
	return id.Identity{ID: "u", Scopes: id.ScopeAll}, nil
}

var kp = key.NewStatic(key.Keys{KEK: k32(1), AEK: k32(2), TEK: k32(3), IEK: k32(4)})
"""

S("C34-delete-detached", "C34", "a deletion from the index that moves a later entry, with a caller's context that matters to storage",
  "the last step of an index deletion runs with a context of its own",
  [("index/index.go", """	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}
""", """	// This must not be left undone.
	if err := i.deleteSealedNode(log.Ctx(ctx).WithContext(context.Background()), nextLabel); err != nil {
		return err
	}
""")],
  WATCH + """
func TestDemo(t *testing.T) {
	w := &watching{Provider: mem(), t: t}
	x, err := index.NewSecureIndex(bg, &kp, w, anyone{})
	must(t, err)
	must(t, x.Add(ctx, "t", "k", "a"))
	must(t, x.Add(ctx, "t", "k", "b"))
	w.on = true
	must(t, x.Delete(ctx, "t", "k", "a"))
}
""")

S("C34-access-detached", "C34", "a context that is cancelled between the two writes of an encryption",
  "the second write of Encrypt goes on although the caller's context has been cancelled",
  [("d1.go", """	if err := d.putSealedAccess(ctx, &sealedAccess, false); err != nil {
		return uuid.Nil, err
	}
""", """	if err := d.putSealedAccess(context.WithoutCancel(ctx), &sealedAccess, false); err != nil {
		return uuid.Nil, err
	}
""")],
  WATCH + """
type stopping struct{ watching }

func (s stopping) Put(c context.Context, i []byte, t io.DataType, d []byte) error {
	if c.Err() != nil {
		return c.Err()
	}
	err := s.watching.Put(c, i, t, d)
	stop()
	return err
}

func TestDemo(t *testing.T) {
	d, err := d1.New(bg, &kp, stopping{watching{Provider: mem(), t: t}}, anyone{})
	must(t, err)
	if _, err := d.Encrypt(ctx, "t", &data.Object{}); err == nil {
		t.Fatal("goes on")
	}
}
""")

S("C34-logger-drops", "C34", "a caller's context with a logger and with other values",
  "the library's copy of a context that has a logger is no longer derived from the caller's",
  [("log/log.go", """	l := zerolog.Ctx(ctx).With().Logger()
	return l.WithContext(ctx)
""", """	l := zerolog.Ctx(ctx).With().Logger()
	if l.GetLevel() == zerolog.Disabled {
		return l.WithContext(ctx)
	}
	return l.WithContext(context.Background())
""")],
  WATCH + """
func TestDemo(t *testing.T) {
	l := zerolog.New(&bytes.Buffer{})
	w := &watching{Provider: mem(), t: t, on: true}
	d, err := d1.New(bg, &kp, w, anyone{})
	must(t, err)
	_, err = d.Encrypt(l.WithContext(ctx), "t", &data.Object{})
	must(t, err)
}
""")

S("C34-token-trim", "C34", "a token that begins or ends with a space",
  "the identity provider is asked about a trimmed token",
  [("utility.go", """	identity, err := d.idProvider.GetIdentity(ctx, token)
""", """	identity, err := d.idProvider.GetIdentity(ctx, strings.TrimSpace(token))
"""), ("utility.go", """	"errors"

""", """	"errors"
	"strings"

""")],
  WATCH + """
type picky struct{}

func (picky) GetIdentity(_ context.Context, tok string) (id.Identity, error) {
	if tok != " t" {
		return id.Identity{}, errors.New("refused")
	}
	return id.Identity{ID: "u", Scopes: id.ScopeAll}, nil
}

func TestDemo(t *testing.T) {
	d, err := d1.New(bg, &kp, mem(), picky{})
	must(t, err)
	_, err = d.Encrypt(bg, " t", &data.Object{})
	must(t, err)
}
""")

S("C34-groups-beside", "C34", "a user in more than 16 groups, and a group record that cannot be read",
  "groups of users in many groups are fetched by goroutines, which go on after the call has returned",
  [("id/standalone.go", """	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}
""", """	type result struct {
		gid   string
		group *Group
		err   error
	}
	results := make(chan result, len(user.Groups))
	fetch := func(gid string) {
		group, err := s.getGroup(ctx, gid)
		results <- result{gid, group, err}
	}
	for gid := range user.getGroups() {
		if len(user.Groups) > 16 {
			go fetch(gid)
		} else {
			fetch(gid)
		}
	}
	for range user.Groups {
		r := <-results
		if r.err != nil {
			return Identity{}, r.err
		}
		groups[r.gid] = AccessGroup{r.gid, r.group.Scopes}
	}
""")],
  WATCH + """
type late struct {
	watching
	n    atomic.Int64
	over atomic.Bool
	bad  atomic.Bool
}

func (l *late) Get(c context.Context, i []byte, t io.DataType) ([]byte, error) {
	if t == id.DataTypeSealedGroup && l.on {
		if l.n.Add(1) > 1 {
			time.Sleep(200 * time.Millisecond)
			if l.over.Load() {
				l.bad.Store(true)
			}
		} else {
			return nil, errors.New("broken")
		}
	}
	return l.Provider.Get(c, i, t)
}

func TestDemo(t *testing.T) {
	l := &late{watching: watching{Provider: mem(), t: t}}
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: k32(2), TEK: k32(3)}, l)
	must(t, err)
	uid, pw, err := s.NewUser(bg)
	must(t, err)
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(t, err)
	for i := 0; i < 20; i++ {
		_, err := s.NewGroup(bg, tok)
		must(t, err)
	}
	l.on = true
	if _, err := s.GetIdentity(ctx, tok); err == nil {
		t.Fatal("no error")
	}
	l.over.Store(true)
	time.Sleep(400 * time.Millisecond)
	if l.bad.Load() {
		t.Fatal("still at work after it returned")
	}
}
""")
