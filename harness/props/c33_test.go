package props

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C33: what is wrong with a call is known to the harness (who calls, which records are missing or
// unreadable, which storage call failed and how); the error must name one of those things.

// kinds33 are the errors that name something.
var kinds33 = []error{d1.ErrNotAuthenticated, d1.ErrNotAuthorized, d1.ErrObjectNotFound, d1.ErrAccessNotFound, d1.ErrObjectAlreadyExists, d1.ErrAccessAlreadyExists,
	id.ErrNotAuthenticated, id.ErrNotAuthorized, id.ErrUserNotFound, id.ErrGroupNotFound, id.ErrUserAlreadyExists, id.ErrGroupAlreadyExists,
	index.ErrNotAuthenticated, index.ErrNotAuthorized, index.ErrNodeNotFound, index.ErrNodeAlreadyExists}

// errOther is an error that is none of the above.
var errOther = errors.New("an error of no other kind")

// wrong collects what is wrong with a call.
type wrong struct {
	first error   // decides alone
	any   []error // each may be what is reported
	may   bool    // it may also succeed
}

func (w *wrong) add(e error) { w.any = append(w.any, e) }

// judge compares what a call reports with what is wrong with it.
func (w *wrong) judge(f fat, what string, err error) {
	f.Helper()
	allowed := w.any
	if w.first != nil {
		allowed = []error{w.first}
	}
	if err == nil {
		if len(allowed) > 0 && !w.may {
			f.Fatalf("%s succeeds, want one of %q", what, allowed)
		}
		return
	}
	if len(allowed) == 0 {
		f.Fatalf("%s fails though nothing is wrong: %v", what, err)
	}
	named := ""
	for _, k := range kinds33 {
		if errors.Is(err, k) {
			named = k.Error()
		}
	}
	for _, a := range allowed {
		if a == errOther && named == "" || a != errOther && errors.Is(err, a) {
			return
		}
	}
	f.Fatalf("%s reports %q, which says none of %q", what, err, allowed)
}

// fault33 is a storage call that fails.
type fault33 struct {
	n    int
	mode hx.Fault
	err  error
	wrap bool
}

// faulty runs a call with a storage call failing and adds what that is to the call's wrongs.
func faulty(st *hx.Store, ft fault33, w *wrong, missing, exists map[io.DataType]error, call func(context.Context)) (at string) {
	st.Wrap, st.Err = ft.wrap, ft.err
	st.Begin(3000)
	told := st.FaultAt(ft.n, ft.mode)
	call(bg)
	st.Hook, st.Err = nil, nil
	st.Begin(0)
	op, k, fired, _ := told()
	if !fired {
		return ""
	}
	at = fmt.Sprintf("%s of type %d", op, k.Type)
	e := ft.err
	switch {
	case e == io.ErrNotFound && op == "update":
		e = missing[k.Type]
	case e == io.ErrAlreadyExists && op == "put":
		e = exists[k.Type]
	case e == io.ErrNotFound || e == io.ErrAlreadyExists || e == nil:
		e = hx.ErrInjected
	}
	if e == nil {
		e = errOther
	}
	w.add(e)
	w.may = true
	return at
}

var faults33 = func() (out []error) {
	for _, e := range hx.FaultErrs {
		out = append(out, e)
	}
	return append(out, errors.New("user not found"), errors.New("object not found"), fmt.Errorf("no permission"))
}()

// idpErrs33 are errors an identity provider may refuse with.
var idpErrs33 = []error{nil, id.ErrUserNotFound, id.ErrGroupNotFound, id.ErrNotAuthenticated, id.ErrNotAuthorized, io.ErrNotFound, io.ErrAlreadyExists, d1.ErrAccessNotFound, d1.ErrNotAuthorized, index.ErrNodeNotFound, index.ErrNotAuthorized, context.Canceled, context.DeadlineExceeded, hx.ErrInjected}

var garbage33 = [][]byte{nil, {}, []byte("{}"), []byte("null"), []byte("not found"), []byte(`{"Ciphertext":""}`), []byte(`[]`), []byte(`{"ciphertext":"AAAA","wrappedKey":"AAAA"}`), []byte("\x00\xff")}

// Object calls.

type objCase33 struct {
	kind           string
	caller         string // fit, bad token, no scope, not listed
	access, object int    // 0 there, 1 missing, 2.. garbage
	never          bool   // the identifier was never given out
	idpErr         error
	fault          fault33
}

func (p objCase33) String() string {
	s := fmt.Sprintf("%s by a caller (%s) with the access record %s and the object record %s", p.kind, p.caller, state33(p.access), state33(p.object))
	if p.never {
		s = fmt.Sprintf("%s by a caller (%s) of an identifier never given out", p.kind, p.caller)
	}
	if p.idpErr != nil {
		s += fmt.Sprintf(", the identity provider refusing with %q", p.idpErr)
	}
	if p.fault.mode != hx.NoFault {
		s += fmt.Sprintf(", storage call %d %s with %q", p.fault.n, hx.FaultNames[p.fault.mode], p.fault.err)
		if p.fault.wrap {
			s += " wrapped"
		}
	}
	return s
}

func state33(n int) string {
	if n < 2 {
		return []string{"there", "missing"}[n]
	}
	return fmt.Sprintf("being %q", garbage33[(n-2)%len(garbage33)])
}

var need33 = map[string]id.Scope{"encrypt": id.ScopeEncrypt, "update": id.ScopeUpdate, "decrypt": id.ScopeDecrypt, "delete": id.ScopeDelete, "acl": id.ScopeGetAccessGroups, "add": id.ScopeModifyAccessGroups, "remove": id.ScopeModifyAccessGroups, "authorize": id.ScopeGetAccessGroups}

func setRecord(st *hx.Store, k hx.Key, state int) {
	switch state {
	case 0:
	case 1:
		st.Drop(k)
	default:
		st.Set(k, garbage33[(state-2)%len(garbage33)])
	}
}

func (p objCase33) run(f fat, c *hx.Case) (tried bool) {
	f.Helper()
	w := newFWorld(f, c)
	oid, err := w.d.Encrypt(bg, "k", &data.Object{Plaintext: []byte("content"), AssociatedData: []byte("ad")}, "a", "b")
	if err != nil {
		f.Fatalf("encrypt: %v", err)
	}
	if p.never {
		oid = uuid.Must(uuid.FromString("01234567-89ab-4def-8123-456789abcdef"))
		p.access, p.object = 1, 1
	}
	setRecord(w.st, hx.Key{ID: string(oid.Bytes()), Type: io.DataTypeSealedAccess}, p.access)
	setRecord(w.st, hx.Key{ID: string(oid.Bytes()), Type: io.DataTypeSealedObject}, p.object)
	var wr wrong
	who := w.idp.Tokens["k"]
	switch p.caller {
	case "bad token":
		delete(w.idp.Tokens, "k")
		w.idp.Err = p.idpErr
		wr.first = d1.ErrNotAuthenticated
	case "no scope":
		if need33[p.kind] == 0 {
			return false
		}
		who.Scopes &^= need33[p.kind]
		wr.first = d1.ErrNotAuthorized
	case "not listed":
		if p.kind == "encrypt" {
			return false
		}
		who.ID = "somebody else"
	}
	if p.kind != "encrypt" {
		switch {
		case p.access == 1 && p.kind == "delete":
			// deleting what is not there succeeds
		case p.access == 1:
			wr.add(d1.ErrAccessNotFound)
		case p.access > 1:
			wr.add(errOther)
		case p.caller == "not listed":
			wr.add(d1.ErrNotAuthorized)
		case p.object == 1 && (p.kind == "decrypt" || p.kind == "update"):
			wr.add(d1.ErrObjectNotFound)
		case p.object > 1 && p.kind == "decrypt":
			wr.add(errOther)
		case p.object > 1:
			wr.add(errOther)
			wr.may = true
		}
	}
	missing := map[io.DataType]error{io.DataTypeSealedAccess: d1.ErrAccessNotFound, io.DataTypeSealedObject: d1.ErrObjectNotFound}
	exists := map[io.DataType]error{io.DataTypeSealedAccess: d1.ErrAccessAlreadyExists, io.DataTypeSealedObject: d1.ErrObjectAlreadyExists}
	var e error
	at := faulty(w.st, p.fault, &wr, missing, exists, func(cx context.Context) {
		_, _, _, e = w.do(cx, fop{kind: p.kind, o: &fobj{objM: &objM{oid: oid}}, pt: []byte("new content"), ad: []byte("new ad"), groups: []string{"c"}})
	})
	if at != "" || wr.first != nil || len(wr.any) > 0 {
		c.NonTrivial()
		c.Label(fmt.Sprintf("%s/%s/%s", p.kind, p.caller, at))
	}
	c.Logf("%v -> %v", p, e)
	wr.judge(f, p.String(), e)
	return true
}

// Identity calls.

type idCase33 struct {
	kind   string
	caller string // fit, bad token, gone, not a member
	bad    int    // which bad token or password
	user   int    // state of the caller's record
	group  int    // state of one of the caller's groups
	target int    // state of the record of the user it is about
	fault  fault33
}

func (p idCase33) String() string {
	s := fmt.Sprintf("%s by a caller (%s, %d) with its user record %s, a group record of it %s and the other user's record %s", p.kind, p.caller, p.bad, state33(p.user), state33(p.group), state33(p.target))
	if p.fault.mode != hx.NoFault {
		s += fmt.Sprintf(", storage call %d %s with %q", p.fault.n, hx.FaultNames[p.fault.mode], p.fault.err)
		if p.fault.wrap {
			s += " wrapped"
		}
	}
	return s
}

var idKinds33 = []string{"identity", "login", "change", "add", "remove", "delete", "newgroup", "newuser"}

func (p idCase33) run(f fat, c *hx.Case, b *base32) (tried bool) {
	f.Helper()
	st := hx.NewStore()
	st.Restore(b.snap)
	s, err := id.NewStandalone(b.cfg, st)
	if err != nil {
		f.Fatalf("NewStandalone: %v", err)
	}
	setRecord(st, hx.Key{ID: b.uids[0], Type: id.DataTypeSealedUser}, p.user)
	setRecord(st, hx.Key{ID: b.gids[0], Type: id.DataTypeSealedGroup}, p.group)
	setRecord(st, hx.Key{ID: b.uids[1], Type: id.DataTypeSealedUser}, p.target)
	tok, pw, gid := b.toks[0], b.pws[0], b.gids[1]
	var wr wrong
	passwords := p.kind == "login" || p.kind == "change"
	usesToken := !passwords && p.kind != "newuser"
	about := p.kind == "add" || p.kind == "remove"
	switch p.caller {
	case "bad token":
		if !usesToken && !passwords {
			return false
		}
		other := b.toks[1]
		bad := []string{"", "x", tok[1:], tok + "a", tok[:len(tok)/2] + other[len(other)/2:], strings.ToUpper(tok), "not found"}
		tok = bad[p.bad%len(bad)]
		pws := []string{"", "x", pw[1:], pw + "a", b.pws[1], strings.ToUpper(pw) + "!", "not found"}
		pw = pws[p.bad%len(pws)]
		wr.first = id.ErrNotAuthenticated
	case "not a member":
		if !about {
			return false
		}
		gid = b.gids[2]
		if p.bad%2 == 1 {
			gid = "no such group"
		}
		wr.add(id.ErrNotAuthorized)
	}
	switch {
	case p.kind == "newuser":
	case passwords:
		if p.user > 0 {
			wr.first = id.ErrNotAuthenticated // whether or not there is such a user is nobody's business
		}
	default:
		if p.user == 1 {
			wr.any = []error{id.ErrUserNotFound, id.ErrNotAuthenticated}
		} else if p.user > 1 {
			wr.any = []error{errOther, id.ErrNotAuthenticated}
		} else {
			if p.group == 1 {
				wr.any = []error{id.ErrGroupNotFound}
			} else if p.group > 1 {
				wr.any = []error{errOther}
			} else if len(wr.any) == 0 && about {
				if p.target == 1 {
					wr.add(id.ErrUserNotFound)
				} else if p.target > 1 {
					wr.add(errOther)
				}
			}
		}
	}
	missing := map[io.DataType]error{id.DataTypeSealedUser: id.ErrUserNotFound, id.DataTypeSealedGroup: id.ErrGroupNotFound}
	exists := map[io.DataType]error{id.DataTypeSealedUser: id.ErrUserAlreadyExists, id.DataTypeSealedGroup: id.ErrGroupAlreadyExists}
	var e error
	at := faulty(st, p.fault, &wr, missing, exists, func(cx context.Context) {
		switch p.kind {
		case "identity":
			_, e = s.GetIdentity(cx, tok)
		case "login":
			_, _, e = s.LoginUser(cx, b.uids[0], pw)
		case "change":
			_, e = s.ChangeUserPassword(cx, b.uids[0], pw)
		case "add":
			e = s.AddUserToGroups(cx, tok, b.uids[1], gid)
		case "remove":
			e = s.RemoveUserFromGroups(cx, tok, b.uids[1], gid)
		case "delete":
			e = s.DeleteUser(cx, tok, b.uids[1])
		case "newgroup":
			_, e = s.NewGroup(cx, tok, id.ScopeIndex)
		case "newuser":
			_, _, e = s.NewUser(cx, id.ScopeIndex)
		}
	})
	if passwords && strings.HasPrefix(at, "get") {
		wr.add(id.ErrNotAuthenticated) // logging in tells no more than that
	}
	if at != "" || wr.first != nil || len(wr.any) > 0 {
		c.NonTrivial()
		c.Label(fmt.Sprintf("%s/%s/%s", p.kind, p.caller, at))
	}
	c.Logf("%v -> %v", p, e)
	wr.judge(f, p.String(), e)
	return true
}

// Index calls.

type idxCase33 struct {
	kind   string
	caller string // fit, bad token, no scope
	idpErr error
	node   int // which node is unreadable (0: none)
	state  int
	fault  fault33
}

func (p idxCase33) String() string {
	s := fmt.Sprintf("%s by a caller (%s)", p.kind, p.caller)
	if p.idpErr != nil {
		s += fmt.Sprintf(", the identity provider refusing with %q", p.idpErr)
	}
	if p.node > 0 {
		s += fmt.Sprintf(", node %d %s", p.node, state33(2+p.state))
	}
	if p.fault.mode != hx.NoFault {
		s += fmt.Sprintf(", storage call %d %s with %q", p.fault.n, hx.FaultNames[p.fault.mode], p.fault.err)
		if p.fault.wrap {
			s += " wrapped"
		}
	}
	return s
}

func (p idxCase33) run(f fat, c *hx.Case) {
	f.Helper()
	w := newIndex(f, c, hx.NewBox("store"), keysOf(33))
	st := w.box.St
	var nodes []hx.Key
	for i := 0; i < 4; i++ {
		before := st.Snapshot()
		if err := w.x.Add(bg, "t", "kw", fmt.Sprintf("id %d", i%3)); err != nil {
			f.Fatalf("add: %v", err)
		}
		nodes = append(nodes, before.Diff(st.Snapshot())...)
	}
	var wr wrong
	if p.node > 0 && p.node <= len(nodes) {
		setRecord(st, nodes[p.node-1], 2+p.state)
		if p.kind != "add new" && p.kind != "search none" { // those are about another keyword
			wr.add(errOther)
		}
	}
	switch p.caller {
	case "bad token":
		delete(w.idp.Tokens, "t")
		w.idp.Err = p.idpErr
		wr.first = index.ErrNotAuthenticated
	case "no scope":
		w.idp.Tokens["t"].Scopes = allScopes &^ id.ScopeIndex
		wr.first = index.ErrNotAuthorized
	}
	missing := map[io.DataType]error{io.DataTypeSealedNode: index.ErrNodeNotFound}
	exists := map[io.DataType]error{io.DataTypeSealedNode: index.ErrNodeAlreadyExists}
	var e error
	at := faulty(st, p.fault, &wr, missing, exists, func(cx context.Context) {
		switch p.kind {
		case "add":
			e = w.x.Add(cx, "t", "kw", "another")
		case "add new":
			e = w.x.Add(cx, "t", "another", "one")
		case "search":
			_, e = w.x.Search(cx, "t", "kw")
		case "search none":
			_, e = w.x.Search(cx, "t", "another")
		case "delete":
			e = w.x.Delete(cx, "t", "kw", "id 0")
		case "delete none":
			e = w.x.Delete(cx, "t", "kw", "no such identifier")
		}
	})
	if at != "" || wr.first != nil || len(wr.any) > 0 {
		c.NonTrivial()
		c.Label(fmt.Sprintf("%s/%s/%s", p.kind, p.caller, at))
	}
	c.Logf("%v -> %v", p, e)
	wr.judge(f, p.String(), e)
}

var idxKinds33 = []string{"add", "add new", "search", "search none", "delete", "delete none"}

type refusingKeys struct{ err error }

func (k refusingKeys) GetKeys(context.Context) (key.Keys, error) { return keysOf(33), k.err }

func TestC33(t *testing.T) {
	base := newBase32(t)
	modes := []hx.Fault{hx.Rejected, hx.LostAck}
	each := func(calls int, do func(fault33)) {
		do(fault33{})
		for n := 1; n <= calls; n++ {
			for _, m := range modes {
				for _, e := range faults33 {
					for _, wrap := range []bool{false, true} {
						do(fault33{n: n, mode: m, err: e, wrap: wrap})
					}
				}
			}
		}
	}
	hx.EnumAll(t, "objects", "every object call by every kind of caller, with the access and object records there, missing or unreadable, and with every one of its storage calls failing with each of the storage errors, plain or wrapped; non-trivial: something is wrong with the call", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			try := func(p objCase33) { do(p.String(), false, func(tb testing.TB, c *hx.Case) { p.run(tb, c) }) }
			for _, kind := range kinds15 {
				each(6, func(ft fault33) { try(objCase33{kind: kind, caller: "fit", fault: ft}) })
				for _, wrap := range []bool{false, true} {
					ft := fault33{wrap: wrap}
					for _, caller := range []string{"fit", "bad token", "no scope", "not listed"} {
						for a := 0; a < 2+len(garbage33); a++ {
							for o := 0; o < 2+len(garbage33); o++ {
								try(objCase33{kind: kind, caller: caller, access: a, object: o, fault: ft})
							}
						}
						try(objCase33{kind: kind, caller: caller, never: true, fault: ft})
					}
				}
				for _, e := range idpErrs33 {
					for a := 0; a < 3; a++ {
						try(objCase33{kind: kind, caller: "bad token", access: a, object: a, idpErr: e})
					}
				}
			}
		})
	hx.EnumAll(t, "identities", "every call of the standalone identity provider by every kind of caller, with the records it concerns there, missing or unreadable, and with every one of its storage calls failing with each of the storage errors, plain or wrapped; non-trivial: something is wrong with the call", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			try := func(p idCase33) { do(p.String(), false, func(tb testing.TB, c *hx.Case) { p.run(tb, c, base) }) }
			for _, kind := range idKinds33 {
				costly := kind == "login" || kind == "change" || kind == "newuser"
				calls := 6
				if costly && !hx.Thorough() {
					calls = 2
				}
				each(calls, func(ft fault33) {
					if costly && !hx.Thorough() && ft.mode == hx.LostAck {
						return // each costs a password hash
					}
					try(idCase33{kind: kind, caller: "fit", fault: ft})
				})
				for _, wrap := range []bool{false, true} {
					ft := fault33{wrap: wrap}
					for s := 0; s < 2+len(garbage33); s++ {
						try(idCase33{kind: kind, caller: "fit", user: s, fault: ft})
						try(idCase33{kind: kind, caller: "bad token", bad: s, user: 1, fault: ft})
						if costly && !hx.Thorough() && s > 1 {
							continue
						}
						try(idCase33{kind: kind, caller: "fit", group: s, fault: ft})
						try(idCase33{kind: kind, caller: "fit", target: s, fault: ft})
						try(idCase33{kind: kind, caller: "bad token", bad: s, fault: ft})
						try(idCase33{kind: kind, caller: "bad token", bad: s, target: s, fault: ft})
						try(idCase33{kind: kind, caller: "not a member", bad: s, fault: ft})
						try(idCase33{kind: kind, caller: "not a member", bad: s, target: s, fault: ft})
					}
				}
			}
		})
	hx.EnumAll(t, "index", "every index call by every kind of caller, with nodes unreadable and with every one of its storage calls failing with each of the storage errors, plain or wrapped; non-trivial: something is wrong with the call", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			try := func(p idxCase33) { do(p.String(), false, func(tb testing.TB, c *hx.Case) { p.run(tb, c) }) }
			for _, kind := range idxKinds33 {
				each(16, func(ft fault33) { try(idxCase33{kind: kind, caller: "fit", fault: ft}) })
				for _, caller := range []string{"fit", "bad token", "no scope"} {
					for n := 0; n <= 4; n++ {
						for s := range garbage33 {
							try(idxCase33{kind: kind, caller: caller, node: n, state: s})
						}
					}
				}
				for _, e := range idpErrs33 {
					try(idxCase33{kind: kind, caller: "bad token", idpErr: e})
				}
			}
		})
	hx.EnumAll(t, "setup", "instances made with a key provider that fails with each of the errors, and index keys of other lengths; non-trivial: all", true,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			for _, e := range append(append([]error{}, faults33...), idpErrs33[1:]...) {
				do(fmt.Sprintf("keys refused with %q", e), true, func(tb testing.TB, c *hx.Case) {
					if _, err := d1.New(bg, refusingKeys{e}, hx.NewStore(), hx.NewIDP()); !errors.Is(err, e) {
						tb.Fatalf("New reports %v when the key provider fails with %v", err, e)
					}
					if _, err := index.NewSecureIndex(bg, refusingKeys{e}, hx.NewStore(), hx.NewIDP()); !errors.Is(err, e) {
						tb.Fatalf("NewSecureIndex reports %v when the key provider fails with %v", err, e)
					}
				})
			}
			for n := 0; n <= 80; n++ {
				if n == index.MasterKeyLength {
					continue
				}
				do(fmt.Sprintf("an index key of %d bytes", n), true, func(tb testing.TB, c *hx.Case) {
					ks := keysOf(33)
					ks.IEK = hx.Bytes(1, n, 0)
					kp := key.NewStatic(ks)
					if _, err := index.NewSecureIndex(bg, &kp, hx.NewStore(), hx.NewIDP()); !errors.Is(err, index.ErrInvalidMasterKeyLength) {
						tb.Fatalf("NewSecureIndex with a key of %d bytes: %v", n, err)
					}
				})
			}
		})
	hx.Check(t, "combined", hx.Opt{Quick: 12000, Thorough: 600000,
		Rule: "calls of all three components with several things drawn to be wrong at once; the error names one of them, and not being authenticated or scoped comes before all else; non-trivial: something is wrong"},
		func(rt *rapid.T, c *hx.Case) {
			ft := fault33{wrap: rapid.Bool().Draw(rt, "wrap")}
			if rapid.Bool().Draw(rt, "fault") {
				ft.n, ft.mode, ft.err = hx.IntRange(1, 8).Draw(rt, "call"), hx.SampledFrom(modes).Draw(rt, "mode"), hx.SampledFrom(faults33).Draw(rt, "error")
			}
			state := func(label string) int {
				if !hx.Chance(rt, 3, label) {
					return 0
				}
				return hx.IntRange(1, 1+len(garbage33)).Draw(rt, label+" state")
			}
			e := hx.SampledFrom(idpErrs33).Draw(rt, "refusal")
			switch hx.IntRange(0, 8).Draw(rt, "component") {
			case 0, 1, 2, 3:
				objCase33{kind: hx.SampledFrom(kinds15).Draw(rt, "kind"), caller: hx.SampledFrom([]string{"fit", "fit", "bad token", "no scope", "not listed"}).Draw(rt, "caller"), access: state("access"), object: state("object"), never: hx.Chance(rt, 8, "never"), idpErr: e, fault: ft}.run(rt, c)
			case 4, 5, 6:
				kinds := idKinds33
				if !hx.Chance(rt, 20, "costly") {
					kinds = []string{"identity", "add", "remove", "delete", "newgroup"}
				}
				idCase33{kind: hx.SampledFrom(kinds).Draw(rt, "kind"), caller: hx.SampledFrom([]string{"fit", "fit", "bad token", "not a member"}).Draw(rt, "caller"), bad: hx.IntRange(0, 6).Draw(rt, "bad"), user: state("user"), group: state("group"), target: state("target"), fault: ft}.run(rt, c, base)
			default:
				idxCase33{kind: hx.SampledFrom(idxKinds33).Draw(rt, "kind"), caller: hx.SampledFrom([]string{"fit", "fit", "bad token", "no scope"}).Draw(rt, "caller"), node: hx.IntRange(0, 4).Draw(rt, "node"), state: hx.IntRange(0, 8).Draw(rt, "state"), idpErr: e, fault: ft}.run(rt, c)
			}
		})
}
