package props

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybercryptio/d1-lib/v2/id"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

var saKinds = []string{"store", "store", "store", "wrapped", "mem", "proxy", "bolt"}

func (w *saWorld) drawUID(rt *rapid.T) string {
	u := hx.SampledFrom(w.users).Draw(rt, "user").uid
	if hx.IntRange(0, 9).Draw(rt, "odd") > 0 {
		return u
	}
	var gid string
	if len(w.groups) > 0 {
		gid = w.groups[0].gid
	}
	return hx.SampledFrom([]string{"", u + " ", strings.ToUpper(u), u[:len(u)-1], gid, u + "\x00", "00000000-0000-0000-0000-000000000000", strings.ReplaceAll(u, "-", ""), u + u}).Draw(rt, "odduid")
}

func (w *saWorld) drawPW(rt *rapid.T, uid string) string {
	u := w.user(uid)
	k := hx.IntRange(0, 9).Draw(rt, "pwkind")
	if u != nil && k < 4 {
		return u.pw
	}
	for _, x := range w.users {
		if x.uid == uid && len(x.old) > 0 && k < 7 {
			return hx.SampledFrom(x.old).Draw(rt, "oldpw")
		}
	}
	o := hx.SampledFrom(w.users).Draw(rt, "whosepw")
	if k == 9 {
		return o.pw
	}
	if len(o.old) > 0 && k == 8 {
		return hx.SampledFrom(o.old).Draw(rt, "theirold")
	}
	if u == nil {
		return o.pw
	}
	return nearMiss(rt, u.pw)
}

func (w *saWorld) drawTok(rt *rapid.T) string {
	if hx.IntRange(0, 11).Draw(rt, "badtok") == 0 {
		return w.forgedToken(rt)
	}
	return hx.SampledFrom(w.toks).Draw(rt, "tok").s
}

func (w *saWorld) passTime(rt *rapid.T) {
	t := hx.SampledFrom(w.toks).Draw(rt, "whose").at.Add(time.Hour)
	d := hx.SampledFrom([]time.Duration{-time.Minute, -1, 0, 1, time.Second}).Draw(rt, "when")
	if hx.IntRange(0, 2).Draw(rt, "little") > 0 {
		t, d = time.Now(), time.Duration(hx.IntRange(1, 40).Draw(rt, "minutes"))*time.Minute
	}
	sleepUntil(t.Add(d))
	w.c.Logf("it is now %v", time.Now().Format("15:04:05.999999999"))
}

func TestC07(t *testing.T) {
	base := newSABase(t, saKeysOf(7), []id.Scope{allScopes}, []id.Scope{id.ScopeDecrypt, id.ScopeEncrypt}, []id.Scope{})
	relatedC07(t)
	hx.Check(t, "passwords", hx.Opt{Quick: 176, Thorough: 20000,
		Rule: "histories of creating users, logging in and changing passwords (with current, earlier, other users' and nearly right passwords), deleting users, group changes, passing time and restarts; non-trivial: at least one call accepted and one refused"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				w := base.world(rt, c, hx.IntRange(1, 3).Draw(rt, "users"), hx.SampledFrom(saKinds).Draw(rt, "kind"))
				defer w.box.Close()
				for hashes := 0; hashes < 7; {
					w.turn(rt)
					switch hx.IntRange(0, 15).Draw(rt, "step") {
					case 0:
						if len(w.users) < 5 {
							w.newUser(drawScope(rt, "scopes"), drawScope(rt, "scopes2"))
							hashes++
						}
					case 1, 2, 3, 4, 5, 6:
						uid := w.drawUID(rt)
						w.login(uid, w.drawPW(rt, uid))
						hashes++
					case 7, 8, 9:
						uid := w.drawUID(rt)
						w.change(uid, w.drawPW(rt, uid))
						hashes += 2
					case 10:
						w.deleteUser(w.drawTok(rt), w.drawUID(rt))
						hashes++
					case 11:
						w.c.Logf("restart")
						w.restart()
					case 12:
						w.passTime(rt)
					case 13:
						w.newGroup(w.drawTok(rt), drawScope(rt, "scopes"))
					default:
						w.identity(w.drawTok(rt))
					}
				}
				w.audit()
				if w.ok > 0 && w.refused > 0 {
					c.NonTrivial()
				}
			})
		})
	hx.EnumAll(t, "many", "very many logins, password changes and token uses in a row by one instance, refused or accepted ones, then the right password and every token still work", false,
		func(t *testing.T, do func(string, bool, func(testing.TB, *hx.Case))) {
			hashed, cheap := hx.Scale(70, 1200), hx.Scale(6000, 200000)
			run := func(name string, n int, f func(w *saWorld, i int)) {
				do(fmt.Sprintf("%d times: %s", n, name), true, func(tb testing.TB, c *hx.Case) {
					synctest.Test(tb.(*testing.T), func(t *testing.T) {
						w := base.world(t, c, 2, "store")
						for i := 0; i < n; i++ {
							f(w, i)
							w.ok, w.refused = 0, 0
							if len(w.toks) > 40 {
								w.toks = append(w.toks[:20:20], w.toks[len(w.toks)-10:]...)
							}
						}
						for i := range w.users {
							w.login(w.users[i].uid, w.users[i].pw)
							w.change(w.users[i].uid, w.users[i].pw)
							w.login(w.users[i].uid, w.users[i].pw)
						}
						for _, tk := range w.toks {
							w.identity(tk.s)
						}
						w.newGroup(w.toks[0].s, allScopes)
						w.audit()
					})
				})
			}
			for _, pw := range []string{"", "wrong", "same"} {
				run("login with password "+pw, hashed, func(w *saWorld, i int) {
					p := pw
					if pw == "same" {
						p = w.users[1].pw
					}
					w.login(w.users[0].uid, p)
				})
			}
			run("password change with a wrong password", hashed, func(w *saWorld, i int) { w.change(w.users[0].uid, "wrong") })
			run("password change with another wrong password", hashed, func(w *saWorld, i int) { w.change(w.users[i%2].uid, fmt.Sprint("wrong", i)) })
			run("right password", hashed, func(w *saWorld, i int) { w.login(w.users[i%2].uid, w.users[i%2].pw) })
			run("password changed", hashed/2, func(w *saWorld, i int) { w.change(w.users[0].uid, w.users[0].pw) })
			run("login of an unknown user", cheap, func(w *saWorld, i int) { w.login(fmt.Sprint("user", i), w.users[0].pw) })
			run("login of the same unknown user", cheap, func(w *saWorld, i int) { w.login("user", "password") })
			run("a token", cheap, func(w *saWorld, i int) { w.identity(w.toks[i%2].s) })
			run("not a token", cheap, func(w *saWorld, i int) { w.identity(fmt.Sprint("token", i)) })
			run("a changed token", cheap, func(w *saWorld, i int) {
				b := []byte(w.toks[0].s)
				b[i%len(b)] ^= 1
				if !sameToken(string(b), w.toks[0].s) {
					w.identity(string(b))
				}
			})
			run("a foreign token", cheap, func(w *saWorld, i int) { w.identity(w.foreignToken(w.users[0].uid)) })
			run("changes that are refused", cheap, func(w *saWorld, i int) {
				w.membership(i%2 == 0, w.toks[0].s, w.users[1].uid, []string{"no group"})
			})
		})
	hx.Check(t, "tokens", hx.Opt{Quick: 12000, Thorough: 600000,
		Rule: "histories of passing time around expiry, deleting users, changing groups and restarting, resolving tokens in between; non-trivial: a token resolved and a token refused"},
		func(rt *rapid.T, c *hx.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				w := base.world(rt, c, 3, hx.SampledFrom([]string{"store", "store", "mem", "wrapped"}).Draw(rt, "kind"))
				for n := hx.IntRange(3, 12).Draw(rt, "steps"); n > 0; n-- {
					w.turn(rt)
					switch hx.IntRange(0, 9).Draw(rt, "step") {
					case 0:
						w.deleteUser(w.drawTok(rt), w.drawUID(rt))
					case 1, 2:
						w.passTime(rt)
					case 3:
						w.c.Logf("restart")
						w.restart()
					case 4:
						w.newGroup(w.drawTok(rt), drawScope(rt, "scopes"))
					default:
						w.identity(w.drawTok(rt))
					}
				}
				w.audit()
				if w.ok > 0 && w.refused > 0 {
					c.NonTrivial()
				}
			})
		})
}
