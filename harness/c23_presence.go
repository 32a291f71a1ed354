package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C23: away status and monitored nicks upstream are those of the user's
// sessions taken together.

type c23Op struct {
	K    string
	S    int
	T    string
	L    []string
	N    int
	Fast bool // the next operation follows at once
}

type c23Case struct {
	CM      string
	Auto    bool
	NoMon   bool
	PreAway bool
	ExtMon  bool
	Taken   bool // the configured nick is in use at first
	Two     bool // a second network
	Limit   int  // size of the server's monitor list
	Ops     []c23Op
}

var c23Nicks = []string{"bob", "carl", "da[ve", "DA{VE", "Eve^1", "eve~1", "Bob", "frank", "CARL"}

func genC23(g *G) c23Case {
	c := c23Case{CM: Pick(g, []string{"rfc1459", "ascii", "rfc1459-strict"}), Auto: g.P(80), NoMon: g.P(8), PreAway: g.P(30), ExtMon: g.P(30), Taken: g.P(30), Two: g.P(30)}
	if !c.Taken && g.P(25) {
		c.Limit = g.R(1, 4)
	}
	kinds := []string{"login", "logout", "away", "back", "mon+", "mon-", "monC", "monL", "monS", "online", "offline", "rename", "drop", "down", "up", "auto", "menick", "free"}
	ws := []int{9, 5, 7, 5, 14, 7, 2, 2, 2, 7, 6, 4, 2, 1, 3, 2, 2, 1}
	for i, n := 0, g.Size(4, 30); i < n; i++ {
		op := c23Op{K: kinds[g.W(ws...)], S: g.N(4), N: g.N(len(c23Nicks)), Fast: g.P(20)}
		switch op.K {
		case "away", "login":
			op.T = Pick(g, []string{"gone", "lunch time", "*", "", "x"})
		case "mon+", "mon-":
			for k := 0; k < 1+g.N(3); k++ {
				op.L = append(op.L, Pick(g, c23Nicks))
			}
			if g.P(5) {
				op.L = append(op.L, "BouncerServ")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c23Sess struct {
	cl   *Client
	net  int
	away bool
	mon  map[string]bool
	was  map[string]bool // monitored at some point since the last check
	told map[string]bool // nick -> last status told
	full map[string]bool // nicks for which the list was full
}

func runC23(r *R, c c23Case) error {
	pool := map[string]bool{"BouncerServ": true}
	for _, n := range c23Nicks {
		pool[n] = true
	}
	for _, op := range c.Ops {
		if op.S < 0 || op.N < 0 || op.N >= len(c23Nicks) || strings.ContainsAny(op.T, "\r\n\x00") {
			return errInvalid{}
		}
		for _, n := range op.L {
			if !pool[n] {
				return errInvalid{}
			}
		}
		if (op.K == "mon+" || op.K == "mon-") && len(op.L) == 0 {
			return errInvalid{}
		}
	}
	if c.CM != "rfc1459" && c.CM != "ascii" && c.CM != "rfc1459-strict" {
		return errInvalid{}
	}
	if c.Limit < 0 || c.Limit > 100 || c.Limit > 0 && c.Taken {
		return errInvalid{}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "al" })
		var srv []*IRCd
		nn := 1
		if c.Two {
			nn = 2
		}
		for i := 0; i < nn; i++ {
			s := w.AddServer([]string{srvAddr0, srvAddr1}[i])
			s.CM = c.CM
			if !c.NoMon {
				n := 100
				if c.Limit > 0 {
					n = c.Limit
				}
				s.Isupport = append(s.Isupport, fmt.Sprintf("MONITOR=%d", n))
				s.MonLimit = c.Limit
			}
			if c.PreAway {
				s.Caps = append(s.Caps, "draft/pre-away")
			}
			if c.ExtMon {
				s.Caps = append(s.Caps, "extended-monitor")
			}
			s.Ghost = true
			srv = append(srv, s)
			w.AddNetwork(u, fmt.Sprintf("net%d", i), []string{netAddr0, netAddr1}[i], func(n *database.Network) { n.AutoAway = c.Auto })
		}
		s0 := srv[0]
		if c.Taken {
			s0.AddUser("al")
		}
		auto := c.Auto
		w.Start()
		w.Sleep(3 * time.Second)
		var sess []*c23Sess
		down := false
		ready := func(i int) *UpConn {
			uc := srv[i].Conn()
			if uc == nil || uc.IsClosed() || !uc.IsRegistered() {
				return nil
			}
			return uc
		}
		notify := func(nick string) {
			uc := ready(0)
			if uc == nil {
				return
			}
			s0.With(func() {
				if !uc.Monitored[s0.Fold(nick)] {
					return
				}
				if su := s0.Users[s0.Fold(nick)]; su != nil {
					uc.num("730", ":"+su.Prefix())
				} else {
					uc.num("731", ":"+nick)
				}
			})
		}
		// observe takes in what sessions were told.
		observe := func(desc string) error {
			for k, x := range sess {
				fold := srv[x.net].Fold
				for _, m := range x.cl.Take() {
					if m.Command == "734" {
						for _, t := range strings.Split(param(m, 2), ",") {
							n := fold(t)
							if !x.was[n] && !x.mon[n] {
								return vio("not-monitored", "%s: session %d was told that %q can't be monitored, which it doesn't monitor (%v)", desc, k, t, sortedStrs(x.mon))
							}
							x.full[n] = true
						}
						continue
					}
					if m.Command != "730" && m.Command != "731" {
						continue
					}
					for _, t := range strings.Split(param(m, 1), ",") {
						n := fold(irc.ParsePrefix(t).Name)
						if !x.was[n] && !x.mon[n] {
							return vio("not-monitored", "%s: session %d was told about %q, which it doesn't monitor (%v)", desc, k, t, sortedStrs(x.mon))
						}
						x.told[n] = m.Command == "730"
					}
				}
			}
			return nil
		}
		check := func(desc string) error {
			w.Wait()
			if err := observe(desc); err != nil {
				return err
			}
			for i, s := range srv {
				uc := ready(i)
				if uc == nil {
					continue
				}
				want := i > 0 && c.Auto || i == 0 && auto
				n := 0
				union := map[string]bool{}
				for _, x := range sess {
					if x.net != i {
						continue
					}
					n++
					want = want && x.away
					for t := range x.mon {
						if t != s.Fold("BouncerServ") {
							union[t] = true
						}
					}
				}
				var away bool
				var reason string
				var nick string
				mon := map[string]bool{}
				online := map[string]bool{}
				s.With(func() {
					away, reason, nick = uc.Me.Away != "", uc.Me.Away, uc.Nick
					for t := range uc.Monitored {
						mon[t] = true
					}
					for t := range s.Users {
						online[t] = true
					}
				})
				if away != want {
					return vio("away", "%s: away on network %d: %v, expected %v (%d sessions)", desc, i, away, want, n)
				}
				if away && c.PreAway != (reason == "*") {
					return vio("away-reason", "%s: away on network %d with reason %q (draft/pre-away offered: %v)", desc, i, reason, c.PreAway)
				}
				if c.NoMon {
					if len(mon) > 0 {
						return vio("monitor", "%s: MONITOR %v sent to a server without it", desc, sortedStrs(mon))
					}
					continue
				}
				if s.Fold(nick) != s.Fold("al") && i == 0 && c.Taken {
					// the bouncer waits for the nick to be free
					if online[s.Fold("al")] && !mon[s.Fold("al")] {
						return vio("desired-nick", "%s: the configured nick isn't monitored although in use (monitored: %v)", desc, sortedStrs(mon))
					}
				}
				if !union[s.Fold("al")] {
					delete(mon, s.Fold("al"))
				}
				if c.Limit > 0 && len(union) > c.Limit {
					r.Count("full")
					for t := range mon {
						if !union[t] {
							return vio("monitor", "%s: %q is monitored on network %d, which no session does", desc, t, i)
						}
					}
					if len(mon) != c.Limit {
						return vio("monitor", "%s: %d of %d nicks are monitored, the server's limit is %d", desc, len(mon), len(union), c.Limit)
					}
				} else if a, b := sortedStrs(mon), sortedStrs(union); !eqStrs(a, b) {
					return vio("monitor", "%s: monitored on network %d: %v, the sessions monitor %v", desc, i, a, b)
				}
				if len(union) > 0 {
					r.NonTrivial()
				}
				for k, x := range sess {
					if x.net != i {
						continue
					}
					for t := range x.mon {
						on := online[t] || t == s.Fold("BouncerServ")
						if !mon[t] && union[t] {
							if !x.full[t] {
								return vio("not-told", "%s: session %d monitors %q, which the server refused to monitor; it wasn't told", desc, k, t)
							}
							continue
						}
						if st, ok := x.told[t]; !ok || st != on {
							return vio("status", "%s: session %d monitors %q, which is online=%v; it was told %v (%v)", desc, k, t, on, st, ok)
						}
					}
				}
			}
			for _, x := range sess {
				x.was = map[string]bool{}
			}
			return w.CheckPanics()
		}
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d %s", i, op.K)
			var x *c23Sess
			if len(sess) > 0 {
				x = sess[op.S%len(sess)]
			}
			if i == 0 || !c.Ops[i-1].Fast || op.K == "drop" || op.K == "down" || op.K == "auto" {
				w.Wait()
			}
			switch op.K {
			case "login":
				if len(sess) >= 4 {
					continue
				}
				x := &c23Sess{mon: map[string]bool{}, was: map[string]bool{}, told: map[string]bool{}, full: map[string]bool{}}
				if c.Two && op.N%3 == 0 {
					x.net = 1
				}
				o := LoginOpts{User: "alice", Network: fmt.Sprintf("net%d", x.net), Caps: []string{"draft/pre-away"}, Client: "c"}
				if op.N%2 == 0 {
					o.NoCapEnd = true
					cl, _ := w.Login(o)
					line := "AWAY"
					if op.T != "" {
						line += " :" + op.T
						x.away = true
					}
					if m := filter(cl.Do(line), "305", "306"); len(m) != 1 || (m[0].Command == "306") != x.away {
						return vio("away-reply", "%s: %q before registration was answered by %s", desc, line, fmtMsgs(m))
					}
					if m := filter(cl.Do("CAP END"), "001"); len(m) != 1 {
						return vio("login-refused", "%s: registration did not complete", desc)
					}
					x.cl = cl
					r.Count("pre-away")
				} else {
					x.cl, _ = w.MustLogin(o)
				}
				x.cl.Take()
				sess = append(sess, x)
			case "logout":
				if x == nil {
					continue
				}
				x.cl.Close()
				k := op.S % len(sess)
				sess = append(sess[:k:k], sess[k+1:]...)
				r.Count("logout")
			case "away", "back":
				if x == nil {
					continue
				}
				line := "AWAY"
				x.away = false
				if op.K == "away" {
					line += " :" + op.T
					x.away = op.T != ""
				}
				if err := observe(desc); err != nil {
					return err
				}
				m := x.cl.Do(line)
				if f := filter(m, "305", "306"); len(f) != 1 || (f[0].Command == "306") != x.away {
					return vio("away-reply", "%s: %q was answered by %s", desc, line, fmtMsgs(m))
				}
				x.cl.inject(m)
				r.Count("away")
			case "mon+", "mon-", "monC":
				if x == nil {
					continue
				}
				fold := srv[x.net].Fold
				line := "MONITOR C"
				if op.K != "monC" {
					line = "MONITOR " + op.K[3:] + " " + strings.Join(op.L, ",")
				}
				if ready(x.net) == nil || c.NoMon {
					if err := observe(desc); err != nil {
						return err
					}
					m := x.cl.Do(line)
					if len(filter(m, "421")) != 1 {
						return vio("refusal", "%s: %q without support for it was answered by %s", desc, line, fmtMsgs(m))
					}
					x.cl.inject(m)
					break
				}
				if op.K == "monC" {
					for t := range x.mon {
						x.was[t] = true
					}
					x.mon = map[string]bool{}
				}
				for _, t := range op.L {
					f := fold(t)
					if op.K == "mon+" {
						if !x.mon[f] {
							delete(x.told, f)
							delete(x.full, f)
						}
						x.mon[f] = true
						x.was[f] = true
					} else {
						x.was[f] = true
						delete(x.mon, f)
					}
				}
				x.cl.Send(line)
				r.Count(op.K)
			case "monL", "monS":
				if x == nil || ready(x.net) == nil || c.NoMon || c.Limit > 0 && op.K == "monS" {
					continue
				}
				w.Sleep(time.Second)
				if err := check(desc); err != nil {
					return err
				}
				s := srv[x.net]
				got := map[string]bool{}
				var gl, wl []string
				if op.K == "monL" {
					m := x.cl.Do("MONITOR L")
					if len(filter(m, "733")) != 1 {
						return vio("list", "%s: MONITOR L was answered by %s", desc, fmtMsgs(m))
					}
					for _, m := range filter(m, "732") {
						for _, t := range strings.Split(param(m, 1), ",") {
							got[s.Fold(t)] = true
						}
					}
					gl, wl = sortedStrs(got), sortedStrs(x.mon)
				} else {
					for _, m := range filter(x.cl.Do("MONITOR S"), "730", "731") {
						for _, t := range strings.Split(param(m, 1), ",") {
							gl = append(gl, fmt.Sprintf("%s %v", s.Fold(irc.ParsePrefix(t).Name), m.Command == "730"))
						}
					}
					for t := range x.mon {
						s.With(func() {
							wl = append(wl, fmt.Sprintf("%s %v", t, s.Users[t] != nil || t == s.Fold("BouncerServ")))
						})
					}
					sort.Strings(gl)
					sort.Strings(wl)
				}
				if !eqStrs(gl, wl) {
					return vio("list", "%s: got %q, expected %q", desc, gl, wl)
				}
				r.Count(op.K)
			case "online":
				n := c23Nicks[op.N]
				taken := false
				s0.With(func() { taken = s0.Users[s0.Fold(n)] != nil })
				if taken {
					continue
				}
				s0.AddUser(n)
				notify(n)
			case "offline":
				n := c23Nicks[op.N]
				s0.With(func() { delete(s0.Users, s0.Fold(n)) })
				notify(n)
			case "rename":
				n, to := c23Nicks[op.N], c23Nicks[(op.N+op.S+1)%len(c23Nicks)]
				ok := false
				s0.With(func() {
					su := s0.Users[s0.Fold(n)]
					if su == nil || s0.Users[s0.Fold(to)] != nil {
						return
					}
					s0.rename(su, to)
					ok = true
				})
				if ok {
					notify(n)
					notify(to)
				}
			case "free":
				// the holder of the configured nick leaves
				mine := false
				uc := ready(0)
				if uc == nil || !c.Taken {
					continue
				}
				s0.With(func() { mine = s0.Fold(uc.Nick) == s0.Fold("al") })
				if mine {
					continue
				}
				s0.With(func() { delete(s0.Users, s0.Fold("al")) })
				notify("al")
				w.Sleep(10 * time.Second)
				r.Count("nick-freed")
			case "menick":
				if uc := ready(0); uc != nil {
					s0.With(func() {
						to := fmt.Sprintf("al%d", op.N)
						if s0.Users[s0.Fold(to)] != nil || s0.Fold(uc.Nick) == s0.Fold(to) {
							return
						}
						old := uc.Me.Prefix()
						s0.rename(uc.Me, to)
						uc.Nick = to
						uc.Raw(fmt.Sprintf(":%s NICK %s", old, to))
					})
				}
			case "drop":
				if down {
					continue
				}
				s0.closeAll()
				w.Sleep(15 * time.Minute)
				r.Count("drop")
			case "down":
				s0.SetDown(true)
				s0.closeAll()
				down = true
				w.Sleep(5 * time.Second)
			case "up":
				if !down {
					continue
				}
				s0.SetDown(false)
				down = false
				w.Sleep(15 * time.Minute)
			case "auto":
				if x == nil {
					continue
				}
				auto = op.N%2 == 0
				x.cl.Send(fmt.Sprintf("PRIVMSG BouncerServ :network update net0 -auto-away %v", auto))
				w.Sleep(15 * time.Minute)
				r.Count("auto-away")
			default:
				return errInvalid{}
			}
			if op.Fast {
				r.Count("at-once")
				continue
			}
			w.Sleep(40 * time.Second)
			if err := check(desc); err != nil {
				return err
			}
		}
		if down {
			s0.SetDown(false)
			w.Sleep(15 * time.Minute)
		}
		w.Sleep(time.Minute)
		return check("at the end")
	})
}

func init() {
	p := prop("C23", "some session monitors a nick while connected", 20000, 400000,
		"the server keeps to the MONITOR specification; its monitor list is large enough")
	add(p, "presence", 1, genC23, runC23)
}
