package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C09: read markers.

type c09Op struct {
	K    string
	S, T int
	S2   int
	Alt  bool
	Ms   int // of the timestamp, relative to the start
	Ms2  int
	Bad  int
}

type c09Case struct {
	CM    string
	Store string
	Sess  []int // user, network and capabilities of the sessions
	Ops   []c09Op
}

var c09Targets = []string{"#one", "#Two[x]", "bob", "Carl^", "#notjoined", "nobody", "#föö"}

var c09Bad = []string{"timestamp=", "timestamp", "msgid=x", "timestamp=2020-01-01", "x", "timestamp=2000-01-01T00:00:00", "*"}

func genC09(g *G) c09Case {
	c := c09Case{CM: Pick(g, []string{"rfc1459", "ascii", "rfc1459-strict"}), Store: Pick(g, []string{"memory", "db"})}
	for i, n := 0, 2+g.N(4); i < n; i++ {
		v := g.N(9)
		if g.P(60) {
			v %= 3 // same user and network
		}
		c.Sess = append(c.Sess, v)
	}
	for i, n := 0, g.Size(4, 25); i < n; i++ {
		op := c09Op{S: g.N(len(c.Sess)), S2: g.N(len(c.Sess)), T: g.N(len(c09Targets)), Alt: g.P(30), Ms: g.N(5000), Ms2: g.N(5000), Bad: g.N(len(c09Bad))}
		if g.P(60) {
			op.T = g.N(2)
		}
		switch g.N(8) {
		case 0:
			op.Ms = g.N(100) * 1000
		case 1:
			op.Ms = 1000000000 // in the future
		case 2:
			op.Ms = -g.N(2000000000) * 1000
		}
		op.K = []string{"set", "get", "race", "bad", "relog", "restart", "upre", "sleep", "rename", "rejoin"}[g.W(40, 15, 10, 5, 8, 4, 3, 8, 3, 4)]
		c.Ops = append(c.Ops, op)
	}
	return c
}

const c09Layout = "2006-01-02T15:04:05.000Z"

func runC09(r *R, c c09Case) error {
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		var srvs []*IRCd
		for _, a := range []string{srvAddr0, srvAddr1, "10.9.0.7:6697"} {
			s := w.AddServer(a)
			s.CM = c.CM
			s.Ghost = true
			srvs = append(srvs, s)
		}
		var nets []*database.Network
		ali := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		bob := w.AddUser("bob", func(u *database.User) { u.Nick = "bobby" })
		nets = append(nets, w.AddNetwork(ali, "net0", netAddr0, nil), w.AddNetwork(ali, "net1", netAddr1, nil), w.AddNetwork(bob, "net0", "irc+insecure://10.9.0.7:6697", nil))
		names := []string{"net0", "net1", "net0"}
		for _, n := range nets {
			for _, ch := range c09Targets[:2] {
				w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: ch}))
			}
		}
		fold := func(s string) string { return foldWith(c.CM, s) }
		w.Start()
		w.Sleep(3*time.Second + 137137)
		start := time.Now().Truncate(time.Millisecond)

		type sess struct {
			cl   *Client
			net  int
			cap  int
			seen map[string]string
		}
		marks := []map[string]time.Time{{}, {}, {}}
		str := func(n int, t string) string {
			if v, ok := marks[n][t]; ok {
				return "timestamp=" + v.UTC().Format(c09Layout)
			}
			return "*"
		}
		capSets := [][]string{{"draft/read-marker"}, {"soju.im/read"}, {"draft/read-marker", "soju.im/read"}}
		var ss []*sess
		markers := func(s *sess, msgs []*irc.Message) []*irc.Message {
			var out []*irc.Message
			for _, m := range filter(msgs, "MARKREAD", "READ") {
				out = append(out, m)
			}
			return out
		}
		login := func(s *sess) error {
			var msgs []*irc.Message
			caps := append([]string{"batch"}, capSets[s.cap]...)
			user := "alice"
			if s.net == 2 {
				user = "bob"
			}
			s.cl, msgs = w.MustLogin(LoginOpts{User: user, Network: names[s.net], Client: fmt.Sprintf("c%d", w.nclient%2), Caps: caps})
			s.seen = map[string]string{}
			for _, m := range markers(s, msgs) {
				s.seen[fold(param(m, 0))] = param(m, 1)
			}
			for _, ch := range c09Targets[:2] {
				if uc := srvs[s.net].Conn(); uc != nil && uc.IsRegistered() && uc.InChan(ch) {
					if got, want := s.seen[fold(ch)], str(s.net, fold(ch)); got != want {
						return vio("marker-on-join", "session on network %d was told the marker of %s is %q instead of %q on joining", s.net, ch, got, want)
					}
				}
			}
			for t, got := range s.seen {
				if want := str(s.net, t); got != want {
					return vio("marker-on-login", "session on network %d was told the marker of %s is %q instead of %q", s.net, t, got, want)
				}
			}
			return nil
		}
		for _, v := range c.Sess {
			if v < 0 {
				return errInvalid{}
			}
			s := &sess{net: v / 3 % 3, cap: v % 3}
			ss = append(ss, s)
			if err := login(s); err != nil {
				return err
			}
		}
		set := func(n int, t string, ts time.Time) bool {
			if now := time.Now(); ts.After(now) {
				ts = now
			}
			ts = ts.Truncate(time.Millisecond)
			if old, ok := marks[n][t]; ok && !old.Before(ts) {
				return false
			}
			marks[n][t] = ts
			return true
		}
		// take collects what everybody was told; nets which didn't change
		// mustn't hear anything.
		take := func(desc string, touched map[int]bool, changed bool, n int, t string, asker *sess) error {
			for i, s := range ss {
				var last string
				for _, m := range markers(s, s.cl.Take()) {
					want := "MARKREAD"
					if s.cap == 1 {
						want = "READ"
					}
					if m.Command != want {
						return vio("wrong-command", "%s: session %d was sent %v instead of %s", desc, i, m, want)
					}
					if !touched[s.net] {
						return vio("marker-leak", "%s: session %d on network %d was sent %v", desc, i, s.net, m)
					}
					f := fold(param(m, 0))
					if f == t {
						last = param(m, 1)
					}
					s.seen[f] = param(m, 1)
				}
				if s.net == n && (changed || s == asker) {
					if want := str(n, t); last != want {
						return vio("marker-not-announced", "%s: session %d on network %d was told %q about %s instead of %q", desc, i, n, last, t, want)
					}
				}
				// What a session was told last is right
				for f, v := range s.seen {
					if v != str(s.net, f) && touched[s.net] {
						return vio("marker-stale", "%s: session %d on network %d believes the marker of %s is %q, it is %q", desc, i, s.net, f, v, str(s.net, f))
					}
				}
			}
			return nil
		}
		all := map[int]bool{0: true, 1: true, 2: true}
		for oi, op := range c.Ops {
			if len(ss) == 0 || op.S < 0 || op.S2 < 0 || op.T < 0 || op.Bad < 0 {
				return errInvalid{}
			}
			s := ss[op.S%len(ss)]
			s2 := ss[op.S2%len(ss)]
			target := c09Targets[op.T%len(c09Targets)]
			tf := fold(target)
			if op.Alt {
				target = strings.Map(func(r rune) rune {
					if r < 128 {
						return unicodeToUpper(r)
					}
					return r
				}, target)
				if c.CM != "ascii" {
					target = strings.NewReplacer("[", "{", "]", "}").Replace(target)
				}
				if fold(target) != tf {
					return harnessErr("bad variant %q", target)
				}
			}
			ts := start.Add(time.Duration(op.Ms) * time.Millisecond)
			ts2 := start.Add(time.Duration(op.Ms2) * time.Millisecond)
			cmd := "MARKREAD"
			if s.cap == 1 {
				cmd = "READ"
			}
			desc := fmt.Sprintf("op %d %s %s %v", oi, op.K, target, ts.UTC().Format(c09Layout))
			switch op.K {
			case "set":
				changed := set(s.net, tf, ts)
				s.cl.Do0(fmt.Sprintf("%s %s timestamp=%s", cmd, target, ts.UTC().Format(c09Layout)))
				if changed {
					r.Count("moves")
				} else {
					r.NonTrivial()
					r.Count("refused moves")
				}
				if err := take(desc, map[int]bool{s.net: true}, changed, s.net, tf, s); err != nil {
					return err
				}
			case "get":
				s.cl.Do0(fmt.Sprintf("%s %s", cmd, target))
				if err := take(desc, map[int]bool{s.net: true}, false, s.net, tf, s); err != nil {
					return err
				}
			case "race":
				cmd2 := "MARKREAD"
				if s2.cap == 1 {
					cmd2 = "READ"
				}
				ch := set(s.net, tf, ts)
				ch2 := set(s2.net, tf, ts2)
				s.cl.Send(fmt.Sprintf("%s %s timestamp=%s", cmd, target, ts.UTC().Format(c09Layout)))
				s2.cl.Send(fmt.Sprintf("%s %s timestamp=%s", cmd2, target, ts2.UTC().Format(c09Layout)))
				w.Wait()
				if err := take(desc, map[int]bool{s.net: true, s2.net: true}, ch || ch2 && s.net == s2.net, s.net, tf, s); err != nil {
					return err
				}
				r.NonTrivial()
			case "bad":
				s.cl.Send(fmt.Sprintf("%s %s %s", cmd, target, c09Bad[op.Bad%len(c09Bad)]))
				w.Wait()
				if err := take(desc, map[int]bool{s.net: true}, false, s.net, tf, nil); err != nil {
					return err
				}
			case "relog":
				s.cl.Close()
				w.Wait()
				if err := login(s); err != nil {
					return fmt.Errorf("%s: %w", desc, err)
				}
				r.NonTrivial()
			case "restart":
				w.Stop()
				w.Start()
				w.Sleep(3*time.Second + 1234567)
				for _, s := range ss {
					if err := login(s); err != nil {
						return fmt.Errorf("%s: %w", desc, err)
					}
				}
				r.NonTrivial()
			case "upre":
				if uc := srvs[s.net].Conn(); uc != nil {
					uc.Close()
				}
				w.Sleep(2*time.Minute + 345678)
				if err := take(desc, all, false, s.net, tf, nil); err != nil {
					return err
				}
			case "rename":
				names[s.net] = names[s.net] + "x"
				old := strings.TrimSuffix(names[s.net], "x")
				s.cl.Do0(fmt.Sprintf("PRIVMSG BouncerServ :network update %s -name %s", old, names[s.net]))
				w.Sleep(2 * time.Minute)
				if err := take(desc, all, false, s.net, tf, nil); err != nil {
					return err
				}
			case "rejoin":
				ch := c09Targets[op.T%2]
				s.cl.Do0("PART " + ch)
				w.Sleep(2 * time.Second)
				s.cl.Do0("JOIN " + ch)
				w.Sleep(2 * time.Second)
				if err := take(desc, all, false, s.net, fold(ch), nil); err != nil {
					return err
				}
			case "sleep":
				w.Sleep(time.Duration(op.Ms%3000+1)*time.Millisecond + 7777)
			default:
				return errInvalid{}
			}
			if err := w.CheckPanics(); err != nil {
				return err
			}
		}
		for _, s := range ss {
			for _, t := range c09Targets {
				cmd := "MARKREAD"
				if s.cap == 1 {
					cmd = "READ"
				}
				msgs := markers(s, s.cl.Do(cmd+" "+t))
				if len(msgs) != 1 || param(msgs[0], 1) != str(s.net, fold(t)) {
					return vio("marker-final", "asked about %s on network %d: %v instead of %q", t, s.net, fmtMsgs(msgs), str(s.net, fold(t)))
				}
			}
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C09", "an update which must not move the marker, concurrent updates, or a reconnection or restart before the marker is asked for", 8000, 300000,
		"markers are only moved while the network's case mapping is known (connected at least once since the bouncer was started)")
	add(p, "markers", 1, genC09, runC09)
}

func unicodeToUpper(r rune) rune {
	if r >= 'a' && r <= 'z' {
		return r - 'a' + 'A'
	}
	return r
}
