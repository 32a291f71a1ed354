package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C27: what each session was told about its own identity agrees with what the
// upstream server has for the user.

type c27Op struct {
	K    string
	S    int
	I    int // index into the pool the operation picks from
	J    int
	L    []string
	Fast bool // the next operation follows at once
}

type c27Case struct {
	CM    string
	Trunc bool
	NoSet bool // no setname upstream
	NoChg bool // no chghost upstream
	SASL  bool
	Auth  bool // the bouncer authenticates to the first network
	UNick string
	UReal string
	NNick string
	NReal string
	Host  bool // the server tells the visible host after registration
	Chan  bool
	Two   bool
	Ops   []c27Op
}

var (
	c27Nicks = []string{"al", "alice", "AL", "al_", "Alice[1]", "alice{1}", "averylongnickname", "al2", "me~x"}
	c27Reals = []string{"Real Al", "Someone else", "x", "ünïcode name", "al", ":colon first", "Real Al "}
	c27Hosts = []string{"cloak/al", "1.2.3.4", "host.example", "2001:db8::1"}
	c27Users = []string{"al", "~al", "ident"}
	c27Accts = []string{"acct", "Other", ""}
	c27Caps  = []string{"setname", "sasl", "chghost", "echo-message", "server-time", "message-tags", "extended-join", "account-notify", "batch"}
)

func genC27(g *G) c27Case {
	c := c27Case{CM: Pick(g, []string{"rfc1459", "ascii", "rfc1459-strict"}), Trunc: g.P(15), NoSet: g.P(30), NoChg: g.P(30), SASL: g.P(70), Auth: g.P(40), Host: g.P(40), Chan: g.P(50), Two: g.P(30)}
	opt := func(pool []string, pct int) string {
		if g.P(pct) {
			return Pick(g, pool)
		}
		return ""
	}
	c.UNick, c.UReal, c.NNick, c.NReal = opt(c27Nicks, 60), opt(c27Reals, 50), opt(c27Nicks, 30), opt(c27Reals, 30)
	kinds := []string{"login", "blogin", "logout", "nick", "setname", "cap+", "cap-", "net-nick", "net-real", "net-user", "user-nick", "user-real", "s-nick", "s-host", "s-396", "s-real", "s-acct", "drop", "down", "up", "take", "free", "self", "other", "join", "whois"}
	ws := []int{9, 3, 3, 10, 8, 3, 2, 3, 2, 1, 3, 3, 6, 6, 3, 3, 6, 2, 3, 4, 3, 2, 4, 3, 2, 2}
	c.Ops = append(c.Ops, c27Op{K: "login", L: Subset(g, c27Caps, 60)})
	for i, n := 0, g.Size(3, 28); i < n; i++ {
		op := c27Op{K: kinds[g.W(ws...)], S: g.N(4), I: g.N(12), J: g.N(12), Fast: g.P(25)}
		switch op.K {
		case "login", "blogin":
			op.L = Subset(g, c27Caps, 60)
		case "cap+", "cap-":
			op.L = []string{Pick(g, c27Caps)}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c27Sess struct {
	cl    *Client
	net   int // -1: not bound to a network
	since int
	nick  string
	caps  map[string]bool
	real  *string // nil: not known
	user  *string
	host  *string
	acct  *string
	fresh bool // was told about the configuration while disconnected
	set0  bool // setname was enabled at registration, and ever since
}

type c27Net struct {
	s    *IRCd
	id   int64
	told struct{ user, host, acct, real *string } // by the server on this connection
	conn *UpConn
	down bool
}

func strp(s string) *string { return &s }

func showp(s *string) string {
	if s == nil {
		return "(unknown)"
	}
	return fmt.Sprintf("%q", *s)
}

func runC27(r *R, c c27Case) error {
	in := func(pool []string, s string) bool { return s == "" || idxOf(pool, s) >= 0 }
	if !in(c27Nicks, c.UNick) || !in(c27Nicks, c.NNick) || !in(c27Reals, c.UReal) || !in(c27Reals, c.NReal) || (c.CM != "rfc1459" && c.CM != "ascii" && c.CM != "rfc1459-strict") {
		return errInvalid{}
	}
	for _, op := range c.Ops {
		if op.S < 0 || op.I < 0 || op.J < 0 {
			return errInvalid{}
		}
		for _, x := range op.L {
			if idxOf(c27Caps, x) < 0 {
				return errInvalid{}
			}
		}
		if (op.K == "cap+" || op.K == "cap-") && len(op.L) != 1 {
			return errInvalid{}
		}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		u := w.AddUser("alice", func(u *database.User) { u.Nick, u.Realname = c.UNick, c.UReal })
		var nets []*c27Net
		nn := 1
		if c.Two {
			nn = 2
		}
		for i := 0; i < nn; i++ {
			s := w.AddServer([]string{srvAddr0, srvAddr1}[i])
			s.CM = c.CM
			s.Ghost = true
			if c.Trunc {
				s.Trunc = 5
			}
			var caps []string
			for _, x := range s.Caps {
				if x == "setname" && c.NoSet || x == "chghost" && c.NoChg {
					continue
				}
				caps = append(caps, x)
			}
			if c.SASL {
				caps = append(caps, "sasl=PLAIN")
			}
			s.Caps = caps
			s.Accounts = map[string]string{"acct": "secret"}
			s.AddUser("bob")
			n := w.AddNetwork(u, fmt.Sprintf("net%d", i), []string{netAddr0, netAddr1}[i], func(n *database.Network) {
				if i == 0 {
					n.Nick, n.Realname = c.NNick, c.NReal
					if c.Auth {
						n.SASL.Mechanism, n.SASL.Plain.Username, n.SASL.Plain.Password = "PLAIN", "acct", "secret"
					}
				}
			})
			nets = append(nets, &c27Net{s: s, id: n.ID})
		}
		mine := map[string]bool{}
		for _, n := range append([]string{"alice"}, c27Nicks...) {
			for _, suf := range []string{"", "_", "__", "___"} {
				mine[foldWith(c.CM, n+suf)] = true
				if c.Trunc && len(n+suf) > 5 {
					mine[foldWith(c.CM, (n + suf)[:5])] = true
				}
			}
		}
		w.Start()
		w.Sleep(3 * time.Second)
		var sess []*c27Sess
		ready := func(x *c27Net) *UpConn {
			uc := x.s.Conn()
			if uc == nil || uc.IsClosed() || !uc.IsRegistered() {
				return nil
			}
			return uc
		}
		// sync follows reconnections
		sync := func() {
			for i, x := range nets {
				uc := ready(x)
				if uc == x.conn {
					continue
				}
				if x.conn != nil {
					for _, y := range sess {
						if y.net == i {
							y.fresh = false
						}
					}
				}
				x.conn = uc
				x.told = struct{ user, host, acct, real *string }{}
				if uc == nil {
					continue
				}
				x.s.With(func() {
					x.told.real = strp(uc.Me.Real)
					x.told.acct = strp(uc.AuthedAs)
					if uc.AuthedAs != "" {
						r.Count("authenticated")
						x.told.user, x.told.host = strp(uc.Me.User), strp(uc.Me.Host)
					}
					if c.Host {
						uc.num("396", uc.Me.Host+" :is now your visible host")
						x.told.host = strp(uc.Me.Host)
					}
				})
				w.Wait()
			}
		}
		sync()
		texts := map[string]int{} // text -> operation
		feed := func(desc string, k int, y *c27Sess, msgs []*irc.Message) error {
			for _, m := range msgs {
				cmd := m.Command
				if len(cmd) == 3 && cmd[0] >= '0' && cmd[0] <= '9' && cmd != "001" {
					if t := param(m, 0); t != y.nick && t != "*" {
						return vio("wrong-nick", "%s: session %d, whose nick is %q as far as it was told, received %q", desc, k, y.nick, m.String())
					}
				}
				own := false
				if m.Prefix != nil && m.Prefix.Name != "" {
					if at, ok := texts[param(m, 1)]; ok && (cmd == "PRIVMSG" || cmd == "NOTICE") && at < y.since {
						continue // backlog
					}
					own = m.Prefix.Name == y.nick
					if !own && mine[foldWith(c.CM, m.Prefix.Name)] {
						return vio("unknown-self", "%s: session %d, whose nick is %q as far as it was told, received %q", desc, k, y.nick, m.String())
					}
				}
				switch cmd {
				case "001":
					y.nick = param(m, 0)
				case "NICK":
					if own {
						y.nick = param(m, 0)
					}
				case "PRIVMSG", "NOTICE", "INVITE", "TAGMSG":
					t := param(m, 0)
					if !own && !strings.HasPrefix(t, "#") && t != y.nick {
						return vio("wrong-nick", "%s: session %d, whose nick is %q as far as it was told, received %q", desc, k, y.nick, m.String())
					}
				case "396":
					h := param(m, 1)
					if u, x, ok := strings.Cut(h, "@"); ok {
						y.user, h = strp(u), x
					}
					y.host = strp(h)
				case "CHGHOST":
					if own {
						if !y.caps["chghost"] {
							return vio("cap", "%s: session %d didn't enable chghost but received %q", desc, k, m.String())
						}
						y.user, y.host = strp(param(m, 0)), strp(param(m, 1))
					}
				case "SETNAME":
					if own {
						y.real = strp(param(m, 0))
					}
				case "900":
					y.acct = strp(param(m, 2))
					p := irc.ParsePrefix(param(m, 1))
					if p.Name != y.nick {
						return vio("wrong-nick", "%s: session %d, whose nick is %q as far as it was told, received %q", desc, k, y.nick, m.String())
					}
				case "901":
					y.acct = strp("")
				case "CAP":
					if t := param(m, 0); t != y.nick {
						return vio("wrong-nick", "%s: session %d, whose nick is %q as far as it was told, received %q", desc, k, y.nick, m.String())
					}
					sub := param(m, 1)
					if sub != "ACK" && sub != "DEL" {
						break
					}
					for _, x := range strings.Fields(param(m, -1)) {
						off := strings.HasPrefix(x, "-") || sub == "DEL"
						x = strings.TrimPrefix(x, "-")
						y.caps[x] = !off
						switch x {
						case "setname":
							y.real, y.set0 = nil, false
						case "sasl":
							y.acct = nil
						case "chghost":
							y.user = nil
						}
					}
				}
			}
			return nil
		}
		observe := func(desc string) error {
			for k, y := range sess {
				if y.cl.Closed() {
					return vio("closed", "%s: session %d was closed", desc, k)
				}
				if err := feed(desc, k, y, y.cl.Take()); err != nil {
					return err
				}
			}
			return nil
		}
		cfg := func(id int64) (nick, real string) {
			ur, err := w.DB.GetUser(ctxBg, "alice")
			w.must(err)
			var n *database.Network
			if id != 0 {
				n = w.netByID(u.ID, id)
			}
			nick = "alice"
			if ur.Nick != "" {
				nick = ur.Nick
			}
			if n != nil && n.Nick != "" {
				nick = n.Nick
			}
			real = nick
			if ur.Realname != "" {
				real = ur.Realname
			}
			if n != nil && n.Realname != "" {
				real = n.Realname
			}
			return nick, real
		}
		check := func(desc string) error {
			w.Wait()
			sync()
			if err := observe(desc); err != nil {
				return err
			}
			for k, y := range sess {
				if y.net < 0 {
					nick, real := cfg(0)
					if y.nick != nick {
						return vio("nick", "%s: session %d (not bound to a network) was told its nick is %q, but the configured one is %q", desc, k, y.nick, nick)
					}
					if y.real != nil && *y.real != real {
						return vio("realname", "%s: session %d (not bound to a network) was told its real name is %q, but the configured one is %q", desc, k, *y.real, real)
					}
					continue
				}
				x := nets[y.net]
				if x.conn == nil {
					if y.fresh {
						nick, real := cfg(x.id)
						if y.nick != nick {
							return vio("nick-offline", "%s: session %d was told its nick is %q, but the configured one is %q (not connected)", desc, k, y.nick, nick)
						}
						if y.real != nil && *y.real != real {
							return vio("realname-offline", "%s: session %d was told its real name is %q, but the configured one is %q (not connected)", desc, k, *y.real, real)
						}
						r.Count("offline-judged")
					}
					continue
				}
				var nick string
				x.s.With(func() { nick = x.conn.Nick })
				if y.nick != nick {
					return vio("nick", "%s: session %d was told its nick is %q, but on the server it's %q", desc, k, y.nick, nick)
				}
				for _, f := range []struct {
					what      string
					got, want *string
				}{{"real name", y.real, x.told.real}, {"user name", y.user, x.told.user}, {"host", y.host, x.told.host}, {"account", y.acct, x.told.acct}} {
					if f.want != nil && f.got != nil && *f.got != *f.want {
						return vio(strings.ReplaceAll(f.what, " ", ""), "%s: session %d was told its %s is %q, but on the server it's %q", desc, k, f.what, *f.got, *f.want)
					}
				}
				// what must have been told
				if y.real == nil && y.caps["setname"] && y.since >= 0 && y.set0 {
					return vio("realname-untold", "%s: session %d wasn't told its real name (%s)", desc, k, showp(x.told.real))
				}
				if y.host == nil && x.told.host != nil {
					return vio("host-untold", "%s: session %d wasn't told its host (%s)", desc, k, showp(x.told.host))
				}
				if len(sess) > 1 {
					r.Count("judged-with-others")
				}
			}
			return nil
		}
		// requested changes made while disconnected are told to sessions
		type conf struct{ nick, real string }
		prev := make([]conf, len(nets))
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d %s", i, op.K)
			r.Tracef("%s %+v", desc, op)
			var y *c27Sess
			if len(sess) > 0 {
				y = sess[op.S%len(sess)]
			}
			ni := op.J % len(nets)
			x := nets[ni]
			uc := x.conn
			if uc != nil && (uc.IsClosed()) {
				uc = nil
			}
			offline := false
			for k, x := range nets {
				if x.down && ready(x) == nil {
					offline = true
				}
				prev[k].nick, prev[k].real = cfg(x.id)
			}
			svc := func(cmd string) {
				y.cl.Send("PRIVMSG BouncerServ :" + cmd)
			}
			switch op.K {
			case "login", "blogin":
				if len(sess) >= 4 {
					continue
				}
				o := LoginOpts{User: "alice", Nick: Pick(NewG(uint64(op.I)), c27Nicks), Client: fmt.Sprintf("c%d", i)}
				z := &c27Sess{net: -1, since: i, caps: map[string]bool{}}
				if op.K == "login" {
					z.net = ni
					o.Network = fmt.Sprintf("net%d", ni)
				} else {
					o.Caps = append(o.Caps, "soju.im/bouncer-networks")
				}
				var post []string
				for _, k := range op.L {
					if isUpstreamCap(k) {
						post = append(post, k)
					} else {
						o.Caps = append(o.Caps, k)
					}
				}
				o.Caps = append(o.Caps, "cap-notify")
				cl, msgs := w.MustLogin(o)
				z.cl = cl
				for _, k := range o.Caps {
					z.caps[k] = cl.HasCap(k)
				}
				if z.caps["sasl"] {
					z.acct = strp("")
				}
				z.set0 = z.caps["setname"]
				z.fresh = z.net >= 0 && nets[ni].conn == nil && nets[ni].down
				sess = append(sess, z)
				if err := feed(desc, len(sess)-1, z, msgs); err != nil {
					return err
				}
				for _, k := range post {
					cl.Send("CAP REQ " + k)
				}
			case "logout":
				if y == nil {
					continue
				}
				y.cl.Close()
				k := op.S % len(sess)
				sess = append(append([]*c27Sess{}, sess[:k]...), sess[k+1:]...)
			case "nick":
				if y == nil {
					continue
				}
				y.cl.Send("NICK " + c27Nicks[op.I%len(c27Nicks)])
				r.NonTrivial()
			case "setname":
				if y == nil {
					continue
				}
				y.cl.Send("SETNAME :" + c27Reals[op.I%len(c27Reals)])
				w.Sleep(20 * time.Second) // may reconnect
			case "cap+", "cap-":
				if y == nil {
					continue
				}
				n := op.L[0]
				if op.K == "cap-" {
					n = "-" + n
				}
				y.cl.Send("CAP REQ :" + n)
			case "net-nick":
				if y == nil {
					continue
				}
				svc(fmt.Sprintf("network update net%d -nick %s", ni, quoteWord(c27Nicks[op.I%len(c27Nicks)])))
				w.Sleep(20 * time.Second)
			case "net-real":
				if y == nil {
					continue
				}
				svc(fmt.Sprintf("network update net%d -realname %s", ni, quoteWord(c27Reals[op.I%len(c27Reals)])))
				w.Sleep(20 * time.Second)
			case "net-user":
				if y == nil {
					continue
				}
				svc(fmt.Sprintf("network update net%d -username %s", ni, quoteWord(c27Users[op.I%len(c27Users)])))
				w.Sleep(20 * time.Second)
			case "user-nick":
				if y == nil {
					continue
				}
				svc("user update -nick " + quoteWord(c27Nicks[op.I%len(c27Nicks)]))
				w.Sleep(20 * time.Second)
			case "user-real":
				if y == nil {
					continue
				}
				svc("user update -realname " + quoteWord(c27Reals[op.I%len(c27Reals)]))
				w.Sleep(20 * time.Second)
			case "s-nick":
				if uc == nil {
					continue
				}
				x.s.With(func() {
					to := x.s.trunc(c27Nicks[op.I%len(c27Nicks)])
					if x.s.Fold(to) != x.s.Fold(uc.Nick) && x.s.nickTaken(to) {
						return
					}
					old := uc.Me.Prefix()
					x.s.rename(uc.Me, to)
					uc.Nick = to
					uc.Raw(fmt.Sprintf(":%s NICK %s", old, to))
				})
				r.NonTrivial()
			case "s-host", "s-396":
				if uc == nil {
					continue
				}
				h := c27Hosts[op.I%len(c27Hosts)]
				x.s.With(func() {
					old := uc.Me.Prefix()
					uc.Me.Host = h
					if op.K == "s-host" && uc.Caps["chghost"] {
						uc.Me.User = c27Users[op.I%len(c27Users)]
						uc.Raw(fmt.Sprintf(":%s CHGHOST %s %s", old, uc.Me.User, h))
						x.told.user = strp(uc.Me.User)
					} else if op.I%2 == 0 {
						uc.Me.User = c27Users[op.I/2%len(c27Users)]
						uc.num("396", uc.Me.User+"@"+h+" :is now your visible host")
						x.told.user = strp(uc.Me.User)
					} else {
						uc.num("396", h+" :is now your visible host")
					}
					x.told.host = strp(h)
				})
				r.Count("host-change")
			case "s-real":
				if uc == nil {
					continue
				}
				x.s.With(func() {
					if !uc.Caps["setname"] {
						return
					}
					uc.Me.Real = c27Reals[op.I%len(c27Reals)]
					uc.Raw(fmt.Sprintf(":%s SETNAME :%s", uc.Me.Prefix(), uc.Me.Real))
				})
			case "s-acct":
				if uc == nil || !c.SASL {
					continue
				}
				a := c27Accts[op.I%len(c27Accts)]
				x.s.With(func() {
					if op.I%2 == 0 {
						uc.Me.Host = c27Hosts[op.I/2%len(c27Hosts)]
					}
					uc.Me.Account = a
					if a == "" {
						uc.num("901", uc.Me.Prefix()+" :You are now logged out")
					} else {
						uc.num("900", uc.Me.Prefix()+" "+a+" :You are now logged in as "+a)
					}
					x.told.acct = strp(a)
					x.told.user, x.told.host = strp(uc.Me.User), strp(uc.Me.Host)
				})
				r.Count("account-change")
			case "drop":
				if uc == nil || x.down {
					continue
				}
				x.s.closeAll()
				w.Sleep(15 * time.Minute)
				r.Count("drop")
			case "down":
				if x.down {
					continue
				}
				x.s.SetDown(true)
				x.s.closeAll()
				x.down = true
				w.Sleep(5 * time.Second)
			case "up":
				if !x.down {
					continue
				}
				x.s.SetDown(false)
				x.down = false
				w.Sleep(15 * time.Minute)
				r.Count("up")
			case "take":
				n := c27Nicks[op.I%len(c27Nicks)]
				x.s.With(func() {
					if x.s.Users[x.s.Fold(n)] == nil {
						x.s.Taken[x.s.Fold(n)] = true
					}
				})
			case "free":
				x.s.With(func() { x.s.Taken = map[string]bool{} })
				w.Sleep(time.Minute)
			case "self":
				if y == nil {
					continue
				}
				t := fmt.Sprintf("self text %d", i)
				texts[t] = i
				to := y.nick
				if op.I%2 == 0 {
					to = "bob"
				}
				if op.I%5 == 0 {
					to = "#chan"
				}
				y.cl.Send("PRIVMSG " + to + " :" + t)
			case "other":
				if uc == nil {
					continue
				}
				t := fmt.Sprintf("other text %d", i)
				texts[t] = i
				x.s.With(func() { uc.Raw(fmt.Sprintf(":bob!ubob@host.bob PRIVMSG %s :%s", uc.Nick, t)) })
			case "join":
				if y == nil {
					continue
				}
				y.cl.Send([]string{"JOIN #chan", "PART #chan"}[op.I%2])
			case "whois":
				if y == nil {
					continue
				}
				y.cl.Send([]string{"WHOIS " + y.nick, "WHO " + y.nick, "MODE " + y.nick, "MOTD", "BADCMD"}[op.I%5])
			default:
				return errInvalid{}
			}
			if op.Fast && !offline && op.K != "login" && op.K != "blogin" {
				r.Count("at-once")
				continue
			}
			w.Sleep(10 * time.Second)
			sync()
			for k, x := range nets {
				if nick, real := cfg(x.id); offline && x.down && op.K != "down" && (prev[k] != conf{nick, real}) {
					for _, z := range sess {
						if z.net == k {
							z.fresh = true
						}
					}
					r.Count("offline-change")
				}
			}
			for _, x := range nets {
				if x.conn != nil {
					x.s.With(func() { x.told.real = strp(x.conn.Me.Real) })
				}
			}
			if err := check(desc); err != nil {
				return err
			}
		}
		w.Sleep(time.Minute)
		for _, x := range nets {
			x.s.SetDown(false)
			x.down = false
		}
		w.Sleep(15 * time.Minute)
		sync()
		for _, x := range nets {
			if x.conn != nil {
				x.s.With(func() { x.told.real = strp(x.conn.Me.Real) })
			}
		}
		return check("at the end")
	})
}

func init() {
	p := prop("C27", "the user's nick changes, requested by a session or forced by the server", 15000, 300000,
		"the server tells the bouncer about host and account changes with CHGHOST, 396, 900 and 901")
	add(p, "identity", 1, genC27, runC27)
}
