package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C10: channel state shown to clients.

type c10Op struct {
	K     string
	U, U2 int
	Ch    int
	S     int
	Caps  int
	T     string
	Alt   bool
	Mode  []int
	N     int
}

type c10Case struct {
	CM     string
	NoCM   bool
	Pfx    int
	UpCaps []string
	Init   []int // per (channel, user): 0 absent, else modes bit set + 1
	Saved  int
	Ops    []c10Op
}

var c10Chans = []string{"#one", "#Two[x]", "#three~"}
var c10Users = []string{"bob", "Carl", "d[a]ve", "Eve^", "frank", "gus", "h~l"}
var c10Nicks = []string{"bob", "BOB", "Carl", "d[a]ve", "d{a}ve", "Eve~", "zed", "x|y", "X\\Y", "newnick"}
var c10Pfx = [][2]string{{"ov", "@+"}, {"qaohv", "~&@%+"}}
var c10Caps = []string{"multi-prefix", "extended-join", "echo-message", "server-time", "soju.im/no-implicit-names", "away-notify", "setname", "batch", "message-tags", "draft/no-implicit-names"}
var c10Fields = []string{"", "%n", "%cnfa,7", "%tcuhsnfdar,42", "%nuh", "%nar", "%fn", "%nf"}

func genC10(g *G) c10Case {
	c := c10Case{CM: Pick(g, []string{"rfc1459", "ascii", "rfc1459-strict"}), Pfx: g.N(len(c10Pfx)), UpCaps: genUpCaps(g), Saved: g.N(8)}
	c.NoCM = c.CM == "rfc1459" && g.P(40)
	for i := 0; i < len(c10Chans)*len(c10Users); i++ {
		v := 0
		if g.P(60) {
			v = 1
			if g.P(50) {
				v += g.N(32)
			}
		}
		c.Init = append(c.Init, v)
	}
	kinds := []string{"ujoin", "upart", "ukick", "uquit", "unick", "umode", "utopic", "uaway", "uaccount", "uchghost", "usetname",
		"mekick", "menick", "memode", "mejoin", "cjoin", "cpart", "cdetach", "cnick", "ctopic", "login", "logout", "names", "topic", "mode", "who", "whonick", "reconnect", "slowjoin", "endslow", "monitor", "unmonitor", "sleep", "caway"}
	ws := []int{8, 5, 4, 3, 6, 10, 4, 4, 4, 3, 3,
		2, 2, 1, 1, 5, 3, 3, 2, 2, 8, 4, 5, 3, 4, 8, 8, 2, 4, 5, 3, 2, 1, 2}
	for i, n := 0, g.Size(8, 60); i < n; i++ {
		op := c10Op{K: kinds[g.W(ws...)], U: g.N(len(c10Users)), U2: g.N(len(c10Users)), Ch: g.N(len(c10Chans)), S: g.N(4), Caps: g.N(1 << len(c10Caps)), T: genText(g), Alt: g.P(30), N: g.N(40)}
		if g.P(60) {
			op.N = 8*g.N(5) + Pick(g, []int{0, 3, 4})
		}
		for k, m := 0, g.R(1, 4); k < m; k++ {
			op.Mode = append(op.Mode, g.N(100))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c10Sess struct {
	cl  *Client
	v   *view
	mon map[string]bool
}

func runC10(r *R, c c10Case) error {
	if len(c.Init) != len(c10Chans)*len(c10Users) || c.Pfx < 0 || c.Pfx >= len(c10Pfx) || c.NoCM && c.CM != "rfc1459" {
		return errInvalid{}
	}
	c10Chans := c10Chans
	if c.CM == "ascii" {
		// not the same as another one, here
		c10Chans = []string{c10Chans[0], c10Chans[1], "#two{x}"}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		s := w.AddServer(srvAddr0)
		s.CM, s.NoCM, s.Caps = c.CM, c.NoCM, normCaps(c.UpCaps)
		s.PrefixM, s.PrefixP = c10Pfx[c.Pfx][0], c10Pfx[c.Pfx][1]
		s.Isupport = []string{"MONITOR=100", "WHOX"}
		s.Ghost = true
		multi := s.hasCap("multi-prefix")
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		for i, ch := range c10Chans {
			if c.Saved&(1<<i) != 0 {
				w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: ch}))
			}
		}
		users := make([]*SUser, len(c10Users))
		gone := map[int]bool{}
		for i, nk := range c10Users {
			users[i] = s.AddUser(nk)
		}
		s.With(func() {
			for i, ch := range c10Chans {
				sc := s.channel(ch, true)
				if i > 0 {
					sc.Topic, sc.TopicWho, sc.TopicTime = "topic "+ch, "someone", 1000000000+int64(i)
				}
				for j, nk := range c10Users {
					if v := c.Init[i*len(c10Users)+j]; v > 0 {
						m := ""
						for k := 0; k < len(s.PrefixM); k++ {
							if (v-1)&(1<<k) != 0 && (multi || m == "") {
								m += string(s.PrefixM[k])
							}
						}
						sc.Members[s.Fold(nk)] = m
					}
				}
			}
		})
		slow := map[string]bool{}     // channels whose NAMES are held back
		holdNext := map[string]bool{} // channels whose next JOIN is to be held
		s.Hook = func(uc *UpConn, m *irc.Message) bool {
			if m.Command != "JOIN" || len(m.Params) == 0 {
				return false
			}
			f := s.Fold(m.Params[0])
			if !holdNext[f] || strings.Contains(m.Params[0], ",") {
				return false
			}
			ch := s.channel(m.Params[0], true)
			if _, ok := ch.Members[s.Fold(uc.Nick)]; ok {
				return false
			}
			ch.Members[s.Fold(uc.Nick)] = ""
			delete(holdNext, f)
			slow[f] = true
			uc.Raw(uc.joinMsg(ch, uc.Me))
			return true
		}
		w.Start()
		detached := map[string]bool{}
		saved := map[string]bool{}
		for i, ch := range c10Chans {
			if c.Saved&(1<<i) != 0 {
				saved[s.Fold(ch)] = true
			}
		}
		umodes := ""
		settle := func() error {
			w.Sleep(1503 * time.Millisecond)
			for i := 0; i < 10; i++ {
				if uc := s.Conn(); uc != nil && uc.IsRegistered() && !uc.IsClosed() {
					return nil
				}
				w.Sleep(97 * time.Second)
			}
			return vio("no-upstream", "the bouncer does not reconnect to the network")
		}
		if err := settle(); err != nil {
			return err
		}
		var sess []*c10Sess
		var uc *UpConn
		feed := func() {
			for _, x := range sess {
				x.v.feed(x.cl.Take())
			}
		}
		in := func(ch *SChan, nick string) bool { _, ok := ch.Members[s.Fold(nick)]; return ok }
		// shares reports whether the bouncer shares a channel with the user
		// (lock held).
		shares := func(su *SUser) bool {
			for _, ch := range s.Chans {
				if in(ch, su.Nick) && in(ch, uc.Nick) {
					return true
				}
			}
			return false
		}
		cansee := func(su *SUser) bool {
			return shares(su) || uc.Monitored[s.Fold(su.Nick)] && uc.Caps["extended-monitor"]
		}
		cn := func(ch *SChan, alt bool) string { return altCase(ch.Name, alt) }
		// check compares a session's view with the server's state.
		check := func(desc string, x *c10Sess) error {
			var err error
			s.With(func() {
				v := x.v
				if v.bad != "" {
					err = vio("view", "%s: %s", desc, v.bad)
					return
				}
				if v.nick != uc.Nick {
					err = vio("nick", "%s: the session believes its nick is %q, the server's is %q", desc, v.nick, uc.Nick)
					return
				}
				for f, ch := range s.Chans {
					mine := in(ch, uc.Nick)
					vc := v.chans[f]
					if slow[f] {
						continue
					}
					if !mine || detached[f] {
						if vc != nil {
							err = vio("phantom", "%s: the session believes it is in %s (in upstream %v, detached %v)", desc, ch.Name, mine, detached[f])
							return
						}
						continue
					}
					if vc == nil {
						err = vio("absent", "%s: the session was not told that it is in %s", desc, ch.Name)
						return
					}
					if vc.topic != ch.Topic {
						err = vio("topic", "%s: topic of %s is %q, the session believes %q", desc, ch.Name, ch.Topic, vc.topic)
						return
					}
					if !vc.names {
						if !noNames(x.cl) {
							err = vio("names", "%s: the session was not told the members of %s", desc, ch.Name)
							return
						}
						continue
					}
					want := map[string]string{}
					for k, m := range ch.Members {
						want[k] = m
					}
					if d := diffMembers(want, vc.members, x.v.multi); d != "" {
						err = vio("members", "%s: %s: %s", desc, ch.Name, d)
						return
					}
				}
				for f := range v.chans {
					if s.Chans[f] == nil {
						err = vio("phantom", "%s: the session believes it is in %s", desc, f)
					}
				}
			})
			return err
		}
		login := func(op c10Op, desc string) error {
			var caps []string
			for i, k := range c10Caps {
				if op.Caps&(1<<i) != 0 && !(strings.HasSuffix(k, "/no-implicit-names") && op.Caps&3 != 0) {
					caps = append(caps, k)
				}
			}
			w.Wait()
			cl, msgs := w.Login(LoginOpts{User: "alice", Network: "net0", Caps: caps})
			if msgs == nil {
				return vio("login-refused", "%s: valid registration did not complete", desc)
			}
			if noNames(cl) {
				for _, m := range msgs {
					if m.Command == "353" {
						return vio("implicit-names", "%s: the client asked not to be sent lists of members, and was sent %q", desc, fmtMsg(m))
					}
				}
			}
			x := &c10Sess{cl: cl, v: newView(c.CM, s.PrefixM, s.PrefixP), mon: map[string]bool{}}
			x.v.multi = cl.HasCap("multi-prefix") && multi
			x.v.feed(msgs)
			x.v.feed(cl.Take())
			// the author of the topic
			for f, vc := range x.v.chans {
				if slow[f] || detached[f] {
					continue
				}
				var err error
				s.With(func() {
					ch := s.Chans[f]
					if ch != nil && ch.Topic != "" && (vc.topicWho != ch.TopicWho || vc.topicTime != fmt.Sprint(ch.TopicTime)) {
						err = vio("topicwho", "%s: topic of %s was set by %q at %d, the session was told %q %q", desc, ch.Name, ch.TopicWho, ch.TopicTime, vc.topicWho, vc.topicTime)
					}
				})
				if err != nil {
					return err
				}
			}
			if err := check(desc, x); err != nil {
				return err
			}
			if len(x.v.chans) > 0 {
				r.NonTrivial()
				r.Count("logins")
			}
			sess = append(sess, x)
			return nil
		}
		endslow := func() {
			s.With(func() {
				for f := range slow {
					delete(slow, f)
					ch := s.Chans[f]
					if !in(ch, uc.Nick) {
						continue
					}
					if ch.Topic != "" {
						uc.num("332", ch.Name+" :"+ch.Topic)
						uc.num("333", fmt.Sprintf("%s %s %d", ch.Name, ch.TopicWho, ch.TopicTime))
					}
					uc.names(ch)
				}
			})
			w.Wait()
		}
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d (%s)", i, op.K)
			uc = s.Conn()
			chn := c10Chans[op.Ch%len(c10Chans)]
			ui := op.U % len(users)
			su := users[ui]
			var x *c10Sess
			if len(sess) > 0 {
				x = sess[op.S%len(sess)]
			}
			r.Tracef("--- %s", desc)
			switch op.K {
			case "ujoin":
				s.With(func() {
					ch := s.Chans[s.Fold(chn)]
					if in(ch, su.Nick) || gone[ui] {
						return
					}
					ch.Members[s.Fold(su.Nick)] = ""
					if in(ch, uc.Nick) {
						saveName := ch.Name
						ch.Name = cn(ch, op.Alt)
						uc.Raw(uc.joinMsg(ch, su))
						ch.Name = saveName
						if su.Away != "" && uc.Caps["away-notify"] {
							uc.Raw(fmt.Sprintf(":%s AWAY :%s", su.Prefix(), su.Away))
						}
					}
				})
			case "upart", "ukick":
				s.With(func() {
					ch := s.Chans[s.Fold(chn)]
					if gone[ui] || !in(ch, su.Nick) {
						return
					}
					delete(ch.Members, s.Fold(su.Nick))
					if in(ch, uc.Nick) {
						if op.K == "upart" {
							uc.Raw(fmt.Sprintf(":%s PART %s", su.Prefix(), cn(ch, op.Alt)))
						} else {
							uc.Raw(fmt.Sprintf(":%s KICK %s %s :out", users[op.U2%len(users)].Prefix(), cn(ch, op.Alt), su.Nick))
						}
					}
				})
			case "uquit":
				s.With(func() {
					if gone[ui] {
						return
					}
					sh := shares(su)
					for _, ch := range s.Chans {
						delete(ch.Members, s.Fold(su.Nick))
					}
					delete(s.Users, s.Fold(su.Nick))
					gone[ui] = true
					if sh {
						uc.Raw(fmt.Sprintf(":%s QUIT :bye", su.Prefix()))
					}
					if uc.Monitored[s.Fold(su.Nick)] {
						uc.num("731", ":"+su.Nick)
					}
				})
			case "unick":
				s.With(func() {
					nn := c10Nicks[op.N%len(c10Nicks)]
					if gone[ui] { // comes back, as somebody else
						if s.Users[s.Fold(nn)] != nil || s.Taken[s.Fold(nn)] {
							return
						}
						delete(gone, ui)
						*su = SUser{Nick: nn, User: "v" + fmt.Sprint(i), Host: "h" + fmt.Sprint(i), Real: "back", Server: s.name}
						s.Users[s.Fold(nn)] = su
						if uc.Monitored[s.Fold(nn)] {
							uc.num("730", ":"+su.Prefix())
						}
						return
					}
					if o := s.Users[s.Fold(nn)]; o != nil && o != su {
						return
					}
					old, oldNick := su.Prefix(), su.Nick
					sh := shares(su)
					s.rename(su, nn)
					if sh {
						uc.Raw(fmt.Sprintf(":%s NICK %s", old, nn))
					}
					if s.Fold(oldNick) != s.Fold(nn) {
						if uc.Monitored[s.Fold(oldNick)] {
							uc.num("731", ":"+oldNick)
						}
						if uc.Monitored[s.Fold(nn)] {
							uc.num("730", ":"+su.Prefix())
						}
					}
				})
			case "umode":
				s.With(func() {
					ch := s.Chans[s.Fold(chn)]
					str, last := "", byte(0)
					var args []string
					once := map[string]bool{}
					for _, k := range op.Mode {
						if k < 0 {
							k = -k
						}
						sign := byte('+')
						if k/10%2 == 1 {
							sign = '-'
						}
						var m byte
						arg := ""
						if k%10 < 6 {
							m = s.PrefixM[k%len(s.PrefixM)]
							arg = users[(k/3)%len(users)].Nick
							if k%7 == 0 {
								arg = uc.Nick
							}
							if cur, ok := ch.Members[s.Fold(arg)]; !ok || (!multi && sign == '+' && cur != "" && cur != string(m)) || !multi && once[arg] {
								continue
							}
							once[arg] = true
						} else {
							m = "imnstklbZ"[k%9] // Z isn't advertised
							switch m {
							case 'k':
								arg = "key" + fmt.Sprint(k)
							case 'l':
								if sign == '+' {
									arg = fmt.Sprint(k)
								}
							case 'b':
								arg = "*!*@b"
							}
						}
						if sign != last {
							str += string(sign)
							last = sign
						}
						str += string(m)
						if arg != "" {
							args = append(args, arg)
						}
					}
					if str == "" {
						return
					}
					s.applyMode(ch, str, args)
					if in(ch, uc.Nick) {
						uc.Raw(strings.Join(append([]string{":" + su.Prefix(), "MODE", cn(ch, op.Alt), str}, args...), " "))
					}
				})
			case "utopic":
				s.With(func() {
					ch := s.Chans[s.Fold(chn)]
					ch.Topic, ch.TopicWho, ch.TopicTime = op.T, su.Prefix(), time.Now().Unix()
					if in(ch, uc.Nick) {
						uc.Raw(fmt.Sprintf(":%s TOPIC %s :%s", su.Prefix(), cn(ch, op.Alt), op.T))
					}
				})
			case "uaway":
				s.With(func() {
					if gone[ui] {
						return
					}
					if su.Away == "" {
						su.Away = "gone"
					} else {
						su.Away = ""
					}
					if cansee(su) && uc.Caps["away-notify"] {
						if su.Away != "" {
							uc.Raw(fmt.Sprintf(":%s AWAY :%s", su.Prefix(), su.Away))
						} else {
							uc.Raw(fmt.Sprintf(":%s AWAY", su.Prefix()))
						}
					}
				})
			case "uaccount":
				s.With(func() {
					if gone[ui] {
						return
					}
					a := "*"
					if su.Account == "" {
						su.Account = fmt.Sprintf("acc%d", i)
						a = su.Account
					} else {
						su.Account = ""
					}
					if cansee(su) && uc.Caps["account-notify"] {
						uc.Raw(fmt.Sprintf(":%s ACCOUNT %s", su.Prefix(), a))
					}
				})
			case "uchghost":
				s.With(func() {
					if gone[ui] || !uc.Caps["chghost"] {
						return
					}
					old := su.Prefix()
					su.User, su.Host = fmt.Sprintf("user%d", i), fmt.Sprintf("host%d", i)
					if cansee(su) {
						uc.Raw(fmt.Sprintf(":%s CHGHOST %s %s", old, su.User, su.Host))
					}
				})
			case "usetname":
				s.With(func() {
					if gone[ui] || !uc.Caps["setname"] {
						return
					}
					su.Real = fmt.Sprintf("real %d", i)
					if cansee(su) {
						uc.Raw(fmt.Sprintf(":%s SETNAME :%s", su.Prefix(), su.Real))
					}
				})
			case "mekick":
				s.With(func() {
					ch := s.Chans[s.Fold(chn)]
					if !in(ch, uc.Nick) {
						return
					}
					delete(ch.Members, s.Fold(uc.Nick))
					delete(slow, s.Fold(chn))
					uc.Raw(fmt.Sprintf(":%s KICK %s %s :out", su.Prefix(), cn(ch, op.Alt), uc.Nick))
				})
			case "menick":
				s.With(func() {
					nn := fmt.Sprintf("guest%d", op.N)
					if op.Alt {
						nn = altCase(uc.Nick, true)
					}
					if o := s.Users[s.Fold(nn)]; o != nil && o != uc.Me {
						return
					}
					old := uc.Me.Prefix()
					s.rename(uc.Me, nn)
					uc.Nick = nn
					uc.Raw(fmt.Sprintf(":%s NICK %s", old, nn))
				})
			case "memode":
				s.With(func() {
					m := "iwx"[op.N%3 : op.N%3+1]
					if strings.Contains(umodes, m) {
						umodes = strings.ReplaceAll(umodes, m, "")
						uc.Raw(fmt.Sprintf(":%s MODE %s -%s", uc.Nick, uc.Nick, m))
					} else {
						umodes += m
						uc.Raw(fmt.Sprintf(":%s MODE %s +%s", uc.Nick, uc.Nick, m))
					}
					if op.U%3 == 0 {
						umodes = []string{"", "i", "xw", "iwx"}[op.U2%4]
						uc.num("221", "+"+umodes)
					}
				})
			case "mejoin":
				s.With(func() {
					ch := s.Chans[s.Fold(chn)]
					if in(ch, uc.Nick) {
						return
					}
					ch.Members[s.Fold(uc.Nick)] = ""
					uc.Raw(uc.joinMsg(ch, uc.Me))
					if ch.Topic != "" {
						uc.num("332", ch.Name+" :"+ch.Topic)
						uc.num("333", fmt.Sprintf("%s %s %d", ch.Name, ch.TopicWho, ch.TopicTime))
					}
					uc.names(ch)
				})
			case "cjoin", "slowjoin":
				if x == nil {
					break
				}
				if op.K == "slowjoin" {
					s.With(func() {
						if !in(s.Chans[s.Fold(chn)], uc.Nick) {
							holdNext[s.Fold(chn)] = true
						}
					})
				}
				saved[s.Fold(chn)] = true
				delete(detached, s.Fold(chn))
				x.cl.Send("JOIN " + altCase(chn, op.Alt))
			case "endslow":
				endslow()
			case "cpart":
				if x == nil {
					break
				}
				s.With(func() { delete(slow, s.Fold(chn)) })
				delete(saved, s.Fold(chn))
				delete(detached, s.Fold(chn))
				x.cl.Send("PART " + altCase(chn, op.Alt))
			case "cdetach":
				if x == nil {
					break
				}
				// detaching a channel the bouncer isn't in isn't useful
				if !uc.InChan(chn) {
					break
				}
				saved[s.Fold(chn)] = true
				detached[s.Fold(chn)] = true
				x.cl.Send("PART " + altCase(chn, op.Alt) + " :detach")
			case "cnick":
				if x == nil {
					break
				}
				x.cl.Send("NICK " + c10Nicks[op.N%len(c10Nicks)])
			case "caway":
				if x == nil {
					break
				}
				if op.Alt {
					x.cl.Send("AWAY")
				} else {
					x.cl.Send("AWAY :lunch")
				}
			case "ctopic":
				if x == nil || !uc.InChan(chn) {
					break
				}
				x.cl.Send("TOPIC " + chn + " :" + op.T)
			case "login":
				if len(sess) > 4 {
					break
				}
				if err := login(op, desc); err != nil {
					return err
				}
			case "logout":
				if x == nil {
					break
				}
				x.cl.Close()
				for k := range sess {
					if sess[k] == x {
						sess = append(append([]*c10Sess{}, sess[:k]...), sess[k+1:]...)
						break
					}
				}
			case "monitor", "unmonitor":
				if x == nil {
					break
				}
				nk := c10Nicks[op.N%len(c10Nicks)]
				if op.K == "monitor" {
					x.cl.Send("MONITOR + " + nk)
				} else {
					x.cl.Send("MONITOR - " + nk)
				}
			case "names", "topic", "mode", "who", "whonick":
				if x == nil {
					break
				}
				w.Wait()
				feed()
				if err := c10Query(r, s, uc, x, op, chn, slow, umodes, multi, desc); err != nil {
					return err
				}
			case "reconnect":
				s.With(func() { slow = map[string]bool{} })
				holdNext = map[string]bool{}
				uc.Close()
				if err := settle(); err != nil {
					return err
				}
				umodes = ""
				uc = s.Conn()
				feed()
				// A client can tell from the notice that the connection to the
				// server was lost; channels which weren't joined again are gone.
				for _, x := range sess {
					for f := range x.v.chans {
						if !saved[f] {
							delete(x.v.chans, f)
						}
					}
				}
			case "sleep":
				w.Sleep(61 * time.Second)
			default:
				return errInvalid{}
			}
			w.Wait()
			holdNext = map[string]bool{}
			feed()
			for k, x := range sess {
				if err := check(fmt.Sprintf("%s, session %d", desc, k), x); err != nil {
					return err
				}
			}
		}
		uc = s.Conn()
		endslow()
		feed()
		for k, x := range sess {
			if err := check(fmt.Sprintf("end, session %d", k), x); err != nil {
				return err
			}
		}
		if err := login(c10Op{Caps: 1}, "final login"); err != nil {
			return err
		}
		if err := login(c10Op{}, "final login"); err != nil {
			return err
		}
		return w.CheckPanics()
	})
}

func diffMembers(want, got map[string]string, prefixes bool) string {
	for _, k := range sortedStrs(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("member %s is missing; got %v, expected %v", k, got, want)
		}
		if prefixes && g != want[k] {
			return fmt.Sprintf("member %s has modes %q, expected %q", k, g, want[k])
		}
	}
	for _, k := range sortedStrs(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s isn't a member; got %v, expected %v", k, got, want)
		}
	}
	return ""
}

// c10Query asks for some state and compares the answer with the server's.
func c10Query(r *R, s *IRCd, uc *UpConn, x *c10Sess, op c10Op, chn string, slow map[string]bool, umodes string, multi bool, desc string) error {
	var busy, mine bool
	s.With(func() {
		busy = len(slow) > 0
		_, mine = s.Chans[s.Fold(chn)].Members[s.Fold(uc.Nick)]
	})
	if busy {
		return nil
	}
	name := altCase(chn, op.Alt)
	highest := func(m string) string {
		if m == "" {
			return ""
		}
		return m[:1]
	}
	switch op.K {
	case "names":
		msgs := x.cl.Do("NAMES " + name)
		x.v.feed(msgs)
		got := map[string]string{}
		for _, m := range filter(msgs, "353") {
			for _, t := range strings.Fields(param(m, 3)) {
				ms, nk := x.v.splitPrefix(t)
				got[s.Fold(nk)] = ms
			}
		}
		if len(filter(msgs, "366")) != 1 {
			return vio("names-reply", "%s: NAMES %s: expected one end of list:\n%s", desc, name, fmtMsgs(msgs))
		}
		var err error
		s.With(func() {
			want := map[string]string{}
			for k, m := range s.Chans[s.Fold(chn)].Members {
				want[k] = m
				if mine && !x.v.multi {
					want[k] = highest(m)
				}
			}
			if d := diffMembers(want, got, true); d != "" {
				err = vio("names-reply", "%s: NAMES %s: %s", desc, name, d)
			}
		})
		if err != nil {
			return err
		}
		r.Count("names")
	case "topic":
		msgs := filter(x.cl.Do("TOPIC "+name), "331", "332", "333")
		x.v.feed(msgs)
		var err error
		s.With(func() {
			ch := s.Chans[s.Fold(chn)]
			if ch.Topic == "" {
				if len(msgs) != 1 || msgs[0].Command != "331" {
					err = vio("topic-reply", "%s: TOPIC %s: no topic is set, got:\n%s", desc, name, fmtMsgs(msgs))
				}
				return
			}
			if len(msgs) != 2 || msgs[0].Command != "332" || param(msgs[0], 2) != ch.Topic || msgs[1].Command != "333" || param(msgs[1], 2) != ch.TopicWho || param(msgs[1], 3) != fmt.Sprint(ch.TopicTime) {
				err = vio("topic-reply", "%s: TOPIC %s: the topic is %q, set by %s at %d, got:\n%s", desc, name, ch.Topic, ch.TopicWho, ch.TopicTime, fmtMsgs(msgs))
			}
		})
		if err != nil {
			return err
		}
	case "mode":
		if op.N%5 == 0 {
			msgs := filter(x.cl.Do("MODE "+x.v.nick), "221")
			if len(msgs) != 1 || !sameLetters(strings.TrimPrefix(param(msgs[0], 1), "+"), umodes) {
				return vio("umode-reply", "%s: the user's modes are %q, got:\n%s", desc, umodes, fmtMsgs(msgs))
			}
			return nil
		}
		msgs := filter(x.cl.Do("MODE "+name), "324", "329")
		var err error
		s.With(func() {
			ch := s.Chans[s.Fold(chn)]
			if len(msgs) != 2 || msgs[0].Command != "324" || msgs[1].Command != "329" || param(msgs[1], 2) != fmt.Sprint(ch.Created) {
				err = vio("mode-reply", "%s: MODE %s: got:\n%s", desc, name, fmtMsgs(msgs))
				return
			}
			got := map[string]string{}
			args := msgs[0].Params[3:]
			for _, b := range []byte(strings.TrimPrefix(param(msgs[0], 2), "+")) {
				got[string(b)] = ""
				if (b == 'k' || b == 'l') && len(args) > 0 {
					got[string(b)], args = args[0], args[1:]
				}
			}
			want := map[string]string{}
			for b, v := range ch.Modes {
				want[string(b)] = v
			}
			if fmt.Sprint(got) != fmt.Sprint(want) || len(args) > 0 {
				err = vio("mode-reply", "%s: MODE %s: the modes are %v, got %v:\n%s", desc, name, want, got, fmtMsgs(msgs))
			}
		})
		if err != nil {
			return err
		}
	case "who", "whonick":
		opt := c10Fields[op.N%len(c10Fields)]
		mask := name
		if op.K == "whonick" {
			mask = c10Nicks[(op.N/8+op.U)%len(c10Nicks)]
			if op.U2 == 0 {
				mask = uc.CurNick()
			}
		}
		before := len(uc.All())
		all := x.cl.Do(strings.TrimSpace("WHO " + mask + " " + opt))
		msgs := filter(all, "352", "354", "315")
		passed := len(uc.All()) > before
		if len(msgs) == 0 || msgs[len(msgs)-1].Command != "315" || len(filter(msgs, "315")) != 1 {
			return vio("who-reply", "%s: WHO %s %s: no end of list:\n%s", desc, mask, opt, fmtMsgs(all))
		}
		msgs = msgs[:len(msgs)-1]
		var want []string
		s.With(func() {
			var us []*SUser
			ch := s.channel(mask, false)
			if op.K == "who" {
				for k := range ch.Members {
					us = append(us, s.Users[k])
				}
			} else {
				ch = nil
				if su := s.Users[s.Fold(mask)]; su != nil {
					us = append(us, su)
				}
			}
			for _, su := range us {
				want = append(want, c10Row(s, uc, su, ch, opt, x.v.multi && multi || passed && multi))
			}
		})
		var got []string
		for _, m := range msgs {
			p := append([]string{}, m.Params[1:]...)
			if op.K == "who" {
				// the channel's name may be given in another letter case
				for i := range p {
					if s.Fold(p[i]) == s.Fold(chn) {
						p[i] = chn
					}
				}
			}
			got = append(got, m.Command+" "+strings.Join(p, "|"))
		}
		sort.Strings(want)
		sort.Strings(got)
		if !eqStrs(got, want) {
			return vio("who-reply", "%s: WHO %s %s (answered by the server: %v):\ngot      %q\nexpected %q", desc, mask, opt, passed, got, want)
		}
		if !passed && len(want) > 0 {
			r.Count("cached-who")
		}
	}
	return nil
}

func sameLetters(a, b string) bool {
	x, y := strings.Split(a, ""), strings.Split(b, "")
	sort.Strings(x)
	sort.Strings(y)
	return eqStrs(x, y)
}

// c10Row is the expected WHO reply for a user (lock held).
func c10Row(s *IRCd, uc *UpConn, su *SUser, ch *SChan, opt string, multi bool) string {
	flags := "H"
	if su.Away != "" {
		flags = "G"
	}
	chname := "*"
	if ch != nil {
		chname = ch.Name
		flags += s.prefixes(ch.Members[s.Fold(su.Nick)], multi)
	}
	fields, token, _ := strings.Cut(strings.TrimPrefix(opt, "%"), ",")
	if opt == "" {
		return "352 " + strings.Join([]string{chname, su.User, su.Host, su.Server, su.Nick, flags, "0 " + su.Real}, "|")
	}
	acc := su.Account
	if acc == "" {
		acc = "0"
	}
	var vals []string
	for _, f := range []byte("tcuhsnfdar") {
		if strings.IndexByte(fields, f) < 0 {
			continue
		}
		vals = append(vals, map[byte]string{'t': token, 'c': chname, 'u': su.User, 'h': su.Host, 's': su.Server, 'n': su.Nick, 'f': flags, 'd': "0", 'a': acc, 'r': su.Real}[f])
	}
	return "354 " + strings.Join(vals, "|")
}

func init() {
	p := prop("C10", "a session attached and was shown at least one channel", 16000, 300000,
		"while the upstream connection is up and the server has finished describing a channel it just let the bouncer join",
		"without multi-prefix upstream a member has at most one prefix; sessions without multi-prefix are only expected to know who is a member",
		"changes which the server doesn't announce (no setname, chghost capability) do not happen; user fields in WHO are only cached as far as the server announces changes")
	add(p, "state", 1, genC10, runC10)
}

func noNames(cl *Client) bool {
	return cl.HasCap("soju.im/no-implicit-names") || cl.HasCap("draft/no-implicit-names")
}
