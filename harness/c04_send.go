package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C04: client -> upstream relay and echo.

type c04Op struct {
	K     string
	S     int
	Tgts  []int
	T     string
	Tags  int
	Args  []string
	Check bool
}

type c04Case struct {
	CM     string
	UpCaps []string
	Store  string
	Acct   bool
	Sess   [][]string
	Ops    []c04Op
}

var c04Targets = []string{"#one", "#ONE", "#Two", "bob", "Carl", "d[a]ve", "#nowhere", "NickServ", "BouncerServ", "@#one", "$example.org", "bouncerSERV", "$*"}

var c04Kinds = []string{"privmsg", "notice", "tagmsg", "join", "part", "topic", "mode", "kick", "invite", "other", "umode", "empty", "badjoin"}

func genC04(g *G) c04Case {
	c := c04Case{
		CM:     Pick(g, []string{"rfc1459", "ascii", "rfc1459-strict"}),
		UpCaps: genUpCaps(g),
		Store:  genStore(g),
		Acct:   g.P(40),
	}
	for i, n := 0, g.R(1, 4); i < n; i++ {
		c.Sess = append(c.Sess, genSessCaps(g))
	}
	for i, n := 0, g.Size(3, 30); i < n; i++ {
		op := c04Op{K: c04Kinds[g.W(16, 7, 6, 4, 3, 3, 3, 2, 2, 4, 1, 1, 1)], S: g.N(5), T: genText(g), Tags: g.N(1<<6) & g.N(1<<6), Check: g.P(50)}
		for k, m := 0, g.W(0, 6, 2, 1); k < m; k++ {
			op.Tgts = append(op.Tgts, g.N(len(c04Targets)))
		}
		for k, m := 0, g.R(0, 3); k < m; k++ {
			op.Args = append(op.Args, Pick(g, []string{"a", "b:c", "x y", "#one", "+o", "carl", "-", ""}))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

var c04Other = []string{"WHOWAS", "OPER", "KNOCK", "STATS", "TIME", "VERSION", "USERHOST", "ISON", "FOOBAR", "LUSERS", "CNOTICE", "HELP", "ADMIN"}

func clientTags(bits int) irc.Tags {
	t := irc.Tags{}
	if bits&1 != 0 {
		t["+typing"] = "active"
	}
	if bits&2 != 0 {
		t["+draft/reply"] = "weird; value\\ with\nspecials "
	}
	if bits&4 != 0 {
		t["+draft/react"] = "✓"
	}
	if bits&8 != 0 {
		t["vendor/dropped"] = "x"
	}
	if bits&16 != 0 {
		t["msgid"] = "forged"
	}
	if bits&32 != 0 {
		t["time"] = "2001-01-01T00:00:00.000Z"
	}
	return t
}

func clientOnly(t irc.Tags) irc.Tags {
	o := irc.Tags{}
	for k, v := range t {
		if strings.HasPrefix(k, "+") {
			o[k] = v
		}
	}
	return o
}

// svcLast moves messages sent to the service to the end.
func svcLast[T any](l []T, f func(T) *irc.Message) []T {
	var a, b []T
	for _, x := range l {
		if strings.EqualFold(param(f(x), 0), "BouncerServ") {
			b = append(b, x)
		} else {
			a = append(a, x)
		}
	}
	return append(a, b...)
}

func sameParams(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC04(r *R, c c04Case) error {
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s := w.AddServer(srvAddr0)
		s.CM, s.Caps = c.CM, normCaps(c.UpCaps)
		s.Isupport = []string{"STATUSMSG=@+"}
		pass := map[string]bool{"KICK": true, "INVITE": true}
		for _, o := range c04Other {
			pass[o] = true
		}
		s.Hook = func(uc *UpConn, m *irc.Message) bool { return pass[m.Command] }
		s1 := w.AddServer(srvAddr1)
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		w.AddNetwork(u, "net1", netAddr1, nil)
		for _, ch := range []string{"#one", "#Two"} {
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: ch}))
		}
		for _, nk := range []string{"bob", "Carl", "d[a]ve"} {
			s.AddUser(nk)
		}
		w.Start()
		w.Sleep(time.Second)
		uc, uc1 := s.Conn(), s1.Conn()
		if uc == nil || !uc.IsRegistered() || uc1 == nil || !uc1.IsRegistered() {
			return vio("no-upstream", "the bouncer did not register on the network")
		}
		var sess []*relaySess
		for i, caps := range c.Sess {
			cl, _ := w.LoginFull(LoginOpts{User: "alice", Network: "net0", Client: fmt.Sprintf("c%d", i), Caps: caps})
			sess = append(sess, &relaySess{c: cl})
		}
		other, _ := w.LoginFull(LoginOpts{User: "alice", Network: "net1", Caps: downCaps})
		if c.Acct {
			uc.Raw(":irc0 900 " + uc.CurNick() + " " + uc.CurNick() + "!u@h acct :You are now logged in as acct")
		}
		w.Wait()
		uc.Take()
		uc1.Take()
		for _, x := range sess {
			x.c.Take()
		}
		joined := map[string]bool{s.Fold("#one"): true, s.Fold("#two"): true}
		var expUp []*irc.Message
		labels := map[string]bool{}
		last := -1
		mtUp := uc.Caps["message-tags"]
		check := func(what string) error {
			w.Wait()
			var got []*irc.Message
			for _, m := range uc.Take() {
				if l, ok := m.Tags["label"]; ok {
					if labels[l] {
						return vio("label-reuse", "%s: label %q was used for two commands", what, l)
					}
					labels[l] = true
				}
				if m.Command == "PING" || (m.Command == "MODE" && len(m.Params) == 1) || m.Command == "AWAY" {
					continue
				}
				got = append(got, m)
			}
			for i := 0; i < len(got) || i < len(expUp); i++ {
				if i >= len(got) {
					return vio("not-sent", "%s: upstream did not receive %q", what, fmtMsg(expUp[i]))
				}
				if i >= len(expUp) {
					return vio("sent-extra", "%s: upstream received unexpected %q", what, fmtMsg(got[i]))
				}
				if got[i].Command != expUp[i].Command || !sameParams(got[i].Params, expUp[i].Params) {
					return vio("sent-altered", "%s: upstream received %q, expected %q", what, fmtMsg(got[i]), fmtMsg(expUp[i]))
				}
				if len(got[i].Tags) > 0 && !mtUp {
					return vio("sent-tags", "%s: upstream received %q although it does not support tags", what, fmtMsg(got[i]))
				}
				if e := expUp[i].Tags; e != nil {
					for k, v := range e {
						if mtUp && got[i].Tags[k] != v {
							return vio("sent-tags", "%s: upstream received %q, expected tag %s=%q", what, fmtMsg(got[i]), k, v)
						}
					}
					for k, v := range got[i].Tags {
						if k == "label" {
							continue
						}
						if ev, ok := e[k]; !ok || ev != v || !mtUp {
							return vio("sent-tags", "%s: upstream received %q with unexpected tag %s", what, fmtMsg(got[i]), k)
						}
					}
				}
			}
			expUp = nil
			for _, m := range uc1.Take() {
				if m.Command != "PING" {
					return vio("wrong-network", "%s: the other network received %q", what, fmtMsg(m))
				}
			}
			for _, m := range other.Take() {
				if c03Cmds[m.Command] {
					return vio("wrong-network", "%s: a session of the other network received %q", what, fmtMsg(m))
				}
			}
			for si, x := range sess {
				var got []*irc.Message
				for _, m := range x.c.Take() {
					if m.Prefix != nil && strings.EqualFold(m.Prefix.Name, "BouncerServ") {
						continue
					}
					if c03Cmds[m.Command] {
						got = append(got, m)
					}
				}
				// the service answers locally: its messages may overtake others
				got, x.exp = svcLast(got, func(m *irc.Message) *irc.Message { return m }), svcLast(x.exp, func(e expMsg) *irc.Message { return e.m })
				for i := 0; i < len(got) || i < len(x.exp); i++ {
					if i >= len(got) {
						return vio("echo-lost", "%s: session %d (caps %v) did not receive %q", what, si, capList(x.c), fmtMsg(x.exp[i].m))
					}
					if i >= len(x.exp) {
						return vio("echo-extra", "%s: session %d (caps %v) received unexpected %q", what, si, capList(x.c), fmtMsg(got[i]))
					}
					a, b := got[i], x.exp[i].m
					if a.Prefix == nil || a.Prefix.Name != b.Prefix.Name || a.Command != b.Command || !sameParams(a.Params, b.Params) {
						return vio("echo-altered", "%s: session %d (caps %v) received %q, expected %q", what, si, capList(x.c), fmtMsg(a), fmtMsg(b))
					}
					if !x.exp[i].loose {
						full := b.Tags
						got := a.Tags.Copy()
						if got["time"] == "" && x.c.HasCap("server-time") {
							return vio("echo-tags", "%s: session %d received %q without a time", what, si, fmtMsg(a))
						}
						if !x.c.HasCap("server-time") && !x.c.HasCap("message-tags") && got["time"] != "" {
							return vio("echo-tags", "%s: session %d received %q with a time tag that wasn't negotiated", what, si, fmtMsg(a))
						}
						delete(got, "time")
						if why := tagsOK(x.c, got, full); why != "" {
							return vio("echo-tags", "%s: session %d (caps %v) received %q: %s", what, si, capList(x.c), fmtMsg(a), why)
						}
					}
				}
				x.exp = nil
			}
			return nil
		}
		sent := 0
		for oi, op := range c.Ops {
			what := fmt.Sprintf("op %d %+v", oi, op)
			si := op.S % len(sess)
			x := sess[si]
			sync := op.K == "join" || op.K == "part" || op.K == "topic" || op.K == "mode" || op.K == "umode"
			if si != last || sync {
				if err := check(what); err != nil {
					return err
				}
			}
			last = si
			echoAll := func(cmd string, params ...string) {
				for _, y := range sess {
					y.exp = append(y.exp, expMsg{m: &irc.Message{Prefix: &irc.Prefix{Name: "mynick"}, Command: cmd, Params: params}, loose: true})
				}
			}
			var tgts []string
			for _, t := range op.Tgts {
				tgts = append(tgts, c04Targets[t%len(c04Targets)])
			}
			if len(tgts) == 0 {
				tgts = []string{"#one"}
			}
			var args []string
			for _, a := range op.Args {
				args = append(args, strings.ReplaceAll(a, " ", "_"))
			}
			switch op.K {
			case "privmsg", "notice", "tagmsg":
				cmd := strings.ToUpper(op.K)
				m := &irc.Message{Tags: clientTags(op.Tags), Command: cmd, Params: []string{strings.Join(tgts, ",")}}
				text := op.T
				if strings.EqualFold(tgts[0], "NickServ") {
					text = "x " + text
				}
				if cmd != "TAGMSG" {
					m.Params = append(m.Params, text)
				}
				for _, t := range tgts {
					if strings.EqualFold(t, "BouncerServ") {
						if x.c.HasCap("echo-message") && (cmd != "TAGMSG" || x.c.HasCap("message-tags")) {
							ps := []string{t}
							if cmd != "TAGMSG" {
								ps = append(ps, text)
							}
							x.exp = append(x.exp, expMsg{m: &irc.Message{Tags: clientOnly(m.Tags), Prefix: &irc.Prefix{Name: "mynick"}, Command: cmd, Params: ps}})
						}
						continue
					}
					e := &irc.Message{Tags: clientOnly(m.Tags), Command: cmd, Params: []string{t}}
					if cmd != "TAGMSG" {
						e.Params = append(e.Params, text)
					}
					expUp = append(expUp, e)
					for yi, y := range sess {
						if yi == si && !y.c.HasCap("echo-message") {
							continue
						}
						if cmd == "TAGMSG" && !y.c.HasCap("message-tags") {
							continue
						}
						ee := e.Copy()
						ee.Prefix = &irc.Prefix{Name: "mynick"}
						if c.Acct && !uc.Caps["echo-message"] {
							ee.Tags["account"] = "acct"
						}
						if !mtUp {
							// whether tags the server cannot see are echoed is up to the bouncer
							ee.Tags = irc.Tags{}
						}
						y.exp = append(y.exp, expMsg{m: ee, loose: !mtUp})
					}
				}
				x.c.Send(m.String())
				sent++
				r.Count("msg")
				if len(tgts) > 1 {
					r.Count("multi-target")
				}
			case "join":
				var names []string
				for _, t := range tgts {
					if strings.HasPrefix(t, "#") {
						names = append(names, t)
					}
				}
				if len(names) == 0 {
					continue
				}
				line := "JOIN " + strings.Join(names, ",")
				keyed := op.Tags&1 != 0
				if keyed {
					line += " key1"
				}
				seen := map[string]bool{}
				dup := false
				for _, nm := range names {
					if seen[s.Fold(nm)] {
						dup = true
					}
					seen[s.Fold(nm)] = true
				}
				if dup {
					continue
				}
				for i, nm := range names {
					if joined[s.Fold(nm)] {
						continue
					}
					ps := []string{nm}
					if keyed && i == 0 {
						ps = append(ps, "key1")
					}
					expUp = append(expUp, &irc.Message{Command: "JOIN", Params: ps})
					joined[s.Fold(nm)] = true
				}
				x.c.Send(line)
				w.Wait()
				for _, y := range sess {
					var keep []*irc.Message
					for _, m := range y.c.Take() {
						if m.Command != "JOIN" {
							keep = append(keep, m)
						}
					}
					y.c.mu.Lock()
					y.c.msgs = append(keep, y.c.msgs...)
					y.c.mu.Unlock()
				}
				sent++
			case "part":
				var names []string
				for _, nm := range tgts {
					if strings.HasPrefix(nm, "#") && joined[s.Fold(nm)] {
						names = append(names, nm)
						delete(joined, s.Fold(nm))
					}
				}
				if len(names) == 0 {
					continue
				}
				line := "PART " + strings.Join(names, ",")
				reason := op.T != "" && !strings.EqualFold(op.T, "detach")
				if reason {
					line += " :" + op.T
				}
				for _, nm := range names {
					ps := []string{nm}
					if reason {
						ps = append(ps, op.T)
					}
					expUp = append(expUp, &irc.Message{Command: "PART", Params: ps})
				}
				x.c.Send(line)
				w.Wait()
				for _, y := range sess {
					var keep []*irc.Message
					for _, m := range y.c.Take() {
						if m.Command != "PART" {
							keep = append(keep, m)
						}
					}
					y.c.mu.Lock()
					y.c.msgs = append(keep, y.c.msgs...)
					y.c.mu.Unlock()
				}
				sent++
			case "topic":
				if !joined[s.Fold("#one")] {
					continue
				}
				expUp = append(expUp, &irc.Message{Command: "TOPIC", Params: []string{"#one", op.T}})
				echoAll("TOPIC", "#one", op.T)
				x.c.Send("TOPIC #one :" + op.T)
				sent++
			case "mode":
				if !joined[s.Fold("#one")] {
					continue
				}
				mode := Pick(NewG(uint64(op.Tags)), []string{"+m", "-m", "+l 5", "+k sesame", "+b x!y@z", "+mt-n", "+bb x!y@z a!b@c", "+lb 5 x!y@z", "+bbm-b a!* b!* c!*"})
				ps := append([]string{"#one"}, strings.Fields(mode)...)
				expUp = append(expUp, &irc.Message{Command: "MODE", Params: ps})
				echoAll("MODE", ps...)
				x.c.Send("MODE " + strings.Join(ps, " "))
				sent++
			case "umode":
				expUp = append(expUp, &irc.Message{Command: "MODE", Params: []string{"mynick", "+i"}})
				echoAll("MODE", "mynick", "+i")
				x.c.Send("MODE mynick +i")
				sent++
			case "kick":
				ps := []string{"#one", "carl"}
				if op.T != "" {
					ps = append(ps, op.T)
				}
				m := &irc.Message{Command: "KICK", Params: ps}
				expUp = append(expUp, m)
				x.c.Send(m.String())
				sent++
			case "invite":
				m := &irc.Message{Command: "INVITE", Params: []string{"carl", tgts[0]}}
				expUp = append(expUp, m)
				x.c.Send(m.String())
				sent++
			case "other":
				m := &irc.Message{Command: c04Other[op.Tags%len(c04Other)], Params: append(args, op.T)}
				// what the wire form means
				pm := irc.MustParseMessage(m.String())
				ok := true
				for _, a := range args {
					if a == "" || strings.HasPrefix(a, ":") {
						ok = false
					}
				}
				if !ok {
					continue
				}
				expUp = append(expUp, &irc.Message{Command: pm.Command, Params: pm.Params})
				x.c.Send(m.String())
				sent++
			case "badjoin":
				// names no channel can have
				x.c.Send("JOIN :" + []string{"#bad chan", "#bad\x07chan", "#one two", " #one"}[op.Tags%4])
				sent++
			case "empty":
				// no text to send
				x.c.Send("PRIVMSG #one")
			}
			if op.Check || sync {
				if err := check(what); err != nil {
					return err
				}
			}
		}
		if err := check("end"); err != nil {
			return err
		}
		for _, x := range sess {
			if x.c.Closed() {
				return vio("disconnected", "session %d was disconnected", x.c.id)
			}
		}
		if sent >= 3 {
			r.NonTrivial()
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C04", "at least 3 commands forwarded to the upstream server", 10000, 300000,
		"the upstream server behaves as IRCv3 specifies for the capabilities it acknowledged")
	add(p, "send", 1, genC04, runC04)
}
