package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C12: detached channels.

type c12Op struct {
	K    string
	Ch   int
	S    int
	U    int
	Txt  int
	Cmd  int
	Alt  bool
	Caps int
	Ms   int
	Opts []int
}

type c12Case struct {
	CM     string
	Store  string
	UpCaps []string
	Taken  bool  // the wanted nick is somebody else's
	Init   []int // initial settings of the saved channels, <0: not saved
	Ops    []c12Op
}

var c12Chans = []string{"#one", "#Two[x]", "#three"}
var c12Users = []string{"bob", "Carl"}
var c12Texts = []string{"hello", "mynick: ping", "mynickname", "who is mynick?", "x mynick", "amynick", "", "https://h/mynick"}
var c12HL = []bool{false, true, false, true, true, false, false, false}
var c12Caps = []string{"echo-message", "batch", "server-time", "extended-join", "message-tags"}
var c12Filters = []string{"message", "highlight", "none", "default"}
var c12Durs = []time.Duration{0, time.Minute, 10 * time.Minute, 90*time.Minute + 30*time.Second}

// c12Rec is a channel's model.
type c12Rec struct {
	name             string
	detached         bool
	relay, reatt, on int // index in c12Filters
	after            time.Duration
}

func genC12(g *G) c12Case {
	c := c12Case{CM: Pick(g, []string{"rfc1459", "ascii"}), Store: genStore(g), UpCaps: genUpCaps(g), Taken: g.P(25)}
	for range c12Chans {
		v := -1
		if g.P(70) {
			v = g.N(4 * 4 * 4 * 4 * 2)
		}
		c.Init = append(c.Init, v)
	}
	kinds := []string{"msg", "own", "detach", "join", "update", "badupdate", "create", "delete", "part", "kick", "invite", "login", "logout", "sleep", "reconnect", "restart", "event", "serverjoin"}
	ws := []int{20, 5, 6, 6, 9, 3, 2, 1, 2, 3, 1, 5, 2, 14, 2, 2, 3, 1}
	for i, n := 0, g.Size(8, 50); i < n; i++ {
		op := c12Op{K: kinds[g.W(ws...)], Ch: g.W(5, 2, 1), S: g.N(4), U: g.N(2), Txt: g.N(len(c12Texts)), Cmd: g.W(6, 2, 1), Alt: g.P(20), Caps: g.N(1 << len(c12Caps))}
		if g.P(40) {
			op.Txt = 100 + g.N(1000000)
		}
		op.Ms = Pick(g, []int{1003, 29711, 31013, 59107, 61301, 290017, 599003, 601007, 1800011, 5400013})
		if i == 0 {
			op.K = "login"
		}
		for k := 0; k < 5; k++ {
			op.Opts = append(op.Opts, g.N(10)-4)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runC12(r *R, c c12Case) error {
	if len(c.Init) != len(c12Chans) {
		return errInvalid{}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s := w.AddServer(srvAddr0)
		s.Ghost = true
		s.CM, s.Caps = c.CM, normCaps(c.UpCaps)
		s.Isupport = []string{"STATUSMSG=@+"}
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		me := "mynick"
		if c.Taken {
			s.Taken[s.Fold(me)] = true
			me += "_"
		}
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		filters := map[string]database.MessageFilter{"message": database.FilterMessage, "highlight": database.FilterHighlight, "none": database.FilterNone, "default": database.FilterDefault}
		recs := map[string]*c12Rec{}
		for i, ch := range c12Chans {
			s.With(func() { s.channel(ch, true).Topic = "topic of " + ch })
			v := c.Init[i]
			if v < 0 {
				continue
			}
			rec := &c12Rec{name: ch, relay: v % 4, reatt: v / 4 % 4, on: v / 16 % 4, after: c12Durs[v/64%4], detached: v/256%2 == 1}
			recs[s.Fold(ch)] = rec
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: ch, Detached: rec.detached, RelayDetached: filters[c12Filters[rec.relay]], ReattachOn: filters[c12Filters[rec.reatt]], DetachOn: filters[c12Filters[rec.on]], DetachAfter: rec.after}))
		}
		for _, nk := range c12Users {
			s.AddUser(nk)
			for _, ch := range c12Chans {
				s.With(func() { s.channel(ch, true).Members[s.Fold(nk)] = "" })
			}
		}
		deadline := map[string]time.Time{}
		reset := func(f string) {
			delete(deadline, f)
			if rec := recs[f]; rec != nil && !rec.detached && rec.after > 0 {
				deadline[f] = time.Now().Add(rec.after)
			}
		}
		s.Hook = func(uc *UpConn, m *irc.Message) bool {
			if m.Command == "JOIN" {
				for _, ch := range strings.Split(param(m, 0), ",") {
					if sc := s.channel(ch, false); sc != nil {
						if _, in := sc.Members[s.Fold(uc.Nick)]; !in {
							reset(s.Fold(ch))
						}
					}
				}
			}
			return false
		}
		tick := func() {
			for f, d := range deadline {
				if !d.After(time.Now()) {
					recs[f].detached = true
					delete(deadline, f)
					r.Count("auto-detached")
				}
			}
		}
		sleep := func(d time.Duration) {
			w.Sleep(d)
			tick()
			for again := true; again; {
				again = false
				for _, d := range deadline {
					if x := time.Until(d); x > -5*time.Millisecond && x < 5*time.Millisecond {
						again = true
					}
				}
				if again {
					w.Sleep(11 * time.Millisecond)
					tick()
				}
			}
		}
		settle := func() error {
			sleep(1503 * time.Millisecond)
			for i := 0; i < 10; i++ {
				if uc := s.Conn(); uc != nil && uc.IsRegistered() && !uc.IsClosed() {
					return nil
				}
				sleep(97 * time.Second)
			}
			return vio("no-upstream", "the bouncer does not reconnect to the network")
		}
		w.Sleep(137137) // nothing happens at a full second
		w.Start()
		if err := settle(); err != nil {
			return err
		}
		type sessT struct {
			cl   *Client
			v    *view
			got  []*irc.Message
			hist bool
		}
		var sess []*sessT
		feed := func() {
			for _, x := range sess {
				m := x.cl.Take()
				x.got = append(x.got, m...)
				x.v.feed(m)
			}
		}
		clear := func() {
			feed()
			for _, x := range sess {
				x.got = nil
			}
		}
		notices := func(x *sessT) []string {
			var l []string
			for _, m := range x.got {
				if m.Command == "NOTICE" && m.Prefix != nil && m.Prefix.Name == "BouncerServ" {
					if t := param(m, 1); strings.HasPrefix(t, "highlight in ") || strings.HasPrefix(t, "message in ") {
						l = append(l, t)
					}
				}
			}
			return l
		}
		live := func(x *sessT) []string {
			var l []string
			for _, m := range x.got {
				if (m.Command == "PRIVMSG" || m.Command == "NOTICE" || m.Command == "TAGMSG") && m.Prefix != nil && m.Prefix.Name != "BouncerServ" && m.Tags["batch"] == "" {
					l = append(l, m.Command+" "+strings.Join(m.Params, " "))
				}
			}
			return l
		}
		check := func(desc string) error {
			uc := s.Conn()
			chans, err := w.DB.ListChannels(ctxBg, n.ID)
			w.must(err)
			if len(chans) != len(recs) {
				return vio("stored", "%s: %d channels are saved, expected %d", desc, len(chans), len(recs))
			}
			for _, ch := range chans {
				rec := recs[s.Fold(ch.Name)]
				if rec == nil {
					return vio("stored", "%s: unexpected saved channel %q", desc, ch.Name)
				}
				if ch.Detached != rec.detached || ch.RelayDetached != filters[c12Filters[rec.relay]] || ch.ReattachOn != filters[c12Filters[rec.reatt]] || ch.DetachOn != filters[c12Filters[rec.on]] || ch.DetachAfter != rec.after {
					return vio("stored", "%s: stored settings of %s are %+v, expected %+v", desc, ch.Name, ch, *rec)
				}
			}
			for k, x := range sess {
				if x.v.bad != "" {
					return vio("view", "%s: session %d: %s", desc, k, x.v.bad)
				}
				for _, chn := range c12Chans {
					f := s.Fold(chn)
					in := uc.InChan(chn)
					rec := recs[f]
					want := in && (rec == nil || !rec.detached)
					if got := x.v.chans[f] != nil; got != want {
						return vio("attached", "%s: session %d: believes to be in %s: %v, expected %v (joined upstream %v, settings %+v)", desc, k, chn, got, want, in, rec)
					}
					if want {
						vc := x.v.chans[f]
						if !vc.names || len(vc.members) != len(c12Users)+1 || vc.topic != "topic of "+chn {
							return vio("state", "%s: session %d: %s: incomplete state: topic %q, members %v", desc, k, chn, vc.topic, vc.members)
						}
					}
				}
			}
			return nil
		}
		login := func(op c12Op, desc string) error {
			if len(sess) > 3 {
				return nil
			}
			var caps []string
			for i, k := range c12Caps {
				if op.Caps&(1<<i) != 0 {
					caps = append(caps, k)
				}
			}
			cl, msgs := w.Login(LoginOpts{User: "alice", Network: "net0", Client: fmt.Sprint("c", op.S), Caps: caps})
			if msgs == nil {
				return vio("login-refused", "%s: valid registration did not complete", desc)
			}
			x := &sessT{cl: cl, v: newView(c.CM, "ov", "@+")}
			x.v.feed(msgs)
			sess = append(sess, x)
			return nil
		}
		// missed counts the messages of a detached channel since detaching.
		missed := map[string]int{}
		bump := func(f string) {
			if n, ok := missed[f]; ok {
				missed[f] = n + 1
			}
		}
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d (%s)", i, op.K)
			r.Tracef("--- %s", desc)
			uc := s.Conn()
			chn := c12Chans[op.Ch%len(c12Chans)]
			f := s.Fold(chn)
			name := altCase(chn, op.Alt)
			rec := recs[f]
			in := uc.InChan(chn)
			var x *sessT
			if len(sess) > 0 {
				x = sess[op.S%len(sess)]
			}
			clear()
			before := map[string]bool{}
			for k, v := range recs {
				before[k] = v.detached
			}
			switch op.K {
			case "msg":
				if !in {
					break
				}
				cmd := []string{"PRIVMSG", "NOTICE", "TAGMSG"}[op.Cmd%3]
				if cmd == "TAGMSG" && !uc.Caps["message-tags"] {
					cmd = "PRIVMSG"
				}
				text, hl := c12Texts[op.Txt%len(c12Texts)], c12HL[op.Txt%len(c12Texts)]
				switch {
				case op.Txt >= 100:
					text, hl = mentionText(op.Txt, me)
				case c.Taken && op.S%2 == 0:
					hl = false // somebody else's nick
				default:
					text = strings.ReplaceAll(text, "mynick", me)
				}
				line := fmt.Sprintf(":%s!u@h %s %s", c12Users[op.U%2], cmd, name)
				if cmd != "TAGMSG" {
					line += " :" + text
				} else {
					line = "@+react=x " + line
				}
				uc.Raw(line)
				w.Wait()
				feed()
				det := rec != nil && rec.detached
				wantNotice := ""
				if det && cmd != "TAGMSG" {
					r.NonTrivial()
					if rl := c12Filters[rec.relay]; rl == "message" || (rl == "highlight" || rl == "default") && hl {
						kind := "message"
						if hl {
							kind = "highlight"
						}
						wantNotice = fmt.Sprintf("%s in %s: <%s> %s", kind, name, c12Users[op.U%2], text)
					}
					if ra := c12Filters[rec.reatt]; ra == "message" || ra == "highlight" && hl {
						rec.detached = false
						reset(f)
						r.Count("reattached")
					} else {
						bump(f)
					}
				}
				if rec != nil && !det && cmd != "TAGMSG" {
					if on := c12Filters[rec.on]; on == "message" || on == "default" || on == "highlight" && hl {
						reset(f)
					}
				}
				for k, x := range sess {
					nt := notices(x)
					if (wantNotice == "") != (len(nt) == 0) || len(nt) > 1 || wantNotice != "" && nt[0] != wantNotice {
						return vio("relay", "%s: session %d: settings %+v, message %q: relayed %q, expected %q", desc, k, rec, line, nt, wantNotice)
					}
					got := live(x)
					wantLive := rec == nil || !rec.detached
					if cmd == "TAGMSG" && !x.cl.HasCap("message-tags") {
						wantLive = false
					}
					last := ""
					if len(got) > 0 {
						last = got[len(got)-1]
					}
					if wantLive && det && !x.cl.HasCap("batch") {
						// the messages missed come first
						if n, ok := missed[f]; ok && len(got) != n+1 {
							return vio("missed", "%s: session %d: settings %+v, message %q: got %q, expected %d missed messages first", desc, k, rec, line, got, n)
						}
						if len(got) > 1 {
							got = got[len(got)-1:]
						}
					}
					if wantLive && cmd != "TAGMSG" && last != cmd+" "+name+" "+text {
						return vio("quiet", "%s: session %d: message %q: got %q", desc, k, line, got)
					}
					if wantLive != (len(got) == 1) {
						return vio("quiet", "%s: session %d: settings %+v (detached before: %v), message %q: got %q", desc, k, rec, det, line, got)
					}
				}
			case "event":
				if !in {
					break
				}
				uc.Raw(fmt.Sprintf(":%s!u@h TOPIC %s :topic of %s", c12Users[op.U%2], name, chn))
				uc.Raw(fmt.Sprintf(":%s!u@h MODE %s +v %s", c12Users[op.U%2], name, c12Users[0]))
				w.Wait()
				feed()
				for k, x := range sess {
					if got := len(filter(x.got, "TOPIC", "MODE")) > 0; got != (rec == nil || !rec.detached) {
						return vio("quiet", "%s: session %d: settings %+v: events shown: %v", desc, k, rec, got)
					}
				}
			case "own":
				if x == nil || !in {
					break
				}
				tgt := name
				if op.U == 1 {
					tgt = "@" + name
				}
				cmd := []string{"PRIVMSG", "NOTICE", "PRIVMSG"}[op.Cmd%3]
				x.cl.Send(cmd + " " + tgt + " :mynick says")
				w.Wait()
				reset(f)
				feed()
				for k, y := range sess {
					if nt := notices(y); len(nt) > 0 {
						return vio("relay", "%s: session %d: own message relayed: %q", desc, k, nt)
					}
					if rec != nil && rec.detached && len(live(y)) > 0 {
						return vio("quiet", "%s: session %d: own message to a detached channel shown: %q", desc, k, live(y))
					}
				}
				if rec != nil && rec.detached {
					bump(f)
				}
			case "detach":
				if x == nil || !in {
					break
				}
				if rec == nil {
					rec = &c12Rec{name: chn, relay: 3, reatt: 3, on: 3}
					recs[f] = rec
				}
				rec.detached = true
				delete(deadline, f)
				if op.U == 0 {
					x.cl.Send("PART " + name + " :" + []string{"detach", "Detach", "DETACH"}[op.Cmd%3])
				} else {
					if before, ok := before[f]; !ok || before {
						x.cl.Send("PART " + name + " :detach")
					} else {
						x.cl.Send("PRIVMSG BouncerServ :channel update " + name + " -detached true")
					}
				}
			case "join":
				if x == nil {
					break
				}
				if rec == nil {
					recs[f] = &c12Rec{name: chn, relay: 3, reatt: 3, on: 3}
				} else if rec.detached {
					rec.detached = false
					if in {
						reset(f)
					}
				}
				x.cl.Send("JOIN " + name)
			case "update", "badupdate", "create":
				if x == nil || (op.K == "create") != (rec == nil) || len(op.Opts) < 5 {
					break
				}
				var nr c12Rec
				if rec != nil {
					nr = *rec
				} else {
					nr = c12Rec{name: chn, relay: 3, reatt: 3, on: 3}
				}
				var args []string
				if k := op.Opts[0]; k >= 0 && k < 4 {
					nr.relay = k
					args = append(args, "-relay-detached "+c12Filters[k])
				}
				if k := op.Opts[1]; k >= 0 && k < 4 {
					nr.reatt = k
					args = append(args, "-reattach-on "+c12Filters[k])
				}
				if k := op.Opts[2]; k >= 0 && k < 4 {
					nr.on = k
					args = append(args, "-detach-on "+c12Filters[k])
				}
				if k := op.Opts[3]; k >= 0 && k < 4 {
					nr.after = c12Durs[k]
					args = append(args, "-detach-after "+c12Durs[k].String())
				}
				if k := op.Opts[4]; k >= 0 && k < 2 && op.K != "badupdate" {
					nr.detached = k == 1
					args = append(args, fmt.Sprintf("-detached %v", k == 1))
				}
				verb := "update"
				if op.K == "create" {
					verb = "create"
				}
				if op.K == "badupdate" {
					args = append(args, []string{"-detach-on sometimes", "-detach-after -5s", "-detach-after soon", "-bogus 1", "extra", "-detached maybe"}[op.Txt%6])
				}
				x.cl.Send("PRIVMSG BouncerServ :channel " + verb + " " + name + " " + strings.Join(args, " "))
				if op.K != "badupdate" {
					if rec == nil {
						recs[f] = &nr
					} else {
						*rec = nr
					}
					if in {
						reset(f)
					}
				}
				w.Wait()
				feed()
				ans := ""
				for _, m := range x.got {
					if m.Command == "PRIVMSG" && m.Prefix.Name == "BouncerServ" {
						ans += param(m, 1) + "\n"
					}
				}
				if bad := strings.HasPrefix(ans, "error"); ans == "" || bad != (op.K == "badupdate") {
					return vio("answer", "%s: channel %s %s %v: answer %q", desc, verb, name, args, ans)
				}
			case "delete", "part":
				if x == nil {
					break
				}
				if op.K == "delete" {
					if rec == nil {
						break
					}
					x.cl.Send("PRIVMSG BouncerServ :channel delete " + name)
				} else {
					x.cl.Send("PART " + name)
				}
				delete(recs, f)
				delete(deadline, f)
			case "kick":
				s.With(func() {
					if in {
						delete(s.Chans[f].Members, s.Fold(uc.Nick))
						uc.Raw(fmt.Sprintf(":%s!u@h KICK %s %s :out", c12Users[0], name, uc.Nick))
					}
				})
				delete(deadline, f)
			case "invite":
				// invitations to saved channels are followed
				uc.Raw(fmt.Sprintf(":%s!u@h INVITE %s %s", c12Users[0], uc.Nick, chn))
			case "serverjoin":
				if in {
					break
				}
				s.With(func() {
					ch := s.Chans[f]
					ch.Members[s.Fold(uc.Nick)] = ""
					uc.Raw(uc.joinMsg(ch, uc.Me))
					uc.num("332", ch.Name+" :"+ch.Topic)
					uc.names(ch)
				})
				reset(f)
			case "login":
				if err := login(op, desc); err != nil {
					return err
				}
			case "logout":
				if x == nil {
					break
				}
				x.cl.Close()
				for k := range sess {
					if sess[k] == x {
						sess = append(append([]*sessT{}, sess[:k]...), sess[k+1:]...)
						break
					}
				}
			case "sleep":
				sleep(time.Duration(op.Ms) * time.Millisecond)
				if uc.IsClosed() {
					return vio("disconnected", "%s: the upstream connection is gone", desc)
				}
			case "reconnect", "restart":
				deadline = map[string]time.Time{}
				if op.K == "restart" {
					if !w.Stop() {
						return vio("shutdown", "%s: the shutdown does not complete", desc)
					}
					sess = nil
					s.closeAll()
					w.Wait()
					w.Start()
				} else {
					uc.Close()
				}
				if err := settle(); err != nil {
					return err
				}
				feed()
				for _, x := range sess {
					for f := range x.v.chans {
						if recs[f] == nil {
							delete(x.v.chans, f)
						}
					}
				}
			default:
				return errInvalid{}
			}
			w.Wait()
			tick()
			feed()
			// a channel which was re-attached comes with what was missed
			for f, det := range before {
				rec := recs[f]
				if rec == nil {
					delete(missed, f)
					continue
				}
				if det && !rec.detached {
					if op.K != "reconnect" && op.K != "restart" && c.Init != nil {
						for k, x := range sess {
							cnt := 0
							for _, m := range x.got {
								if (m.Command == "PRIVMSG" || m.Command == "NOTICE") && m.Tags["batch"] != "" && len(m.Params) > 0 && s.Fold(strings.TrimLeft(m.Params[0], "@+")) == f {
									cnt++
								}
							}
							if want, ok := missed[f]; ok && x.cl.HasCap("batch") && cnt != want {
								return vio("missed", "%s: session %d: %d messages replayed on re-attaching %s, expected %d", desc, k, cnt, f, want)
							}
							if !x.cl.HasCap("extended-join") {
								continue
							}
							for _, m := range filter(x.got, "JOIN") {
								if s.Fold(param(m, 0)) == f && len(m.Params) != 3 {
									return vio("extended-join", "%s: session %d: %q lacks account and real name", desc, k, m)
								}
							}
						}
					}
					delete(missed, f)
				} else if !det && rec.detached {
					missed[f] = 0
					for k, x := range sess {
						n := 0
						for _, m := range filter(x.got, "PART") {
							if s.Fold(param(m, 0)) == f {
								n++
							}
						}
						if n != 1 && op.K != "reconnect" {
							return vio("part", "%s: session %d: %d PART messages for the detached channel %s", desc, k, n, f)
						}
					}
				}
			}
			if op.K == "restart" && c.Store == "memory" {
				missed = map[string]int{}
			}
			if err := check(desc); err != nil {
				return err
			}
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C12", "a message arrived in a detached channel", 6000, 250000,
		"messages which arrive while a channel is being detached or attached are ordered by the bouncer",
		"events within 5 ms of an automatic detach deadline are not generated")
	add(p, "detach", 1, genC12, runC12)
}
