package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

var allUpCaps = []string{"message-tags", "server-time", "batch", "labeled-response", "echo-message", "multi-prefix", "extended-join", "away-notify", "account-notify", "account-tag", "chghost", "setname", "invite-notify", "cap-notify", "extended-monitor"}

var downCaps = []string{"message-tags", "server-time", "batch", "echo-message", "extended-join", "away-notify", "account-notify", "account-tag", "chghost", "setname", "invite-notify", "cap-notify", "multi-prefix", "draft/chathistory", "draft/read-marker"}

func genUpCaps(g *G) []string {
	switch g.W(4, 1, 3) {
	case 0:
		return append([]string{}, allUpCaps...)
	case 1:
		return []string{}
	}
	return normCaps(Subset(g, allUpCaps, 70))
}

// normCaps adds the capabilities that others depend on.
func normCaps(l []string) []string {
	has := map[string]bool{}
	for _, c := range l {
		has[c] = true
	}
	if has["labeled-response"] {
		for _, c := range []string{"batch", "message-tags"} {
			if !has[c] {
				l = append(l, c)
			}
		}
	}
	return l
}

func genStore(g *G) string { return Pick(g, []string{"memory", "db", "fs", "db"}) }

func (w *World) setStore(kind string) {
	switch kind {
	case "db":
		w.Cfg.MsgStoreDriver = "db"
	case "fs":
		w.Cfg.MsgStoreDriver = "fs"
		w.Cfg.MsgStorePath = w.TempDir()
	default:
		w.Cfg.MsgStoreDriver = "memory"
	}
}

const (
	netAddr0 = "irc+insecure://net0.example:6667"
	srvAddr0 = "net0.example:6667"
	netAddr1 = "irc+insecure://net1.example:6667"
	srvAddr1 = "net1.example:6667"
)

// c03Op is an event of the history.
type c03Op struct {
	K    string // kind
	U    int    // simulated user
	Ch   int    // channel
	T    string // text
	Tags int    // bit set of tags
	S    int    // session
	Alt  bool   // use different letter case for names
	Mode string
	U2   int
}

type c03Case struct {
	CM     string
	UpCaps []string
	Store  string
	Sess   [][]string
	Ops    []c03Op
}

var textPool = []string{"hi", "hello world", ":colon first", "", " leading space", "trailing ", "a,b,c", "\x01ACTION waves\x01", "\x0304red\x0f", "ünïcödé ✓", "%s %d", "nick: highlight", "-", "+b", "@tag", "semi;colon\\s", "🎉"}

func genText(g *G) string {
	switch g.W(5, 3, 1) {
	case 0:
		return Pick(g, textPool)
	case 1:
		return g.Str("abc :,;\\@!#&$é", 1, 30)
	}
	return strings.Repeat(g.Str("abcdef ", 1, 8), g.R(1, 40))
}

func genNonEmptyText(g *G) string {
	t := genText(g)
	if t == "" {
		return "x"
	}
	return t
}

const nTags = 8

var c03Kinds = []string{"privmsg", "notice", "tagmsg", "join", "part", "kick", "quit", "nick", "topic", "mode", "invite", "inviteme", "setname", "away", "back", "account", "chghost", "dm", "dmnotice", "statusmsg", "snotice", "connect", "disconnect", "selfpart", "selfkick", "selfjoin", "usermode", "sleep", "capreq", "capdel", "svcspoof", "bare"}
var c03W = []int{14, 6, 5, 6, 4, 3, 3, 4, 4, 4, 2, 2, 2, 2, 2, 3, 3, 6, 2, 3, 2, 4, 3, 1, 1, 3, 1, 2, 3, 2, 1, 1}

func genC03(g *G) c03Case {
	c := c03Case{
		CM:     Pick(g, []string{"rfc1459", "ascii", "rfc1459-strict"}),
		UpCaps: genUpCaps(g),
		Store:  genStore(g),
	}
	for i, n := 0, g.R(1, 4); i < n; i++ {
		c.Sess = append(c.Sess, genSessCaps(g))
	}
	for i, n := 0, g.Size(4, 45); i < n; i++ {
		c.Ops = append(c.Ops, c03Op{
			K: c03Kinds[g.W(c03W...)], U: g.N(4), U2: g.N(4), Ch: g.N(3), T: genText(g),
			Tags: g.N(1<<nTags) & g.N(1<<nTags), S: g.N(4), Alt: g.P(25), Mode: Pick(g, []string{"+o", "-o", "+v", "-v", "+m", "+k", "-k", "+l", "+b", "+ov"}),
		})
	}
	return c
}

func genSessCaps(g *G) []string {
	switch g.W(2, 2, 5) {
	case 0:
		return []string{}
	case 1:
		return append([]string{}, downCaps...)
	}
	return Subset(g, downCaps, 60)
}

// upTags builds the tags the server attaches, given the negotiated upstream
// capabilities.
func upTags(uc *UpConn, bits int, now time.Time) irc.Tags {
	t := irc.Tags{}
	has := func(c string) bool { return uc.Caps[c] }
	if bits&1 != 0 && has("server-time") {
		t["time"] = now.Add(-time.Duration(bits) * 1234567 * time.Microsecond).UTC().Format("2006-01-02T15:04:05.000Z")
	}
	if bits&2 != 0 && has("account-tag") {
		t["account"] = "acc-x"
	}
	if has("message-tags") {
		if bits&4 != 0 {
			t["msgid"] = fmt.Sprintf("id-%d", bits)
		}
		if bits&8 != 0 {
			t["+typing"] = "active"
		}
		if bits&16 != 0 {
			t["+draft/reply"] = "weird; value\\ with\nspecials "
		}
		if bits&32 != 0 {
			t["vendor.example/tag"] = "v"
		}
		if bits&64 != 0 {
			t[[]string{"+draft/react", "+react"}[bits>>4&1]] = "✓"
		}
		if bits&128 != 0 {
			t["bot"] = ""
		}
	}
	return t
}

func altCase(s string, alt bool) string {
	if alt {
		return strings.ToUpper(s)
	}
	return s
}

type expMsg struct {
	m     *irc.Message
	loose bool // only the source nick, the command and parameters are compared
}

// relayModel tracks the expected output per session.
type relaySess struct {
	c   *Client
	exp []expMsg
}

var c03Cmds = map[string]bool{"PRIVMSG": true, "NOTICE": true, "TAGMSG": true, "JOIN": true, "PART": true, "KICK": true, "QUIT": true, "NICK": true, "TOPIC": true, "MODE": true, "INVITE": true, "SETNAME": true, "AWAY": true, "ACCOUNT": true, "CHGHOST": true}

func fmtMsg(m *irc.Message) string {
	if m == nil {
		return "<nothing>"
	}
	return m.String()
}

// expectFor derives the message a session has to receive, or nil.
func expectFor(c *Client, m *irc.Message, fsTime bool, now time.Time) *irc.Message {
	switch m.Command {
	case "TAGMSG":
		if !c.HasCap("message-tags") {
			return nil
		}
	case "SETNAME":
		if !c.HasCap("setname") {
			return nil
		}
	case "CHGHOST":
		if !c.HasCap("chghost") {
			return nil
		}
	case "AWAY":
		if !c.HasCap("away-notify") {
			return nil
		}
	case "ACCOUNT":
		if !c.HasCap("account-notify") {
			return nil
		}
	}
	e := m.Copy()
	if e.Command == "JOIN" && !c.HasCap("extended-join") {
		e.Params = e.Params[:1]
	}
	t, err := time.Parse("2006-01-02T15:04:05.000Z", e.Tags["time"])
	if err != nil {
		t = now
	}
	if fsTime {
		t = t.Truncate(time.Second)
	}
	e.Tags["time"] = t.UTC().Format("2006-01-02T15:04:05.000Z")
	return e
}

// tagsOK compares the tags a session received with the full tag set.
func tagsOK(c *Client, got, full irc.Tags) string {
	mt := c.HasCap("message-tags")
	for k, v := range got {
		if k == "batch" && c.HasCap("batch") {
			continue
		}
		fv, ok := full[k]
		if !ok || fv != v {
			return fmt.Sprintf("unexpected tag %s=%q", k, v)
		}
		allowed := mt || (k == "time" && c.HasCap("server-time")) || (k == "account" && c.HasCap("account-tag"))
		if !allowed {
			return fmt.Sprintf("tag %s was not negotiated", k)
		}
	}
	for k, v := range full {
		need := mt
		switch k {
		case "time":
			need = c.HasCap("server-time")
		case "account":
			need = c.HasCap("account-tag")
		}
		if gv, ok := got[k]; need && (!ok || gv != v) {
			return fmt.Sprintf("missing tag %s=%q (got %q)", k, v, gv)
		}
	}
	return ""
}

func sameMsg(got, want *irc.Message) bool {
	if got.Command != want.Command || len(got.Params) != len(want.Params) {
		return false
	}
	for i := range got.Params {
		if got.Params[i] != want.Params[i] {
			return false
		}
	}
	gp, wp := "", ""
	if got.Prefix != nil {
		gp = got.Prefix.String()
	}
	if want.Prefix != nil {
		wp = want.Prefix.String()
	}
	return gp == wp
}

// compareStream checks what a session received against its expectations.
func (s *relaySess) compare(what string, got []*irc.Message) error {
	var rel []*irc.Message
	for _, m := range got {
		if c03Cmds[m.Command] {
			rel = append(rel, m)
		}
	}
	for i := 0; i < len(rel) || i < len(s.exp); i++ {
		var a *irc.Message
		var b *irc.Message
		if i < len(rel) {
			a = rel[i]
		}
		if i < len(s.exp) {
			b = s.exp[i].m
		}
		if a == nil {
			return vio("lost", "%s: session %d (caps %v) did not receive %q", what, s.c.id, capList(s.c), fmtMsg(b))
		}
		if b == nil {
			return vio("extra", "%s: session %d (caps %v) received unexpected %q", what, s.c.id, capList(s.c), fmtMsg(a))
		}
		if !sameMsg(a, b) {
			return vio("altered", "%s: session %d (caps %v) received %q, expected %q", what, s.c.id, capList(s.c), fmtMsg(a), fmtMsg(b))
		}
		if why := tagsOK(s.c, a.Tags, b.Tags); why != "" {
			return vio("tags", "%s: session %d (caps %v) received %q, expected tags of %q: %s", what, s.c.id, capList(s.c), fmtMsg(a), fmtMsg(b), why)
		}
	}
	s.exp = nil
	return nil
}

func capList(c *Client) []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var l []string
	for k := range c.Caps {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func runC03(r *R, c c03Case) error {
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s := w.AddServer(srvAddr0)
		s.CM = c.CM
		s.Caps = normCaps(c.UpCaps)
		s.Isupport = []string{"STATUSMSG=@+"}
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		chans := []string{"#one", "#Two", "#th[r]ee"}
		for _, ch := range chans {
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: ch}))
		}
		nicks := []string{"Bob", "carl", "d[a]ve", "Eve"}
		live := make([]*SUser, 4)
		inChan := map[string]bool{}
		for i, nk := range nicks {
			live[i] = s.AddUser(nk)
			for j, ch := range chans {
				if (i+j)%2 == 0 {
					s.With(func() { s.channel(ch, true).Members[s.Fold(nk)] = "" })
					inChan[fmt.Sprintf("%d/%d", i, j)] = true
				}
			}
		}
		w.Start()
		w.Sleep(time.Second)
		uc := s.Conn()
		if uc == nil || !uc.IsRegistered() {
			return vio("no-upstream", "the bouncer did not register on the network")
		}
		var sess []*relaySess
		login := func(caps []string) {
			cl, _ := w.LoginFull(LoginOpts{User: "alice", Network: "net0", Client: fmt.Sprintf("c%d", len(sess)), Caps: caps})
			sess = append(sess, &relaySess{c: cl})
		}
		for _, caps := range c.Sess {
			login(caps)
		}
		joined := []bool{true, true, true}
		for j := range chans {
			if !uc.InChan(chans[j]) {
				return vio("not-joined", "saved channel %s was not joined", chans[j])
			}
		}
		check := func(what string) error {
			w.Wait()
			for _, x := range sess {
				if err := x.compare(what, x.c.Take()); err != nil {
					return err
				}
			}
			return nil
		}
		nextNick := 0
		nmsgs := 0
		for oi, op := range c.Ops {
			what := fmt.Sprintf("op %d %+v", oi, op)
			us := live[op.U%4]
			ch := chans[op.Ch%3]
			key := fmt.Sprintf("%d/%d", op.U%4, op.Ch%3)
			now := time.Now()
			var m *irc.Message
			var only func(*Client) bool
			mk := func(cmd string, params ...string) *irc.Message {
				return &irc.Message{Tags: upTags(uc, op.Tags, now), Prefix: irc.ParsePrefix(us.Prefix()), Command: cmd, Params: params}
			}
			me := func() string { return uc.Me.Prefix() }
			skipEmpty := op.T == ""
			switch op.K {
			case "connect", "disconnect", "capreq", "capdel", "sleep":
				if err := check(what); err != nil {
					return err
				}
			}
			switch op.K {
			case "privmsg":
				if skipEmpty || !joined[op.Ch%3] {
					continue
				}
				m = mk("PRIVMSG", altCase(ch, op.Alt), op.T)
			case "notice":
				if skipEmpty || !joined[op.Ch%3] {
					continue
				}
				m = mk("NOTICE", altCase(ch, op.Alt), op.T)
			case "statusmsg":
				if skipEmpty || !joined[op.Ch%3] {
					continue
				}
				m = mk("PRIVMSG", "@"+ch, op.T)
			case "tagmsg":
				if !uc.Caps["message-tags"] {
					continue
				}
				m = mk("TAGMSG", ch)
			case "dm":
				if skipEmpty {
					continue
				}
				m = mk("PRIVMSG", altCase("mynick", op.Alt), op.T)
			case "dmnotice":
				if skipEmpty {
					continue
				}
				m = mk("NOTICE", "mynick", op.T)
			case "bare":
				// some servers omit the source
				if skipEmpty {
					continue
				}
				m = mk("NOTICE", []string{"mynick", "*"}[op.U%2], op.T)
				m.Prefix = nil
			case "svcspoof":
				// nobody upstream may pass for the service
				if skipEmpty {
					continue
				}
				m = mk([]string{"PRIVMSG", "NOTICE"}[op.U%2], []string{"mynick", ch}[op.U2%2], op.T)
				m.Prefix = &irc.Prefix{Name: []string{"BouncerServ", "bouncerserv", "BOUNCERSERV"}[op.Ch%3], User: "x", Host: "y"}
				only = func(*Client) bool { return false }
			case "snotice":
				if skipEmpty {
					continue
				}
				m = mk("NOTICE", "mynick", op.T)
				m.Prefix = &irc.Prefix{Name: s.name}
			case "join":
				if inChan[key] || !joined[op.Ch%3] {
					continue
				}
				inChan[key] = true
				s.With(func() { s.channel(ch, true).Members[s.Fold(us.Nick)] = "" })
				m = mk("JOIN", altCase(ch, op.Alt))
				if uc.Caps["extended-join"] {
					m.Params = append(m.Params, "*", "Real "+us.Nick)
				}
			case "part":
				if !inChan[key] || !joined[op.Ch%3] {
					continue
				}
				delete(inChan, key)
				m = mk("PART", altCase(ch, op.Alt))
				if op.T != "" {
					m.Params = append(m.Params, op.T)
				}
			case "kick":
				if !inChan[key] || !joined[op.Ch%3] {
					continue
				}
				delete(inChan, key)
				m = mk("KICK", ch, us.Nick, "r"+op.T)
				m.Prefix = irc.ParsePrefix(live[op.U2%4].Prefix())
			case "quit":
				vis := false
				for j := range chans {
					k := fmt.Sprintf("%d/%d", op.U%4, j)
					vis = vis || (inChan[k] && joined[j])
				}
				if !vis {
					continue
				}
				for j := range chans {
					delete(inChan, fmt.Sprintf("%d/%d", op.U%4, j))
				}
				m = mk("QUIT", "q"+op.T)
			case "nick":
				vis := false
				for j := range chans {
					vis = vis || (inChan[fmt.Sprintf("%d/%d", op.U%4, j)] && joined[j])
				}
				if !vis {
					continue
				}
				nextNick++
				nn := fmt.Sprintf("N%d", nextNick)
				if op.Alt {
					nn = strings.ToUpper(us.Nick)
					if nn == us.Nick {
						nn = strings.ToLower(nn)
					}
				}
				m = mk("NICK", nn)
				s.With(func() { s.rename(us, nn) })
			case "topic":
				if !joined[op.Ch%3] {
					continue
				}
				m = mk("TOPIC", ch, op.T)
			case "mode":
				if !joined[op.Ch%3] {
					continue
				}
				ps := []string{ch, op.Mode}
				for _, x := range op.Mode[1:] {
					switch x {
					case 'o', 'v':
						if !inChan[key] {
							ps = nil
						} else {
							ps = append(ps, us.Nick)
						}
					case 'k':
						ps = append(ps, "key")
					case 'l':
						ps = append(ps, "10")
					case 'b':
						ps = append(ps, "*!*@x")
					}
					if ps == nil {
						break
					}
				}
				if ps == nil {
					continue
				}
				m = mk("MODE", ps...)
			case "usermode":
				m = mk("MODE", "mynick", "+i")
				m.Prefix = irc.ParsePrefix("mynick")
			case "invite":
				if !uc.Caps["invite-notify"] {
					continue
				}
				m = mk("INVITE", "somebody", ch)
				only = func(c *Client) bool { return c.HasCap("invite-notify") }
			case "inviteme":
				m = mk("INVITE", "mynick", "#elsewhere")
			case "setname":
				if !uc.Caps["setname"] {
					continue
				}
				m = mk("SETNAME", "new "+op.T)
			case "away":
				if !uc.Caps["away-notify"] {
					continue
				}
				m = mk("AWAY", "gone "+op.T)
			case "back":
				if !uc.Caps["away-notify"] {
					continue
				}
				m = mk("AWAY")
			case "account":
				if !uc.Caps["account-notify"] {
					continue
				}
				acc := "acc" + us.Nick
				if op.Alt {
					acc = "*"
				}
				m = mk("ACCOUNT", acc)
			case "chghost":
				if !uc.Caps["chghost"] {
					continue
				}
				nh := fmt.Sprintf("new%d.host", oi)
				m = mk("CHGHOST", "nu", nh)
				us.User, us.Host = "nu", nh
			case "selfpart":
				if !joined[op.Ch%3] {
					continue
				}
				joined[op.Ch%3] = false
				s.With(func() {
					m = mk("PART", ch, "forced")
					m.Prefix = irc.ParsePrefix(me())
					delete(s.channel(ch, true).Members, s.Fold("mynick"))
				})
			case "selfkick":
				if !joined[op.Ch%3] {
					continue
				}
				joined[op.Ch%3] = false
				s.With(func() { delete(s.channel(ch, true).Members, s.Fold("mynick")) })
				m = mk("KICK", ch, "mynick", "bye")
			case "selfjoin":
				if joined[op.Ch%3] {
					continue
				}
				joined[op.Ch%3] = true
				s.With(func() {
					sc := s.channel(ch, true)
					sc.Members = map[string]string{s.Fold("mynick"): ""}
					for i := range nicks {
						if inChan[fmt.Sprintf("%d/%d", i, op.Ch%3)] {
							sc.Members[s.Fold(live[i].Nick)] = ""
						}
					}
					m = mk("JOIN", ch)
					m.Prefix = irc.ParsePrefix(me())
					if uc.Caps["extended-join"] {
						m.Params = append(m.Params, "*", "me")
					}
				})
			case "connect":
				if len(sess) < 6 {
					login(c.Sess[op.S%len(c.Sess)])
				}
				continue
			case "disconnect":
				if len(sess) > 1 {
					i := op.S % len(sess)
					sess[i].c.Close()
					w.Wait()
					sess = append(sess[:i:i], sess[i+1:]...)
				}
				continue
			case "capreq", "capdel":
				x := sess[op.S%len(sess)]
				cp := downCaps[(op.Tags+op.U)%len(downCaps)]
				if op.K == "capdel" {
					cp = "-" + cp
				}
				x.c.Do("CAP REQ " + cp)
				continue
			case "sleep":
				w.Sleep(time.Duration(1+op.Tags) * 100 * time.Millisecond)
				continue
			default:
				continue
			}
			if m == nil {
				continue
			}
			nmsgs++
			r.Count("op-" + op.K)
			uc.Raw(m.String())
			// the parsed form is what a server can express
			pm := irc.MustParseMessage(m.String())
			if op.K == "bare" {
				pm.Prefix = &irc.Prefix{Name: s.name}
			}
			if op.K == "selfjoin" {
				s.With(func() { uc.names(s.channel(ch, true)) })
			}
			for _, x := range sess {
				if only != nil && !only(x.c) {
					continue
				}
				if e := expectFor(x.c, pm, c.Store == "fs", now); e != nil {
					x.exp = append(x.exp, expMsg{m: e})
				}
			}
			// checking only now and then exercises bursts as well
			if (oi+op.U)%3 == 0 || op.K == "selfjoin" {
				if err := check(what); err != nil {
					return err
				}
			}
		}
		w.Wait()
		for _, x := range sess {
			if x.c.Closed() {
				return vio("disconnected", "session %d was disconnected", x.c.id)
			}
			if err := x.compare("end", x.c.Take()); err != nil {
				return err
			}
		}
		if nmsgs >= 3 && len(c.Sess) >= 2 {
			r.NonTrivial()
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C03", "at least 2 sessions and at least 3 relayed upstream events", 12000, 400000,
		"upstream traffic is well-formed for the capabilities negotiated", "channels are attached")
	add(p, "relay", 1, genC03, runC03)
}
