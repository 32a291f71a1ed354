package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C05: replay of missed messages.

type c05Op struct {
	K    string
	S    int // session or client name
	U    int
	Tgt  int
	Caps int
	Pong bool
	HL   bool // highlight
	Ntc  bool
	Alt  bool
	Late int
	Ms   int
	N    int
	B    bool
}

type c05Case struct {
	Store  string
	CM     string
	UpCaps []string
	By     int // clients which are connected to another network
	Ops    []c05Op
}

var c05Clients = []string{"phone", "laptop", "", "web"}
var c05Chans = []string{"#one", "#Two[x]"}
var c05Users = []string{"Bob", "d[a]ve", "carl", "d{a}ve"}
var c05Caps = []string{"server-time", "batch", "echo-message", "message-tags", "account-tag"}

func genC05(g *G) c05Case {
	c := c05Case{Store: Pick(g, []string{"memory", "db", "fs"}), CM: Pick(g, []string{"rfc1459", "ascii"}), UpCaps: genUpCaps(g), By: g.N(16) & g.N(16)}
	for i, n := 0, g.Size(8, 60); i < n; i++ {
		op := c05Op{S: g.W(5, 3, 2, 1), U: g.N(len(c05Users)), Tgt: g.N(5), Caps: g.N(32), Pong: !g.P(12), HL: g.P(30), Ntc: g.P(20), Alt: g.P(20), Late: Pick(g, []int{0, 0, 3, 900}), N: Pick(g, []int{1, 1, 2, 5}), B: g.P(8)}
		op.K = []string{"login", "logout", "msg", "own", "drop", "sleep", "detach", "attach", "reconnect", "restart", "netupdate", "downlogin", "event", "rename"}[g.W(16, 10, 24, 8, 6, 6, 3, 3, 3, 3, 2, 2, 3, 1)]
		op.Ms = Pick(g, []int{1, 7, 503, 1003, 60001, 3600001, 13*3600000 + 1, 26*3600000 + 7})
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c05Msg struct {
	nick, cmd, target, text string
	t                       time.Time
	hl                      bool
}

type c05Sess struct {
	cl     *Client
	name   string
	hist   bool
	noPong bool
}

type c05Pos struct{ lo, hi int }

func runC05(r *R, c c05Case) error {
	if c.Store != "db" && c.Store != "fs" && c.Store != "memory" {
		return errInvalid{}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s := w.AddServer(srvAddr0)
		s.Ghost = true
		s.CM, s.Caps = c.CM, normCaps(append([]string{"server-time", "message-tags"}, c.UpCaps...))
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		for _, ch := range c05Chans {
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: ch}))
		}
		for i, nk := range c05Users {
			if i == 3 && c.CM != "ascii" {
				break // another spelling of the second one
			}
			s.AddUser(nk)
			for _, ch := range c05Chans {
				s.With(func() { s.channel(ch, true).Members[s.Fold(nk)] = "" })
			}
		}
		fold := func(x string) string { return foldWith(c.CM, x) }
		netName := "net0"
		w.AddServer(srvAddr1)
		w.AddNetwork(u, "elsewhere", netAddr1, nil)
		w.Start()
		bystanders := func() {
			for i, name := range c05Clients {
				if c.By&(1<<i) != 0 {
					w.MustLogin(LoginOpts{User: "alice", Network: []string{"elsewhere", ""}[i%2*(c.By>>2&1)], Client: name})
				}
			}
		}
		var event func(t string)
		settle := func() error {
			defer func() {
				for _, ch := range c05Chans {
					event(foldWith(c.CM, ch))
				}
			}()
			w.Sleep(1503 * time.Millisecond)
			for i := 0; i < 10; i++ {
				if uc := s.Conn(); uc != nil && uc.IsRegistered() && !uc.IsClosed() {
					return nil
				}
				w.Sleep(97 * time.Second)
			}
			return vio("no-upstream", "the bouncer does not reconnect to the network")
		}
		lists := map[string][]c05Msg{}         // folded target -> chat messages
		pos := map[string]map[string]*c05Pos{} // folded target -> client -> delivered count
		detached := map[string]int{}           // folded channel -> count at detaching
		knownClients := func() []string {
			seen := map[string]bool{}
			var out []string
			for _, m := range pos {
				for k := range m {
					if !seen[k] {
						seen[k] = true
						out = append(out, k)
					}
				}
			}
			return out
		}
		setPos := func(t, client string, v int) {
			if pos[t] == nil {
				pos[t] = map[string]*c05Pos{}
			}
			pos[t][client] = &c05Pos{v, v}
		}
		// event updates the model for a logged message which isn't replayed.
		event = func(t string) {
			if len(pos) > 0 && pos[t] == nil {
				for _, k := range knownClients() {
					setPos(t, k, len(lists[t]))
				}
			}
		}
		if err := settle(); err != nil {
			return err
		}
		bystanders()
		var sess []*c05Sess
		var lastT time.Time
		seq := 0
		prec := func(t time.Time) time.Time {
			if c.Store == "fs" {
				return t.Truncate(time.Second)
			}
			return t.Truncate(time.Millisecond)
		}
		oddTime := func() {
			if time.Now().Nanosecond() == 0 {
				w.Sleep(time.Millisecond)
			}
		}
		// stored updates the model for a message which was appended.
		stored := func(t string, m c05Msg, racing *c05Sess) {
			event(t)
			lists[t] = append(lists[t], m)
			for _, x := range sess {
				if x.hist || x.noPong {
					continue
				}
				if x == racing {
					continue
				}
				setPos(t, x.name, len(lists[t]))
			}
		}
		// parse extracts the chat messages of a received stream
		type gotMsg struct {
			m     *irc.Message
			batch string
		}
		chat := func(msgs []*irc.Message) ([]gotMsg, []string, error) {
			var out []gotMsg
			var notices []string
			batches := map[string]string{}
			for _, m := range msgs {
				switch m.Command {
				case "BATCH":
					ref := param(m, 0)
					if strings.HasPrefix(ref, "+") && param(m, 1) == "chathistory" {
						batches[ref[1:]] = param(m, 2)
					} else if strings.HasPrefix(ref, "-") {
						delete(batches, ref[1:])
					}
				case "PRIVMSG", "NOTICE":
					if m.Prefix != nil && m.Prefix.Name == "BouncerServ" {
						notices = append(notices, param(m, 1))
						continue
					}
					if m.Prefix == nil || len(m.Params) < 2 {
						return nil, nil, vio("malformed", "%q", m)
					}
					b := ""
					if ref, ok := m.Tags["batch"]; ok {
						t, ok := batches[ref]
						if !ok {
							return nil, nil, vio("batch", "%q refers to a batch which is not open", m)
						}
						b = t
					}
					out = append(out, gotMsg{m, b})
				}
			}
			return out, notices, nil
		}
		entityOf := func(m *irc.Message) string {
			t := fold(param(m, 0))
			if strings.HasPrefix(t, "#") {
				return t
			}
			if fold(m.Prefix.Name) == "mynick" {
				return t
			}
			return fold(m.Prefix.Name)
		}
		same := func(x *c05Sess, g *irc.Message, e c05Msg) string {
			if g.Command != e.cmd || g.Prefix.Name != e.nick || fold(param(g, 0)) != fold(e.target) || param(g, 1) != e.text {
				return fmt.Sprintf("%q, expected <%s> %s %s %q", g, e.nick, e.cmd, e.target, e.text)
			}
			if x.cl.HasCap("server-time") {
				if want := prec(e.t).UTC().Format(tsLayout); g.Tags["time"] != want {
					return fmt.Sprintf("%q has time %q, expected %q", g, g.Tags["time"], want)
				}
			}
			return ""
		}
		// expectBacklog compares what a session was replayed with the lists
		// (targets with their possible start positions).
		expectBacklog := func(desc string, x *c05Sess, msgs []*irc.Message, want map[string]c05Pos) error {
			got, notices, err := chat(msgs)
			if err != nil {
				return err
			}
			by := map[string][]gotMsg{}
			for _, g := range got {
				e := entityOf(g.m)
				if x.cl.HasCap("batch") && fold(g.batch) != e {
					return vio("batch", "%s: %q was replayed in the batch of %q", desc, g.m, g.batch)
				}
				by[e] = append(by[e], g)
			}
			var wantNotices []string
			optional := 0
			for t, p := range want {
				l := lists[t]
				if _, det := detached[t]; det {
					for j, m := range l[p.lo:] {
						if m.hl {
							wantNotices = append(wantNotices, m.text)
							if p.lo+j < p.hi {
								optional++
							}
						}
					}
					if len(by[t]) > 0 {
						return vio("detached", "%s: messages of the detached channel %s were replayed: %q", desc, t, by[t][0].m)
					}
					continue
				}
				g := by[t]
				delete(by, t)
				start := len(l) - len(g)
				if start < p.lo {
					return vio("duplicate", "%s: %d messages of %s were replayed, %d to %d were missed; first: %q", desc, len(g), t, len(l)-p.hi, len(l)-p.lo, g[0].m)
				}
				if start > p.hi {
					return vio("missing", "%s: %d messages of %s were replayed, but %d were missed; first missed: %+v", desc, len(g), t, len(l)-p.hi, l[p.hi])
				}
				for i := range g {
					if e := same(x, g[i].m, l[start+i]); e != "" {
						return vio("wrong", "%s: replay of %s: message %d is %s", desc, t, i, e)
					}
				}
				if len(g) > 0 {
					r.Count("replays")
					r.NonTrivial()
				}
			}
			for t, g := range by {
				return vio("duplicate", "%s: %d messages of %s were replayed although none was missed; first: %q", desc, len(g), t, g[0].m)
			}
			k := 0
			for _, nt := range notices {
				if strings.HasPrefix(nt, "highlight in ") || strings.HasPrefix(nt, "message in ") {
					k++
					found := false
					for _, t := range wantNotices {
						if strings.HasSuffix(nt, "> "+t) {
							found = true
						}
					}
					if !found {
						return vio("relay", "%s: unexpected relay %q", desc, nt)
					}
				}
			}
			if k > len(wantNotices) || k < len(wantNotices)-optional {
				return vio("relay", "%s: %d messages relayed from detached channels, expected %q", desc, k, wantNotices)
			}
			return nil
		}
		// drain takes what the online sessions received and checks that live
		// messages were delivered (C03 and C04 check them in detail).
		drain := func() {
			for _, x := range sess {
				x.cl.Take()
			}
		}
		login := func(i int, op c05Op) error {
			name := c05Clients[op.S%len(c05Clients)]
			var caps []string
			for j, k := range c05Caps {
				if op.Caps&(1<<j) != 0 {
					caps = append(caps, k)
				}
			}
			hist := op.B
			if hist {
				caps = append(caps, "draft/chathistory", "batch")
			}
			first := true
			for _, x := range sess {
				if x.name == name {
					first = false
					if x.hist != (hist && c.Store != "memory") {
						return nil // sessions with the same name are alike
					}
				}
			}
			oddTime()
			cl, msgs := w.Login(LoginOpts{User: "alice", Network: netName, Client: name, Caps: caps})
			if msgs == nil {
				return vio("login-refused", "op %d: valid registration did not complete", i)
			}
			hist = cl.HasCap("draft/chathistory")
			x := &c05Sess{cl: cl, name: name, hist: hist, noPong: !op.Pong}
			if x.noPong {
				cl.SetPong(false)
			}
			want := map[string]c05Pos{}
			if first && !hist {
				for t, m := range pos {
					if p := m[name]; p != nil {
						want[t] = *p
					}
				}
			}
			if err := expectBacklog(fmt.Sprintf("op %d: login of client %q (first %v, chathistory %v)", i, name, first, hist), x, msgs, want); err != nil {
				return err
			}
			if first && !hist {
				for t := range pos {
					setPos(t, name, len(lists[t]))
				}
			}
			sess = append(sess, x)
			return nil
		}
		remove := func(x *c05Sess) {
			for k := range sess {
				if sess[k] == x {
					sess = append(append([]*c05Sess{}, sess[:k]...), sess[k+1:]...)
					return
				}
			}
		}
		for i, op := range c.Ops {
			uc := s.Conn()
			oddTime()
			switch op.K {
			case "sleep":
				w.Sleep(time.Duration(op.Ms) * time.Millisecond)
				if uc.IsClosed() {
					if err := settle(); err != nil {
						return err
					}
				}
			case "login":
				if len(sess) > 5 {
					break
				}
				if err := login(i, op); err != nil {
					return err
				}
			case "logout":
				if len(sess) == 0 {
					break
				}
				x := sess[op.S%len(sess)]
				remove(x)
				x.cl.Close()
				w.Wait()
			case "msg", "drop":
				nick := c05Users[op.U%len(c05Users)]
				target, ent := "mynick", fold(nick)
				if k := op.Tgt % 5; k < 3 {
					target = c05Chans[k%len(c05Chans)]
					ent = fold(target)
					if op.Alt {
						target = altCase(target, true)
					}
				}
				cmd := "PRIVMSG"
				if op.Ntc {
					cmd = "NOTICE"
				}
				var racing *c05Sess
				if op.K == "drop" && len(sess) > 0 {
					x := sess[op.S%len(sess)]
					if pos[ent] != nil && pos[ent][x.name] != nil {
						racing = x
					}
				}
				cnt := op.N
				if cnt < 1 || cnt > 8 {
					cnt = 1
				}
				var old c05Pos
				if racing != nil {
					old = *pos[ent][racing.name]
				}
				for j := 0; j < cnt; j++ {
					seq++
					text := fmt.Sprintf("m%d", seq)
					if op.HL {
						text = "mynick: " + text
					}
					t := time.Now().Add(-time.Duration(op.Late) * time.Millisecond)
					if t.Before(lastT) {
						t = lastT
					}
					lastT = t
					stored(ent, c05Msg{nick, cmd, target, text, t, op.HL && strings.HasPrefix(ent, "#")}, racing)
					uc.Raw(fmt.Sprintf("@time=%s :%s!u@h %s %s :%s", t.UTC().Format(tsLayout), nick, cmd, target, text))
				}
				if racing != nil {
					racing.cl.Close()
					same := false
					for _, x := range sess {
						if x != racing && x.name == racing.name && !x.hist && !x.noPong {
							same = true
						}
					}
					hi := len(lists[ent])
					if racing.hist || racing.noPong {
						hi = old.hi
					}
					if !same {
						pos[ent][racing.name] = &c05Pos{old.lo, hi}
					} else {
						// the other session's answers may come before or after
						pos[ent][racing.name] = &c05Pos{old.lo, len(lists[ent])}
					}
					remove(racing)
					r.Count("racing-drops")
				}
				w.Wait()
			case "own":
				if len(sess) == 0 {
					break
				}
				x := sess[op.S%len(sess)]
				target := c05Users[op.U%len(c05Users)]
				if op.Tgt%2 == 0 {
					target = c05Chans[op.Tgt/2%len(c05Chans)]
				}
				seq++
				text := fmt.Sprintf("m%d", seq)
				if op.Alt {
					target = altCase(target, true)
				}
				// Without upstream echo the message is stored with the current
				// time, otherwise with the server's, which is the same here.
				t := time.Now()
				lastT = t
				x.cl.Send("PRIVMSG " + target + " :" + text)
				w.Wait()
				stored(fold(target), c05Msg{"mynick", "PRIVMSG", target, text, t, false}, nil)
			case "event":
				uc.Raw(fmt.Sprintf(":%s!u@h TOPIC %s :t%d", c05Users[op.U%len(c05Users)], c05Chans[op.Tgt%len(c05Chans)], i))
				w.Wait()
				event(fold(c05Chans[op.Tgt%len(c05Chans)]))
			case "detach", "attach":
				ch := c05Chans[op.Tgt%len(c05Chans)]
				_, det := detached[fold(ch)]
				if len(sess) == 0 || det != (op.K == "attach") {
					break
				}
				drain()
				x := sess[op.S%len(sess)]
				if op.K == "detach" {
					x.cl.Do("PART " + ch + " :detach")
					detached[fold(ch)] = len(lists[fold(ch)])
				} else {
					x.cl.Do0("JOIN " + ch)
					start := detached[fold(ch)]
					delete(detached, fold(ch))
					for _, y := range sess {
						want := map[string]c05Pos{}
						if !y.hist {
							want[fold(ch)] = c05Pos{start, start}
						}
						if err := expectBacklog(fmt.Sprintf("op %d: %q of client %q", i, "JOIN "+ch, y.name), y, y.cl.Take(), want); err != nil {
							return err
						}
					}
				}
			case "reconnect":
				uc.Close()
				if err := settle(); err != nil {
					return err
				}
			case "downlogin":
				if len(sess) > 5 {
					break
				}
				s.SetDown(true)
				uc.Close()
				w.Sleep(time.Second)
				err := login(i, op)
				s.SetDown(false)
				if err != nil {
					return err
				}
				if err := settle(); err != nil {
					return err
				}
				r.Count("downlogins")
			case "restart":
				if c.Store == "memory" && len(detached) > 0 {
					break
				}
				if !w.Stop() {
					return vio("shutdown", "op %d: the shutdown does not complete", i)
				}
				sess = nil
				if c.Store == "memory" {
					lists = map[string][]c05Msg{}
					pos = map[string]map[string]*c05Pos{}
				}
				s.closeAll()
				w.Start()
				if err := settle(); err != nil {
					return err
				}
				bystanders()
				r.Count("restarts")
			case "netupdate", "rename":
				if len(sess) == 0 {
					break
				}
				x := sess[op.S%len(sess)]
				if op.K == "rename" {
					netName = fmt.Sprintf("net-%d", i)
					x.cl.Do("PRIVMSG BouncerServ :network update -name " + netName)
				} else {
					x.cl.Do(fmt.Sprintf("PRIVMSG BouncerServ :network update -realname real%d", i))
				}
				if err := settle(); err != nil {
					return err
				}
				r.Count("updates")
			default:
				return errInvalid{}
			}
			drain()
		}
		// finally everyone leaves and comes back
		for len(sess) > 0 {
			x := sess[0]
			remove(x)
			x.cl.Close()
			w.Wait()
		}
		for k := range c05Clients {
			if err := login(1000+k, c05Op{S: k, Caps: 3, Pong: true}); err != nil {
				return err
			}
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C05", "at least one missed message was replayed", 6000, 300000,
		"a client is known once it has acknowledged a message of the network or has connected after the bouncer has logged one; before that nothing is replayed to it",
		"messages which were sent but not acknowledged when the connection is lost may be replayed again",
		"sessions which share a client name at the same time either all fetch history themselves or none does",
		"time tags of the server do not decrease and are at most a second late",
		"with the in-memory store only until a restart")
	add(p, "replay", 1, genC05, runC05)
}
