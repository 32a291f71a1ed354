package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C13: replies of the upstream server reach the session which asked. Each
// query carries a token which all its replies repeat; the simulated server
// holds queries back and answers them line by line, in any interleaving.

type c13Op struct {
	K    string // q, rep, flush, wait, leave, join, drop, noise
	S    int
	Kind string
	N    int  // data lines
	Err  int  // 0: none, else the kind of error
	End  bool // an error is followed by the end numeric
	Mute bool // never answered
	Var  int
	I    int
	Cnt  int
	Nest int // labelled replies: this many lines are outside a nested batch
}

type c13Case struct {
	Label bool
	Sess  int
	Other bool // one session on another network
	Motd  bool
	Ops   []c13Op
}

var c13Kinds = []string{"WHO", "WHOIS", "LIST", "NAMES", "TOPIC", "MODE", "BANS", "WHOWAS", "MOTD", "INVITE", "VERSION", "UNKNOWN", "LUSERS", "REGISTER", "VERIFY", "KICK", "STATS", "BOT"}

// queued tells for which kinds the bouncer keeps track of who asked.
var c13Queued = map[string]bool{"WHO": true, "WHOIS": true, "LIST": true, "REGISTER": true, "VERIFY": true}

func genC13(g *G) c13Case {
	c := c13Case{Label: g.P(50), Sess: 2 + g.N(2), Other: g.P(25), Motd: g.P(50)}
	focus := ""
	if g.P(60) {
		focus = []string{"WHO", "WHOIS", "LIST", "REGISTER", "WHOWAS"}[g.W(4, 6, 2, 1, 1)]
	}
	for i, n := 0, g.Size(3, 22); i < n; i++ {
		op := c13Op{K: []string{"q", "rep", "flush", "wait", "leave", "join", "drop", "noise"}[g.W(18, 14, 3, 2, 1, 1, 1, 2)], S: g.N(5), I: g.N(3), Cnt: 1 + g.N(4)}
		if op.K == "q" {
			op.Kind = c13Kinds[g.W(8, 10, 5, 3, 2, 2, 2, 3, 2, 3, 1, 2, 1, 3, 2, 2, 1, 2)]
			if focus != "" && g.P(60) {
				op.Kind = focus
			}
			op.N = g.N(4)
			if g.P(30) {
				op.Err = 1 + g.N(3)
			}
			op.End = g.P(50)
			op.Var = g.N(4)
			op.Nest = g.N(4)
			op.Mute = c13Queued[op.Kind] && g.P(5)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c13Query struct {
	id       int
	op       c13Op
	tok      string
	s        *c13Sess
	line     string
	lines    []string // the reply: command and parameters after the nick
	stray    bool     // the last one is an end numeric after an error
	got      bool     // received by the server
	label    string
	conn     *UpConn
	pos      int
	batch    string
	nested   string
	done     bool
	aborted  bool
	maybeCut bool
	sentAt   time.Time
}

type c13Sess struct {
	cl    *Client
	other bool
	gone  bool
	msgs  []*irc.Message
}

var c13Tok = regexp.MustCompile(`[qQ][0-9]+x`)

func (q *c13Query) build(label bool, whois bool) {
	t, op := q.tok, q.op
	add := func(f string, a ...any) { q.lines = append(q.lines, fmt.Sprintf(f, a...)) }
	n := op.N
	errLine := func(cmd string) bool {
		if op.Err == 0 {
			return false
		}
		switch op.Err {
		case 1:
			add("263 %s :Please wait a while and try again %s", cmd, t)
		case 2:
			add("461 %s :Not enough parameters %s", cmd, t)
		default:
			add("421 %s :Unknown command %s", cmd, t)
		}
		return true
	}
	switch op.Kind {
	case "WHO":
		mask := t
		q.line = "WHO " + t
		if op.Var%2 == 1 {
			q.line += " %tnf,42"
		}
		if errLine("WHO") {
			if op.End && op.Err == 1 {
				add("315 %s :End of WHO list", mask)
				q.stray = true
			}
			return
		}
		for i := 0; i < n; i++ {
			if op.Var%2 == 1 {
				add("354 42 %sn%d H", t, i)
			} else {
				add("352 * u h.example irc.example %sn%d H :0 real name", t, i)
			}
		}
		add("315 %s :End of WHO list", mask)
	case "WHOIS":
		nick := t
		if label && op.Var == 3 {
			nick = "ghost" // also the target of other commands
		}
		q.line = "WHOIS " + nick
		srv := ""
		if op.Var == 1 {
			q.line = "WHOIS " + nick + " " + nick
		} else if op.Var == 2 {
			srv = "srv" + t
			q.line = "WHOIS " + srv + " " + nick
		}
		if op.Err > 0 {
			switch {
			case op.Err == 3:
				errLine("WHOIS")
				return
			case srv != "":
				add("402 %s :No such server %s", srv, t)
			default:
				add("401 %s :No such nick %s", nick, t)
			}
			if op.End {
				add("318 %s :End of /WHOIS list. %s", nick, t)
				q.stray = true
			}
			return
		}
		add("311 %s u h.example * :real %s", nick, t)
		for i := 0; i < n; i++ {
			switch (i + op.Var) % 5 {
			case 0:
				add("312 %s irc.example :server %s", nick, t)
			case 1:
				add("319 %s :#a @#%s", nick, t)
			case 2:
				add("317 %s 12 1000000000 :seconds idle %s", nick, t)
			case 3:
				add("330 %s acc%s :is logged in as", nick, t)
			case 4:
				add("671 %s :is using a secure connection %s", nick, t)
			}
		}
		add("318 %s :End of /WHOIS list. %s", nick, t)
	case "LIST":
		q.line = "LIST *" + t + "*"
		if errLine("LIST") {
			return
		}
		if op.Var%2 == 1 {
			add("321 Channel :Users Name %s", t)
		}
		for i := 0; i < n; i++ {
			add("322 #%sc%d %d :topic", t, i, i+1)
		}
		add("323 :End of LIST %s", t)
	case "NAMES":
		q.line = "NAMES #" + t
		for i := 0; i < n; i++ {
			add("353 = #%s :a%d @b%d", t, i, i)
		}
		add("366 #%s :End of NAMES list", t)
	case "TOPIC":
		q.line = "TOPIC #" + t
		switch {
		case op.Err > 0:
			add("403 #%s :No such channel", t)
		case n == 0:
			add("331 #%s :No topic is set", t)
		default:
			add("332 #%s :the topic", t)
			if n > 1 {
				add("333 #%s setter 1000000000", t)
			}
		}
	case "MODE":
		q.line = "MODE #" + t
		if op.Err > 0 {
			add("403 #%s :No such channel", t)
			return
		}
		add("324 #%s +nt", t)
		if n > 1 {
			add("329 #%s 1000000000", t)
		}
	case "BANS":
		q.line = "MODE #" + t + " b"
		for i := 0; i < n; i++ {
			add("367 #%s *!*@bad%d setter 1000000000", t, i)
		}
		add("368 #%s :End of channel ban list", t)
	case "WHOWAS":
		q.line = "WHOWAS " + t
		if op.Err > 0 {
			add("406 %s :There was no such nickname", t)
		} else {
			for i := 0; i <= n; i++ {
				add("314 %s u%d h.example * :real", t, i)
				if label || !whois {
					add("312 %s irc.example :some time %d", t, i)
				}
			}
		}
		add("369 %s :End of WHOWAS", t)
	case "MOTD":
		q.line = "MOTD " + t
		if op.Err == 1 {
			add("402 %s :No such server", t)
			return
		} else if op.Err > 1 {
			add("422 :MOTD file is missing %s", t)
			return
		}
		add("375 :- %s message of the day", t)
		for i := 0; i < n; i++ {
			add("372 :- line %d %s", i, t)
		}
		add("376 :End of MOTD %s", t)
	case "INVITE":
		nick := t
		if label && op.Var == 3 {
			nick = "ghost"
		}
		q.line = "INVITE " + nick + " #" + t
		if op.Err > 0 {
			add("401 %s :No such nick %s", nick, t)
			return
		}
		add("341 %s #%s", nick, t)
	case "VERSION":
		q.line = "VERSION " + t
		add("351 irc-1 irc.example :%s", t)
	case "UNKNOWN":
		q.line = "FROB " + t
		add("421 FROB :Unknown command %s", t)
	case "LUSERS":
		q.line = "LUSERS " + t
		add("251 :There are %d users %s", n, t)
		add("255 :I have %d clients %s", n, t)
	case "STATS":
		q.line = "STATS u " + t
		add("242 :Server Up 5 days %s", t)
		add("219 u :End of STATS %s", t)
	case "KICK":
		q.line = "KICK #" + t + " someone"
		add("442 #%s :You're not on that channel", t)
	case "BOT":
		q.line = "PRIVMSG bot" + t + " :help " + t
		for i := 0; i <= n; i++ {
			add(":bot%s!b@h.example NOTICE al :answer %d", t, i)
		}
	case "REGISTER":
		q.line = "REGISTER " + t + " * secret" + t
		if op.Err > 0 {
			add("FAIL REGISTER ACCOUNT_EXISTS %s :exists", t)
			return
		}
		add("REGISTER SUCCESS %s :registered", t)
	case "VERIFY":
		q.line = "VERIFY " + t + " code"
		if op.Err > 0 {
			add("FAIL VERIFY INVALID_CODE %s :wrong", t)
			return
		}
		add("VERIFY SUCCESS %s :verified", t)
	}
}

func runC13(r *R, c c13Case) error {
	kinds := map[string]bool{}
	for _, k := range c13Kinds {
		kinds[k] = true
	}
	whois := false
	for _, op := range c.Ops {
		if op.K == "q" && !kinds[op.Kind] || op.N < 0 || op.N > 10 || op.S < 0 || op.I < 0 || op.Err < 0 || op.Nest < 0 || op.Var < 0 || op.Var > 3 {
			return errInvalid{}
		}
		whois = whois || op.K == "q" && op.Kind == "WHOIS"
		if op.Mute && !c13Queued[op.Kind] {
			return errInvalid{}
		}
	}
	if c.Sess < 1 || c.Sess > 4 {
		return errInvalid{}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		s := w.AddServer(srvAddr0)
		s.Motd = c.Motd
		s.Caps = []string{"message-tags", "server-time", "batch", "draft/account-registration", "invite-notify"}
		if c.Label {
			s.Caps = append(s.Caps, "labeled-response")
		}
		var mu sync.Mutex
		var queries []*c13Query
		find := func(m *irc.Message) *c13Query {
			t := c13Tok.FindString(m.String())
			for _, q := range queries {
				if strings.EqualFold(q.tok, t) {
					return q
				}
			}
			// queries for the shared nick carry no token
			for _, q := range queries {
				if !q.got && !q.aborted && q.op.Kind == "WHOIS" && q.op.Var == 3 && m.Command == "WHOIS" {
					return q
				}
			}
			return nil
		}
		var harnErr error
		hook := func(uc *UpConn, m *irc.Message) bool {
			mu.Lock()
			defer mu.Unlock()
			switch m.Command {
			case "PING", "PONG", "NICK", "QUIT", "CAP", "AWAY", "MONITOR", "JOIN":
				return false
			}
			q := find(m)
			if q == nil {
				return false
			}
			if q.got {
				harnErr = vio("twice", "query %q was sent upstream twice", q.line)
				return true
			}
			q.got, q.label, q.conn = true, m.Tags["label"], uc
			return true
		}
		s.Hook = hook
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "al" })
		w.AddNetwork(u, "net0", netAddr0, nil)
		if c.Other {
			w.AddServer(srvAddr1)
			w.AddNetwork(u, "net1", netAddr1, nil)
		}
		w.Start()
		w.Sleep(3 * time.Second)
		var sess []*c13Sess
		connect := func(other bool) {
			n := "net0"
			if other {
				n = "net1"
			}
			cl, _ := w.MustLogin(LoginOpts{User: "alice", Network: n, Client: fmt.Sprintf("c%d", len(sess)), Caps: []string{"batch", "message-tags"}})
			sess = append(sess, &c13Sess{cl: cl, other: other})
		}
		for i := 0; i < c.Sess; i++ {
			connect(false)
		}
		if c.Other {
			connect(true)
		}
		w.Sleep(time.Second)
		var bare *irc.Message
		collect := func() {
			w.Wait()
			for _, x := range sess {
				l := x.cl.Take()
				for _, m := range l {
					if _, err := strconv.Atoi(m.Command); err == nil && m.Prefix == nil && bare == nil {
						bare = m
					}
				}
				x.msgs = append(x.msgs, l...)
			}
		}
		collect()
		for _, x := range sess {
			x.msgs = nil
		}
		// references are used again once their batch is over
		refs := map[string]bool{}
		newRef := func() string {
			for i := 1; ; i++ {
				if ref := fmt.Sprintf("r%d", i); !refs[ref] {
					refs[ref] = true
					return ref
				}
			}
		}
		// emit lets the server send the next n lines of its reply to a query.
		emit := func(q *c13Query, n int) {
			uc := q.conn
			if uc.IsClosed() || q.done {
				q.done = true
				return
			}
			lab := c.Label && q.label != ""
			for ; n > 0 && q.pos < len(q.lines); n-- {
				l := q.lines[q.pos]
				tags := ""
				if lab {
					if len(q.lines) > 1 {
						if q.batch == "" {
							q.batch = newRef()
							uc.Raw(fmt.Sprintf("@label=%s :%s BATCH +%s labeled-response", q.label, s.name, q.batch))
						}
						tags = "@batch=" + q.batch + " "
					} else {
						tags = "@label=" + q.label + " "
					}
				}
				if q.batch != "" && q.op.Nest > 0 && q.pos >= q.op.Nest && q.nested == "" {
					// batches may be nested
					q.nested = newRef()
					uc.Raw(fmt.Sprintf("%s:%s BATCH +%s example/nested", tags, s.name, q.nested))
				}
				if q.nested != "" {
					tags = "@batch=" + q.nested + " "
				}
				cmd, rest, _ := strings.Cut(l, " ")
				if cmd[0] == ':' {
					uc.Raw(tags + l)
				} else if cmd[0] >= '0' && cmd[0] <= '9' {
					uc.Raw(fmt.Sprintf("%s:%s %s %s %s", tags, s.name, cmd, uc.CurNick(), rest))
				} else {
					uc.Raw(fmt.Sprintf("%s:%s %s", tags, s.name, l))
				}
				q.pos++
				if q.pos == len(q.lines) {
					q.done = true
					if q.nested != "" {
						uc.Raw(fmt.Sprintf(":%s BATCH -%s", s.name, q.nested))
						delete(refs, q.nested)
					}
					if q.batch != "" {
						uc.Raw(fmt.Sprintf(":%s BATCH -%s", s.name, q.batch))
						delete(refs, q.batch)
					}
				}
			}
			w.Wait()
		}
		outstanding := func() []*c13Query {
			mu.Lock()
			defer mu.Unlock()
			var l []*c13Query
			for _, q := range queries {
				if q.got && !q.done && !q.op.Mute {
					l = append(l, q)
				}
			}
			return l
		}
		flush := func() {
			for {
				w.Wait()
				l := outstanding()
				if len(l) == 0 {
					return
				}
				q := l[0]
				for _, o := range l {
					if o.pos > 0 {
						q = o
						break
					}
				}
				emit(q, 100)
				w.Sleep(3 * time.Second)
			}
		}
		oldest := func() time.Duration {
			d := time.Duration(0)
			for _, q := range queries {
				if !q.done && !q.aborted && !q.op.Mute && time.Since(q.sentAt) > d {
					d = time.Since(q.sentAt)
				}
			}
			return d
		}
		muted := func() bool {
			for _, q := range queries {
				if q.op.Mute && !q.done && !q.aborted {
					return true
				}
			}
			return false
		}
		probe := 0
		ask := func(i int, x *c13Sess, op c13Op) {
			mu.Lock()
			q := &c13Query{id: i, op: op, tok: fmt.Sprintf("q%dx", i), s: x, sentAt: time.Now()}
			q.build(c.Label, whois)
			for _, o := range queries {
				if op.Kind == "WHOIS" && op.Var == 3 && c.Label && o.op.Kind == "WHOIS" && o.op.Var == 3 && !o.got && !o.aborted {
					// not told apart by the server
					mu.Unlock()
					return
				}
			}
			queries = append(queries, q)
			mu.Unlock()
			x.cl.Send(q.line)
			w.Wait()
		}
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d %s", i, op.K)
			var live []*c13Sess
			for _, x := range sess {
				if !x.gone && !x.other {
					live = append(live, x)
				}
			}
			switch op.K {
			case "q":
				if len(live) == 0 {
					continue
				}
				ask(i, live[op.S%len(live)], op)
				w.Sleep(1200 * time.Millisecond)
				r.Count(op.Kind)
			case "rep":
				if l := outstanding(); len(l) > 0 {
					q := l[op.I%len(l)]
					for _, o := range l {
						// a server doesn't mix up its replies to two commands of
						// the same kind, unless it can label them
						if !c.Label && o.op.Kind == q.op.Kind && o.pos > 0 {
							q = o
							break
						}
					}
					emit(q, op.Cnt)
				}
			case "flush":
				flush()
			case "wait":
				flush()
				w.Sleep(35 * time.Second)
				// what wasn't answered is given up when the next query of the
				// kind comes in
			case "noise":
				if s.Conn() != nil && s.Conn().IsRegistered() {
					s.Conn().Raw(":bob!b@h PRIVMSG al :hi")
				}
			case "leave":
				if len(live) > 1 {
					x := live[op.S%len(live)]
					collect()
					x.cl.Close()
					x.gone = true
					r.Count("left")
					w.Sleep(time.Second)
				}
			case "join":
				if len(sess) < 6 {
					connect(false)
					x := sess[len(sess)-1]
					collect()
					x.msgs = nil
				}
			case "drop":
				s.closeAll()
				w.Wait()
				for _, q := range queries {
					if !q.done {
						q.aborted = true
					}
				}
				r.Count("dropped")
				w.Sleep(20 * time.Minute)
				if s.Conn() == nil || !s.Conn().IsRegistered() {
					return vio("no-reconnect", "%s: the bouncer didn't reconnect", desc)
				}
			}
			if oldest() > 18*time.Second {
				flush()
			}
			collect()
			if err := w.CheckPanics(); err != nil {
				return err
			}
		}
		flush()
		// after 30 s, queries are no longer held up by ones the server doesn't
		// answer
		for round := 0; round < 8 && muted(); round++ {
			w.Sleep(40 * time.Second)
			var x *c13Sess
			for _, y := range sess {
				if !y.gone && !y.other {
					x = y
				}
			}
			ks := map[string]bool{}
			for _, q := range queries {
				if q.op.Mute && !q.done && !q.aborted {
					ks[q.op.Kind] = true
				}
			}
			for _, k := range c13Kinds {
				if ks[k] {
					probe++
					ask(1000+probe, x, c13Op{K: "q", Kind: k, N: 1})
					w.Sleep(3 * time.Second)
					flush()
				}
			}
			r.NonTrivial()
		}
		flush()
		w.Sleep(30 * time.Second)
		flush()
		collect()
		if harnErr != nil {
			return harnErr
		}
		if bare != nil {
			return vio("no-source", "a session received the numeric %q without a source", fmtMsg(bare))
		}
		if err := w.CheckPanics(); err != nil {
			return err
		}
		// judge
		norm := func(m *irc.Message) string {
			p := m.Params
			if len(m.Command) == 3 && m.Command[0] >= '0' && m.Command[0] <= '9' && len(p) > 0 {
				p = p[1:]
			}
			return (&irc.Message{Command: m.Command, Params: p}).String()
		}
		askers := map[*c13Sess]bool{}
		for _, q := range queries {
			askers[q.s] = true
			var want []string
			for _, l := range q.lines[:q.pos] {
				want = append(want, norm(irc.MustParseMessage(addNick(l))))
			}
			if !q.got && !q.s.gone && !q.aborted {
				return vio("not-sent", "query %q of session %v never reached the server", q.line, idxOf(sess, q.s))
			}
			for k, x := range sess {
				var got []string
				ends := 0
				for _, m := range x.msgs {
					if !strings.Contains(strings.ToLower(m.String()), q.tok) {
						continue
					}
					if strings.Contains(param(m, -1), "Command aborted") {
						f := strings.Fields(q.line)
						if what := f[len(f)-1]; q.op.Kind == "WHOIS" && param(m, 1) != what || q.op.Kind == "WHO" && param(m, 1) != f[1] {
							return vio("wrong-end", "session %d: %q was ended with %q", k, q.line, m)
						}
						ends++
						continue
					}
					got = append(got, norm(m))
				}
				excl := (c.Label || c13Queued[q.op.Kind]) && q.op.Kind != "BOT"
				if x != q.s {
					if ends > 0 {
						return vio("misrouted", "session %d was told the end of %q of session %d", k, q.line, idxOf(sess, q.s))
					}
					if len(got) > 0 && (excl || x.other) {
						return vio("misrouted", "session %d received %q in reply to %q of session %d", k, got, q.line, idxOf(sess, q.s))
					}
					continue
				}
				if x.gone {
					continue
				}
				if q.pos == len(q.lines) && !q.aborted {
					if ends > 0 {
						return vio("terminated-twice", "session %d: %q was answered and aborted", k, q.line)
					}
				}
				full := eqStrs(got, want)
				if !full && q.stray && len(want) == len(q.lines) {
					full = eqStrs(got, want[:len(want)-1])
				}
				if !full {
					return vio("incomplete", "session %d received %q in reply to %q, the server sent %q", k, got, q.line, want)
				}
				if q.aborted && c13Queued[q.op.Kind] && q.op.Kind != "LIST" && !(c.Label && q.op.Kind == "WHOIS" && q.op.Var == 3) && !(q.pos > 0 && q.stray) {
					if ends != 1 {
						return vio("not-terminated", "session %d: the connection was lost before the server answered %q, which was terminated %d times", k, q.line, ends)
					}
				}
			}
		}
		for k, x := range sess {
			// the end of an aborted LIST doesn't tell which one
			n, want, may := 0, 0, 0
			for _, m := range x.msgs {
				if m.Command == "323" && strings.Contains(param(m, -1), "Command aborted") {
					n++
				}
			}
			for _, q := range queries {
				if q.op.Kind == "LIST" && q.s == x {
					if q.aborted {
						want++
					} else if q.op.Mute {
						may++
					}
				}
			}
			if !x.gone && (n < want || n > want+may) {
				return vio("not-terminated", "session %d: %d LIST commands were terminated when the connection was lost, expected %d", k, n, want)
			}
		}
		if len(askers) > 1 {
			r.NonTrivial()
		}
		return nil
	})
}

func addNick(l string) string {
	cmd, rest, _ := strings.Cut(l, " ")
	if cmd[0] >= '0' && cmd[0] <= '9' {
		return cmd + " al " + rest
	}
	return l
}

func idxOf[T comparable](l []T, x T) int {
	for i, y := range l {
		if y == x {
			return i
		}
	}
	return -1
}

func init() {
	p := prop("C13", "two sessions have queries in the history, or a query is never answered", 8000, 200000,
		"a server which hasn't answered a query after 30 s never answers it; without labelled responses errors naming a nick are told apart by that nick")
	add(p, "replies", 1, genC13, runC13)
}
