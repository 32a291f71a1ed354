package harness

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C06: CHATHISTORY and SEARCH through a session.

const tsLayout = "2006-01-02T15:04:05.000Z"

type c06Op struct {
	K    string
	U    int
	Tgt  int
	T    string
	Tags int
	Late int // ms by which the server's time tag is late
	S    int
	A, B int // bounds
	Lim  int
	Bad  int
	Alt  bool
	Ms   int
	Q    string
	Ctx  int // the channel a private message belongs to, plus 1
}

type c06Case struct {
	Store  string
	CM     string
	UpCaps []string
	Sess   [][]string
	Zone   int
	Ops    []c06Op
}

var c06Targets = []string{"#one", "#Two", "#det", "Bob", "d[a]ve", "carl", "mynick", "NickServ"}
var c06Users = []string{"Bob", "carl", "d[a]ve"}
var c06Caps = []string{"message-tags", "server-time", "batch", "echo-message", "extended-join", "account-tag", "draft/event-playback"}

func genC06(g *G) c06Case {
	c := c06Case{Store: Pick(g, []string{"db", "fs"}), CM: Pick(g, []string{"rfc1459", "ascii"}), UpCaps: genUpCaps(g), Zone: Pick(g, []int{0, 0, 120, -300})}
	for i, n := 0, g.R(1, 3); i < n; i++ {
		caps := []string{"draft/chathistory", "soju.im/search"}
		if g.P(50) {
			caps = append(caps, c06Caps...)
		} else {
			caps = append(caps, Subset(g, c06Caps, 60)...)
		}
		c.Sess = append(c.Sess, caps)
	}
	for i, n := 0, g.Size(6, 60); i < n; i++ {
		op := c06Op{U: g.N(3), Tgt: g.W(12, 6, 4, 6, 2, 2, 2, 1), T: genC07Text(g), Tags: g.N(256) & g.N(256), Late: Pick(g, []int{0, 0, 1, 900, 5000}), S: g.N(3), A: g.N(300), B: g.N(300), Lim: Pick(g, []int{0, 1, 2, 3, 10, 100, 1000}), Alt: g.P(20), Q: Pick(g, c07Words)}
		op.K = []string{"privmsg", "notice", "own", "join", "part", "kick", "topic", "mode", "nick", "quit", "tagmsg", "sleep", "before", "after", "latest", "between", "targets", "search", "bad", "status", "ownstatus"}[g.W(18, 5, 8, 2, 2, 1, 2, 2, 2, 1, 2, 14, 7, 7, 7, 8, 5, 9, 3, 1, 1)]
		op.Ms = Pick(g, []int{1, 7, 500, 1000, 1003, 60000, 3600001, 13 * 3600000})
		op.Bad = g.N(12)
		if g.P(25) {
			op.Ctx = g.N(4)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runC06(r *R, c c06Case) error {
	if c.Store != "db" && c.Store != "fs" || len(c.Sess) == 0 {
		return errInvalid{}
	}
	defer localZone(c.Zone)()
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s := w.AddServer(srvAddr0)
		s.CM, s.Caps = c.CM, normCaps(c.UpCaps)
		s.Isupport = []string{"STATUSMSG=@+"}
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		chans := []string{"#one", "#Two", "#det"}
		for _, ch := range chans {
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: ch, Detached: ch == "#det"}))
		}
		in := map[string]bool{}
		s.AddUser("NickServ")
		var live []*SUser
		for _, nk := range c06Users {
			live = append(live, s.AddUser(nk))
			for _, ch := range chans {
				s.With(func() { s.channel(ch, true).Members[s.Fold(nk)] = "" })
				in[nk+ch] = true
			}
		}
		w.Start()
		w.Sleep(1500 * time.Millisecond)
		uc := s.Conn()
		if uc == nil || !uc.IsRegistered() {
			return vio("no-upstream", "the bouncer did not register on the network")
		}
		fold := func(x string) string { return foldWith(c.CM, x) }
		model := map[string][]refMsg{}
		var times []time.Time
		lastT := time.Now()
		prec := func(t time.Time) time.Time {
			if c.Store == "fs" {
				return t.Truncate(time.Second)
			}
			return t.Truncate(time.Millisecond)
		}
		record := func(tgt string, m *irc.Message) {
			t, err := time.Parse(tsLayout, m.Tags["time"])
			if err != nil {
				panic(harnessErr("record: %v", err))
			}
			m = m.Copy()
			if c.Store == "fs" {
				m = fsForm(m, fold(tgt), "mynick", prec(t), fold)
				if m == nil {
					return
				}
			}
			times = append(times, prec(t))
			model[fold(tgt)] = append(model[fold(tgt)], refMsg{t: prec(t), m: m})
		}
		var sess []*Client
		for i, caps := range c.Sess {
			cl, _ := w.LoginFull(LoginOpts{User: "alice", Network: "net0", Client: fmt.Sprintf("c%d", i), Caps: caps})
			sess = append(sess, cl)
		}
		// The bouncer's own joins are part of the history.
		full, _ := w.LoginFull(LoginOpts{User: "alice", Network: "net0", Client: "full", Caps: append([]string{"draft/chathistory", "soju.im/search"}, c06Caps...)})
		for _, ch := range chans {
			w.Sleep(2 * time.Millisecond)
			for _, m := range filter(full.Do("CHATHISTORY LATEST "+ch+" * 100"), "JOIN", "MODE", "PRIVMSG", "NOTICE", "TOPIC", "PART", "KICK", "NICK", "QUIT") {
				if m.Command != "JOIN" || m.Prefix.Name != "mynick" || fold(param(m, 0)) != fold(ch) {
					return vio("prelude", "history of %s starts with %q", ch, m)
				}
				if c.Store == "db" && m.Tags["time"] == "" {
					continue
				}
				delete(m.Tags, "batch")
				record(ch, m)
			}
		}
		take := func() {
			w.Wait()
			full.Take()
			for _, x := range sess {
				x.Take()
			}
		}
		nq, npos := 0, 0
		bound := func(i int) time.Time {
			if len(times) == 0 || i%17 == 0 {
				return time.Now().Add(time.Duration(i-100) * time.Second)
			}
			return times[i%len(times)].Add([]time.Duration{0, time.Millisecond, -time.Millisecond, time.Second, -time.Second, 0, 25 * time.Hour}[i%7])
		}
		ts := func(t time.Time) string { return "timestamp=" + t.UTC().Format(tsLayout) }
		// batch splits a reply into its batch's messages.
		batch := func(what string, cl *Client, got []*irc.Message, typ, target string) ([]*irc.Message, error) {
			if !cl.HasCap("batch") {
				for _, m := range got {
					if m.Command == "BATCH" || m.Tags["batch"] != "" {
						return nil, vio("batch", "%s: unnegotiated batch %q", what, m)
					}
				}
				return got, nil
			}
			if len(got) < 2 || got[0].Command != "BATCH" || got[len(got)-1].Command != "BATCH" {
				return nil, vio("batch", "%s: the reply isn't a batch:\n%s", what, fmtMsgs(got))
			}
			ref := strings.TrimPrefix(param(got[0], 0), "+")
			if param(got[0], 0) != "+"+ref || param(got[len(got)-1], 0) != "-"+ref || param(got[0], 1) != typ || target != "" && fold(param(got[0], 2)) != fold(target) {
				return nil, vio("batch", "%s: wrong batch:\n%s", what, fmtMsgs(got))
			}
			for _, m := range got[1 : len(got)-1] {
				if m.Tags["batch"] != ref {
					return nil, vio("batch", "%s: %q isn't part of the batch %s", what, m, ref)
				}
			}
			return got[1 : len(got)-1], nil
		}
		compare := func(what string, cl *Client, got []*irc.Message, want []refMsg) error {
			nq++
			var ws []*irc.Message
			for _, x := range want {
				if e := expectFor(cl, x.m, false, time.Now()); e != nil {
					ws = append(ws, e)
				}
			}
			if len(ws) > 0 {
				npos++
			}
			for i := 0; i < len(ws) || i < len(got); i++ {
				if i >= len(got) {
					return vio("missing", "%s: %d messages returned, expected %d: first missing %q", what, len(got), len(ws), ws[i])
				}
				if i >= len(ws) {
					return vio("superfluous", "%s: %d messages returned, expected %d: superfluous %q", what, len(got), len(ws), got[i])
				}
				if ws[i].Prefix.Name == "mynick" && strings.HasSuffix(param(ws[i], 0), "#det") && got[i].Prefix != nil && got[i].Prefix.Name == "mynick" {
					ws[i].Prefix = got[i].Prefix // not observed when it was sent
				}
				if c.Store == "fs" && len(got[i].Params) > 0 && len(ws[i].Params) > 0 && ws[i].Command != "NICK" && ws[i].Command != "QUIT" && fold(got[i].Params[0]) == fold(ws[i].Params[0]) {
					ws[i].Params[0] = got[i].Params[0] // the log keeps the folded name
				}
				if !sameMsg(got[i], ws[i]) {
					return vio("wrong", "%s: message %d is %q, expected %q", what, i, got[i], ws[i])
				}
				if why := tagsOK(cl, got[i].Tags, ws[i].Tags); why != "" {
					return vio("tags", "%s: message %d is %q, expected tags of %q: %s", what, i, got[i], ws[i], why)
				}
			}
			return nil
		}
		newNick := 0
		for oi, op := range c.Ops {
			what := fmt.Sprintf("op %d %s", oi, op.K)
			ui := ((op.U % 3) + 3) % 3
			us := live[ui]
			tgt := c06Targets[((op.Tgt%len(c06Targets))+len(c06Targets))%len(c06Targets)]
			ch := chans[((op.Tgt%3)+3)%3]
			cl := sess[((op.S%len(sess))+len(sess))%len(sess)]
			now := time.Now()
			if now.Nanosecond()/1e6 == 0 {
				w.Sleep(3 * time.Millisecond)
				now = time.Now()
			}
			text := op.T
			if text == "" {
				text = "x"
			}
			if strings.HasPrefix(text, "\x01") && !strings.HasPrefix(text, "\x01ACTION ") {
				text = "c" + text
			}
			tags := upTags(uc, op.Tags&^1, now)
			at := now
			if uc.Caps["server-time"] && op.Tags&1 != 0 {
				at = now.Add(-time.Duration(max(0, op.Late)) * time.Millisecond)
				if at.Before(lastT) {
					at = lastT
				}
				tags["time"] = at.UTC().Format(tsLayout)
			}
			prefix := us.Prefix()
			emit := func(rec []string, cmd string, params ...string) {
				m := &irc.Message{Tags: tags, Prefix: irc.ParsePrefix(prefix), Command: cmd, Params: params}
				uc.Raw(m.String())
				lastT = at
				m.Tags["time"] = at.UTC().Format(tsLayout)
				for _, t := range rec {
					record(t, m)
				}
				w.Wait()
				take()
				r.Count("messages")
			}
			chansOf := func() []string {
				var l []string
				for _, ch := range chans {
					if in[c06Users[ui]+ch] {
						l = append(l, ch)
					}
				}
				return l
			}
			query := func(line string) []*irc.Message {
				take()
				if time.Now().Nanosecond()/1e6 == 0 {
					w.Sleep(time.Millisecond)
				}
				w.Sleep(2 * time.Millisecond)
				take()
				return cl.Do(line)
			}
			lim := op.Lim
			if lim < 0 {
				lim = 0
			}
			ev := cl.HasCap("draft/event-playback")
			tname := altCase(tgt, op.Alt)
			switch op.K {
			case "sleep":
				w.Sleep(time.Duration(max(0, op.Ms)) * time.Millisecond)
			case "privmsg", "notice", "tagmsg":
				cmd := strings.ToUpper(op.K)
				dst, ent := tname, tgt
				if tgt[0] != '#' {
					if fold(tgt) == "mynick" {
						continue
					}
					// a private message to us
					dst, ent = "mynick", us.Nick
					if tgt == "NickServ" {
						// may be about passwords, and isn't recorded
						prefix, ent = Pick(NewG(uint64(op.A)), []string{"NickServ!s@services", "nickserv!s@services"}), ""
					} else if k := op.Ctx; k > 0 && k <= len(chans) && uc.Caps["message-tags"] {
						tags["+draft/channel-context"] = altCase(chans[k-1], op.Alt)
						if in[c06Users[ui]+chans[k-1]] {
							ent = chans[k-1]
						}
						r.Count("channel-context")
					}
				} else if !in[c06Users[ui]+tgt] {
					continue
				}
				if cmd == "TAGMSG" {
					if !uc.Caps["message-tags"] {
						continue
					}
					var rec []string
					if (tags["+draft/react"] != "" || tags["+react"] != "") && ent != "" {
						rec = []string{ent}
					}
					emit(rec, cmd, dst)
				} else if ent == "" {
					emit(nil, cmd, dst, text)
				} else {
					emit([]string{ent}, cmd, dst, text)
				}
			case "status":
				if !in[c06Users[ui]+ch] {
					continue
				}
				emit([]string{ch}, "PRIVMSG", "@"+ch, text)
			case "own", "ownstatus":
				dst := tgt
				if tgt == "NickServ" {
					dst = altCase(tgt, op.Alt)
				}
				if op.K == "ownstatus" {
					dst = "@" + ch
					tgt = ch
				}
				if uc.Caps["echo-message"] && (tgt == "#det" || tgt == "mynick") {
					continue // not observable here
				}
				m := &irc.Message{Command: "PRIVMSG", Params: []string{dst, text}}
				take()
				cl.Send(m.String())
				w.Wait()
				m.Prefix = irc.ParsePrefix(uc.Me.Prefix())
				var got *irc.Message
				for _, x := range filter(full.Take(), "PRIVMSG") {
					if param(x, 0) == dst && param(x, 1) == text && x.Prefix.Name == "mynick" {
						got = x
					}
				}
				if tgt == "#det" {
					m.Tags = irc.Tags{"time": time.Now().UTC().Format(tsLayout)}
				} else {
					if got == nil {
						return vio("echo", "%s: a message sent to %s isn't shown to the other session", what, dst)
					}
					m = got
				}
				if tgt != "NickServ" {
					record(tgt, m)
				}
				lastT = time.Now()
			case "join":
				if in[c06Users[ui]+ch] {
					continue
				}
				in[c06Users[ui]+ch] = true
				s.With(func() { s.channel(ch, true).Members[s.Fold(us.Nick)] = "" })
				if uc.Caps["extended-join"] {
					emit([]string{ch}, "JOIN", ch, "*", "real name")
				} else {
					emit([]string{ch}, "JOIN", ch)
				}
			case "part", "kick":
				if !in[c06Users[ui]+ch] {
					continue
				}
				in[c06Users[ui]+ch] = false
				s.With(func() { delete(s.channel(ch, true).Members, s.Fold(us.Nick)) })
				if op.K == "part" {
					emit([]string{ch}, "PART", ch, text)
				} else {
					emit([]string{ch}, "KICK", ch, us.Nick, text)
				}
			case "topic":
				emit([]string{ch}, "TOPIC", ch, text)
			case "mode":
				if !in[c06Users[ui]+ch] {
					continue
				}
				emit([]string{ch}, "MODE", ch, Pick(NewG(uint64(op.A)), []string{"+o", "-o", "+v"}), us.Nick)
			case "nick":
				newNick++
				nn := fmt.Sprintf("nick%d", newNick)
				rec := chansOf()
				emit(rec, "NICK", nn)
				s.With(func() { s.rename(us, nn) })
			case "quit":
				rec := chansOf()
				if len(rec) == 0 {
					continue
				}
				emit(rec, "QUIT", text)
				for _, ch := range chans {
					in[c06Users[ui]+ch] = false
					s.With(func() { delete(s.channel(ch, true).Members, s.Fold(us.Nick)) })
				}
			case "before", "after", "latest", "between":
				a, b := bound(op.A), bound(op.B)
				l := model[fold(tgt)]
				var line string
				var want []refMsg
				switch op.K {
				case "before":
					line = fmt.Sprintf("CHATHISTORY BEFORE %s %s %d", tname, ts(a), lim)
					want = refSelect(l, time.Time{}, a, lim, ev, true, nil)
				case "after":
					line = fmt.Sprintf("CHATHISTORY AFTER %s %s %d", tname, ts(a), lim)
					want = refSelect(l, a, time.Time{}, lim, ev, false, nil)
				case "latest":
					if op.A%3 == 0 {
						line = fmt.Sprintf("CHATHISTORY LATEST %s %s %d", tname, ts(a), lim)
						want = refSelect(l, a, time.Time{}, lim, ev, true, nil)
					} else {
						line = fmt.Sprintf("CHATHISTORY LATEST %s * %d", tname, lim)
						want = refSelect(l, time.Time{}, time.Time{}, lim, ev, true, nil)
					}
				case "between":
					line = fmt.Sprintf("CHATHISTORY BETWEEN %s %s %s %d", tname, ts(a), ts(b), lim)
					if a.Before(b) {
						want = refSelect(l, a, b, lim, ev, false, nil)
					} else {
						want = refSelect(l, b, a, lim, ev, true, nil)
					}
				}
				got, err := batch(what, cl, query(line), "chathistory", tgt)
				if err != nil {
					return err
				}
				if err := compare(fmt.Sprintf("%s: %s (events %v)", what, line, ev), cl, got, want); err != nil {
					return err
				}
			case "targets":
				if c.Store != "db" {
					continue // depends on file modification times
				}
				a, b := bound(op.A), bound(op.B)
				if op.A%3 == 0 {
					a, b = time.Unix(0, 0), time.Now().Add(time.Hour)
				}
				if op.A%6 == 1 {
					b, a = time.Unix(0, 0), time.Now().Add(time.Hour)
				}
				if a.Equal(b) {
					continue
				}
				line := fmt.Sprintf("CHATHISTORY TARGETS %s %s %d", ts(a), ts(b), lim)
				got, err := batch(what, cl, query(line), "draft/chathistory-targets", "")
				if err != nil {
					return err
				}
				nq++
				lo, hi := a, b
				if hi.Before(lo) {
					lo, hi = hi, lo
				}
				type tg struct {
					name string
					t    time.Time
				}
				var all []tg
				for name, l := range model {
					var last time.Time
					for _, x := range l {
						if (ev || isChat(x.m)) && x.t.After(last) {
							last = x.t
						}
					}
					if !last.IsZero() && last.After(lo) && last.Before(hi) {
						all = append(all, tg{name, last})
					}
				}
				sort.Slice(all, func(i, j int) bool {
					if a.Before(b) {
						return all[i].t.Before(all[j].t)
					}
					return all[j].t.Before(all[i].t)
				})
				cut := len(all) > lim
				var edge time.Time
				if lim == 0 {
					all = nil
				} else if cut {
					edge = all[lim-1].t
				}
				must := map[string]bool{}
				may := map[string]time.Time{}
				for _, x := range all {
					if x.name == fold("#det") {
						continue
					}
					strict := !cut || a.Before(b) && x.t.Before(edge) || b.Before(a) && x.t.After(edge)
					if strict {
						must[x.name] = true
					}
					if strict || x.t.Equal(edge) {
						may[x.name] = x.t
					}
				}
				var prev time.Time
				dir := 0
				for _, m := range got {
					t, err := time.Parse(tsLayout, param(m, 2))
					nm := fold(param(m, 1))
					if m.Command != "CHATHISTORY" || param(m, 0) != "TARGETS" || err != nil || !may[nm].Equal(t) || may[nm].IsZero() {
						return vio("targets", "%s: %s: unexpected %q, expected %v", what, line, m, may)
					}
					delete(may, nm)
					delete(must, nm)
					if !prev.IsZero() && !t.Equal(prev) {
						d := 1
						if t.Before(prev) {
							d = -1
						}
						if dir != 0 && d != dir {
							return vio("targets", "%s: %s: targets aren't ordered by time:\n%s", what, line, fmtMsgs(got))
						}
						dir = d
					}
					prev = t
				}
				if len(must) > 0 || len(got) > lim {
					return vio("targets", "%s: %s: missing %v in\n%s", what, line, must, fmtMsgs(got))
				}
				if len(got) > 0 {
					npos++
				}
			case "search":
				attrs := irc.Tags{"in": tname}
				var from, txt string
				var after, before time.Time
				slim := 100
				if op.A%3 == 0 {
					from = us.Nick
					if op.A%2 == 0 {
						from = "mynick"
					}
					attrs["from"] = from
				}
				if op.B%3 != 0 {
					txt = stripFormat.Replace(op.Q)
					if op.B%4 == 0 {
						txt += " " + stripFormat.Replace(c07Words[op.A%len(c07Words)])
					}
					attrs["text"] = txt
				}
				if c.Store == "fs" && strings.ContainsAny(op.Q, "\x02\x03") {
					continue
				}
				if op.A%4 == 1 {
					after = bound(op.A)
					attrs["after"] = after.UTC().Format(tsLayout)
					after = after.Truncate(time.Millisecond).Add(-1)
				}
				if op.B%4 == 1 {
					before = bound(op.B)
					attrs["before"] = before.UTC().Format(tsLayout)
					before = before.Truncate(time.Millisecond).Add(1)
				}
				if lim > 0 && op.B%5 != 0 {
					slim = min(lim, 100)
					attrs["limit"] = strconv.Itoa(lim)
				}
				keep := func(x refMsg) bool {
					if from != "" && x.m.Prefix.Name != from {
						return false
					}
					if txt == "" {
						return true
					}
					if c.Store == "fs" {
						return strings.Contains(strings.ToLower(x.m.Params[1]), strings.ToLower(txt))
					}
					return ftsMatch(stripFormat.Replace(x.m.Params[1]), txt)
				}
				line := (&irc.Message{Command: "SEARCH", Params: []string{attrs.String()}}).String()
				got, err := batch(what, cl, query(line), "soju.im/search", "")
				if err != nil {
					return err
				}
				if err := compare(fmt.Sprintf("%s: %s", what, line), cl, got, refSelect(model[fold(tgt)], after, before, slim, false, after.IsZero(), keep)); err != nil {
					return err
				}
			case "bad":
				line := []string{"CHATHISTORY", "CHATHISTORY FOO #one * 10", "CHATHISTORY BEFORE #one * 10", "CHATHISTORY AFTER #one msgid=abc 10", "CHATHISTORY BEFORE #one timestamp=garbage 10", "CHATHISTORY LATEST #one * -1", "CHATHISTORY LATEST #one * 100000", "CHATHISTORY LATEST #one * x", "CHATHISTORY BETWEEN #one " + ts(now) + " foo 10", "CHATHISTORY BEFORE #one", "SEARCH text=x", "SEARCH in=#one;limit=0", "SEARCH in=#one;after=yesterday"}[((op.Bad%13)+13)%13]
				got := query(line)
				if len(got) != 1 || got[0].Command != "FAIL" && got[0].Command != "461" {
					return vio("malformed", "%s: the malformed request %q is answered by:\n%s", what, line, fmtMsgs(got))
				}
			}
		}
		if err := w.CheckPanics(); err != nil {
			return err
		}
		if npos > 0 {
			r.NonTrivial()
		}
		return nil
	})
}

func init() {
	p := prop("C06", "at least one query had a non-empty answer, which was compared", 6000, 200000,
		"with the file-system store, times of messages never decrease, TARGETS isn't compared (it depends on file modification times), and message texts are those the log format represents")
	add(p, "queries", 1, genC06, runC06)
}
