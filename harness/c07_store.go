package harness

import (
	"fmt"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/msgstore"
)

// ---------------------------------------------------------------- reference

// refMsg is a stored message of the reference model.
type refMsg struct {
	t   time.Time // to the store's precision
	m   *irc.Message
	id  string
	seq int
}

func isChat(m *irc.Message) bool { return m.Command == "PRIVMSG" || m.Command == "NOTICE" }

// refSelect is the documented selection: messages strictly between the bounds
// (zero: unbounded), the limit keeping the oldest or the latest ones.
func refSelect(l []refMsg, after, before time.Time, limit int, events, last bool, keep func(refMsg) bool) []refMsg {
	var out []refMsg
	for _, x := range l {
		if !after.IsZero() && !x.t.After(after) || !before.IsZero() && !x.t.Before(before) {
			continue
		}
		if !events && !isChat(x.m) {
			continue
		}
		if keep != nil && !keep(x) {
			continue
		}
		out = append(out, x)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].t.Before(out[j].t) })
	if len(out) > limit {
		if last {
			out = out[len(out)-limit:]
		} else {
			out = out[:limit]
		}
	}
	return out
}

// fsForm is the form in which the log format can represent a message: nil if
// it cannot. entity is the (folded) target, self the user's nick.
func fsForm(m *irc.Message, entity, self string, t time.Time, fold func(string) string) *irc.Message {
	n := &irc.Message{Command: m.Command, Prefix: &irc.Prefix{Name: m.Prefix.Name}, Tags: irc.Tags{}}
	opt := func(i int) {
		if i < len(m.Params) && m.Params[i] != "" {
			n.Params = append(n.Params, m.Params[i])
		}
	}
	switch m.Command {
	case "PRIVMSG", "NOTICE":
		target := entity
		if fold(m.Prefix.Name) == fold(entity) {
			target = self
		}
		n.Params = []string{target, m.Params[1]}
	case "JOIN":
		n.Prefix = m.Prefix
		n.Params = []string{entity}
	case "PART":
		n.Prefix = m.Prefix
		n.Params = []string{entity}
		opt(1)
	case "QUIT":
		n.Prefix = m.Prefix
		opt(0)
	case "KICK":
		n.Params = []string{entity, m.Params[1]}
		opt(2)
	case "NICK":
		n.Params = []string{m.Params[0]}
	case "TOPIC":
		n.Params = []string{entity, param(m, 1)}
	case "MODE":
		n.Params = append([]string{entity}, m.Params[1:]...)
	default:
		return nil
	}
	n.Tags["time"] = t.UTC().Format("2006-01-02T15:04:05.000Z")
	return n
}

// withFileLimit runs f while no file can grow beyond limit bytes.
func withFileLimit(limit int64, f func() (string, error)) (string, error) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(harnessErr("%v", err))
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max}); err != nil {
		panic(harnessErr("%v", err))
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(harnessErr("%v", err))
		}
	}()
	return f()
}

var unaccent = strings.NewReplacer("é", "e", "É", "e", "ü", "u", "ï", "i", "ö", "o")

// ftsTokens splits a text into the words of the full-text index, which ignores
// letter case and accents.
func ftsTokens(s string) []string {
	l := strings.FieldsFunc(s, func(r rune) bool { return !unicode.In(r, unicode.L, unicode.N, unicode.Co) })
	for i := range l {
		l[i] = unaccent.Replace(strings.ToLower(l[i]))
	}
	return l
}

// ftsMatch: every word of the query is a word of the text.
func ftsMatch(text, query string) bool {
	have := map[string]bool{}
	for _, t := range ftsTokens(text) {
		have[t] = true
	}
	for _, t := range ftsTokens(query) {
		if !have[t] {
			return false
		}
	}
	return true
}

var stripFormat = strings.NewReplacer("\x02", "", "\x0304", "", "\x0f", "", "\x1f", "")

// ---------------------------------------------------------------- cases

type c07Op struct {
	K    string
	Net  int
	Ent  int
	Nick int
	Cmd  int
	Text string
	Ms   int
	A, B int
	Lim  int
	Ev   bool
	Q    string
}

type c07Case struct {
	Store string
	Zone  int // minutes east of UTC
	Ooo   bool
	Ops   []c07Op
}

var c07Ents = []string{"#chan", "#chan2", "bob", "carl", "a[b", "#a/b", "..", "#long" + strings.Repeat("z", 100)}
var c07Nicks = []string{"bob", "Bob", "carl", "mynick", "d|ve-", "a[b", "irc.server", "x_`^"}
var c07Cmds = []string{"PRIVMSG", "NOTICE", "ACTION", "JOIN", "PART", "QUIT", "KICK", "NICK", "TOPIC", "MODE"}
var c07Words = []string{"fast", "Slow", "car", "cat", "CAT", "be", "what", "42", "fastcar", "\x02bold\x0f", "\x0304red\x0f", "(x)", "it's", "a-b"}

func genC07Text(g *G) string {
	if g.P(30) {
		return genNonEmptyText(g)
	}
	var l []string
	for i, n := 0, g.R(1, 5); i < n; i++ {
		l = append(l, Pick(g, c07Words))
	}
	return strings.Join(l, Pick(g, []string{" ", ", ", " "}))
}

func genC07(g *G) c07Case {
	c := c07Case{Store: Pick(g, []string{"db", "fs", "fs", "db", "memory"}), Zone: Pick(g, []int{0, 0, 60, -480, 345, 840, -690})}
	c.Ooo = c.Store == "db" && g.P(25)
	many := g.P(15)
	for i, n := 0, g.Size(6, 60); i < n; i++ {
		op := c07Op{Net: g.N(2), Ent: g.N(3), Nick: g.N(len(c07Nicks)), Cmd: g.W(10, 3, 3, 2, 2, 2, 2, 2, 2, 2), Text: genC07Text(g), A: g.N(200), B: g.N(200), Lim: Pick(g, []int{0, 1, 2, 3, 5, 100, 1000}), Ev: g.Bool(), Q: Pick(g, c07Words)}
		if many || g.P(10) {
			op.Ent = g.N(len(c07Ents))
		}
		op.K = []string{"append", "before", "after", "lastid", "latest", "search", "targets", "sleep", "rename", "reopen", "burst", "long", "fault"}[g.W(136, 32, 32, 16, 24, 28, 12, 64, 8, 8, 4, 1, 6)]
		op.Ms = Pick(g, []int{0, 1, 7, 500, 1000, 1003, 60000, 3600001, 13 * 3600000, 26*3600000 + 1, 30 * 24 * 3600000})
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runC07(r *R, c c07Case) error {
	oldLocal := time.Local
	time.Local = time.FixedZone("TEST", c.Zone*60)
	defer func() { time.Local = oldLocal }()
	return bubble(r, func() error {
		db, err := database.OpenTempSqliteDB()
		if err != nil {
			panic(harnessErr("%v", err))
		}
		defer db.Close()
		user := database.NewUser("alice")
		user.Nick = "mynick"
		if err := db.StoreUser(ctxBg, user); err != nil {
			panic(harnessErr("%v", err))
		}
		nets := []*database.Network{database.NewNetwork("irc.a"), database.NewNetwork("irc.b")}
		nets[0].Name = "net/0"
		nets[1].Name = "net1"
		for _, n := range nets {
			if err := db.StoreNetwork(ctxBg, user.ID, n); err != nil {
				panic(harnessErr("%v", err))
			}
		}
		root := scratchDir()
		defer os.RemoveAll(root)
		var st msgstore.Store
		open := func() {
			switch c.Store {
			case "fs":
				st = msgstore.NewFSStore(filepath.Join(root, "logs"), user)
			case "db":
				st = msgstore.NewDBStore(db)
			default:
				st = msgstore.NewMemoryStore()
			}
		}
		open()
		defer func() { st.Close() }()
		fold := func(s string) string { return foldWith("rfc1459", s) }
		model := map[string][]refMsg{}
		type idRef struct {
			net, ent, pos int
			id            string
		}
		var ids []idRef
		times := []time.Time{}
		seq := 0
		nq := 0
		lastRaw := time.Time{}
		var slept time.Duration
		mtimes := map[string]bool{}
		key := func(n, e int) string { return fmt.Sprintf("%d/%d", n, e) }
		prec := func(t time.Time) time.Time {
			if c.Store == "fs" {
				return t.Truncate(time.Second)
			}
			return t.Truncate(time.Millisecond)
		}
		doAppend := func(op c07Op) error {
			now := time.Now()
			if now.Nanosecond() == 0 {
				time.Sleep(time.Millisecond)
				now = time.Now()
			}
			t := now
			if c.Ooo {
				t = now.Add(-time.Duration(op.A) * time.Second)
			} else if op.B%3 == 0 {
				// the server's clock may be a bit late
				t = now.Add(-time.Duration(op.A) * 10 * time.Millisecond)
				if t.Before(lastRaw) {
					t = lastRaw
				}
			}
			lastRaw = t
			ent := c07Ents[op.Ent%len(c07Ents)]
			nick := c07Nicks[op.Nick%len(c07Nicks)]
			cmd := c07Cmds[op.Cmd%len(c07Cmds)]
			m := &irc.Message{Tags: irc.Tags{"time": t.UTC().Format("2006-01-02T15:04:05.000Z")}, Prefix: &irc.Prefix{Name: nick, User: "u" + nick, Host: "ho:st"}, Command: cmd}
			target := ent
			if fold(nick) == fold(ent) {
				target = "mynick"
			}
			text := op.Text
			if text == "" {
				text = "x"
			}
			if strings.HasPrefix(text, "\x01") {
				text = "c" + text
			}
			switch cmd {
			case "PRIVMSG", "NOTICE":
				m.Params = []string{target, text}
			case "ACTION":
				m.Command = "PRIVMSG"
				m.Params = []string{target, "\x01ACTION " + strings.ReplaceAll(text, "\x01", "") + "\x01"}
			case "JOIN":
				m.Params = []string{target}
			case "PART":
				m.Params = []string{target}
				if op.A%2 == 0 {
					m.Params = append(m.Params, text)
				}
			case "QUIT":
				if op.A%2 == 0 {
					m.Params = []string{text}
				}
			case "KICK":
				m.Params = []string{target, "victim"}
				if op.A%2 == 0 {
					m.Params = append(m.Params, text)
				}
			case "NICK":
				m.Params = []string{"newnick"}
			case "TOPIC":
				m.Params = []string{target, text}
				if op.A%3 == 0 {
					m.Params[1] = ""
				}
			case "MODE":
				m.Params = []string{target, "+ov", "a", "b"}
			}
			id, err := st.Append(nets[op.Net%2], ent, m)
			if err != nil {
				return vio("append", "Append(%v): %v", m, err)
			}
			r.Count("appends")
			if c.Store == "memory" && !isChat(m) {
				return nil
			}
			seq++
			k := key(op.Net%2, op.Ent%len(c07Ents))
			ids = append(ids, idRef{op.Net % 2, op.Ent % len(c07Ents), len(model[k]) + 1, id})
			model[k] = append(model[k], refMsg{t: prec(t), m: m, id: id, seq: seq})
			times = append(times, prec(t))
			if c.Store == "fs" {
				// the file's modification time follows the simulated clock
				filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
					if err == nil && !d.IsDir() {
						fi, _ := d.Info()
						if fi.ModTime().Year() != 1999 && fi.ModTime().After(time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)) {
							os.Chtimes(p, t, t)
							mtimes[p] = true
						}
					}
					return nil
				})
			}
			return nil
		}
		// the disk fills up while a message is being written
		doFault := func(op c07Op) error {
			now := time.Now()
			if now.Nanosecond() == 0 {
				time.Sleep(time.Millisecond)
				now = time.Now()
			}
			if now.Before(lastRaw) {
				now = lastRaw
			}
			m := &irc.Message{Tags: irc.Tags{"time": now.UTC().Format("2006-01-02T15:04:05.000Z")}, Prefix: &irc.Prefix{Name: "bob", User: "u", Host: "h"}, Command: "PRIVMSG", Params: []string{"#chan", "a message which does not fit"}}
			ent := c07Ents[op.Ent%len(c07Ents)]
			day := now.In(time.Local).Format("2006-01-02") + ".log"
			want := filepath.Join(msgstore.EscapeFilename(nets[op.Net%2].GetName()), msgstore.EscapeFilename(ent), day)
			var path string
			var fi fs.FileInfo
			filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
				if err == nil && strings.HasSuffix(p, want) {
					path = p
					fi, _ = d.Info()
				}
				return nil
			})
			if fi == nil {
				return nil
			}
			size := fi.Size()
			defer os.Chtimes(path, fi.ModTime(), fi.ModTime())
			limit := size + int64(op.B%40)
			_, err := withFileLimit(limit, func() (string, error) { return st.Append(nets[op.Net%2], ent, m) })
			if err == nil {
				return vio("fault", "Append succeeded although the file could not grow beyond %d bytes (%d before)", limit, size)
			}
			r.Count("write faults")
			return nil
		}
		expect := func(what string, ent string, got []*irc.Message, err error, want []refMsg) error {
			if err != nil {
				return vio("query-error", "%s: %v", what, err)
			}
			nq++
			var ws []*irc.Message
			for _, x := range want {
				wm := x.m
				if c.Store == "fs" {
					wm = fsForm(x.m, ent, "mynick", x.t, fold)
				}
				ws = append(ws, wm)
			}
			for i := 0; i < len(ws) || i < len(got); i++ {
				if i >= len(got) {
					return vio("missing", "%s: %d messages returned, expected %d: first missing %q", what, len(got), len(ws), ws[i])
				}
				if i >= len(ws) {
					return vio("superfluous", "%s: %d messages returned, expected %d: superfluous %q", what, len(got), len(ws), got[i])
				}
				if got[i] == nil {
					return vio("missing", "%s: nil message", what)
				}
				a, b := got[i], ws[i]
				if !sameMsg(a, b) || !reflect.DeepEqual(a.Tags, b.Tags) {
					return vio("wrong", "%s: message %d is %q, expected %q", what, i, a, b)
				}
			}
			return nil
		}
		bound := func(i int) time.Time {
			if len(times) == 0 {
				return time.Now().Add(time.Duration(i) * time.Second)
			}
			base := times[i%len(times)]
			return base.Add([]time.Duration{0, time.Millisecond, -time.Millisecond, time.Second, -time.Second, 0, 25 * time.Hour}[i%7])
		}
		for oi, op := range c.Ops {
			what := fmt.Sprintf("op %d %s net%d %q", oi, op.K, op.Net%2, c07Ents[op.Ent%len(c07Ents)])
			net := nets[op.Net%2]
			ent := c07Ents[op.Ent%len(c07Ents)]
			k := key(op.Net%2, op.Ent%len(c07Ents))
			l := model[k]
			lim := max(0, op.Lim)
			if time.Now().Nanosecond() == 0 {
				time.Sleep(time.Millisecond)
			}
			opts := &msgstore.LoadMessageOptions{Network: net, Entity: ent, Limit: lim, Events: op.Ev}
			ch, isCH := st.(msgstore.ChatHistoryStore)
			switch op.K {
			case "sleep":
				d := time.Duration(max(0, op.Ms)) * time.Millisecond
				if slept+d > 90*24*time.Hour {
					continue
				}
				slept += d
				time.Sleep(d)
			case "append":
				if err := doAppend(op); err != nil {
					return err
				}
			case "long":
				// as long as the connections let through
				op.Cmd = 0
				op.Text = strings.Repeat("long ", 13100+op.A%5) + "x"
				if err := doAppend(op); err != nil {
					return err
				}
			case "fault":
				if c.Store != "fs" {
					continue
				}
				if err := doFault(op); err != nil {
					return err
				}
			case "burst":
				n := 30
				if c.Store == "memory" && op.A%4 == 0 {
					n = 4200
				}
				op.Cmd = 0
				for i := 0; i < n; i++ {
					op.Text = fmt.Sprintf("burst %d", i)
					if c.Store != "memory" {
						op.Ent = i % len(c07Ents)
						if i%3 == 0 {
							time.Sleep(time.Millisecond)
						}
					}
					if err := doAppend(op); err != nil {
						return err
					}
				}
			case "before", "after":
				if !isCH {
					continue
				}
				a, b := bound(op.A), bound(op.B)
				if op.A%11 == 0 {
					a = time.Now()
				}
				if op.K == "before" {
					if op.B%5 == 0 {
						b = time.Time{}
					}
					if a.Before(b) {
						a, b = b, a
					}
					got, err := ch.LoadBeforeTime(ctxBg, a, b, opts)
					if err := expect(fmt.Sprintf("%s: LoadBeforeTime(%v, %v, limit %d, events %v)", what, a, b, lim, op.Ev), ent, got, err, refSelect(l, b, a, lim, op.Ev, true, nil)); err != nil {
						return err
					}
				} else {
					if b.Before(a) {
						a, b = b, a
					}
					got, err := ch.LoadAfterTime(ctxBg, a, b, opts)
					if err := expect(fmt.Sprintf("%s: LoadAfterTime(%v, %v, limit %d, events %v)", what, a, b, lim, op.Ev), ent, got, err, refSelect(l, a, b, lim, op.Ev, false, nil)); err != nil {
						return err
					}
				}
			case "lastid":
				id, err := st.LastMsgID(net, ent, time.Now())
				if err != nil {
					return vio("query-error", "%s: LastMsgID: %v", what, err)
				}
				ids = append(ids, idRef{op.Net % 2, op.Ent % len(c07Ents), len(l), id})
				// messages which are stored later aren't timed before this
				if lastRaw.Before(time.Now()) {
					lastRaw = time.Now()
				}
			case "latest":
				if len(ids) == 0 {
					continue
				}
				ref := ids[op.A%len(ids)]
				rl := model[key(ref.net, ref.ent)]
				pos := ref.pos
				if c.Store == "memory" && len(rl)-pos > 4096 {
					pos = len(rl) - 4096
				}
				if pos > len(rl) {
					continue
				}
				o := &msgstore.LoadMessageOptions{Network: nets[ref.net], Entity: c07Ents[ref.ent], Limit: lim}
				got, err := st.LoadLatestID(ctxBg, ref.id, o)
				if err := expect(fmt.Sprintf("op %d: LoadLatestID(after message %d of %q, limit %d)", oi, ref.pos, c07Ents[ref.ent], lim), c07Ents[ref.ent], got, err, refSelect(rl[pos:], time.Time{}, time.Time{}, lim, false, true, nil)); err != nil {
					return err
				}
			case "search":
				ss, ok := st.(msgstore.SearchStore)
				if !ok {
					continue
				}
				so := &msgstore.SearchMessageOptions{Limit: max(1, lim), In: ent}
				if op.A%3 == 0 {
					so.From = c07Nicks[op.Nick%len(c07Nicks)]
				}
				if op.B%3 != 0 {
					so.Text = op.Q
					if op.B%4 == 0 {
						so.Text += " " + c07Words[op.A%len(c07Words)]
					}
				}
				if op.A%4 == 1 {
					so.Start = bound(op.A)
				}
				if op.B%4 == 1 {
					so.End = bound(op.B)
				}
				if strings.ContainsAny(so.Text, "\x02\x03\x0f") {
					so.Text = stripFormat.Replace(so.Text)
					if c.Store == "fs" {
						continue
					}
				}
				keep := func(x refMsg) bool {
					if so.From != "" && x.m.Prefix.Name != so.From {
						return false
					}
					if so.Text == "" {
						return true
					}
					if c.Store == "fs" {
						return strings.Contains(strings.ToLower(x.m.Params[1]), strings.ToLower(so.Text))
					}
					return ftsMatch(stripFormat.Replace(x.m.Params[1]), so.Text)
				}
				got, err := ss.Search(ctxBg, net, so)
				if err := expect(fmt.Sprintf("%s: Search(%+v)", what, *so), ent, got, err, refSelect(l, so.Start, so.End, so.Limit, false, so.Start.IsZero(), keep)); err != nil {
					return err
				}
			case "targets":
				if !isCH {
					continue
				}
				a, b := bound(op.A), bound(op.B)
				if op.A%4 == 0 {
					a, b = time.Unix(0, 0), time.Now().Add(time.Hour)
				}
				if a.Equal(b) {
					continue
				}
				got, err := ch.ListTargets(ctxBg, net, a, b, max(1, lim), op.Ev || c.Store == "fs")
				if err != nil {
					return vio("query-error", "%s: ListTargets: %v", what, err)
				}
				nq++
				lo, hi := a, b
				if hi.Before(lo) {
					lo, hi = hi, lo
				}
				type tgt struct {
					name string
					t    time.Time
				}
				var want []tgt
				for e := range c07Ents {
					var last time.Time
					for _, x := range model[key(op.Net%2, e)] {
						if (op.Ev || c.Store == "fs" || isChat(x.m)) && x.t.After(last) {
							last = x.t
						}
					}
					if !last.IsZero() && last.After(lo) && last.Before(hi) {
						want = append(want, tgt{c07Ents[e], last})
					}
				}
				total := len(want)
				n := min(total, max(1, lim))
				if len(got) != n {
					return vio("targets", "%s: ListTargets(%v, %v, %d) returned %d targets %v, expected %d of %v", what, a, b, lim, len(got), got, n, want)
				}
				// the limit keeps the targets nearest to the first bound
				sort.Slice(want, func(i, j int) bool {
					if a.Before(b) {
						return want[i].t.Before(want[j].t)
					}
					return want[j].t.Before(want[i].t)
				})
				seen := map[string]bool{}
				for i, g := range got {
					ok := false
					for _, w := range want {
						nm := w.name
						if c.Store == "fs" {
							nm = strings.NewReplacer("/", "-", "\\", "-").Replace(nm)
							if nm == ".." {
								nm = "--"
							}
						}
						if nm == g.Name && w.t.Equal(g.LatestMessage) {
							ok = true
							if a.Before(b) && w.t.After(want[n-1].t) || b.Before(a) && w.t.Before(want[n-1].t) {
								return vio("targets", "%s: ListTargets(%v, %v, %d) returned %v although nearer targets exist in %v", what, a, b, lim, got, want)
							}
						}
					}
					if !ok || seen[g.Name] {
						return vio("targets", "%s: ListTargets(%v, %v, %d) returned %v, expected %v", what, a, b, lim, got, want)
					}
					seen[g.Name] = true
					_ = i
				}
				for i := 2; i < len(got); i++ {
					x, y, z := got[i-2].LatestMessage, got[i-1].LatestMessage, got[i].LatestMessage
					if y.After(x) && y.After(z) || y.Before(x) && y.Before(z) {
						return vio("targets", "%s: targets aren't ordered by time: %v", what, got)
					}
				}
			case "rename":
				rs, ok := st.(msgstore.RenameNetworkStore)
				if !ok {
					continue
				}
				nn := *net
				nn.Name = fmt.Sprintf("renamed%d", op.A%3)
				if nn.Name == net.Name || nn.Name == nets[1-op.Net%2].Name {
					continue
				}
				has := false
				for e := range c07Ents {
					has = has || len(model[key(op.Net%2, e)]) > 0
				}
				err := rs.RenameNetwork(net, &nn)
				if has && err != nil {
					return vio("rename", "%s: RenameNetwork(%q -> %q): %v", what, net.Name, nn.Name, err)
				}
				*net = nn
				r.Count("renames")
			case "reopen":
				if c.Store == "memory" {
					continue
				}
				if err := st.Close(); err != nil {
					return vio("close", "Close: %v", err)
				}
				open()
			}
		}
		for e, ent := range c07Ents {
			for n := range nets {
				ch, ok := st.(msgstore.ChatHistoryStore)
				if !ok {
					continue
				}
				if time.Now().Nanosecond() == 0 {
					time.Sleep(time.Millisecond)
				}
				l := model[key(n, e)]
				got, err := ch.LoadBeforeTime(ctxBg, time.Now(), time.Time{}, &msgstore.LoadMessageOptions{Network: nets[n], Entity: ent, Limit: 10000, Events: true})
				if err := expect(fmt.Sprintf("end: all of %q", ent), ent, got, err, refSelect(l, time.Time{}, time.Now(), 10000, true, true, nil)); err != nil {
					return err
				}
			}
		}
		if seq >= 3 && nq >= 2 {
			r.NonTrivial()
		}
		return nil
	})
}

func init() {
	p := prop("C07", "at least 3 messages were stored and at least 2 queries compared", 8000, 300000,
		"the file-system store is given messages with non-decreasing times, and no gap of more than 100 days (its documented search bound)")
	add(p, "model", 1, genC07, runC07)
}
