package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C11: saved channels.

type c11Op struct {
	K    string
	Chs  []int
	Keys []int
	S    int
	Alt  bool
	Alt2 bool
	N    int
}

type c11Case struct {
	CM    string
	NoCM  bool // the server does not announce its case mapping
	Store string
	Caps  []string
	Pad   int // length of the long names
	Init  []int
	Ops   []c11Op
}

const c11N = 30

// c11Name is the name of a channel: a few short ones, then long ones.
func (c *c11Case) name(i int) string {
	i = ((i % c11N) + c11N) % c11N
	switch i {
	case 0:
		return "#a"
	case 1:
		return "#Foo[bar]"
	case 2:
		return "#föö~x"
	case 3:
		return "#b"
	case 4:
		return "##c|d"
	}
	return fmt.Sprintf("#%02d%s", i, strings.Repeat("x", c.Pad%180))
}

// c11Alt is another spelling of a name, equal under the case mapping if wide.
func c11Alt(s string, alt, wide bool) string {
	if !alt {
		return s
	}
	s = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r - 32
		}
		return r
	}, s)
	if wide {
		s = strings.NewReplacer("[", "{", "]", "}", "|", "\\").Replace(s)
	}
	return s
}

var c11Keys = []string{"", "k", "secret", "KéY", "0123456789012345678901234567890123456789", "k:ey"}

func genC11(g *G) c11Case {
	c := c11Case{CM: Pick(g, []string{"rfc1459", "ascii", "rfc1459-strict"}), Store: genStore(g), Caps: genUpCaps(g), Pad: Pick(g, []int{1, 10, 45, 150})}
	c.NoCM = c.CM == "rfc1459" && g.P(40)
	pick := func() int {
		if g.P(75) {
			return g.N(5)
		}
		return g.N(c11N)
	}
	for i := 0; i < c11N; i++ {
		if g.P(Pick(g, []int{5, 40})) {
			c.Init = append(c.Init, i*100+g.N(len(c11Keys))+50*g.W(4, 1))
		}
	}
	kinds := []string{"join", "part", "create", "delete", "kick", "invite", "serverjoin", "setkey", "reconnect", "restart", "update", "down", "up", "disable", "login", "logout", "badcreate", "nick", "otherpart", "detach"}
	ws := []int{20, 8, 5, 4, 5, 3, 2, 4, 4, 3, 3, 3, 3, 2, 4, 2, 2, 1, 1, 3}
	for i, n := 0, g.Size(4, 30); i < n; i++ {
		op := c11Op{K: kinds[g.W(ws...)], S: g.N(3), Alt: g.P(30), Alt2: g.P(50), N: g.N(100)}
		if i == 0 {
			op.K = "login"
		}
		m := 1
		if op.K == "join" && g.P(30) {
			m = 1 + g.N(12)
		} else if op.K == "part" && g.P(30) {
			m = 1 + g.N(4)
		}
		for k := 0; k < m; k++ {
			op.Chs = append(op.Chs, pick())
		}
		if g.P(50) {
			for k := 0; k < m; k++ {
				op.Keys = append(op.Keys, g.N(len(c11Keys)))
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runC11(r *R, c c11Case) error {
	if len(c.Init) > 2*c11N {
		return errInvalid{}
	}
	if c.CM == "" {
		c.CM = "ascii"
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s := w.AddServer(srvAddr0)
		s.Ghost = true
		s.CM, s.NoCM, s.Caps = c.CM, c.NoCM && c.CM == "rfc1459", normCaps(c.Caps)
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		saved := map[string]string{} // folded name -> key
		det := map[string]bool{}     // the detached ones
		for _, v := range c.Init {
			if v < 0 {
				return errInvalid{}
			}
			name := c.name(v / 100)
			if _, ok := saved[s.Fold(name)]; ok {
				continue
			}
			key := c11Keys[v%50%len(c11Keys)]
			saved[s.Fold(name)] = key
			det[s.Fold(name)] = v%100 >= 50
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: name, Key: key, Detached: v%100 >= 50}))
		}
		down, disabled := false, false
		joinsOf := func(lines []*irc.Message) (map[string]string, error) {
			got := map[string]string{}
			for _, m := range lines {
				if m.Command != "JOIN" {
					continue
				}
				if l := len(m.String()) + 2; l > 512 {
					return nil, vio("line-length", "JOIN message of %d bytes: %q", l, m)
				}
				if len(m.Params) < 1 || len(m.Params) > 2 {
					return nil, vio("malformed", "malformed %q", m)
				}
				names := strings.Split(m.Params[0], ",")
				var keys []string
				if len(m.Params) > 1 {
					keys = strings.Split(m.Params[1], ",")
				}
				if len(keys) > len(names) {
					return nil, vio("malformed", "more keys than channels: %q", m)
				}
				for i, nm := range names {
					if _, dup := got[s.Fold(nm)]; dup {
						return nil, vio("twice", "channel %q joined twice: %v", nm, fmtMsgs(lines))
					}
					got[s.Fold(nm)] = ""
					if i < len(keys) {
						got[s.Fold(nm)] = keys[i]
					}
				}
			}
			return got, nil
		}
		same := func(desc, class string, got, want map[string]string) error {
			var l []string
			for f, k := range want {
				if gk, ok := got[f]; !ok {
					l = append(l, fmt.Sprintf("%s is missing", f))
				} else if gk != k {
					l = append(l, fmt.Sprintf("%s has key %q, expected %q", f, gk, k))
				}
			}
			for f := range got {
				if _, ok := want[f]; !ok {
					l = append(l, fmt.Sprintf("%s is unexpected", f))
				}
			}
			sort.Strings(l)
			if len(l) > 0 {
				return vio(class, "%s: %s", desc, strings.Join(l, "; "))
			}
			return nil
		}
		// settle waits for the (re)connection and checks what is joined.
		settle := func(desc string) error {
			w.Sleep(1503 * time.Millisecond)
			if down || disabled {
				w.Sleep(200 * time.Second)
				if s.OpenConns() > 0 {
					return vio("connected", "%s: connected to a server which is down or disabled", desc)
				}
				return nil
			}
			for i := 0; i < 20; i++ {
				if uc := s.Conn(); uc != nil && uc.IsRegistered() && !uc.IsClosed() {
					w.Sleep(180 * time.Second) // outgoing messages are rate-limited
					got, err := joinsOf(uc.Take())
					if err != nil {
						return fmt.Errorf("%s: %w", desc, err)
					}
					if len(saved) > 0 {
						r.NonTrivial()
					}
					if len(saved) > 12 && c.Pad%180 > 40 {
						r.Count("long-list-rejoined")
					}
					r.Count("rejoined")
					return same(desc+": after connecting", "rejoin", got, saved)
				}
				w.Sleep(97 * time.Second)
			}
			return vio("no-upstream", "%s: the bouncer does not reconnect to the network", desc)
		}
		w.Start()
		if err := settle("start"); err != nil {
			return err
		}
		var sess []*Client
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d (%s)", i, op.K)
			r.Tracef("--- %s", desc)
			var uc *UpConn
			if !down && !disabled {
				uc = s.Conn()
				uc.Take()
			}
			ch := 0
			if len(op.Chs) > 0 {
				ch = op.Chs[0]
			}
			plain := c.name(ch)
			// other spellings which are equal only beyond ASCII are used
			// only when the bouncer can know the server's case mapping
			wide := func(name string) bool {
				_, ok := saved[s.Fold(name)]
				return ok && op.Alt2 && uc != nil && c.CM == "rfc1459"
			}
			name := c11Alt(plain, op.Alt, wide(plain))
			f := s.Fold(plain)
			var x *Client
			if len(sess) > 0 {
				x = sess[op.S%len(sess)]
				x.Take()
			}
			in := func(nm string) bool { return uc != nil && uc.InChan(nm) }
			svc := func(cmd string, fail bool) error {
				got := x.Do("PRIVMSG BouncerServ :" + cmd)
				ans := ""
				for _, m := range got {
					if m.Command == "PRIVMSG" && m.Prefix != nil && m.Prefix.Name == "BouncerServ" {
						ans += param(m, 1) + "\n"
					}
				}
				if bad := strings.HasPrefix(ans, "error"); ans == "" || bad != fail {
					return vio("answer", "%s: %q answered by %q", desc, cmd, ans)
				}
				return nil
			}
			want := map[string]string{} // joins expected upstream
			checkJoins := uc != nil
			switch op.K {
			case "join":
				if x == nil || len(op.Chs) == 0 {
					break
				}
				var names, keys []string
				seen := map[string]bool{}
				for k, v := range op.Chs {
					nm := c.name(v)
					if seen[s.Fold(nm)] {
						continue
					}
					seen[s.Fold(nm)] = true
					names = append(names, c11Alt(nm, op.Alt, wide(nm)))
					if k < len(op.Keys) {
						keys = append(keys, c11Keys[op.Keys[k]%len(c11Keys)])
					}
				}
				if len(keys) > len(names) {
					keys = keys[:len(names)]
				}
				for len(keys) > 0 && keys[len(keys)-1] == "" {
					keys = keys[:len(keys)-1]
				}
				line := "JOIN " + strings.Join(names, ",")
				if len(keys) > 0 {
					line += " :" + strings.Join(keys, ",")
				}
				if len(line) > 510 {
					break
				}
				for k, nm := range names {
					key := ""
					if k < len(keys) {
						key = keys[k]
					}
					if uc == nil {
						continue
					}
					if !in(nm) {
						want[s.Fold(nm)] = key
					}
					if _, ok := saved[s.Fold(nm)]; !ok || key != "" {
						saved[s.Fold(nm)] = key
					}
					delete(det, s.Fold(nm))
				}
				x.Do(line)
			case "part":
				if x == nil || len(op.Chs) == 0 {
					break
				}
				var names []string
				for _, v := range op.Chs {
					names = append(names, c11Alt(c.name(v), op.Alt, wide(c.name(v))))
					if uc != nil {
						delete(saved, s.Fold(c.name(v)))
						delete(det, s.Fold(c.name(v)))
					}
				}
				line := "PART " + strings.Join(names, ",")
				if op.N%2 == 0 {
					line += " :bye"
				}
				if len(line) > 510 {
					return errInvalid{}
				}
				x.Do(line)
				w.Sleep(60 * time.Second)
				if uc != nil {
					for _, nm := range names {
						if in(nm) {
							return vio("part", "%s: %q: still in %s", desc, line, nm)
						}
					}
				}
			case "create":
				if x == nil {
					break
				}
				_, exists := saved[f]
				if err := svc("channel create "+strings.ReplaceAll(name, `\`, `\\`), exists); err != nil {
					return err
				}
				if !exists {
					saved[f] = ""
					if uc != nil {
						want[f] = ""
					}
				}
			case "badcreate":
				if x == nil {
					break
				}
				bad := []string{`"#a b"`, "#x,#y", `""`, "#q -detach-after x", "#q -unknown 1"}[op.N%5]
				if err := svc("channel create "+bad, true); err != nil {
					return err
				}
			case "delete":
				if x == nil {
					break
				}
				_, exists := saved[f]
				if err := svc("channel delete "+strings.ReplaceAll(name, `\`, `\\`), !exists); err != nil {
					return err
				}
				w.Sleep(60 * time.Second)
				if exists && in(plain) {
					return vio("part", "%s: still in the deleted channel %s", desc, plain)
				}
				delete(saved, f)
				delete(det, f)
			case "detach":
				if x == nil || uc == nil {
					break
				}
				x.Do("PART " + name + " :detach")
				if _, ok := saved[f]; !ok {
					saved[f] = ""
				}
				det[f] = true
				r.Count("detached")
			case "kick":
				if in(plain) {
					s.With(func() {
						delete(s.Chans[f].Members, s.Fold(uc.Nick))
						uc.Raw(fmt.Sprintf(":op!u@h KICK %s %s :out", name, uc.Nick))
					})
				}
			case "otherpart":
				if in(plain) {
					uc.Raw(fmt.Sprintf(":someone!u@h JOIN %s", name))
					uc.Raw(fmt.Sprintf(":someone!u@h PART %s", name))
					uc.Raw(fmt.Sprintf(":someone!u@h JOIN %s", name))
					uc.Raw(fmt.Sprintf(":op!u@h KICK %s someone :out", name))
				}
			case "invite":
				if uc == nil {
					break
				}
				if key, ok := saved[f]; ok && !in(plain) {
					want[f] = key
				}
				uc.Raw(fmt.Sprintf(":op!u@h INVITE %s %s", uc.CurNick(), name))
			case "serverjoin":
				if uc == nil || in(plain) {
					break
				}
				s.With(func() {
					ch := s.channel(plain, true)
					ch.Members[s.Fold(uc.Nick)] = ""
					uc.Raw(uc.joinMsg(ch, uc.Me))
					uc.names(ch)
				})
			case "setkey":
				s.With(func() { s.channel(plain, true).Key = c11Keys[op.N%len(c11Keys)] })
			case "nick":
				if x != nil && uc != nil {
					x.Do(fmt.Sprintf("NICK nick%d", op.N))
				}
			case "reconnect":
				if uc == nil {
					break
				}
				checkJoins = false
				uc.Close()
				if err := settle(desc); err != nil {
					return err
				}
			case "restart":
				if !w.Stop() {
					return vio("shutdown", "%s: the shutdown does not complete", desc)
				}
				sess = nil
				s.closeAll()
				w.Wait()
				checkJoins = false
				w.Start()
				if err := settle(desc); err != nil {
					return err
				}
			case "update", "disable":
				if x == nil {
					break
				}
				cmd := fmt.Sprintf("network update net0 -realname r%d", i)
				if op.K == "disable" {
					disabled = !disabled
					cmd = fmt.Sprintf("network update net0 -enabled %v", !disabled)
				}
				if err := svc(cmd, false); err != nil {
					return err
				}
				checkJoins = false
				if err := settle(desc); err != nil {
					return err
				}
			case "down":
				if down {
					break
				}
				down = true
				checkJoins = false
				s.SetDown(true)
				s.closeAll()
				if err := settle(desc); err != nil {
					return err
				}
			case "up":
				if !down {
					break
				}
				down = false
				checkJoins = false
				s.SetDown(false)
				if err := settle(desc); err != nil {
					return err
				}
			case "login":
				if len(sess) > 2 {
					break
				}
				cl, msgs := w.Login(LoginOpts{User: "alice", Network: "net0", Client: fmt.Sprint("c", op.S)})
				if msgs == nil {
					return vio("login-refused", "%s: valid registration did not complete", desc)
				}
				sess = append(sess, cl)
			case "logout":
				if x == nil {
					break
				}
				x.Close()
				for k := range sess {
					if sess[k] == x {
						sess = append(append([]*Client{}, sess[:k]...), sess[k+1:]...)
						break
					}
				}
			default:
				return errInvalid{}
			}
			if checkJoins {
				w.Sleep(90 * time.Second) // outgoing messages are rate-limited
			}
			w.Wait()
			if checkJoins {
				got, err := joinsOf(uc.Take())
				if err != nil {
					return fmt.Errorf("%s: %w", desc, err)
				}
				if err := same(desc+": JOIN messages sent", "join", got, want); err != nil {
					return err
				}
			}
			chans, err := w.DB.ListChannels(ctxBg, n.ID)
			w.must(err)
			got := map[string]string{}
			for _, ch := range chans {
				if _, dup := got[s.Fold(ch.Name)]; dup {
					return vio("stored", "%s: %q is saved twice", desc, ch.Name)
				}
				got[s.Fold(ch.Name)] = ch.Key
				if ch.Detached != det[s.Fold(ch.Name)] {
					return vio("stored-detached", "%s: %q is saved with detached=%v", desc, ch.Name, ch.Detached)
				}
			}
			if err := same(desc+": saved channels", "stored", got, saved); err != nil {
				return err
			}
			if x != nil && !x.Closed() {
				// what the service shows is the same set
				got := map[string]string{}
				want := map[string]string{}
				for _, m := range x.Do("PRIVMSG BouncerServ :channel status -network net0") {
					if m.Command != "PRIVMSG" || m.Prefix == nil || m.Prefix.Name != "BouncerServ" {
						continue
					}
					if nm, st, ok := strings.Cut(param(m, 1), " ["); ok && strings.HasPrefix(nm, "#") {
						got[s.Fold(nm)] = strings.TrimSuffix(st, "]")
					}
				}
				for f := range saved {
					switch {
					case down || disabled:
						want[f] = "disconnected"
					case s.Conn().InChan(f):
						want[f] = "joined"
					default:
						want[f] = "parted"
					}
					if det[f] {
						want[f] += ", detached"
					}
				}
				if err := same(desc+": channel status (state shown as key)", "status", got, want); err != nil {
					return err
				}
			}
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C11", "a non-empty set of saved channels was rejoined", 5000, 200000,
		"spellings of a channel which are equal only under the server's case mapping are used only while the bouncer is connected to it",
		"joins and parts requested while the network is disconnected are refused, and change nothing",
		"channel names are shorter than 190 bytes")
	add(p, "rejoin", 1, genC11, runC11)
}
