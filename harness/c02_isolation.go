package harness

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C02: isolation, as a differential relation: what one party observes doesn't
// depend on whether the other party is active.

type c02Op struct {
	B    bool   // by the other party
	K    string // "line", "up", "relog", "drop", "sleep", "restart"
	S    int
	L    string
	Race bool // don't wait for the previous operation's effects
}

type c02Case struct {
	Same  bool // two networks of the same user instead of two users
	Store string
	Caps  int
	UpC   []string
	Ops   []c02Op
}

var c02Caps = []string{"echo-message", "batch", "server-time", "message-tags", "extended-join", "draft/read-marker", "draft/chathistory", "soju.im/search", "away-notify", "soju.im/bouncer-networks", "draft/event-playback"}

var c02Lines = []string{
	"JOIN #a", "JOIN #b", "JOIN #c key", "PART #a", "PART #b :bye", "PART #a :detach", "PRIVMSG #a :hello $", "PRIVMSG bob :secret $", "NOTICE #b :note $", "PRIVMSG carl :hi $", "TAGMSG #a", "@+x=y PRIVMSG #a :tagged $",
	"TOPIC #a :topic $", "TOPIC #a", "MODE #a", "MODE #a +n", "NICK nick$", "NICK mynick", "AWAY :away $", "AWAY", "MONITOR + bob,carl", "MONITOR + dave", "MONITOR - bob", "MONITOR L", "MONITOR S", "MONITOR C",
	"WHO #a", "WHO bob", "WHOIS bob", "WHOIS mynick", "NAMES #a", "LIST", "INVITE bob #a", "KICK #a bob :x", "SETNAME :real $",
	"CHATHISTORY LATEST #a * 20", "CHATHISTORY LATEST bob * 20", "CHATHISTORY TARGETS timestamp=1999-01-01T00:00:00.000Z timestamp=2099-01-01T00:00:00.000Z 50", "CHATHISTORY BEFORE #b timestamp=2099-01-01T00:00:00.000Z 50",
	"MARKREAD #a timestamp=2000-01-01T00:00:0$.000Z", "MARKREAD #a", "MARKREAD bob timestamp=2000-01-01T00:00:0$.500Z", "MARKREAD bob", "SEARCH in=#a;text=hello", "SEARCH text=secret", "SEARCH from=bob",
	"PRIVMSG BouncerServ :channel status", "PRIVMSG BouncerServ :channel create #s$", "PRIVMSG BouncerServ :channel update #a -detach-after 1h", "PRIVMSG BouncerServ :channel update #b -detached true -relay-detached message", "PRIVMSG BouncerServ :channel delete #b",
	"INFO", "VERSION", "MOTD", "STATS u",
}

// c02Admin are lines which concern all networks of a user.
var c02Admin = []string{
	"PRIVMSG BouncerServ :network status", "BOUNCER LISTNETWORKS", "PRIVMSG BouncerServ :network create -addr irc+insecure://10.9.9.$:1 -name extra$", "PRIVMSG BouncerServ :network delete extra$", "PRIVMSG BouncerServ :network update net0 -nick other$", "PRIVMSG BouncerServ :network update net0 -connect-command \"MODE x$\"", "PRIVMSG BouncerServ :network update net0 -realname rn$", "PRIVMSG BouncerServ :user update -nick usernick$", "PRIVMSG BouncerServ :user update -realname ur$",
	"PRIVMSG BouncerServ :sasl set-plain -network net0 acct$ pw$", "PRIVMSG BouncerServ :sasl status -network net0", "PRIVMSG BouncerServ :sasl reset -network net0", "PRIVMSG BouncerServ :network quote net0 \"PRIVMSG bob :quoted $\"", "PRIVMSG BouncerServ :certfp fingerprint -network net0",
	"BOUNCER ADDNETWORK name=bn$;host=10.9.8.$;tls=0", "PRIVMSG BouncerServ :network delete bn$",
	"WEBPUSH REGISTER https://1.2.3.$/x p256dh=BP4z9KsN6nGRTbVYI_c7VJSPQTBtkgcy27mlmlMoZIIgDll6e3vCYLocInmYWAmS6TlzAC8wEqKK6PBru3jl7A8;auth=BTBZMqHH6r4Tts7J_aSIgg",
}

// c02Hostile are lines which try to reach another user's things.
var c02Hostile = []string{
	"BOUNCER CHANGENETWORK # nickname=evil", "BOUNCER DELNETWORK #", "BOUNCER BIND #", "PRIVMSG BouncerServ :user update alice -password x", "PRIVMSG BouncerServ :user update alice -enabled false", "PRIVMSG BouncerServ :user delete alice", "PRIVMSG BouncerServ :user delete alice 522b27", "PRIVMSG BouncerServ :user run alice network delete net0", "PRIVMSG BouncerServ :user status", "PRIVMSG BouncerServ :user status alice", "PRIVMSG BouncerServ :server notice evil", "PRIVMSG BouncerServ :server status", "PRIVMSG BouncerServ :network delete net1", "PRIVMSG BouncerServ :network update net1 -nick evil", "NOTICE $* :evil", "PRIVMSG $$ :evil", "PRIVMSG BouncerServ :server debug true", "PRIVMSG BouncerServ :user create -username alice -password x",
}

var c02Up = []string{
	":bob!u@h PRIVMSG #a :msg $", ":bob!u@h PRIVMSG mynick :private $", ":carl!u@h NOTICE #b :note $", ":bob!u@h PRIVMSG #a :mynick: highlight $", ":bob!u@h JOIN #a", ":bob!u@h PART #a", ":bob!u@h QUIT :x", ":bob!u@h NICK carl", ":carl!u@h NICK bob", ":bob!u@h TOPIC #a :t $", ":bob!u@h MODE #a +o carl", ":bob!u@h KICK #a carl :k", ":bob!u@h AWAY :gone", ":bob!u@h AWAY", ":srv 730 mynick :bob!u@h", ":srv 731 mynick :carl", ":srv 401 mynick bob :No such nick", ":srv 404 mynick #a :Cannot send", ":srv 433 mynick nick :used", ":bob!u@h INVITE mynick #b", ":srv NOTICE mynick :server notice $", ":srv WALLOPS :w $", ":srv 005 mynick NETWORK=N$ :are supported", ":srv 352 mynick #a u h srv bob H :0 real", ":srv 315 mynick #a :End", ":srv ERROR :x", ":srv 999 mynick :odd $", ":srv FAIL X Y :z $",
}

func genC02(g *G) c02Case {
	c := c02Case{Same: g.P(40), Store: genStore(g), Caps: g.N(1 << len(c02Caps)), UpC: genUpCaps(g)}
	for i, n := 0, g.Size(6, 40); i < n; i++ {
		op := c02Op{B: g.P(55), S: g.N(3), K: []string{"line", "up", "relog", "drop", "sleep", "restart"}[g.W(60, 25, 5, 2, 5, 1)], Race: g.P(30)}
		switch op.K {
		case "line":
			lines := c02Lines
			if !c.Same {
				if g.P(20) {
					lines = c02Admin
				}
				if op.B && g.P(20) {
					lines = c02Hostile
				}
			}
			op.L = Pick(g, lines)
		case "up":
			op.L = Pick(g, c02Up)
			if c.Same && strings.Contains(op.L, " 73") {
				// Unsolicited MONITOR replies are undone the next time
				// any session of the user comes or goes, which is harmless.
				op.L = c02Up[0]
			}
		}
		op.L = strings.ReplaceAll(op.L, "#\x00", "#")
		op.L = strings.Map(func(r rune) rune {
			if r == '$' {
				return rune('0' + g.N(10))
			}
			return r
		}, op.L)
		if strings.HasPrefix(op.L, "BOUNCER") {
			op.L = strings.ReplaceAll(op.L, " #", fmt.Sprintf(" %d", 1+g.N(6)))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

var c02Host = regexp.MustCompile(`10\.2\.0\.[0-9]+`)

// c02Norm makes a line comparable: the order of lists and counters which are
// shared by all users don't matter.
func c02Norm(m *irc.Message) string {
	m = m.Copy()
	keep := irc.Tags{}
	for k, v := range m.Tags {
		if k != "time" && k != "label" && k != "batch" && k != "msgid" {
			keep[k] = v
		}
	}
	m.Tags = keep
	if m.Command == "BOUNCER" {
		for i, p := range m.Params {
			if _, err := strconv.Atoi(p); err == nil {
				m.Params[i] = "ID"
			}
		}
	}
	if m.Command == "324" && len(m.Params) > 2 {
		b := []byte(m.Params[2])
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
		m.Params[2] = string(b)
	}
	if m.Command == "BATCH" && len(m.Params) > 0 {
		m.Params[0] = m.Params[0][:1]
	}
	f := strings.FieldsFunc(c02Host.ReplaceAllString(m.String(), "HOST"), func(r rune) bool { return r == ' ' || r == ',' || r == ':' || r == ';' })
	sort.Strings(f)
	return strings.Join(f, " ")
}

func c02World(r *R, c c02Case, other bool) (obs []string, err error) {
	err = bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		sa, sb := w.AddServer(srvAddr0), w.AddServer(srvAddr1)
		for _, s := range []*IRCd{sa, sb} {
			s.Ghost = true
			s.Caps = append([]string(nil), normCaps(c.UpC)...)
			s.Isupport = append(s.Isupport, "MONITOR=100")
			for _, n := range []string{"bob", "carl"} {
				s.AddUser(n)
			}
		}
		ali := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		na := w.AddNetwork(ali, "net0", netAddr0, nil)
		var nb *database.Network
		bUser, bNet := "alice", "net1"
		if c.Same {
			nb = w.AddNetwork(ali, "net1", netAddr1, func(n *database.Network) { n.Nick = "mynick" })
		} else {
			mal := w.AddUser("mallory", func(u *database.User) { u.Nick = "mynick" })
			nb = w.AddNetwork(mal, "net0", netAddr1, nil)
			w.AddNetwork(mal, "net1", "irc+insecure://10.9.9.9:1", nil)
			bUser, bNet = "mallory", "net0"
		}
		_ = nb
		for _, n := range []*database.Network{na, nb} {
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: "#a"}))
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: "#b"}))
		}
		w.Start()
		w.Sleep(4*time.Second + 137137)
		var as, bs []*Client
		login := func(b bool, i int) *Client {
			var caps []string
			for j, k := range c02Caps {
				if c.Caps>>j&1 == 1 && (k != "draft/chathistory" || c.Store != "none") && !(c.Same && k == "soju.im/bouncer-networks") {
					caps = append(caps, k)
				}
			}
			o := LoginOpts{User: "alice", Network: "net0", Client: fmt.Sprintf("c%d", i)}
			if b {
				o.User, o.Network = bUser, bNet
			}
			if i == 2 && !c.Same {
				o.Network = ""
			}
			cl := w.Connect()
			cl.Send("CAP LS 302")
			for _, k := range caps {
				cl.Send("CAP REQ :" + k)
			}
			ident := o.User
			if o.Network != "" {
				ident += "/" + o.Network
			}
			cl.Send("PASS pw-"+o.User, "NICK mynick", "USER "+ident+"@"+o.Client+" 0 * :real", "CAP END")
			w.Wait()
			return cl
		}
		ids := func(s string) string { return s }
		snap := func(what string) {
			var out []string
			for i, cl := range as {
				var l []string
				for _, m := range cl.Take() {
					if m.Command == "PING" || m.Command == "PONG" {
						continue
					}
					l = append(l, c02Norm(m))
				}
				sort.Strings(l)
				out = append(out, fmt.Sprintf("client %d:\n  %s", i, strings.Join(l, "\n  ")))
			}
			var l []string
			for _, uc := range sa.Conns() {
				for _, m := range uc.Take() {
					if m.Command == "PING" || m.Command == "PONG" {
						continue
					}
					l = append(l, c02Norm(m))
				}
			}
			sort.Strings(l)
			out = append(out, "server:\n  "+strings.Join(l, "\n  "))
			obs = append(obs, what+"\n"+ids(strings.Join(out, "\n")))
		}
		// the network IDs of alice, in the order of creation
		ids = func(s string) string {
			ns, err := w.DB.ListNetworks(ctxBg, ali.ID)
			w.must(err)
			for _, n := range ns {
				s = strings.ReplaceAll(s, fmt.Sprintf("BOUNCER_NETID=%d", n.ID), "BOUNCER_NETID="+n.Name)
			}
			return s
		}
		nA := 3
		for i := 0; i < nA; i++ {
			as = append(as, login(false, i))
			if other {
				bs = append(bs, login(true, i))
			}
		}
		w.Sleep(time.Minute)
		snap("start")
		race := false
		for oi, op := range c.Ops {
			if op.S < 0 || op.S > 2 {
				return errInvalid{}
			}
			if !op.B || other {
				cls, srv := as, sa
				if op.B {
					cls, srv = bs, sb
				}
				switch op.K {
				case "line":
					cls[op.S].Send(op.L)
				case "up":
					if c.Same && !strings.HasPrefix(op.L, ":bob!") && !strings.HasPrefix(op.L, ":carl!") && !strings.HasPrefix(op.L, ":srv ") && op.L != "FAIL" || c.Same && strings.Contains(op.L, "73") {
						return errInvalid{}
					}
					if uc := srv.Conn(); uc != nil && uc.IsRegistered() {
						uc.Raw(op.L)
					}
				case "relog":
					cls[op.S].Close()
					w.Wait()
					cls[op.S] = login(op.B, op.S)
				case "drop":
					if uc := srv.Conn(); uc != nil {
						uc.Close()
					}
				case "sleep", "restart":
				default:
					return errInvalid{}
				}
			}
			if op.K == "restart" {
				w.Stop()
				w.Start()
				w.Sleep(4*time.Second + 137137)
				for i := range as {
					as[i] = login(false, i)
					if other {
						bs[i] = login(true, i)
					}
				}
			}
			race = !race && op.Race && oi+1 < len(c.Ops) && c.Ops[oi+1].B != op.B
			if !race {
				w.Sleep(500 * time.Millisecond)
				if op.K == "drop" {
					w.Sleep(5 * time.Minute)
				}
				if op.K == "sleep" || op.K == "restart" {
					w.Sleep(2 * time.Minute)
				}
			}
			if other {
				for _, b := range bs {
					b.Take()
				}
			}
			if !race {
				snap(fmt.Sprintf("op %d %v", oi, op))
			}
		}
		w.Sleep(3 * time.Minute)
		snap("end")
		// Stored state
		var db []string
		ns, err := w.DB.ListNetworks(ctxBg, ali.ID)
		w.must(err)
		for _, n := range ns {
			if c.Same && n.ID != na.ID {
				continue
			}
			id := n.ID
			n.ID = 0
			db = append(db, fmt.Sprintf("network %+v", n))
			chs, err := w.DB.ListChannels(ctxBg, id)
			w.must(err)
			for _, ch := range chs {
				ch.ID = 0
				ch.DetachedInternalMsgID = ""
				db = append(db, fmt.Sprintf("channel %s %+v", n.Name, ch))
			}
			for _, t := range []string{"#a", "#b", "bob", "carl"} {
				rr, err := w.DB.GetReadReceipt(ctxBg, id, t)
				w.must(err)
				if rr != nil {
					db = append(db, fmt.Sprintf("marker %s %s %v", n.Name, t, rr.Timestamp.UTC()))
				}
			}
			subs, err := w.DB.ListWebPushSubscriptions(ctxBg, ali.ID, id)
			w.must(err)
			for _, s := range subs {
				db = append(db, "push "+s.Endpoint)
			}
		}
		if !c.Same {
			u, err := w.DB.GetUser(ctxBg, "alice")
			if err != nil {
				db = append(db, "no user: "+err.Error())
			} else {
				u.DownstreamInteractedAt = time.Time{}
				db = append(db, fmt.Sprintf("user %+v", *u))
			}
		}
		sort.Strings(db)
		obs = append(obs, strings.Join(db, "\n"))
		// History
		var hist []string
		for _, t := range []string{"#a", "#b", "bob", "carl"} {
			cl, _ := w.Login(LoginOpts{User: "alice", Network: "net0", Client: "hist", Caps: []string{"batch", "server-time", "draft/chathistory", "draft/event-playback"}})
			cl.Take()
			for _, m := range cl.Do("CHATHISTORY LATEST " + t + " * 100") {
				hist = append(hist, t+" "+c02Norm(m))
			}
			cl.Close()
		}
		obs = append(obs, "history:\n"+strings.Join(hist, "\n"))
		return w.CheckPanics()
	})
	return obs, err
}

func c02Diff(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			bl := "(nothing)"
			if i < len(b) {
				bl = b[i]
			}
			la, lb := strings.Split(a[i], "\n"), strings.Split(bl, "\n")
			inA, inB := map[string]int{}, map[string]int{}
			for _, l := range la {
				inA[l]++
			}
			for _, l := range lb {
				inB[l]++
			}
			d := la[0] + ":"
			for _, l := range la {
				if inB[l] < inA[l] {
					d += "\n only without the other party: " + l
					inA[l]--
				}
			}
			for _, l := range lb {
				if inA[l] < inB[l] {
					d += "\n only with the other party: " + l
					inB[l]--
				}
			}
			return d
		}
	}
	return ""
}

func runC02(r *R, c c02Case) error {
	nb := 0
	for _, op := range c.Ops {
		if op.B {
			nb++
		}
	}
	if nb == 0 {
		return nil
	}
	alone, err := c02World(r, c, false)
	if err != nil {
		return err
	}
	both, err := c02World(r, c, true)
	if err != nil {
		return err
	}
	if nb < len(c.Ops) {
		r.NonTrivial()
	}
	d := c02Diff(alone, both)
	if d == "" {
		return nil
	}
	// Is what is observed a function of the party's own actions at all?
	for i := 0; i < 10; i++ {
		again, err := c02World(r, c, false)
		if err != nil {
			return err
		}
		if c02Diff(alone, again) != "" {
			r.Count("not deterministic")
			return nil
		}
		again, err = c02World(r, c, true)
		if err != nil {
			return err
		}
		if c02Diff(alone, again) == "" {
			r.Count("not deterministic")
			return nil
		}
	}
	return vio("interference", "the observations of a party depend on another one: %s", d)
}

func init() {
	p := prop("C02", "both parties act", 5000, 150000,
		"the two parties are connected to different IRC servers, so that they can only interact through the bouncer",
		"orders of lists, timestamps and counters shared by all users (labels, message and batch ids) are ignored")
	add(p, "noninterference", 1, genC02, runC02)
}
