package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C21: capabilities and ISUPPORT tokens shown to clients are truthful.

type c21Op struct {
	K   string
	S   int
	V   string   // CAP version
	Net bool     // bound to the network
	L   []string // capabilities / tokens
	Pre []string // requests made before registration completes (each a list)
	N   int
}

type c21Case struct {
	Store string
	Caps  []string // upstream
	Tok   []string
	NAK   bool
	Ops   []c21Op
}

var (
	c21Permanent = []string{"batch", "cap-notify", "echo-message", "invite-notify", "server-time", "setname", "draft/pre-away", "draft/read-marker", "draft/no-implicit-names", "soju.im/account-required", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "soju.im/no-implicit-names", "soju.im/read", "soju.im/webpush"}
	c21NeedAll   = []string{"account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor", "message-tags", "multi-prefix", "draft/extended-monitor"}
	c21UpCaps    = []string{"account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor", "message-tags", "multi-prefix", "draft/extended-monitor", "server-time", "batch", "labeled-response", "echo-message", "setname", "invite-notify", "cap-notify", "sasl", "sasl=PLAIN", "sasl=EXTERNAL", "sasl=EXTERNAL,PLAIN", "draft/account-registration", "draft/account-registration=before-connect,email-required", "draft/account-registration=custom-account-name", "unknown/cap"}
	c21Bogus     = []string{"unknown/cap", "nonsense", "labeled-response", "tls", "Batch", "SERVER-TIME"}
	// passed on as they are
	c21Pass = []string{"AWAYLEN=200", "AWAYLEN=300", "BOT=B", "CHANLIMIT=#:50", "CHANNELLEN=64", "CLIENTTAGDENY=*,-draft/react", "ELIST=MNU", "EXCEPTS", "EXCEPTS=e", "EXTBAN=$,ajrxz", "HOSTLEN=63", "INVEX", "KICKLEN=390", "LINELEN=512", "MAXLIST=beI:60", "MAXTARGETS=4", "MODES=4", "MODES", "MONITOR=100", "NAMELEN=150", `NETWORK=My\x20Net`, "NETWORK=Net", `NETWORK=back\x5Cslash`, "NICKLEN=16", "NICKLEN=30", "SAFELIST", "STATUSMSG=@+", "TARGMAX=PRIVMSG:4,NOTICE:4", "TOPICLEN=390", "USERLEN=10", "UTF8ONLY", "WHOX", "ACCOUNTEXTBAN=a"}
	// not passed on
	c21NoPass = []string{"KNOCK", "SILENCE=15", "CPRIVMSG", "DEAF=D", "CALLERID=g", "NAMESX", "UHNAMES", "WATCH=128", "draft/ICON=https://x", "KEYLEN=23", "CHATHISTORY=5", "MSGREFTYPES=msgid", "VAPID=abc", "BOUNCER_NETID=77", "soju.im/FILEHOST=https://evil"}
)

func c21Tokens(g *G, pct int) []string {
	seen := map[string]bool{}
	var l []string
	for _, t := range Subset(g, append(append([]string{}, c21Pass...), c21NoPass...), pct) {
		k, _, _ := strings.Cut(t, "=")
		if !seen[k] {
			seen[k] = true
			l = append(l, t)
		}
	}
	return l
}

func c21UpSet(g *G) []string {
	seen := map[string]bool{}
	var l []string
	for _, t := range Subset(g, c21UpCaps, []int{20, 60, 85}[g.N(3)]) {
		k, _, _ := strings.Cut(t, "=")
		if !seen[k] {
			seen[k] = true
			l = append(l, t)
		}
	}
	return l
}

func c21Req(g *G) []string {
	all := append(append([]string{}, c21Permanent...), c21NeedAll...)
	all = append(all, "sasl", "draft/account-registration", "draft/chathistory", "soju.im/search", "draft/event-playback")
	var l []string
	seen := map[string]bool{}
	for i := 1 + g.W(5, 3, 2, 1); i > 0; i-- {
		n := Pick(g, all)
		if g.P(6) {
			n = Pick(g, c21Bogus)
		}
		if seen[strings.ToLower(n)] {
			continue
		}
		seen[strings.ToLower(n)] = true
		if g.P(25) {
			n = "-" + n
		}
		l = append(l, n)
	}
	return l
}

func genC21(g *G) c21Case {
	c := c21Case{Store: genStore(g), Caps: c21UpSet(g), Tok: c21Tokens(g, 30), NAK: g.P(5)}
	kinds := []string{"login", "logout", "req", "ls", "list", "capnew", "capdel", "tok", "untok", "drop", "down", "up", "stim"}
	ws := []int{8, 2, 12, 2, 2, 4, 4, 4, 3, 3, 1, 2, 8}
	for i, n := 0, g.Size(3, 25); i < n; i++ {
		op := c21Op{K: kinds[g.W(ws...)], S: g.N(3), N: g.N(6)}
		switch op.K {
		case "login":
			op.V = Pick(g, []string{"", "301", "302", "302", "302"})
			op.Net = g.P(80)
			for k := g.N(4); k > 0; k-- {
				op.Pre = append(op.Pre, strings.Join(c21Req(g), " "))
			}
		case "req":
			op.L = c21Req(g)
		case "capnew":
			op.L = c21UpSet(g)
			if len(op.L) > 3 {
				op.L = op.L[:3]
			}
		case "capdel", "untok":
			op.N = g.N(64)
		case "tok":
			op.L = c21Tokens(g, 8)
		case "drop", "up":
			op.L = c21UpSet(g)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c21Sess struct {
	cl     *Client
	net    bool
	v302   bool
	avail  map[string]string
	on     map[string]bool
	tok    map[string]string
	stale  bool // cap-notify isn't enabled: availability must be asked for
	sees   map[string]bool
	events []*irc.Message
}

func c21Decode(s string) string {
	return strings.NewReplacer(`\x20`, " ", `\x5C`, `\`, `\x3D`, "=").Replace(s)
}

// feed interprets what the session received like a client does.
func (x *c21Sess) feed(msgs []*irc.Message, desc string) error {
	for _, m := range msgs {
		switch m.Command {
		case "CAP":
			switch param(m, 1) {
			case "LS":
				x.avail = map[string]string{}
				for _, c := range strings.Fields(param(m, -1)) {
					k, v, has := strings.Cut(c, "=")
					if has && !x.v302 {
						return vio("values", "%s: CAP LS shows values to a client which doesn't know them: %v", desc, m)
					}
					if _, ok := x.avail[k]; ok {
						return vio("listing", "%s: %q is listed twice: %v", desc, k, m)
					}
					x.avail[k] = v
				}
			case "NEW":
				if !x.on["cap-notify"] {
					return vio("unasked-notify", "%s: %v without cap-notify", desc, m)
				}
				for _, c := range strings.Fields(param(m, -1)) {
					k, v, has := strings.Cut(c, "=")
					if has && !x.v302 {
						return vio("values", "%s: CAP NEW shows values to a client which doesn't know them: %v", desc, m)
					}
					if pv, ok := x.avail[k]; ok && pv == v && x.v302 {
						return vio("spurious-new", "%s: %v, which was available already", desc, m)
					}
					x.avail[k] = v
				}
			case "DEL":
				if !x.on["cap-notify"] {
					return vio("unasked-notify", "%s: %v without cap-notify", desc, m)
				}
				for _, c := range strings.Fields(param(m, -1)) {
					if _, ok := x.avail[c]; !ok {
						return vio("spurious-del", "%s: %v, which was not available", desc, m)
					}
					delete(x.avail, c)
					delete(x.on, c)
				}
			}
		case "005":
			if len(m.Params) > 15 {
				return vio("params", "%s: too many parameters in %v", desc, m)
			}
			for _, t := range m.Params[1 : len(m.Params)-1] {
				if strings.HasPrefix(t, "-") {
					delete(x.tok, t[1:])
					continue
				}
				k, v, has := strings.Cut(t, "=")
				x.tok[k] = c21Decode(v)
				if has && v == "" {
					x.tok[k] = "="
				}
			}
		default:
			x.events = append(x.events, m)
		}
	}
	return nil
}

// want decides whether a request has to be acknowledged.
func (x *c21Sess) want(req []string) bool {
	for _, n := range req {
		n = strings.ToLower(n)
		on := !strings.HasPrefix(n, "-")
		n = strings.TrimPrefix(n, "-")
		if x.on[n] == on {
			continue
		}
		if _, ok := x.avail[n]; !ok || n == "soju.im/account-required" || n == "cap-notify" && x.v302 && !on {
			return false
		}
	}
	return true
}

// request sends CAP REQ and judges the reply.
func (x *c21Sess) request(r *R, req []string, desc string) error {
	line := strings.Join(req, " ")
	want := x.want(req)
	msgs := x.cl.Do("CAP REQ :" + line)
	var rep []*irc.Message
	var rest []*irc.Message
	for _, m := range msgs {
		if m.Command == "CAP" && (param(m, 1) == "ACK" || param(m, 1) == "NAK") {
			rep = append(rep, m)
		} else {
			rest = append(rest, m)
		}
	}
	if len(rep) != 1 || param(rep[0], -1) != line {
		return vio("req-reply", "%s: CAP REQ :%s was answered by %s", desc, line, fmtMsgs(msgs))
	}
	if ack := param(rep[0], 1) == "ACK"; ack != want {
		return vio("req-decision", "%s: CAP REQ :%s got %v; available: %v, enabled: %v", desc, line, rep[0], keysOf(x.avail), sortedStrs(x.on))
	}
	if want {
		for _, n := range req {
			n = strings.ToLower(n)
			if strings.HasPrefix(n, "-") {
				delete(x.on, n[1:])
			} else {
				x.on[n] = true
			}
		}
		r.Count("ack")
	} else {
		r.Count("nak")
	}
	return x.feed(rest, desc)
}

// verify compares CAP LIST and CAP LS with the session's view.
func (x *c21Sess) verify(desc string) error {
	m := filter(x.cl.Do("CAP LIST"), "CAP")
	if len(m) != 1 || param(m[0], 1) != "LIST" {
		return vio("list-reply", "%s: CAP LIST was answered by %s", desc, fmtMsgs(m))
	}
	l := strings.Fields(param(m[0], -1))
	sort.Strings(l)
	// without cap-notify the client isn't told what has been disabled
	var on []string
	got := map[string]bool{}
	for _, c := range l {
		got[c] = true
	}
	for _, c := range sortedStrs(x.on) {
		if x.stale && !got[c] && (idxOf(c21NeedAll, c) >= 0 || c == "sasl" || c == "draft/account-registration" || c == "draft/event-playback") {
			delete(x.on, c)
			continue
		}
		on = append(on, c)
	}
	if !eqStrs(l, on) {
		return vio("list", "%s: CAP LIST shows %q, enabled: %q", desc, l, on)
	}
	before := x.avail
	line := "CAP LS"
	if x.v302 {
		line = "CAP LS 302"
	}
	m = filter(x.cl.Do(line), "CAP")
	if len(m) != 1 || param(m[0], 1) != "LS" {
		return vio("ls-reply", "%s: CAP LS was answered by %s", desc, fmtMsgs(m))
	}
	if err := x.feed(m, desc); err != nil {
		return err
	}
	if !x.stale && before != nil {
		f := func(m map[string]string) []string {
			var l []string
			for k, v := range m {
				l = append(l, k+"="+v)
			}
			sort.Strings(l)
			return l
		}
		if a, b := f(before), f(x.avail); !eqStrs(a, b) {
			return vio("availability", "%s: CAP LS shows %q; according to the notifications it is %q", desc, b, a)
		}
	}
	return nil
}

func runC21(r *R, c c21Case) error {
	okTok := map[string]bool{}
	for _, t := range append(append([]string{}, c21Pass...), c21NoPass...) {
		okTok[t] = true
	}
	okUp := map[string]bool{}
	for _, t := range c21UpCaps {
		okUp[t] = true
	}
	for _, t := range c.Tok {
		if !okTok[t] {
			return errInvalid{}
		}
	}
	for _, t := range c.Caps {
		if !okUp[t] {
			return errInvalid{}
		}
	}
	okReq := func(l []string) bool {
		seen := map[string]bool{}
		for _, t := range l {
			n := strings.ToLower(strings.TrimPrefix(t, "-"))
			if n == "" || seen[n] || strings.HasPrefix(n, "-") || strings.ContainsAny(n, " \r\n\x00=:") {
				return false
			}
			for _, b := range []byte(n) {
				if b < 33 || b > 126 {
					return false
				}
			}
			seen[n] = true
		}
		return len(l) > 0
	}
	if c.Store != "memory" && c.Store != "db" && c.Store != "fs" {
		return errInvalid{}
	}
	for _, op := range c.Ops {
		if op.S < 0 || op.N < 0 {
			return errInvalid{}
		}
		switch op.K {
		case "login":
			if op.V != "" && op.V != "301" && op.V != "302" {
				return errInvalid{}
			}
			for _, p := range op.Pre {
				if !okReq(strings.Fields(p)) {
					return errInvalid{}
				}
			}
		case "req":
			if !okReq(op.L) {
				return errInvalid{}
			}
		case "capnew", "drop", "up":
			for _, t := range op.L {
				if !okUp[t] {
					return errInvalid{}
				}
			}
		case "tok":
			for _, t := range op.L {
				if !okTok[t] {
					return errInvalid{}
				}
			}
		}
	}
	passKey := map[string]bool{"CASEMAPPING": true, "CHANMODES": true, "CHANTYPES": true, "PREFIX": true}
	for _, t := range c21Pass {
		k, _, _ := strings.Cut(t, "=")
		passKey[k] = true
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s := w.AddServer(srvAddr0)
		s.Caps = append([]string{}, c.Caps...)
		s.Isupport = append([]string{}, c.Tok...)
		s.NakCaps = c.NAK
		s.Ghost = true
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "al" })
		n := w.AddNetwork(u, "net0", netAddr0, nil)
		w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: "#c"}))
		w.Sleep(137137)
		w.Start()
		w.Sleep(30 * time.Second)
		bob := s.AddUser("bob")
		addBob := func() {
			uc := s.Conn()
			s.With(func() {
				if ch := s.channel("#c", false); ch != nil && s.Users["bob"] != nil {
					if _, ok := ch.Members["bob"]; !ok {
						ch.Members["bob"] = ""
						if uc != nil {
							uc.Raw(uc.joinMsg(ch, bob))
						}
					}
				}
			})
			w.Wait()
		}
		addBob()
		var sess []*c21Sess
		down := false
		lingering := map[string]bool{} // tokens of earlier connections
		// tokens currently declared
		cur := func() map[string]string {
			m := map[string]string{}
			s.With(func() {
				for _, t := range append(append([]string{}, s.Isupport...), "CASEMAPPING="+s.CM, "CHANTYPES=#", "CHANMODES=be,k,l,imnst", fmt.Sprintf("PREFIX=(%s)%s", s.PrefixM, s.PrefixP)) {
					k, v, _ := strings.Cut(t, "=")
					m[k] = c21Decode(v)
				}
			})
			return m
		}
		check := func(desc string) error {
			w.Wait()
			uc := s.Conn()
			if uc != nil && !uc.IsRegistered() {
				uc = nil
			}
			for k, x := range sess {
				d := fmt.Sprintf("%s: session %d", desc, k)
				if err := x.feed(x.cl.Take(), d); err != nil {
					return err
				}
				if x.cl.Closed() {
					return vio("closed", "%s was closed", d)
				}
				if err := x.verify(d); err != nil {
					return err
				}
				// what must be available
				want := map[string]bool{}
				for _, c := range c21Permanent {
					want[c] = true
				}
				if c.Store != "memory" {
					want["draft/chathistory"], want["soju.im/search"] = true, true
					if x.net {
						want["draft/event-playback"] = true
					}
				}
				regValue := ""
				optional := map[string]bool{}
				switch {
				case !x.net:
					for _, c := range c21NeedAll {
						want[c] = true
					}
					want["sasl"] = true
				case uc == nil:
					for _, c := range c21NeedAll {
						optional[c] = true
					}
				default:
					s.With(func() {
						for _, c := range c21NeedAll {
							if uc.Caps[c] {
								want[c] = true
							}
						}
						for _, c := range s.Caps {
							name, v, _ := strings.Cut(c, "=")
							if name == "sasl" && (v == "" || strings.Contains(","+v+",", ",PLAIN,")) {
								want["sasl"] = true
								if !uc.Caps["sasl"] {
									optional["sasl"] = true
								}
							}
							if name == "draft/account-registration" && uc.Caps[name] {
								want[name] = true
								var l []string
								for _, e := range strings.Split(v, ",") {
									if e != "before-connect" {
										l = append(l, e)
									}
								}
								regValue = strings.Join(l, ",")
							}
						}
					})
				}
				for c := range want {
					if _, ok := x.avail[c]; !ok && !optional[c] {
						return vio("missing-cap", "%s isn't offered %q (upstream connected: %v)", d, c, uc != nil)
					}
				}
				for c := range x.avail {
					if !want[c] && !optional[c] {
						return vio("untruthful-cap", "%s is offered %q, which the upstream server doesn't support (connected: %v)", d, c, uc != nil)
					}
				}
				if v := x.avail["draft/account-registration"]; x.v302 && want["draft/account-registration"] && v != regValue {
					return vio("cap-value", "%s: draft/account-registration=%q, expected %q", d, v, regValue)
				}
				// tokens
				toks := cur()
				for t, v := range x.tok {
					if t == "" {
						return vio("token", "%s: empty token", d)
					}
					if !x.net {
						switch t {
						case "soju.im/SAFERATE", "BOT", "CASEMAPPING", "NETWORK", "WHOX", "CHANTYPES", "LINELEN", "VAPID", "soju.im/FILEHOST":
							continue
						}
						return vio("token", "%s isn't bound to a network, but shown %s=%s", d, t, v)
					}
					switch t {
					case "soju.im/SAFERATE":
						continue
					case "BOUNCER_NETID":
						if v != fmt.Sprint(n.ID) {
							return vio("token", "%s: %s=%s", d, t, v)
						}
						continue
					case "CHATHISTORY", "MSGREFTYPES":
						if c.Store == "memory" || t == "CHATHISTORY" && v != "1000" || t == "MSGREFTYPES" && v != "timestamp" {
							return vio("token", "%s: %s=%s", d, t, v)
						}
						continue
					case "VAPID":
						if len(v) < 20 {
							return vio("token", "%s: %s=%s", d, t, v)
						}
						continue
					case "CLIENTTAGDENY":
						if v == "*" {
							lingering[t] = lingering[t] || uc == nil || !uc.Caps["message-tags"]
							if lingering[t] {
								continue
							}
						}
					}
					if !passKey[t] {
						return vio("token", "%s is shown %s=%s, which isn't passed on", d, t, v)
					}
					if wv, ok := toks[t]; uc != nil && (!ok || wv != strings.TrimSuffix(v, "=")) && !(lingering[t] && !ok) {
						return vio("token", "%s: shown %s=%q, the server declares %q (declared: %v)", d, t, v, wv, ok)
					}
				}
				if uc != nil && x.net {
					for t := range toks {
						if _, ok := x.tok[t]; passKey[t] && !ok {
							return vio("token-missing", "%s isn't shown %s=%s", d, t, toks[t])
						}
					}
				}
				if uc != nil && x.net && len(x.on) > 0 {
					r.NonTrivial()
				}
				x.events = nil
			}
			return w.CheckPanics()
		}
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d %s", i, op.K)
			var x *c21Sess
			if len(sess) > 0 {
				x = sess[op.S%len(sess)]
			}
			switch op.K {
			case "login":
				if len(sess) >= 3 {
					continue
				}
				x := &c21Sess{cl: w.Connect(), net: op.Net, v302: op.V == "302", avail: nil, on: map[string]bool{}, tok: map[string]string{}}
				name := "alice"
				if op.Net {
					name += "/net0"
				}
				if err := x.feed(x.cl.Do(strings.TrimSpace("CAP LS "+op.V)), desc); err != nil {
					return err
				}
				if x.avail == nil {
					return vio("ls-reply", "%s: no reply to CAP LS", desc)
				}
				if x.v302 {
					x.on["cap-notify"] = true
				}
				for _, p := range op.Pre {
					if err := x.request(r, strings.Fields(p), desc+" before registration"); err != nil {
						return err
					}
				}
				x.stale = !x.on["cap-notify"]
				msgs := x.cl.Do("PASS pw-alice", "NICK al", "USER "+name+" 0 * :Al", "CAP END")
				if len(filter(msgs, "001")) != 1 {
					return vio("login", "%s: registration didn't complete: %s", desc, fmtMsgs(msgs))
				}
				if err := x.feed(msgs, desc); err != nil {
					return err
				}
				sess = append(sess, x)
				r.Count("login" + op.V)
			case "logout":
				if x == nil {
					continue
				}
				x.cl.Close()
				k := op.S % len(sess)
				sess = append(sess[:k:k], sess[k+1:]...)
			case "req":
				if x == nil {
					continue
				}
				if err := x.request(r, op.L, desc); err != nil {
					return err
				}
				x.stale = !x.on["cap-notify"]
			case "ls", "list":
				// done by check
			case "capnew":
				uc := s.Conn()
				if uc == nil || !uc.IsRegistered() || len(op.L) == 0 {
					continue
				}
				s.With(func() {
					for _, t := range op.L {
						name, _, _ := strings.Cut(t, "=")
						for k, o := range s.Caps {
							if on, _, _ := strings.Cut(o, "="); on == name {
								s.Caps = append(s.Caps[:k:k], s.Caps[k+1:]...)
								break
							}
						}
						s.Caps = append(s.Caps, t)
					}
					uc.Raw(fmt.Sprintf(":%s CAP %s NEW :%s", s.name, uc.Nick, strings.Join(op.L, " ")))
				})
				r.Count("upstream-new")
			case "capdel":
				uc := s.Conn()
				if uc == nil || !uc.IsRegistered() || len(s.Caps) == 0 {
					continue
				}
				s.With(func() {
					k := op.N % len(s.Caps)
					name, _, _ := strings.Cut(s.Caps[k], "=")
					s.Caps = append(s.Caps[:k:k], s.Caps[k+1:]...)
					delete(uc.Caps, name)
					uc.Raw(fmt.Sprintf(":%s CAP %s DEL :%s", s.name, uc.Nick, name))
				})
				r.Count("upstream-del")
			case "tok":
				uc := s.Conn()
				if uc == nil || !uc.IsRegistered() || len(op.L) == 0 || len(op.L) > 12 {
					continue
				}
				s.With(func() {
					for _, t := range op.L {
						name, _, _ := strings.Cut(t, "=")
						for k, o := range s.Isupport {
							if on, _, _ := strings.Cut(o, "="); on == name {
								s.Isupport = append(s.Isupport[:k:k], s.Isupport[k+1:]...)
								break
							}
						}
						s.Isupport = append(s.Isupport, t)
					}
					uc.num("005", strings.Join(op.L, " ")+" :are supported by this server")
				})
				r.Count("tokens-added")
			case "untok":
				uc := s.Conn()
				if uc == nil || !uc.IsRegistered() || len(s.Isupport) == 0 {
					continue
				}
				s.With(func() {
					k := op.N % len(s.Isupport)
					name, _, _ := strings.Cut(s.Isupport[k], "=")
					s.Isupport = append(s.Isupport[:k:k], s.Isupport[k+1:]...)
					uc.num("005", "-"+name+" :are supported by this server")
				})
				r.Count("tokens-removed")
			case "drop", "up":
				if op.K == "up" && !down {
					continue
				}
				if op.K == "drop" && down {
					continue
				}
				for t := range cur() {
					lingering[t] = true
				}
				s.With(func() {
					seen := map[string]bool{}
					s.Caps = nil
					for _, t := range op.L {
						name, _, _ := strings.Cut(t, "=")
						if !seen[name] {
							seen[name] = true
							s.Caps = append(s.Caps, t)
						}
					}
					for k := range s.Isupport {
						if k == op.N {
							s.Isupport = append(s.Isupport[:k:k], s.Isupport[k+1:]...)
							break
						}
					}
				})
				if op.K == "up" {
					s.SetDown(false)
					down = false
				} else {
					s.closeAll()
				}
				w.Sleep(15 * time.Minute)
				s.With(func() { s.Users["bob"] = bob })
				addBob()
				r.Count(op.K)
			case "down":
				s.SetDown(true)
				s.closeAll()
				down = true
				w.Sleep(5 * time.Second)
				r.Count("down")
			case "stim":
				uc := s.Conn()
				if uc == nil || !uc.IsRegistered() || !uc.InChan("#c") {
					continue
				}
				if err := check(desc + " before"); err != nil {
					return err
				}
				caps := map[string]bool{}
				s.With(func() {
					for k, v := range uc.Caps {
						caps[k] = v
					}
					tags := ""
					if caps["message-tags"] {
						tags = "@+x/y=1;msgid=m" + fmt.Sprint(i)
						if caps["account-tag"] {
							tags += ";account=bobacc"
						}
						tags += " "
					} else if caps["account-tag"] {
						tags = "@account=bobacc "
					}
					p := ":" + bob.Prefix()
					uc.Raw(tags + p + " PRIVMSG #c :stim" + fmt.Sprint(i))
					if caps["away-notify"] {
						uc.Raw(p+" AWAY :gone", p+" AWAY")
					}
					if caps["account-notify"] {
						uc.Raw(p + " ACCOUNT bobacc")
						uc.Raw(p + " ACCOUNT *")
					}
					if caps["chghost"] {
						uc.Raw(p + " CHGHOST " + bob.User + " " + bob.Host)
					}
					if caps["setname"] {
						uc.Raw(p + " SETNAME :" + bob.Real)
					}
					if caps["message-tags"] {
						uc.Raw("@+typing=active " + p + " TAGMSG #c")
					}
					if caps["invite-notify"] {
						uc.Raw(p + " INVITE carl #c")
					}
					if caps["extended-join"] {
						uc.Raw(":carl!c@h JOIN #c carlacc :Carl")
					} else {
						uc.Raw(":carl!c@h JOIN #c")
					}
					uc.Raw(":carl!c@h PART #c :bye")
				})
				w.Wait()
				for k, x := range sess {
					d := fmt.Sprintf("%s: session %d", desc, k)
					x.events = nil
					if err := x.feed(x.cl.Take(), d); err != nil {
						return err
					}
					count := func(cmd string) int { return len(filter(x.events, cmd)) }
					exp := func(cmd, cap string, n int) error {
						want := 0
						if x.net && x.on[cap] && caps[cap] {
							want = n
						}
						if got := count(cmd); got != want {
							return vio("effect", "%s: %d %s messages with %s enabled=%v (upstream %v), expected %d", d, got, cmd, cap, x.on[cap], caps[cap], want)
						}
						return nil
					}
					for _, e := range [][3]string{{"AWAY", "away-notify", "2"}, {"ACCOUNT", "account-notify", "2"}, {"CHGHOST", "chghost", "1"}, {"SETNAME", "setname", "1"}, {"TAGMSG", "message-tags", "1"}, {"INVITE", "invite-notify", "1"}} {
						if err := exp(e[0], e[1], int(e[2][0]-'0')); err != nil {
							return err
						}
					}
					for _, m := range x.events {
						for t := range m.Tags {
							ok := x.on["message-tags"] || t == "time" && x.on["server-time"] || t == "account" && x.on["account-tag"] || t == "batch" && x.on["batch"]
							if !ok {
								return vio("effect", "%s: tag %q without a capability for it: %v (enabled: %v)", d, t, m, sortedStrs(x.on))
							}
						}
						switch m.Command {
						case "PRIVMSG":
							if x.on["server-time"] && m.Tags["time"] == "" {
								return vio("effect", "%s: no time on %v", d, m)
							}
							if x.on["message-tags"] && (m.Tags["+x/y"] != "1" || m.Tags["msgid"] == "") {
								return vio("effect", "%s: tags lost on %v", d, m)
							}
							if x.on["account-tag"] && caps["account-tag"] && m.Tags["account"] != "bobacc" {
								return vio("effect", "%s: account tag lost on %v", d, m)
							}
						case "JOIN":
							want := 1
							if x.on["extended-join"] {
								want = 3
							}
							if len(m.Params) != want {
								return vio("effect", "%s: extended-join %v, but %v", d, x.on["extended-join"], m)
							}
						case "BATCH":
							if !x.on["batch"] {
								return vio("effect", "%s: %v without batch", d, m)
							}
						}
					}
					if x.net && (count("PRIVMSG") != 1 || count("JOIN") != 1 || count("PART") != 1) {
						return vio("effect", "%s: messages got lost: %s", d, fmtMsgs(x.events))
					}
				}
				r.Count("stimuli")
			default:
				return errInvalid{}
			}
			w.Sleep(20 * time.Second)
			if err := check(desc); err != nil {
				return err
			}
		}
		return nil
	})
}

func init() {
	p := prop("C21", "a session bound to a connected network has capabilities enabled", 15000, 300000,
		"tokens which only an earlier connection declared may linger; a request doesn't name a capability twice; CAP LS with one version per session")
	add(p, "capabilities", 1, genC21, runC21)
}
