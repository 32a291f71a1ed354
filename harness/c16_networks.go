package harness

import (
	"fmt"
	"net"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C16: network management.

type c16Field struct{ K, V string }

type c16Op struct {
	K   string
	S   int // session
	Net int // index of the network (modulo), large: unknown
	F   []c16Field
	Par bool // sent together with the next one
	N   int
	V   string
}

type c16Sess struct {
	Net    int // 0: unbound, else index+1
	Notify bool
	BN     bool
}

type c16Case struct {
	Admin    bool
	Nick     string
	Realname string
	Caps     []string
	Init     [][]c16Field
	Sess     []c16Sess
	Ops      []c16Op
}

var c16Servers = []string{"10.1.0.1:6667", "10.1.0.2:6667", "10.1.0.3:7000", "[2001:db8::5]:6667", "10.1.0.1:6697"}

var c16Addrs = []string{"irc+insecure://10.1.0.1", "irc+insecure://10.1.0.1:6667", "irc+insecure://10.1.0.2:6667", "irc+insecure://10.1.0.3:7000", "irc+insecure://10.1.0.3", "irc+insecure://[2001:db8::5]:6667", "irc+insecure://[2001:db8::5]", "10.1.0.9", "ircs://10.1.0.9:7001", "irc+insecure://unreachable.test", "irc+insecure://10.1.0.1:6697", "ircs://10.1.0.9:6697", "ircs://10.1.0.9:6667"}

var c16BadAddrs = []string{"", "http://10.1.0.1", "irc+insecure://", "irc+insecure://10.1.0.1/path", "irc+insecure://user:pw@10.1.0.1", "irc+insecure://10.1.0.1?x=y", "irc+insecure://10.1.0.1#frag", "irc+insecure://[bad", "ircs://", "irc://10.1.0.1", "foo bar", "unix://"}

func c16SvcField(g *G) c16Field {
	bad := g.P(6)
	switch k := Pick(g, []string{"addr", "addr", "name", "name", "nick", "username", "pass", "realname", "certfp", "auto-away", "enabled", "enabled", "connect-command"}); k {
	case "addr":
		if bad {
			return c16Field{k, Pick(g, c16BadAddrs)}
		} else if g.P(5) {
			return c16Field{k, Pick(g, []string{"unix:///tmp/verif-none.sock", "irc+unix:///tmp/verif-none.sock"})}
		}
		return c16Field{k, Pick(g, c16Addrs)}
	case "name":
		if bad {
			return c16Field{k, Pick(g, []string{"*", "-x"})}
		}
		return c16Field{k, Pick(g, []string{"net0", "net1", "Net0", "other", "sp ace", "ünï", "a;b=c\\d", "", "10.1.0.9", "quo\"te"})}
	case "nick":
		return c16Field{k, Pick(g, []string{"nicka", "nickb", "alice", "mynick", ""})}
	case "username":
		return c16Field{k, Pick(g, []string{"ident1", "ident2", ""})}
	case "pass":
		return c16Field{k, Pick(g, []string{"sekret", "p:w", "with space", ""})}
	case "realname":
		return c16Field{k, Pick(g, []string{"Real Name", "real;two", "Alice R", ""})}
	case "certfp":
		if bad {
			return c16Field{k, Pick(g, []string{"zz", "00", strings.Repeat("a", 63), strings.Repeat("g", 64)})}
		}
		return c16Field{k, Pick(g, []string{strings.Repeat("ab", 32), strings.Repeat("AB:", 31) + "AB", strings.Repeat("0f", 64), ""})}
	case "auto-away", "enabled":
		if bad {
			return c16Field{k, Pick(g, []string{"yes please", "2"})}
		}
		return c16Field{k, Pick(g, []string{"true", "false"})}
	default:
		if bad {
			return c16Field{k, ":onlyprefix"}
		}
		return c16Field{k, Pick(g, []string{"MODE x +i", "PRIVMSG bob :hi there", "", "PING 1"})}
	}
}

func c16BncField(g *G) c16Field {
	bad := g.P(5)
	if bad {
		return c16Field{Pick(g, []string{"state", "error", "foo", "Host", "certfp", "enabled"}), Pick(g, []string{"connected", "x", ""})}
	}
	switch k := Pick(g, []string{"host", "host", "port", "tls", "name", "name", "nickname", "username", "realname", "pass"}); k {
	case "host":
		return c16Field{k, Pick(g, []string{"10.1.0.1", "10.1.0.2", "10.1.0.3", "2001:db8::5", "unreachable.test", ""})}
	case "port":
		return c16Field{k, Pick(g, []string{"6667", "7000", "6667", "7001", "6697", ""})}
	case "tls":
		return c16Field{k, Pick(g, []string{"0", "0", "0", "1"})}
	case "name":
		return c16Field{k, Pick(g, []string{"net0", "net1", "Net0", "other", "sp ace", "ünï", "a;b=c\\d", "", "-x", "*"})}
	case "nickname":
		return c16Field{k, Pick(g, []string{"nicka", "nickb", "alice", "mynick", ""})}
	case "username":
		return c16Field{k, Pick(g, []string{"ident1", "ident2", ""})}
	case "realname":
		return c16Field{k, Pick(g, []string{"Real Name", "real;two", "Alice R", ""})}
	default:
		return c16Field{k, Pick(g, []string{"sekret", "p:w", ""})}
	}
}

func c16Fields(g *G, f func(*G) c16Field, lo, hi int) []c16Field {
	var l []c16Field
	seen := map[string]bool{}
	for i, n := 0, lo+g.N(hi-lo+1); i < n; i++ {
		x := f(g)
		if seen[x.K] && x.K != "connect-command" {
			continue
		}
		seen[x.K] = true
		l = append(l, x)
		if x.K == "connect-command" && g.P(12) {
			for k, n := 0, 18+g.N(4); k < n; k++ {
				l = append(l, c16Field{x.K, "PING 1"})
			}
		}
	}
	return l
}

func genC16(g *G) c16Case {
	c := c16Case{Admin: g.P(30), Nick: Pick(g, []string{"", "mynick", "alice"}), Realname: Pick(g, []string{"", "Alice R"}), Caps: genUpCaps(g)}
	for i, n := 0, g.N(3); i < n; i++ {
		c.Init = append(c.Init, []c16Field{{"addr", Pick(g, c16Addrs)}, {"name", fmt.Sprintf("net%d", i)}, {"enabled", Pick(g, []string{"true", "true", "false"})}})
	}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		s := c16Sess{Notify: g.P(60), BN: g.P(80)}
		if g.P(40) {
			s.Net = g.N(len(c.Init) + 1)
		}
		c.Sess = append(c.Sess, s)
	}
	kinds := []string{"svc-create", "svc-update", "svc-delete", "add", "change", "del", "down", "up", "nick", "usernick", "userreal", "setname", "login", "restart", "kill", "welcome-race"}
	ws := []int{12, 16, 4, 10, 14, 3, 4, 4, 3, 2, 2, 2, 3, 2, 2, 4}
	for i, n := 0, g.Size(2, 16); i < n; i++ {
		op := c16Op{K: kinds[g.W(ws...)], S: g.N(8), Net: g.N(6), N: g.N(100)}
		if g.P(5) {
			op.Net = 100
		}
		op.Par = g.P(20)
		switch op.K {
		case "svc-create":
			op.F = append([]c16Field{{"addr", Pick(g, c16Addrs)}}, c16Fields(g, c16SvcField, 0, 3)...)
			if g.P(10) {
				op.F = op.F[1:]
			}
		case "svc-update", "welcome-race":
			op.F = c16Fields(g, c16SvcField, 1, 3)
		case "add":
			op.F = append([]c16Field{{"host", Pick(g, []string{"10.1.0.1", "10.1.0.2", "10.1.0.3", "2001:db8::5"})}, {"tls", "0"}}, c16Fields(g, c16BncField, 0, 3)...)
			if g.P(10) {
				op.F = op.F[1:]
			}
		case "change":
			op.F = c16Fields(g, c16BncField, 1, 3)
		case "nick":
			op.V = Pick(g, []string{"nicka", "nickb", "alice", "mynick", "zed"})
		case "usernick":
			op.V = Pick(g, []string{"nicka", "mynick", "zed"})
		case "userreal", "setname":
			op.V = Pick(g, []string{"Real Name", "Alice R", "New Real"})
		case "login":
			op.F = []c16Field{{Pick(g, []string{"n", ""}), Pick(g, []string{"b", ""})}}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// c16Net is the configuration of a network according to the model.
type c16Net struct {
	id, gen                int64
	tls                    string // "1", "0", "unix"
	host, port             string
	addr                   string // as written, if known
	name                   string
	nick, user, real, pass string
	altNick                string // another acceptable effective nick
	fp                     string
	autoAway, enabled      bool
	cmds                   []string
}

func (n *c16Net) getName() string {
	if n.name != "" {
		return n.name
	}
	return n.addr
}

func c16Parse(addr string) (tls, host, port string, ok bool) {
	s := addr
	if !strings.Contains(s, "://") {
		s = "ircs://" + s
	}
	u, err := url.Parse(s)
	if err != nil || u.User != nil || u.RawQuery != "" || u.Fragment != "" {
		return "", "", "", false
	}
	switch u.Scheme {
	case "ircs":
		tls = "1"
	case "irc+insecure":
		tls = "0"
	case "unix", "irc+unix":
		return "unix", u.Host + u.Path, "", u.Host+u.Path != ""
	default:
		return "", "", "", false
	}
	return tls, u.Hostname(), u.Port(), u.Host != "" && u.Path == ""
}

// c16State is the model; it is copied for what-if evaluation.
type c16State struct {
	nets     []c16Net
	nick     string
	realname string
	admin    bool
	gens     int64
}

func (st *c16State) clone() *c16State {
	x := *st
	x.nets = append([]c16Net(nil), st.nets...)
	return &x
}

func (st *c16State) effNick(n *c16Net) string {
	if n.nick != "" {
		return n.nick
	}
	if st.nick != "" {
		return st.nick
	}
	return "alice"
}

func (st *c16State) effReal(n *c16Net) string {
	if n.real != "" {
		return n.real
	}
	if st.realname != "" {
		return st.realname
	}
	return st.effNick(n)
}

func (st *c16State) effUser(n *c16Net) string {
	if n.user != "" {
		return n.user
	}
	return st.effNick(n)
}

// valid tells whether a network record is acceptable.
func (st *c16State) valid(n *c16Net, i int) bool {
	if n.tls == "unix" && !st.admin {
		return false
	}
	if n.getName() == "*" || strings.HasPrefix(n.getName(), "-") {
		return false
	}
	for j := range st.nets {
		if j != i && st.nets[j].getName() == n.getName() {
			return false
		}
	}
	return true
}

// setSvc applies service flags.
func (n *c16Net) setSvc(f []c16Field) bool {
	var cmds []string
	ok := true
	for _, x := range f {
		switch x.K {
		case "addr":
			var good bool
			n.tls, n.host, n.port, good = c16Parse(x.V)
			n.addr = x.V
			ok = ok && good
		case "name":
			n.name = x.V
			if x.V == "*" {
				ok = false
			}
		case "nick":
			n.nick = x.V
		case "username":
			n.user = x.V
		case "pass":
			n.pass = x.V
		case "realname":
			n.real = x.V
		case "certfp":
			h := strings.ToLower(strings.ReplaceAll(x.V, ":", ""))
			if strings.Trim(h, "0123456789abcdef") != "" {
				ok = false
			}
			switch len(h) {
			case 0:
				n.fp = ""
			case 64:
				n.fp = "sha-256:" + h
			case 128:
				n.fp = "sha-512:" + h
			default:
				ok = false
			}
		case "auto-away", "enabled":
			b, err := strconv.ParseBool(x.V)
			if err != nil {
				ok = false
			}
			if x.K == "enabled" {
				n.enabled = b
			} else {
				n.autoAway = b
			}
		case "connect-command":
			cmds = append(cmds, x.V)
		}
	}
	if len(cmds) == 1 && cmds[0] == "" {
		n.cmds = nil
	} else if len(cmds) > 0 {
		if len(cmds) > 20 {
			ok = false
		}
		for _, m := range cmds {
			if m == "" || m == ":onlyprefix" {
				ok = false
			}
		}
		n.cmds = cmds
	}
	return ok
}

// setBnc applies bouncer-networks attributes.
func (n *c16Net) setBnc(f []c16Field) bool {
	ok := true
	addr := false
	for _, x := range f {
		switch x.K {
		case "host":
			n.host, addr = x.V, true
		case "port":
			n.port, addr = x.V, true
		case "tls":
			n.tls, addr = x.V, true
		case "name":
			n.name = x.V
		case "nickname":
			n.nick, n.altNick = x.V, ""
		case "username":
			n.user = x.V
		case "realname":
			n.real = x.V
		case "pass":
			n.pass = x.V
		default:
			ok = false
		}
	}
	if addr {
		if n.tls == "" {
			n.tls = "1"
		}
		if n.host == "" {
			ok = false
		}
		h := n.host
		if strings.Contains(h, ":") {
			h = "[" + h + "]"
		}
		n.addr = h
		if n.port != "" {
			n.addr += ":" + n.port
		}
		if n.tls == "0" {
			n.addr = "irc+insecure://" + n.addr
		}
	}
	return ok && n.host != ""
}

type c16Session struct {
	cl     *Client
	netID  int64
	gen    int64 // IDs are reused
	nick   string
	notify bool
	view   map[string]map[string]string
}

// c16Req is a request in flight.
type c16Req struct {
	op       c16Op
	x        *c16Session
	line     string
	svc      bool
	target   int64  // network ID the request names, -1: unknown
	nick     string // nick of the session
	named    string
	usesName bool
}

// clash tells whether two networks have the same address and nick, which the
// database may refuse.
func (st *c16State) clash() bool {
	m := map[string]bool{}
	for i := range st.nets {
		n := &st.nets[i]
		for j := range st.nets {
			if o := &st.nets[j]; i != j && n.altNick == "?" && n.tls == o.tls && n.host == o.host && n.port == o.port {
				return true
			}
		}
		for _, nick := range []string{st.effNick(n), n.altNick} {
			k := n.tls + " " + n.host + " " + n.port + " " + nick
			if nick != "" && m[k] {
				return true
			}
		}
		m[n.tls+" "+n.host+" "+n.port+" "+st.effNick(n)] = true
		m[n.tls+" "+n.host+" "+n.port+" "+n.altNick] = true
	}
	return false
}

// apply evaluates a request on the model: the new state, and whether it is
// accepted.
func (st *c16State) apply(q *c16Req) (*c16State, bool) {
	nw := st.clone()
	find := func() int {
		for i := range st.nets {
			if q.usesName && st.nets[i].getName() == q.named || !q.usesName && st.nets[i].id == q.target {
				return i
			}
		}
		for i := range st.nets {
			if q.usesName && st.nets[i].addr == q.named { // addresses are accepted too
				return i
			}
		}
		return -1
	}
	switch q.op.K {
	case "svc-create":
		n := c16Net{id: 0, enabled: true, autoAway: true}
		hasAddr := false
		for _, f := range q.op.F {
			hasAddr = hasAddr || f.K == "addr"
		}
		if !n.setSvc(q.op.F) || !hasAddr || !st.valid(&n, -1) {
			return st, false
		}
		nw.gens++
		n.gen = nw.gens
		nw.nets = append(nw.nets, n)
		return nw, true
	case "svc-update", "welcome-race":
		i := find()
		if i < 0 {
			return st, false
		}
		n := nw.nets[i]
		n.altNick = ""
		if !n.setSvc(q.op.F) || !st.valid(&n, i) {
			return st, false
		}
		nw.nets[i] = n
		return nw, true
	case "svc-delete", "del":
		i := find()
		if i < 0 {
			return st, false
		}
		nw.nets = append(nw.nets[:i:i], nw.nets[i+1:]...)
		return nw, true
	case "add":
		n := c16Net{id: 0, enabled: true, autoAway: true, altNick: q.nick}
		if !n.setBnc(q.op.F) || !st.valid(&n, -1) {
			return st, false
		}
		nw.gens++
		n.gen = nw.gens
		nw.nets = append(nw.nets, n)
		return nw, true
	case "change":
		i := find()
		if i < 0 {
			return st, false
		}
		n := nw.nets[i]
		n.altNick = ""
		if n.tls == "unix" {
			touches := false
			for _, f := range q.op.F {
				touches = touches || f.K == "host" || f.K == "port" || f.K == "tls"
			}
			if touches {
				n.tls, n.host, n.port = "", "", ""
			}
		}
		if !n.setBnc(q.op.F) || !st.valid(&n, i) {
			return st, false
		}
		nw.nets[i] = n
		return nw, true
	}
	panic("c16: " + q.op.K)
}

func c16Attr(s string) string {
	return strings.NewReplacer(`\`, `\\`, ";", `\:`, " ", `\s`, "\r", `\r`, "\n", `\n`).Replace(s)
}

func runC16(r *R, c c16Case) error {
	if len(c.Sess) == 0 || len(c.Init) > 8 || len(c.Sess) > 8 || !c16Known[c.Nick] || !c16Known[c.Realname] {
		return errInvalid{}
	}
	for _, op := range c.Ops {
		for _, f := range op.F {
			if !c16Known[f.V] || op.K != "login" && !c16Known[c16Kind(op.K)+f.K] {
				return errInvalid{}
			}
		}
		if len(op.F) == 0 && (op.K == "change" || op.K == "svc-update") {
			return errInvalid{}
		}
		if !c16Known[op.V] || op.V == "" && (op.K == "nick" || op.K == "usernick" || op.K == "setname" || op.K == "userreal") {
			return errInvalid{}
		}
	}
	for _, l := range c.Init {
		for _, f := range l {
			if !c16Known[f.V] {
				return errInvalid{}
			}
		}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		srv := map[string]*IRCd{}
		for _, a := range c16Servers {
			s := w.AddServer(a)
			s.Caps = normCaps(c.Caps)
			srv[a] = s
		}
		u := w.AddUser("alice", func(u *database.User) { u.Nick, u.Realname, u.Admin = c.Nick, c.Realname, c.Admin })
		st := &c16State{nick: c.Nick, realname: c.Realname, admin: c.Admin}
		for _, f := range c.Init {
			n := c16Net{enabled: true, autoAway: true}
			if !n.setSvc(f) || !st.valid(&n, -1) || n.addr == "" || n.tls == "unix" {
				return errInvalid{}
			}
			rec := w.AddNetwork(u, n.name, n.addr, func(r *database.Network) { r.Enabled = n.enabled })
			n.id = rec.ID
			st.gens++
			n.gen = st.gens
			st.nets = append(st.nets, n)
		}
		w.Start()
		w.Sleep(3 * time.Second)
		var sess []*c16Session
		note := func(x *c16Session, msgs []*irc.Message, desc string) error {
			inBatch := map[string]bool{}
			for _, m := range msgs {
				if m.Command == "001" {
					x.nick = param(m, 0)
				} else if m.Command == "NICK" && m.Prefix != nil && m.Prefix.Name == x.nick {
					x.nick = param(m, 0)
				}
				if m.Command == "BATCH" && strings.HasPrefix(param(m, 0), "+") {
					inBatch[param(m, 0)[1:]] = true
				}
				if m.Command != "BOUNCER" || param(m, 0) != "NETWORK" {
					continue
				}
				if string(m.Tags["batch"]) != "" || inBatch[string(m.Tags["batch"])] {
					if !x.notify {
						continue
					}
				} else if !x.notify {
					return vio("unsolicited", "%s: session without notifications got %v", desc, m)
				}
				id := param(m, 1)
				if param(m, 2) == "*" {
					if x.view[id] == nil {
						return vio("notify", "%s: removal of network %s which the session was never told about", desc, id)
					}
					delete(x.view, id)
					continue
				}
				if x.view[id] == nil {
					x.view[id] = map[string]string{}
				}
				for k, v := range irc.ParseTags(param(m, 2)) {
					if string(v) == "" {
						delete(x.view[id], k)
					} else {
						x.view[id][k] = string(v)
					}
				}
			}
			return nil
		}
		quotes := 0
		login := func(netIdx int, bn, notify bool) error {
			var caps []string
			caps = append(caps, "batch", "setname")
			if bn {
				caps = append(caps, "soju.im/bouncer-networks")
			}
			if notify {
				caps = append(caps, "soju.im/bouncer-networks-notify")
			}
			o := LoginOpts{User: "alice", Caps: caps}
			x := &c16Session{notify: notify, view: map[string]map[string]string{}}
			if netIdx > 0 && netIdx <= len(st.nets) {
				x.netID, x.gen = st.nets[netIdx-1].id, st.nets[netIdx-1].gen
				o.BindID = x.netID
				if !bn {
					o.Caps = append(o.Caps, "soju.im/bouncer-networks")
				}
			}
			cl, m := w.loginBind(o)
			x.cl = cl
			if err := note(x, m, "login"); err != nil {
				return err
			}
			sess = append(sess, x)
			if x.netID != 0 && !cl.Closed() {
				// a new session is told why its network isn't connected
				told := ""
				for _, m := range filter(m, "NOTICE") {
					if rest, ok := strings.CutPrefix(param(m, 1), "disconnected from "); ok {
						told = rest
					}
				}
				l := cl.Do("BOUNCER LISTNETWORKS")
				if err := note(x, l, "login"); err != nil {
					return err
				}
				for _, m := range filter(l, "BOUNCER") {
					if param(m, 1) != fmt.Sprint(x.netID) {
						continue
					}
					reason := string(irc.ParseTags(param(m, 2))["error"])
					if (told != "") != (reason != "") || !strings.HasSuffix(told, reason) {
						return vio("error", "login: session bound to network %d was told %q on connection, the network's error is %q", x.netID, told, reason)
					}
					if reason != "" {
						r.Count("told-error")
						r.NonTrivial()
					}
				}
			}
			return nil
		}
		for _, s := range c.Sess {
			if err := login(s.Net, s.BN, s.Notify); err != nil {
				return err
			}
		}
		down := map[string]bool{}
		serverOf := func(n *c16Net) string {
			if n.tls != "0" {
				return ""
			}
			p := n.port
			if p == "" {
				p = "6667"
			}
			a := net.JoinHostPort(n.host, p)
			if srv[a] == nil {
				return ""
			}
			return a
		}
		// check compares everything observable with the model
		check := func(desc string) error {
			// stored
			recs, err := w.DB.ListNetworks(ctxBg, u.ID)
			w.must(err)
			if len(recs) != len(st.nets) {
				return vio("stored", "%s: %d networks stored, expected %d", desc, len(recs), len(st.nets))
			}
			byID := map[string]*c16Net{}
			for _, rec := range recs {
				var n *c16Net
				for i := range st.nets {
					if st.nets[i].id == rec.ID {
						n = &st.nets[i]
					}
				}
				for i := range st.nets {
					if n == nil && st.nets[i].id == 0 && (st.nets[i].name == rec.Name && rec.Name != "" || rec.Name == "" && st.nets[i].name == "" && st.nets[i].addr == rec.Addr) {
						n = &st.nets[i]
						n.id = rec.ID
					}
				}
				if n == nil {
					return vio("stored", "%s: unexpected network stored: %+v", desc, rec)
				}
				byID[fmt.Sprint(rec.ID)] = n
				tls, host, port, ok := c16Parse(rec.Addr)
				if !ok || tls != n.tls || host != n.host || port != n.port {
					return vio("stored", "%s: network %q has address %q, expected %q", desc, rec.GetName(), rec.Addr, n.addr)
				}
				got := *n
				got.name, got.nick, got.user, got.real, got.pass = rec.Name, rec.Nick, rec.Username, rec.Realname, rec.Pass
				got.fp, got.autoAway, got.enabled, got.cmds = rec.CertFP, rec.AutoAway, rec.Enabled, rec.ConnectCommands
				en := st.effNick(&got)
				if en != st.effNick(n) && (n.altNick == "" || en != n.altNick && n.altNick != "?") {
					return vio("stored", "%s: network %q has nick %q, expected %q", desc, rec.GetName(), en, st.effNick(n))
				}
				n.altNick = ""
				n.nick, n.addr = got.nick, rec.Addr
				if a, b := fmt.Sprintf("%q", []any{got.name, got.user, st.effReal(&got), got.pass, got.fp, got.autoAway, got.enabled, strings.Join(got.cmds, "\n")}), fmt.Sprintf("%q", []any{n.name, n.user, st.effReal(n), n.pass, n.fp, n.autoAway, n.enabled, strings.Join(n.cmds, "\n")}); a != b {
					return vio("stored", "%s: network %d is stored as %s, expected %s", desc, rec.ID, a, b)
				}
				n.real = got.real
			}
			us, err := w.DB.GetUser(ctxBg, "alice")
			w.must(err)
			if us.Nick != st.nick || us.Realname != st.realname {
				return vio("stored", "%s: user nick %q realname %q, expected %q %q", desc, us.Nick, us.Realname, st.nick, st.realname)
			}
			// upstream connections
			want := map[string][]string{}
			connected := map[int64]bool{}
			for i := range st.nets {
				n := &st.nets[i]
				a := serverOf(n)
				if !n.enabled || a == "" || down[a] {
					continue
				}
				connected[n.id] = true
				want[a] = append(want[a], fmt.Sprintf("nick=%s user=%s real=%s pass=%q", st.effNick(n), st.effUser(n), st.effReal(n), n.pass))
			}
			for a, s := range srv {
				var got []string
				for _, uc := range s.Conns() {
					if uc.IsClosed() {
						continue
					}
					if !uc.IsRegistered() {
						return vio("connection", "%s: unregistered connection to %s", desc, a)
					}
					nick, user, real, pass := "", "", "", ""
					for _, m := range uc.All() {
						switch m.Command {
						case "NICK":
							if nick == "" {
								nick = param(m, 0)
							}
						case "USER":
							user, real = param(m, 0), param(m, 3)
						case "PASS":
							pass = param(m, 0)
						}
					}
					got = append(got, fmt.Sprintf("nick=%s user=%s real=%s pass=%q", nick, user, real, pass))
				}
				g2, w2 := got, want[a]
				if nickChanged := c16Relaxed(c.Ops); nickChanged {
					// a connection may have been registered with an earlier nick or realname
					if len(g2) != len(w2) {
						return vio("connection", "%s: %d connections to %s, expected %d", desc, len(g2), a, len(w2))
					}
					continue
				}
				sort.Strings(g2)
				sort.Strings(w2)
				if strings.Join(g2, "\n") != strings.Join(w2, "\n") {
					return vio("connection", "%s: connections to %s: %v, expected %v", desc, a, g2, w2)
				}
			}
			// what the sessions see
			for k := 0; k < len(sess); k++ {
				x := sess[k]
				if err := note(x, x.cl.Take(), desc); err != nil {
					return err
				}
				gone := x.netID != 0
				for i := range st.nets {
					gone = gone && st.nets[i].gen != x.gen
				}
				if gone != x.cl.Closed() {
					return vio("session", "%s: session %d bound to network %d closed=%v, network exists=%v", desc, k, x.netID, x.cl.Closed(), !gone)
				}
				if gone {
					sess = append(sess[:k:k], sess[k+1:]...)
					k--
					continue
				}
				l := x.cl.Do("BOUNCER LISTNETWORKS")
				seen := map[string]map[string]string{}
				for _, m := range filter(l, "BOUNCER") {
					at := map[string]string{}
					for k, v := range irc.ParseTags(param(m, 2)) {
						if v != "" {
							at[k] = string(v)
						}
					}
					seen[param(m, 1)] = at
				}
				if len(seen) != len(byID) {
					return vio("list", "%s: session %d is shown %v", desc, k, seen)
				}
				for id, n := range byID {
					at := seen[id]
					if at == nil {
						return vio("list", "%s: session %d isn't shown network %s: %v", desc, k, id, seen)
					}
					wa := map[string]string{"name": n.getName(), "nickname": st.effNick(n), "state": "disconnected", "realname": st.effReal(n)}
					if n.user != "" {
						wa["username"] = n.user
					}
					if connected[n.id] {
						wa["state"] = "connected"
					}
					if n.tls != "unix" {
						wa["host"], wa["port"], wa["tls"] = n.host, n.port, n.tls
					}
					for _, key := range []string{"name", "nickname", "state", "realname", "username", "host", "port", "tls"} {
						g := at[key]
						if key == "host" {
							g = strings.Trim(g, "[]")
						}
						if key == "realname" && g == "" && st.effReal(n) == st.effNick(n) {
							continue
						}
						if key == "username" && g == st.effUser(n) {
							continue
						}
						if g != wa[key] {
							return vio("list", "%s: session %d is shown %s=%q for network %s, expected %q", desc, k, key, g, id, wa[key])
						}
					}
					if connected[n.id] && at["error"] != "" {
						return vio("list", "%s: connected network %s has error %q", desc, id, at["error"])
					}
					if n.enabled != (connected[n.id] || at["error"] != "") {
						return vio("error", "%s: network %s, enabled=%v, is shown with state %q and error %q", desc, id, n.enabled, at["state"], at["error"])
					}
					if at["error"] != "" {
						r.Count("network-error")
					}
					if _, leaked := at["pass"]; leaked {
						return vio("list", "%s: password shown: %v", desc, at)
					}
				}
				if x.notify {
					for id, at := range seen {
						for key := range at {
							if x.view[id][key] != at[key] {
								return vio("notify", "%s: session %d was notified of %s=%q for network %s, the list says %q", desc, k, key, x.view[id][key], id, at[key])
							}
						}
						for key, v := range x.view[id] {
							if at[key] != v {
								return vio("notify", "%s: session %d was notified of %s=%q for network %s, the list says %q", desc, k, key, v, id, at[key])
							}
						}
					}
					for id := range x.view {
						if seen[id] == nil {
							return vio("notify", "%s: session %d wasn't told that network %s is gone", desc, k, id)
						}
					}
				}
				// service
				var lines []string
				for _, m := range filter(x.cl.Do("PRIVMSG BouncerServ :network status"), "PRIVMSG") {
					lines = append(lines, param(m, 1))
				}
				if len(st.nets) > 0 && len(lines) != len(st.nets) {
					return vio("status", "%s: status shows %q", desc, lines)
				}
				for id, n := range byID {
					head := n.getName()
					if head != n.addr {
						head += " (" + n.addr + ")"
					}
					state := "disconnected"
					if connected[n.id] {
						state = "connected"
					} else if !n.enabled {
						state = "disabled"
					}
					ok := false
					for _, l := range lines {
						if rest, found := strings.CutPrefix(l, head+" ["); found && strings.HasPrefix(rest, state) && strings.Contains(rest, "current") == (n.id == x.netID) && strings.Contains(rest, seen[id]["error"]) {
							ok = true
						}
					}
					if !ok {
						return vio("status", "%s: network %q (%s) isn't properly shown in %q", desc, head, state, lines)
					}
				}
				// a raw command goes to the server of the network named, or
				// else of the session's
				if quotes++; len(st.nets) > 0 && (quotes%3 == 0 || k == 0) {
					n := &st.nets[quotes%len(st.nets)]
					tok := fmt.Sprintf("quoted%d", quotes)
					cmd := "network quote " + quoteWord(n.getName()) + " "
					if n.id == x.netID && quotes%2 == 0 {
						cmd = "network quote "
					}
					x.cl.Send("PRIVMSG BouncerServ :" + cmd + quoteWord("NOTICE nobody "+tok))
					w.Wait()
					if err := note(x, x.cl.Take(), desc); err != nil {
						return err
					}
					hits, right := 0, 0
					for a, s := range srv {
						for _, uc := range s.Conns() {
							for _, m := range uc.All() {
								if m.Command == "NOTICE" && param(m, 1) == tok {
									hits++
									if a == serverOf(n) && !uc.IsClosed() {
										right++
									}
								}
							}
						}
					}
					exp := 0
					if connected[n.id] {
						exp = 1
						r.Count("quote")
					}
					if hits != exp || right != exp {
						return vio("quote", "%s: %q (network connected: %v) reached %d servers, %d of them right", desc, cmd, connected[n.id], hits, right)
					}
				}
			}
			return w.CheckPanics()
		}
		if err := check("at start"); err != nil {
			return err
		}
		prep := func(op c16Op) *c16Req {
			if len(sess) == 0 {
				return nil
			}
			x := sess[op.S%len(sess)]
			q := &c16Req{op: op, x: x, target: -1, nick: x.nick}
			i := -1
			if op.Net < 100 && len(st.nets) > 0 {
				i = op.Net % len(st.nets)
				q.target = st.nets[i].id
			}
			var b strings.Builder
			switch op.K {
			case "svc-create", "svc-update", "svc-delete", "welcome-race":
				q.svc = true
				b.WriteString("PRIVMSG BouncerServ :network " + strings.TrimPrefix(strings.Replace(op.K, "welcome-race", "svc-update", 1), "svc-"))
				if op.K != "svc-create" {
					if i >= 0 && q.target == x.netID && op.N%2 == 0 {
						// the current network, by default
					} else if i >= 0 {
						q.named, q.usesName = st.nets[i].getName(), true
						b.WriteString(" " + quoteWord(q.named))
					} else if op.N%2 == 0 && x.netID == 0 {
						// no network at all
					} else {
						q.named, q.usesName = "nosuchnet", true
						b.WriteString(" nosuchnet")
					}
				}
				if op.K != "svc-delete" {
					for _, f := range op.F {
						b.WriteString(" -" + f.K + " " + quoteWord(f.V))
					}
				}
			default:
				b.WriteString("BOUNCER " + map[string]string{"add": "ADDNETWORK", "change": "CHANGENETWORK", "del": "DELNETWORK"}[op.K])
				if op.K != "add" {
					b.WriteString(fmt.Sprintf(" %d", max(q.target, 0)+int64(op.Net/100*999)))
				}
				if op.K != "del" {
					var l []string
					for _, f := range op.F {
						l = append(l, f.K+"="+c16Attr(f.V))
					}
					b.WriteString(" :" + strings.Join(l, ";"))
				}
			}
			q.line = b.String()
			return q
		}
		isReq := func(k string) bool {
			switch k {
			case "svc-create", "svc-update", "svc-delete", "add", "change", "del", "welcome-race":
				return true
			}
			return false
		}
		// answered tells whether a request was accepted.
		answered := func(q *c16Req, msgs []*irc.Message, desc string) (bool, error) {
			ok, n := false, 0
			for _, m := range msgs {
				if q.svc && m.Command == "PRIVMSG" && m.Prefix != nil && m.Prefix.Name == "BouncerServ" {
					n++
					ok = !strings.HasPrefix(param(m, 1), "error")
				} else if !q.svc && m.Command == "BOUNCER" && param(m, 0) != "NETWORK" {
					n++
					ok = true
				} else if !q.svc && (m.Command == "FAIL" || m.Command == "461") {
					n++
				}
			}
			if n == 0 && q.x.cl.Closed() {
				return true, nil // its network was deleted
			}
			if n != 1 {
				return false, vio("answer", "%s: %q got %d answers: %s", desc, q.line, n, fmtMsgs(msgs))
			}
			return ok, nil
		}
		for i := 0; i < len(c.Ops); i++ {
			op := c.Ops[i]
			desc := fmt.Sprintf("op %d %s", i, op.K)
			settle := 2 * time.Second
			var x *c16Session
			if len(sess) > 0 {
				x = sess[op.S%len(sess)]
			}
			cur := func() *c16Net {
				if x == nil || x.netID == 0 {
					return nil
				}
				for i := range st.nets {
					if st.nets[i].id == x.netID {
						return &st.nets[i]
					}
				}
				return nil
			}
			switch {
			case isReq(op.K):
				q := prep(op)
				if q == nil {
					continue
				}
				desc += " " + q.line
				qs := []*c16Req{q}
				if op.K == "welcome-race" {
					// the update arrives while the connection is being set up
					for _, n := range st.nets {
						if a := serverOf(&n); n.id == q.target && a != "" {
							srv[a].closeAll()
							for k := 0; k < op.N%4; k++ {
								w.Wait()
							}
							w.Sleep(time.Duration(op.N%3) * time.Minute)
						}
					}
				}
				if op.Par && i+1 < len(c.Ops) && isReq(c.Ops[i+1].K) && len(sess) > 1 {
					o2 := c.Ops[i+1]
					if o2.S%len(sess) == op.S%len(sess) {
						o2.S++
					}
					if q2 := prep(o2); q2 != nil && q2.x != q.x {
						qs = append(qs, q2)
						desc += " || " + q2.line
						r.Count("concurrent")
						i++
						q.nick, q2.nick = "?", "?"
					}
				}
				for _, q := range qs {
					if err := note(q.x, q.x.cl.Take(), desc); err != nil {
						return err
					}
				}
				for _, q := range qs {
					q.x.cl.Send(q.line)
				}
				w.Wait()
				var oks []bool
				for _, q := range qs {
					l := q.x.cl.Take()
					if err := note(q.x, l, desc); err != nil {
						return err
					}
					ok, err := answered(q, l, desc)
					if err != nil {
						return err
					}
					oks = append(oks, ok)
				}
				if len(qs) == 1 {
					nst, ok := st.apply(q)
					if ok && !oks[0] && nst.clash() {
						nst, ok = st, false
						r.Count("same-address-and-nick")
					}
					if ok != oks[0] {
						return vio("accept", "%s: accepted=%v, expected %v", desc, oks[0], ok)
					}
					st = nst
					r.Count(map[bool]string{true: "accepted", false: "refused"}[ok])
				} else {
					// any order will do
					a1, ka := st.apply(qs[0])
					a2, kb := a1.apply(qs[1])
					b1, kb2 := st.apply(qs[1])
					b2, ka2 := b1.apply(qs[0])
					fits := func(s *c16State) bool {
						recs, err := w.DB.ListNetworks(ctxBg, u.ID)
						w.must(err)
						return c16Fits(s, recs)
					}
					closed := qs[0].x.cl.Closed() || qs[1].x.cl.Closed()
					clash := a2.clash() || b2.clash() || a1.clash() || b1.clash()
					switch {
					case closed && fits(a1):
						st = a1
					case closed && fits(b1):
						st = b1
					case clash && oks[0] && !oks[1] && fits(a1):
						st = a1
					case clash && oks[1] && !oks[0] && fits(b1):
						st = b1
					case clash && !oks[1] && !oks[0] && fits(st):
					case (closed || ka == oks[0] && kb == oks[1]) && fits(a2):
						st = a2
					case (closed || ka2 == oks[0] && kb2 == oks[1]) && fits(b2):
						st = b2
					default:
						return vio("serial", "%s: answers %v don't correspond to any order", desc, oks)
					}
				}
			case op.K == "down" || op.K == "up" || op.K == "kill":
				a := c16Servers[op.N%len(c16Servers)]
				if op.K != "kill" {
					down[a] = op.K == "down"
					srv[a].SetDown(down[a])
				}
				if op.K != "up" {
					srv[a].closeAll()
				}
				settle = 15 * time.Minute
			case op.K == "nick" || op.K == "setname":
				if x == nil {
					continue
				}
				cmd := strings.ToUpper(op.K)
				x.cl.Send(cmd + " :" + op.V)
				w.Wait()
				if n := cur(); n != nil {
					if op.K == "nick" {
						old := n.nick
						n.nick = op.V
						if rec := w.netByID(u.ID, n.id); st.clash() && rec.Nick == old {
							n.nick = old
						}
					} else {
						n.real = op.V
					}
				} else if op.K == "nick" {
					st.nick = op.V
				} else {
					st.realname = op.V
				}
				settle = time.Minute
			case op.K == "usernick" || op.K == "userreal":
				if x == nil {
					continue
				}
				if op.K == "usernick" {
					x.cl.Send("PRIVMSG BouncerServ :user update -nick " + op.V)
					st.nick = op.V
				} else {
					x.cl.Send("PRIVMSG BouncerServ :user update -realname " + quoteWord(op.V))
					st.realname = op.V
				}
				settle = time.Minute
			case op.K == "login":
				if len(sess) > 6 || len(op.F) == 0 {
					continue
				}
				if err := login(op.Net, op.F[0].V == "b", op.F[0].K == "n"); err != nil {
					return err
				}
			case op.K == "restart":
				if !w.Stop() {
					return vio("stop", "%s: the server doesn't stop", desc)
				}
				sess = nil
				w.Start()
				w.Sleep(2 * time.Second)
				for _, s := range c.Sess {
					if err := login(s.Net, s.BN, s.Notify); err != nil {
						return err
					}
				}
			}
			w.Sleep(settle)
			if err := check(desc); err != nil {
				return err
			}
			if len(st.nets) > 0 {
				r.NonTrivial()
			}
		}
		return nil
	})
}

func (w *World) netByID(user, id int64) *database.Network {
	recs, err := w.DB.ListNetworks(ctxBg, user)
	w.must(err)
	for i := range recs {
		if recs[i].ID == id {
			return &recs[i]
		}
	}
	return &database.Network{}
}

// c16Relaxed tells whether the case changes the nick or realname of live
// connections.
func c16Relaxed(ops []c16Op) bool {
	for _, o := range ops {
		switch o.K {
		case "nick", "usernick", "userreal", "setname":
			return true
		}
	}
	return false
}

// c16Fits tells whether stored records correspond to a state.
func c16Fits(s *c16State, recs []database.Network) bool {
	if len(recs) != len(s.nets) {
		return false
	}
	for _, rec := range recs {
		ok := false
		for i := range s.nets {
			n := &s.nets[i]
			t, h, p, _ := c16Parse(rec.Addr)
			if n.id != 0 && n.id != rec.ID || t != n.tls || h != n.host || p != n.port || n.name != rec.Name || n.user != rec.Username || n.pass != rec.Pass || n.enabled != rec.Enabled || n.autoAway != rec.AutoAway || n.fp != rec.CertFP || strings.Join(n.cmds, "\n") != strings.Join(rec.ConnectCommands, "\n") {
				continue
			}
			got := *n
			got.nick, got.real = rec.Nick, rec.Realname
			if s.effNick(&got) != s.effNick(n) && s.effNick(&got) != n.altNick && n.altNick != "?" || s.effReal(&got) != s.effReal(n) && n.altNick == "" {
				continue
			}
			ok = true
		}
		if !ok {
			return false
		}
	}
	return true
}

func c16Kind(k string) string {
	if k == "change" {
		k = "add"
	}
	return strings.TrimPrefix(k, "svc-")[:min(1, len(k))]
}

// c16Known holds the values which are generated: the shrinker must not make up
// others, whose validity the model doesn't know.
var c16Known = map[string]bool{}

// loginBind logs in with SASL, and binds to a network.
func (w *World) loginBind(o LoginOpts) (*Client, []*irc.Message) {
	c := w.Connect()
	c.Send("CAP LS 302", "CAP REQ :"+strings.Join(append([]string{"sasl"}, o.Caps...), " "))
	c.Send(saslLines("PLAIN", []byte("\x00"+o.User+"\x00pw-"+o.User))...)
	c.Send("NICK clientnick", "USER u 0 * :real")
	if o.BindID != 0 {
		c.Send(fmt.Sprintf("BOUNCER BIND %d", o.BindID))
	}
	c.Send("CAP END")
	w.Wait()
	msgs := c.Take()
	for i, m := range msgs {
		if m.Command == "001" {
			return c, msgs[i:]
		}
	}
	panic(&violation{"login-refused", fmt.Sprintf("valid registration %+v did not complete: %s", o, fmtMsgs(msgs))})
}

func init() {
	for seed := uint64(1); seed < 400; seed++ {
		g := NewG(seed)
		for _, f := range []c16Field{c16SvcField(g), c16BncField(g)} {
			c16Known[f.V] = true
		}
		c16Known["c"+c16SvcField(g).K] = true // create
		c16Known["u"+c16SvcField(g).K] = true // update
		c16Known["w"+c16SvcField(g).K] = true // welcome-race
		c16Known["a"+c16BncField(g).K] = true // add
	}
	for _, v := range append(append([]string{"", "b", "n", "zed", "New Real", "net0", "net1", "net2", "Alice R", "mynick", "alice"}, c16Addrs...), c16BadAddrs...) {
		c16Known[v] = true
	}
	p := prop("C16", "at least one network exists while requests are served", 6000, 150000,
		"SQLite backend; networks are connected to simulated servers, unreachable TLS and Unix addresses are only checked for the state shown",
		"the initial nick of a network added without a nickname may be the session's or the user's (implementation-defined default)")
	add(p, "networks", 1, genC16, runC16)
}
