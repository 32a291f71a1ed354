package harness

import (
	"context"
	"crypto/sha1"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/crypto/bcrypt"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
)

// C15 (administrator powers and limits) and C17 (user management) share one
// model of the service: users, their flags and their networks.

type c17Cmd struct {
	K      string // command
	T      string // user or network argument, "" if none
	F      []c16Field
	Sub    *c17Cmd
	Tok    int // user delete: 0 none, 1 right, 2 wrong
	Abbrev bool
}

type c17Op struct {
	K   string // "cmd", "login", "logout", "restart"
	A   int    // actor: 0 is the admin socket, then sessions
	U   int
	N   int
	Cmd c17Cmd
	Par bool
	Bye bool // the session closes right after the command
}

type c17Case struct {
	Idle   bool // inactive users are disabled
	OnAuth bool // logins create or enable users
	Max    int
	Users  []c17User
	Ops    []c17Op
}

type c17User struct {
	Admin, Disabled bool
	Max             int
	Nets            int // bitmask of enabled ones among 2 + count*16
}

var c17Names = []string{"root", "alice", "bob", "carol", "dave"}

func genC17Cmd(g *G, depth int) c17Cmd {
	name := func() string {
		if g.P(8) {
			return "nobody"
		}
		return Pick(g, c17Names)
	}
	kinds := []string{"user status", "user create", "user update", "user delete", "user run", "server status", "server notice", "server debug", "network create", "network update", "network delete", "network status", "help", "unknown", "addnetwork", "changenetwork"}
	ws := []int{4, 10, 16, 6, 10, 2, 2, 1, 12, 10, 4, 2, 1, 1, 6, 2}
	if depth > 0 {
		ws[14], ws[15] = 0, 0
		if depth > 1 {
			ws[4] = 0
		}
	}
	c := c17Cmd{K: kinds[g.W(ws...)], Abbrev: g.P(20)}
	b := func() string {
		if g.P(6) {
			return "maybe"
		}
		return Pick(g, []string{"true", "false"})
	}
	switch c.K {
	case "user status":
		if g.P(50) {
			c.T = name()
		}
	case "user create":
		if g.P(95) {
			c.F = append(c.F, c16Field{"username", name()})
		}
		if g.P(12) {
			c.F = append(c.F, c16Field{"password", "pw1"})
		}
		if g.P(90) {
			c.F = append(c.F, c16Field{"disable-password", ""})
		}
		for _, k := range Subset(g, []string{"admin", "nick", "realname", "enabled", "max-networks"}, 40) {
			v := b()
			switch k {
			case "nick":
				v = "nick" + strconv.Itoa(g.N(3))
			case "realname":
				v = "Real " + strconv.Itoa(g.N(3))
			case "max-networks":
				v = Pick(g, []string{"-1", "0", "1", "2", "many"})
			}
			c.F = append(c.F, c16Field{k, v})
		}
	case "user update":
		if g.P(75) {
			c.T = name()
		}
		for _, k := range Subset(g, []string{"admin", "nick", "realname", "enabled", "max-networks", "disable-password", "password"}, 22) {
			v := b()
			switch k {
			case "nick":
				v = "nick" + strconv.Itoa(g.N(3))
			case "realname":
				v = "Real " + strconv.Itoa(g.N(3))
			case "max-networks":
				v = Pick(g, []string{"-1", "0", "1", "2", "many"})
			case "disable-password":
				v = ""
			case "password":
				if !g.P(15) {
					continue
				}
				v = "pw" + strconv.Itoa(g.N(3))
			}
			c.F = append(c.F, c16Field{k, v})
		}
	case "user delete":
		c.T = name()
		c.Tok = g.W(2, 6, 2)
	case "user run":
		c.T = name()
		if g.P(95) {
			sub := genC17Cmd(g, depth+1)
			c.Sub = &sub
		}
	case "network create", "addnetwork":
		c.F = append(c.F, c16Field{"name", fmt.Sprintf("n%d", g.N(4))})
		if c.K == "network create" {
			if g.P(30) {
				c.F = append(c.F, c16Field{"enabled", b()})
			}
			if g.P(25) {
				c.F = append(c.F, c16Field{"ignore-limit", Pick(g, []string{"true", "true", "false"})})
			}
			if g.P(6) {
				c.F = append(c.F, c16Field{"addr", "unix:///nonexistent/verif"})
			}
		}
	case "network update", "changenetwork":
		c.T = fmt.Sprintf("n%d", g.N(4))
		if c.K == "network update" {
			if g.P(75) {
				c.F = append(c.F, c16Field{"enabled", b()})
			}
			if g.P(25) {
				c.F = append(c.F, c16Field{"ignore-limit", Pick(g, []string{"true", "true", "false"})})
			}
		} else {
			c.F = append(c.F, c16Field{"pass", "x" + strconv.Itoa(g.N(9))})
		}
	case "network delete":
		c.T = fmt.Sprintf("n%d", g.N(4))
		if g.P(15) {
			c.T = fmt.Sprintf("10.9.0.%d", g.N(3))
		}
	case "server debug":
		c.T = Pick(g, []string{"false", "nonsense"})
	case "server notice":
		c.T = "hello"
	}
	return c
}

// genC15 favours users without powers and networks near the limit.
func genC15(g *G) c17Case {
	c := c17Case{Max: Pick(g, []int{-1, 0, 1, 1, 2, 2, 3})}
	for i := 0; i < 2+g.N(2); i++ {
		u := c17User{Admin: g.P(25), Max: Pick(g, []int{-1, -1, 0, 1, 1, 2}), Disabled: g.P(5)}
		if g.P(60) {
			u.Nets = g.N(64)
		}
		c.Users = append(c.Users, u)
	}
	for i, n := 0, g.Size(3, 16); i < n; i++ {
		op := c17Op{K: []string{"cmd", "login", "logout", "restart", "auto"}[g.W(24, 4, 1, 1, 3)], A: 1 + g.N(6), U: g.N(3), N: g.N(10)}
		if i < 2 {
			op.K = "login"
		}
		if op.K == "cmd" {
			if g.P(10) {
				op.A = 0
			}
			for k := 0; k < 3; k++ {
				op.Cmd = genC17Cmd(g, 0)
				if strings.Contains(op.Cmd.K, "network") || op.Cmd.K == "user run" || op.Cmd.K == "user update" {
					break
				}
			}
			op.Par = g.P(12)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func genC17(g *G) c17Case {
	c := c17Case{Max: Pick(g, []int{-1, -1, 0, 1, 2, 3})}
	for i := 0; i < 2+g.N(3); i++ {
		u := c17User{Admin: i == 0 && g.P(90) || g.P(25), Max: Pick(g, []int{-1, -1, -1, 0, 1, 2}), Disabled: g.P(10)}
		if g.P(60) {
			u.Nets = g.N(64)
		}
		c.Users = append(c.Users, u)
	}
	for i, n := 0, g.Size(3, 18); i < n; i++ {
		op := c17Op{K: []string{"cmd", "login", "logout", "restart", "auto"}[g.W(20, 7, 2, 1, 1)], A: g.N(7), U: g.N(5), N: g.N(10)}
		if i < 2 {
			op.K = "login"
		}
		if op.K == "cmd" {
			op.Cmd = genC17Cmd(g, 0)
			op.Par = g.P(15)
			op.Bye = g.P(4)
		}
		c.Ops = append(c.Ops, op)
	}
	if g.P(22) {
		c.Idle = g.P(85)
		for k := 0; k < 1+g.N(3); k++ {
			i := g.N(len(c.Ops) + 1)
			c.Ops = append(c.Ops[:i:i], append([]c17Op{{K: "idle", N: g.N(3)}}, c.Ops[i:]...)...)
		}
	}
	c.OnAuth = g.P(25)
	return c
}

// openAuth is an external authenticator: it knows users the bouncer doesn't.
type openAuth struct{}

func (openAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	if password != "pw-"+username {
		return &auth.Error{InternalErr: fmt.Errorf("wrong password"), ExternalMsg: "Invalid credentials"}
	}
	return nil
}

type c17Net struct {
	enabled bool
	pass    string
	id      int64
}

type c17M struct {
	admin, enabled bool
	nick, real     string
	max            int
	pw             string // "" none, else the password
	nets           map[string]c17Net
	gen            int
}

type c17State struct {
	users map[string]*c17M
	max   int
	gens  int
}

func (st *c17State) clone() *c17State {
	n := &c17State{users: map[string]*c17M{}, max: st.max, gens: st.gens}
	for k, u := range st.users {
		x := *u
		x.nets = map[string]c17Net{}
		for a, b := range u.nets {
			x.nets[a] = b
		}
		n.users[k] = &x
	}
	return n
}

// full tells whether a user may not enable another network.
func (st *c17State) full(u *c17M) bool {
	m := u.max
	if m < 0 {
		m = st.max
	}
	n := 0
	for _, x := range u.nets {
		if x.enabled {
			n++
		}
	}
	return m >= 0 && n >= m
}

func (c *c17Cmd) get(k string) (string, bool) {
	for i := len(c.F) - 1; i >= 0; i-- {
		if c.F[i].K == k {
			return c.F[i].V, true
		}
	}
	return "", false
}

// apply evaluates a command on a copy of the model. priv tells whether it
// takes administrator powers which the actor doesn't have.
func (st *c17State) apply(actor string, admin bool, c *c17Cmd) (nst *c17State, ok, priv bool) {
	n := st.clone()
	refuse := func(p bool) (*c17State, bool, bool) { return st, false, p }
	for _, f := range c.F {
		switch f.K {
		case "admin", "enabled":
			if f.V != "true" && f.V != "false" {
				return refuse(false)
			}
		case "max-networks":
			if _, err := strconv.Atoi(f.V); err != nil {
				return refuse(false)
			}
		}
	}
	u := n.users[actor]
	switch c.K {
	case "user status":
		if !admin {
			return refuse(true)
		}
		if c.T != "" && n.users[c.T] == nil {
			return refuse(false)
		}
	case "user create":
		if !admin {
			return refuse(true)
		}
		name, _ := c.get("username")
		pw, hasPw := c.get("password")
		_, noPw := c.get("disable-password")
		if name == "" || hasPw == noPw || n.users[name] != nil {
			return refuse(false)
		}
		n.gens++
		x := &c17M{enabled: true, max: -1, pw: pw, nets: map[string]c17Net{}, gen: n.gens}
		if v, ok := c.get("admin"); ok {
			x.admin = v == "true"
		}
		if v, ok := c.get("enabled"); ok {
			x.enabled = v == "true"
		}
		if v, ok := c.get("max-networks"); ok {
			x.max, _ = strconv.Atoi(v)
		}
		x.nick, _ = c.get("nick")
		x.real, _ = c.get("realname")
		n.users[name] = x
	case "user update":
		t := c.T
		if t == "" {
			t = actor
		}
		if t == "" {
			return refuse(false)
		}
		pw, hasPw := c.get("password")
		_, noPw := c.get("disable-password")
		nick, hasNick := c.get("nick")
		real, hasReal := c.get("realname")
		_, hasAdmin := c.get("admin")
		_, hasEn := c.get("enabled")
		_, hasMax := c.get("max-networks")
		if hasPw && noPw {
			return refuse(false)
		}
		if t != actor {
			if !admin {
				return refuse(true)
			}
			if hasNick || hasReal || n.users[t] == nil {
				return refuse(false)
			}
		} else {
			if hasAdmin || hasEn || hasMax && !admin {
				return refuse(!admin)
			}
		}
		x := n.users[t]
		if hasNick {
			x.nick = nick
		}
		if hasReal {
			x.real = real
		}
		if hasPw {
			x.pw = pw
		}
		if noPw {
			x.pw = ""
		}
		if v, ok := c.get("admin"); ok {
			x.admin = v == "true"
		}
		if v, ok := c.get("enabled"); ok {
			x.enabled = v == "true"
		}
		if v, ok := c.get("max-networks"); ok {
			x.max, _ = strconv.Atoi(v)
		}
	case "user delete":
		if c.T != actor && !admin {
			return refuse(true)
		}
		if n.users[c.T] == nil || c.Tok == 2 {
			return refuse(false)
		}
		if c.Tok == 1 {
			delete(n.users, c.T)
		}
	case "user run":
		if !admin {
			return refuse(true)
		}
		if c.Sub == nil || n.users[c.T] == nil {
			return refuse(false)
		}
		return st.apply(c.T, true, c.Sub)
	case "server status", "server notice", "server debug":
		if !admin {
			return refuse(true)
		}
		if c.K == "server debug" && c.T != "true" && c.T != "false" {
			return refuse(false)
		}
	case "network create", "addnetwork":
		if u == nil {
			return refuse(false)
		}
		name, _ := c.get("name")
		ig, _ := c.get("ignore-limit")
		if ig == "true" && !admin {
			return refuse(true)
		}
		x := c17Net{enabled: true}
		if v, ok := c.get("enabled"); ok {
			x.enabled = v == "true"
		}
		if _, dup := u.nets[name]; dup || name == "" {
			return refuse(false)
		}
		if _, unix := c.get("addr"); unix && !u.admin {
			return refuse(true)
		}
		if x.enabled && ig != "true" && n.full(u) {
			return refuse(true)
		}
		u.nets[name] = x
	case "network update", "changenetwork":
		if u == nil {
			return refuse(false)
		}
		ig, _ := c.get("ignore-limit")
		x, exists := u.nets[c.T]
		if !exists {
			return refuse(false)
		}
		if ig == "true" && !admin {
			return refuse(true)
		}
		was := x.enabled
		if v, ok := c.get("enabled"); ok {
			x.enabled = v == "true"
		}
		if v, ok := c.get("pass"); ok {
			x.pass = v
		}
		if x.enabled && !was && ig != "true" && n.full(u) {
			return refuse(true)
		}
		u.nets[c.T] = x
	case "network delete":
		if u == nil {
			return refuse(false)
		}
		if _, exists := u.nets[c.T]; !exists {
			return refuse(false)
		}
		delete(u.nets, c.T)
	case "network status":
		if u == nil {
			return refuse(false)
		}
	case "help":
	default:
		return refuse(false)
	}
	return n, true, false
}

// words renders a command for the service.
func (c *c17Cmd) words() string {
	name := c.K
	if c.K == "unknown" {
		name = "frobnicate"
	}
	if c.Abbrev {
		var l []string
		for _, w := range strings.Fields(name) {
			// the shortest prefix which is never ambiguous
			m := map[string]int{"status": 2, "server": 2, "sasl": 2, "create": 2, "delete": 2, "debug": 2}[w]
			l = append(l, w[:min(len(w), max(m, 1))])
		}
		name = strings.Join(l, " ")
	}
	if c.T != "" {
		name += " " + quoteWord(c.T)
	}
	if c.K == "user delete" && c.Tok > 0 {
		h := sha1.Sum([]byte(c.T))
		tok := fmt.Sprintf("%x", h[:3])
		if c.Tok == 2 {
			tok = "abcdef"
		}
		name += " " + tok
	}
	for _, f := range c.F {
		if f.K == "disable-password" {
			name += " -disable-password"
		} else if f.K == "ignore-limit" || c.K == "user create" && (f.K == "admin" || f.K == "enabled") {
			name += " -" + f.K + "=" + f.V
		} else {
			name += " -" + f.K + " " + quoteWord(f.V)
		}
	}
	if c.K == "network create" {
		if _, ok := c.get("addr"); !ok {
			name += " -addr irc+insecure://10.1.0.1:6667"
		}
	}
	if c.Sub != nil {
		name += " " + c.Sub.words()
	}
	return name
}

type c17Sess struct {
	cl   *Client
	user string
	gen  int
}

func runC17(r *R, c c17Case) error {
	if len(c.Users) == 0 || len(c.Users) > len(c17Names) {
		return errInvalid{}
	}
	var bad func(x *c17Cmd, d int) bool
	bad = func(x *c17Cmd, d int) bool {
		for _, f := range x.F {
			if strings.ContainsAny(f.V, "\r\n\x00") || f.V == "" && f.K != "disable-password" || !c17Keys[f.K] {
				return true
			}
		}
		if x.T == "" && (x.K == "user delete" || x.K == "network update" || x.K == "network delete" || x.K == "server notice" || x.K == "server debug" || x.K == "changenetwork" || x.K == "user run") {
			return true
		}
		if strings.ContainsAny(x.T, "\r\n\x00-") || !c17Cmds[x.K] || d > 3 || x.Tok < 0 || x.Tok > 2 {
			return true
		}
		if x.K == "network create" || x.K == "addnetwork" {
			if v, _ := x.get("addr"); v != "" && !strings.HasPrefix(v, "unix:///") {
				return true
			}
		}
		if x.T != "" && (x.K == "help" || x.K == "network create" || x.K == "addnetwork" || x.K == "user create" || x.K == "server status" || x.K == "network status") {
			return true
		}
		return x.Sub != nil && (bad(x.Sub, d+1) || x.Sub.K == "addnetwork" || x.Sub.K == "changenetwork")
	}
	for _, op := range c.Ops {
		if op.K == "cmd" && bad(&op.Cmd, 0) {
			return errInvalid{}
		}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.Cfg.MaxUserNetworks = c.Max
		w.Cfg.Auth = &auth.Authenticator{Plain: openAuth{}}
		w.Cfg.EnableUsersOnAuth = c.OnAuth
		if c.Idle {
			w.Cfg.DisableInactiveUsersDelay = 72 * time.Hour
		}
		s := w.AddServer("10.1.0.1:6667")
		st := &c17State{users: map[string]*c17M{}, max: c.Max}
		for i, cu := range c.Users {
			name := c17Names[i]
			if cu.Max < -1 {
				return errInvalid{}
			}
			rec := w.AddUser(name, func(u *database.User) { u.Admin, u.Enabled, u.MaxNetworks = cu.Admin, !cu.Disabled, cu.Max })
			st.gens++
			m := &c17M{admin: cu.Admin, enabled: !cu.Disabled, max: cu.Max, nets: map[string]c17Net{}, gen: st.gens}
			st.users[name] = m
			for k := 0; k < 3; k++ {
				if cu.Nets>>(2*k)&1 == 0 {
					continue
				}
				en := cu.Nets>>(2*k+1)&1 == 1
				nm := fmt.Sprintf("n%d", k)
				nr := w.AddNetwork(rec, nm, "irc+insecure://10.1.0.1:6667", func(n *database.Network) { n.Enabled = en })
				m.nets[nm] = c17Net{enabled: en, id: nr.ID}
			}
		}
		started := time.Now()
		w.Start()
		w.Sleep(3 * time.Second)
		sock := w.Admin()
		var sess []*c17Sess
		// matches tells whether the stored configuration is that of a state.
		matches := func(st *c17State) error {
			d := w.dump()
			if len(d.Users) != len(st.users) {
				var l []string
				for _, u := range d.Users {
					l = append(l, u.Username)
				}
				return fmt.Errorf("users stored: %v, expected %v", l, keysOf(st.users))
			}
			for _, u := range d.Users {
				m := st.users[u.Username]
				if m == nil {
					return fmt.Errorf("unexpected user %q stored", u.Username)
				}
				if u.Admin != m.admin || u.Enabled != m.enabled || u.MaxNetworks != m.max || u.Nick != m.nick || u.Realname != m.real {
					return fmt.Errorf("user %q is stored as admin=%v enabled=%v max-networks=%v nick=%q realname=%q, expected %v %v %v %q %q", u.Username, u.Admin, u.Enabled, u.MaxNetworks, u.Nick, u.Realname, m.admin, m.enabled, m.max, m.nick, m.real)
				}
				if (u.Password == "") != (m.pw == "") {
					return fmt.Errorf("user %q has password: %v, expected %v", u.Username, u.Password != "", m.pw != "")
				}
				nets := d.Nets[u.Username]
				if len(nets) != len(m.nets) {
					return fmt.Errorf("user %q has %d networks, expected %v", u.Username, len(nets), keysOf(m.nets))
				}
				for _, n := range nets {
					x, ok := m.nets[n.GetName()]
					if !ok || x.enabled != n.Enabled || x.pass != n.Pass {
						return fmt.Errorf("network %q of %q is stored as %+v, expected %v %+v", n.Name, u.Username, n, ok, x)
					}
				}
			}
			return nil
		}
		// when each user was last seen, at the earliest and at the latest
		type c17Seen struct {
			gen    int
			lo, hi time.Time
		}
		seen := map[string]c17Seen{}
		nIdle := 0
		look := func(name string) {
			if u := st.users[name]; u != nil {
				seen[name] = c17Seen{u.gen, time.Now(), time.Now()}
			}
		}
		// knocked: whether a login refused because the user is disabled counts
		// isn't specified
		knocked := func(name string) {
			if x, ok := seen[name]; ok {
				x.hi = time.Now()
				seen[name] = x
			}
		}
		lookAll := func() {
			for n, u := range st.users {
				if x, ok := seen[n]; !ok || x.gen != u.gen {
					look(n)
				}
			}
			for _, x := range sess {
				// whether or not the end of the session gets noticed
				if y := seen[x.user]; y.gen == x.gen {
					y.hi = time.Now()
					seen[x.user] = y
				}
			}
		}
		pwSeen := map[string]string{}
		check := func(desc string) error {
			if err := matches(st); err != nil {
				return vio("stored", "%s: %v", desc, err)
			}
			us, err := w.DB.ListUsers(ctxBg)
			w.must(err)
			for _, u := range us {
				pw := st.users[u.Username].pw
				if pw != "" && pwSeen[u.Username+"\x00"+u.Password] != pw {
					if bcrypt.CompareHashAndPassword([]byte(u.Password), []byte(pw)) != nil {
						return vio("password", "%s: the password of %q isn't %q", desc, u.Username, pw)
					}
					pwSeen[u.Username+"\x00"+u.Password] = pw
				}
			}
			// connections upstream
			want := 0
			for _, u := range st.users {
				for nm, n := range u.nets {
					if u.enabled && n.enabled && !strings.HasPrefix(nm, "10.9.") {
						want++
					}
				}
			}
			unix := false
			for _, op := range c.Ops {
				unix = unix || strings.Contains(op.Cmd.words(), "unix:///")
			}
			if got := s.OpenConns(); got != want && !unix {
				return vio("connections", "%s: %d upstream connections, expected %d", desc, got, want)
			}
			// sessions
			for i := 0; i < len(sess); i++ {
				x := sess[i]
				u := st.users[x.user]
				alive := u != nil && u.enabled && u.gen == x.gen
				if !alive {
					if !x.cl.Closed() {
						return vio("session-open", "%s: session of %q still open although deleted or disabled", desc, x.user)
					}
					sess = append(sess[:i:i], sess[i+1:]...)
					i--
					continue
				}
				if x.cl.Closed() {
					return vio("session-closed", "%s: session of %q was closed", desc, x.user)
				}
				x.cl.Take()
				if m := filter(x.cl.Do("PING :alive"), "PONG"); len(m) != 1 {
					return vio("unresponsive", "%s: session of %q doesn't answer", desc, x.user)
				}
			}
			// the administrator's view
			sock.Take()
			got := sock.Do("BOUNCERSERV :user status")
			lines := []string{}
			for _, m := range filter(got, "PRIVMSG", "NOTICE") {
				lines = append(lines, param(m, -1))
			}
			var wl []string
			for n, u := range st.users {
				l := n
				var a []string
				if u.admin {
					a = append(a, "admin")
				}
				if !u.enabled {
					a = append(a, "disabled")
				}
				if len(a) > 0 {
					l += " (" + strings.Join(a, ", ") + ")"
				}
				l += fmt.Sprintf(": %d networks", len(u.nets))
				if u.max >= 0 {
					l += fmt.Sprintf(" (%d max)", u.max)
				}
				wl = append(wl, l)
			}
			sort.Strings(lines)
			sort.Strings(wl)
			if !eqStrs(lines, wl) {
				return vio("status", "%s: user status shows %q, expected %q (%s)", desc, lines, wl, fmtMsgs(got))
			}
			return w.CheckPanics()
		}
		if err := check("at start"); err != nil {
			return err
		}
		type req struct {
			op    c17Op
			x     *c17Sess // nil: socket
			actor string
			admin bool
			line  string
			svc   bool
		}
		prep := func(op c17Op) *req {
			q := &req{op: op, svc: true}
			if op.A > 0 && len(sess) > 0 {
				q.x = sess[op.A%len(sess)]
				q.actor = q.x.user
				q.admin = st.users[q.actor].admin
			} else {
				q.admin = true
			}
			cmd := &q.op.Cmd
			switch cmd.K {
			case "addnetwork", "changenetwork":
				if q.x == nil {
					return nil
				}
				q.svc = false
				if cmd.K == "addnetwork" {
					n, _ := cmd.get("name")
					q.line = "BOUNCER ADDNETWORK name=" + c16Attr(n) + ";host=10.1.0.1;port=6667;tls=0"
					if len(cmd.F) != 1 {
						return nil
					}
				} else {
					v, ok := cmd.get("pass")
					if !ok || len(cmd.F) != 1 {
						return nil
					}
					q.line = fmt.Sprintf("BOUNCER CHANGENETWORK %d pass=%s", max(1, st.users[q.actor].nets[cmd.T].id), c16Attr(v))
					if st.users[q.actor].nets[cmd.T].id == 0 {
						q.line = "BOUNCER CHANGENETWORK 98765 pass=x"
					}
				}
			default:
				q.line = "PRIVMSG " + []string{"BouncerServ", "bouncerserv"}[op.N%2] + " :" + cmd.words()
				if q.x == nil {
					q.line = "BOUNCERSERV :" + cmd.words()
				}
			}
			return q
		}
		// verdict: 1 accepted, 0 refused, -1 no answer
		verdict := func(q *req, desc string) (int, error) {
			cl := sock
			if q.x != nil {
				cl = q.x.cl
			}
			ok, n := -1, 0
			msgs := cl.Take()
			for _, m := range msgs {
				switch {
				case q.x == nil && m.Command == "BOUNCERSERV" && param(m, 0) == "OK":
					ok, n = 1, n+1
				case q.x == nil && m.Command == "FAIL":
					ok, n = 0, n+1
				case q.x != nil && q.svc && m.Command == "PRIVMSG" && m.Prefix != nil && m.Prefix.Name == "BouncerServ":
					n++
					if strings.HasPrefix(param(m, 1), "error") {
						ok = 0
					} else if ok < 0 {
						ok = 1
					}
				case q.x != nil && !q.svc && m.Command == "FAIL":
					ok, n = 0, n+1
				case q.x != nil && !q.svc && m.Command == "BOUNCER" && param(m, 0) != "NETWORK":
					ok, n = 1, n+1
				}
			}
			r.Tracef("verdict %v for %s (%d answers)", ok, q.line, n)
			if n > 1 && (q.x == nil || !q.svc) {
				return ok, vio("answer", "%s: %d answers: %s", desc, n, fmtMsgs(msgs))
			}
			return ok, nil
		}
		// auth updates the model for a successful authentication.
		auth := func(name string) *c17M {
			u := st.users[name]
			if c.OnAuth {
				if u == nil {
					st.gens++
					u = &c17M{max: -1, nets: map[string]c17Net{}, gen: st.gens}
					st.users[name] = u
					r.Count("created-by-login")
				}
				u.enabled = true
			}
			if u == nil || !u.enabled {
				return nil
			}
			return u
		}
		for i := 0; i < len(c.Ops); i++ {
			op := c.Ops[i]
			desc := fmt.Sprintf("op %d %s", i, op.K)
			lookAll()
			switch op.K {
			case "login":
				name := c17Names[((op.U%len(c17Names))+len(c17Names))%len(c17Names)]
				u := auth(name)
				cl, m := w.Login(LoginOpts{User: name, Caps: []string{"soju.im/bouncer-networks", "batch"}})
				if (m != nil) != (u != nil) {
					return vio("login", "%s: login of %q possible: %v, expected %+v", desc, name, m != nil, u)
				}
				if m != nil {
					look(name)
					if len(sess) >= 6 {
						cl.Close()
					} else {
						sess = append(sess, &c17Sess{cl, name, u.gen})
					}
				} else {
					knocked(name)
					cl.Close()
				}
			case "auto":
				// a login naming an unknown network adds it
				name := c17Names[((op.U%len(c17Names))+len(c17Names))%len(c17Names)]
				nn := fmt.Sprintf("10.9.0.%d", ((op.N%3)+3)%3)
				u := auth(name)
				want := u != nil
				created := false
				if want {
					if _, exists := u.nets[nn]; !exists {
						if st.full(u) {
							want = false
							r.Count("limit-login")
							r.NonTrivial()
						} else {
							created = true
						}
					}
				}
				cl, m := w.Login(LoginOpts{User: name, Network: nn})
				if (m != nil) != want {
					return vio("limit", "%s: login of %q to network %q possible: %v, expected %v", desc, name, nn, m != nil, want)
				}
				if m != nil {
					look(name)
				} else {
					knocked(name)
				}
				if created {
					r.Count("network-by-login")
					u.nets[nn] = c17Net{enabled: true}
				}
				cl.Close()
			case "idle":
				// multiples of 4 hours plus one: some time before the next round
				if nIdle++; nIdle > 3 {
					return errInvalid{}
				}
				w.Sleep(time.Duration([]int{81, 41, 9}[((op.N%3)+3)%3]) * time.Hour)
				if !c.Idle {
					break
				}
				d := w.dump()
				round := started.Add(time.Since(started).Truncate(4 * time.Hour))
				for n, u := range st.users {
					idle := u.enabled
					for _, x := range sess {
						if x.user == n {
							idle = false
						}
					}
					if !idle {
						continue
					}
					a := round.Sub(seen[n].lo) > 72*time.Hour
					b := round.Sub(seen[n].hi) > 72*time.Hour
					if a != b {
						// the end of the last session may not have been noticed
						for _, x := range d.Users {
							if x.Username == n {
								a = !x.Enabled
							}
						}
						r.Count("inactive-either")
					}
					r.NonTrivial()
					if a {
						u.enabled = false
						r.Count("inactive")
					} else {
						r.Count("active-recently")
					}
				}
			case "logout":
				if len(sess) > 0 {
					k := op.A % len(sess)
					sess[k].cl.Close()
					look(sess[k].user)
					sess = append(sess[:k:k], sess[k+1:]...)
				}
			case "restart":
				if !w.Stop() {
					return vio("stop", "%s: the server doesn't stop", desc)
				}
				lookAll()
				sess = nil
				started = time.Now()
				w.Start()
				sock = w.Admin()
				w.Sleep(2 * time.Second)
			case "cmd":
				q := prep(op)
				if q == nil {
					continue
				}
				qs := []*req{q}
				desc += fmt.Sprintf(" %s(admin=%v): %s", q.actor, q.admin, q.line)
				if op.Par && i+1 < len(c.Ops) && c.Ops[i+1].K == "cmd" {
					o2 := c.Ops[i+1]
					if q2 := prep(o2); q2 != nil && q2.x != q.x {
						qs = append(qs, q2)
						desc += fmt.Sprintf(" || %s(admin=%v): %s", q2.actor, q2.admin, q2.line)
						i++
					}
				}
				for _, x := range sess {
					x.cl.Take()
				}
				sock.Take()
				for _, q := range qs {
					if q.x != nil {
						q.x.cl.Send(q.line)
					} else {
						sock.Send(q.line)
					}
				}
				if op.Bye && q.x != nil {
					// the session is gone before the answer: the command may or
					// may not have been carried out, nobody else is affected
					q.x.cl.Close()
					r.Count("closed-at-once")
					w.Wait()
					w.Sleep(25 * time.Second)
					for k := range sess {
						if sess[k] == q.x {
							sess = append(sess[:k:k], sess[k+1:]...)
							break
						}
					}
				} else {
					w.Wait()
					if len(qs) > 1 || q.op.Cmd.K == "user run" {
						w.Sleep(25 * time.Second) // in case they wait for each other
					}
				}
				var vs []int
				for k, q := range qs {
					v, err := verdict(q, desc)
					if err != nil {
						return err
					}
					gone := op.Bye && k == 0 && q.x != nil
					if q.x != nil && q.x.cl.Closed() {
						gone = true
					}
					if v < 0 && !gone {
						return vio("no-answer", "%s: no answer to %q", desc, q.line)
					}
					if gone {
						v = -1
					}
					if v == 0 && c17Cyclic(q.actor, &q.op.Cmd) {
						v = -1 // timed out: may have been carried out all the same
					}
					vs = append(vs, v)
				}
				if q.x != nil {
					// the session may be gone because the user is
					w.Sleep(time.Second)
				}
				r.Count(op.Cmd.K)
				if len(qs) == 1 && vs[0] >= 0 && !c17Cyclic(q.actor, &q.op.Cmd) {
					nst, ok, priv := st.apply(q.actor, q.admin, &q.op.Cmd)
					if priv {
						r.Count("privileged-refused")
						r.NonTrivial()
					}
					if ok != (vs[0] == 1) {
						cl := "accept"
						if priv {
							cl = "privilege"
						}
						return vio(cl, "%s: accepted=%v, expected %v", desc, vs[0] == 1, ok)
					}
					if len(st.users) != len(nst.users) || matches(st) != nil {
						r.NonTrivial()
					}
					st = nst
				} else {
					// find an order which explains the outcome; a request that
					// was refused because of the contention changed nothing
					var cands []*c17State
					step := func(from []*c17State, q *req, v int) []*c17State {
						var out []*c17State
						for _, f := range from {
							adm := q.admin
							if q.x != nil {
								if f.users[q.actor] == nil {
									if v != 1 {
										out = append(out, f)
									}
									continue
								}
								adm = f.users[q.actor].admin
							}
							nst, ok, _ := f.apply(q.actor, adm, &q.op.Cmd)
							if ok && v != 0 {
								out = append(out, nst)
							}
							if v != 1 {
								out = append(out, f)
							}
							if v == 1 && !ok {
								continue
							}
						}
						return out
					}
					if len(qs) == 1 {
						cands = step([]*c17State{st}, qs[0], vs[0])
					} else {
						cands = append(step(step([]*c17State{st}, qs[0], vs[0]), qs[1], vs[1]), step(step([]*c17State{st}, qs[1], vs[1]), qs[0], vs[0])...)
						r.Count("concurrent")
					}
					found := false
					var last error
					for _, cd := range cands {
						if last = matches(cd); last == nil {
							st, found = cd, true
							break
						}
					}
					if !found {
						return vio("serial", "%s: answers %v don't correspond to any order: %v", desc, vs, last)
					}
					r.NonTrivial()
				}
				for _, q := range qs {
					// a changed password ends the sessions if changed by others
					if t := c17PwTarget(&q.op.Cmd, q.actor); t != "" && len(qs) == 1 && vs[0] == 1 {
						r.Count("password-by-others")
						for _, x := range sess {
							if x.user == t && !x.cl.Closed() {
								return vio("session-open", "%s: a session of %q is still open although their password was changed", desc, t)
							}
						}
					}
					sess = c17DropPw(st, sess, &q.op.Cmd, q.actor)
				}
			}
			w.Sleep(2 * time.Second)
			if sock.Closed() {
				return vio("session-closed", "%s: the administrator's connection was closed", desc)
			}
			// IDs, for CHANGENETWORK
			d := w.dump()
			for un, m := range st.users {
				for _, n := range d.Nets[un] {
					if x, ok := m.nets[n.GetName()]; ok {
						x.id = n.ID
						m.nets[n.GetName()] = x
					}
				}
			}
			if err := check(desc); err != nil {
				return err
			}
		}
		// nothing of deleted users is left, and a restart changes nothing
		if !w.Stop() {
			return vio("stop", "the server doesn't stop")
		}
		sess = nil
		w.Start()
		sock = w.Admin()
		w.Sleep(3 * time.Second)
		return check("after a restart")
	})
}

// c17Cyclic tells whether a user runs a command as another user which needs
// the former to do something: it times out.
func c17Cyclic(actor string, c *c17Cmd) bool {
	chain := map[string]bool{}
	for c != nil {
		if c.K != "user run" && c.K != "user update" && c.K != "user delete" {
			return false
		}
		if c.T != actor && c.T != "" {
			chain[actor] = true
			if chain[c.T] {
				return true
			}
		}
		actor, c = c.T, c.Sub
	}
	return false
}

// c17DropPw forgets sessions which may have been closed by a password change.
func c17DropPw(st *c17State, sess []*c17Sess, c *c17Cmd, actor string) []*c17Sess {
	if c.K == "user run" && c.Sub != nil {
		return c17DropPw(st, sess, c.Sub, c.T)
	}
	if c.K != "user update" {
		return sess
	}
	_, a := c.get("password")
	_, b := c.get("disable-password")
	if !a && !b {
		return sess
	}
	var out []*c17Sess
	for _, x := range sess {
		t := c.T
		if t == "" {
			t = actor
		}
		if x.user == t && x.cl.Closed() {
			continue
		}
		out = append(out, x)
	}
	return out
}

func keysOf[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var c17Keys, c17Cmds = map[string]bool{}, map[string]bool{}

func init() {
	for seed := uint64(1); seed < 2000; seed++ {
		c := genC17Cmd(NewG(seed), 0)
		c17Cmds[c.K] = true
		for _, f := range c.F {
			c17Keys[f.K] = true
		}
	}
	p := prop("C17", "a command changes the users or networks, is refused for lack of powers, or runs concurrently with another", 6000, 150000,
		"SQLite backend; passwords are checked against the stored hash (logins with passwords are C01's)")
	add(p, "users", 1, genC17, func(r *R, c c17Case) error { return runC17(r, c) })
	p = prop("C15", "a command is refused for lack of powers or because of a limit, or changes the users or networks", 6000, 150000,
		"SQLite backend")
	add(p, "powers", 2, genC15, func(r *R, c c17Case) error { return runC17(r, c) })
}

// c17PwTarget is the user whose password a command changes, unless that's who
// runs it.
func c17PwTarget(c *c17Cmd, actor string) string {
	if c.K == "user run" && c.Sub != nil {
		return c17PwTarget(c.Sub, c.T)
	}
	_, a := c.get("password")
	_, b := c.get("disable-password")
	if c.K != "user update" || !a && !b || c.T == "" || c.T == actor {
		return ""
	}
	return c.T
}
