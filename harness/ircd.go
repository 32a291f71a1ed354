package harness

import (
	"context"
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"
)

// foldWith is an independent implementation of the IRC case-mappings.
func foldWith(cm, s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		case cm == "ascii":
		case c == '[':
			b[i] = '{'
		case c == ']':
			b[i] = '}'
		case c == '\\':
			b[i] = '|'
		case c == '~' && cm == "rfc1459":
			b[i] = '^'
		}
	}
	return string(b)
}

// SUser is a user of the simulated network.
type SUser struct {
	Nick, User, Host, Real, Server, Account string
	Away                                    string
}

func (u *SUser) Prefix() string { return u.Nick + "!" + u.User + "@" + u.Host }

// SChan is a channel of the simulated network.
type SChan struct {
	Name      string
	Topic     string
	TopicWho  string
	TopicTime int64
	Key       string
	Modes     map[byte]string
	Created   int64
	Secret    bool
	Members   map[string]string // folded nick -> membership mode letters in PREFIX order
}

// IRCd is a simulated IRC server.
type IRCd struct {
	w    *World
	addr string
	name string

	// configuration
	Caps       []string // as advertised, e.g. "sasl=PLAIN"
	CapLines   int      // >1: split CAP LS in several lines
	Isupport   []string
	MonLimit   int
	NoCM       bool // the case mapping isn't announced
	CM         string
	PrefixM    string // membership modes, e.g. "ov"
	PrefixP    string // membership prefixes, e.g. "@+"
	Taken      map[string]bool
	Accounts   map[string]string // SASL PLAIN accounts
	NakCaps    bool
	TLS        *tls.Config
	Motd       bool
	NoRegister bool
	// Ghost makes the server drop an older connection which holds the nick a
	// new one registers with.
	Ghost   bool
	PassReq string
	// Trunc, when non-zero, is the length nicks are truncated to.
	Trunc     int
	AcceptExt bool

	// Hook, when set, is consulted for each message after registration: when
	// it returns true the message isn't processed further.
	Hook func(c *UpConn, m *irc.Message) bool
	// RegHook is consulted for each message before registration
	RegHook func(c *UpConn, m *irc.Message) bool

	mu    sync.Mutex
	down  bool
	conns []*UpConn
	Users map[string]*SUser
	Chans map[string]*SChan
	clock int64
	batch int
}

// UpConn is a connection of the bouncer to a simulated server.
type UpConn struct {
	s    *IRCd
	conn net.Conn
	raw  *memConn
	n    int

	Caps       map[string]bool
	Nick       string
	Me         *SUser
	Registered bool
	capNeg     bool
	gotUser    bool
	userMsg    *irc.Message
	pass       string
	saslMech   string
	saslBuf    string
	AuthedAs   string

	Monitored map[string]bool

	recv   []*irc.Message // everything received so far
	taken  int
	closed bool

	label string
	out   []*irc.Message
	inReq bool
}

// AddServer registers a simulated server reachable at addr (host:port).
func (w *World) AddServer(addr string) *IRCd {
	s := &IRCd{
		w: w, addr: addr, name: "irc." + strings.SplitN(addr, ":", 2)[0],
		CM: "rfc1459", PrefixM: "ov", PrefixP: "@+",
		Caps:  []string{"message-tags", "server-time", "batch", "labeled-response", "echo-message", "multi-prefix", "extended-join", "away-notify", "account-notify", "account-tag", "chghost", "setname", "invite-notify", "cap-notify"},
		Users: map[string]*SUser{}, Chans: map[string]*SChan{}, Taken: map[string]bool{},
		clock: 1000000000,
	}
	w.dialMu.Lock()
	w.servers[addr] = s
	w.dialMu.Unlock()
	return s
}

func (s *IRCd) Fold(x string) string { return foldWith(s.CM, x) }

func (s *IRCd) isDown() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.down }

// SetDown makes the server refuse connections.
func (s *IRCd) SetDown(down bool) { s.mu.Lock(); s.down = down; s.mu.Unlock() }

func (s *IRCd) hasCap(name string) bool {
	for _, c := range s.Caps {
		if strings.SplitN(c, "=", 2)[0] == name {
			return true
		}
	}
	return false
}

func (s *IRCd) accept(ctx context.Context, a, b *memConn) (net.Conn, error) {
	var nc net.Conn = b
	if s.TLS != nil {
		nc = tls.Server(b, s.TLS)
	}
	s.mu.Lock()
	for _, o := range s.conns {
		// Connections which have been closed are gone before a new one is
		// accepted, even if nobody has read the end of the stream yet.
		if mc := o.raw; !o.closed {
			mc.in.mu.Lock()
			gone := mc.in.closed
			mc.in.mu.Unlock()
			if gone {
				o.drop()
			}
		}
	}
	c := &UpConn{s: s, conn: nc, raw: b, n: len(s.conns), Caps: map[string]bool{}, Monitored: map[string]bool{}}
	s.conns = append(s.conns, c)
	s.mu.Unlock()
	go c.readLoop()
	return a, nil
}

func (s *IRCd) closeAll() {
	s.mu.Lock()
	conns := append([]*UpConn(nil), s.conns...)
	s.mu.Unlock()
	for _, c := range conns {
		c.conn.Close()
	}
}

// Conn returns the latest open connection, or nil.
func (s *IRCd) Conn() *UpConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := len(s.conns) - 1; i >= 0; i-- {
		if !s.conns[i].closed {
			return s.conns[i]
		}
	}
	return nil
}

// Conns returns all connections so far.
func (s *IRCd) Conns() []*UpConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*UpConn(nil), s.conns...)
}

// OpenConns counts the connections which are still open.
func (s *IRCd) OpenConns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, c := range s.conns {
		if !c.closed {
			n++
		}
	}
	return n
}

func (c *UpConn) readLoop() {
	rd := newLineReader(c.conn)
	if b, err := rd.r.Peek(1); err == nil && b[0] == 0x16 {
		// A TLS handshake: this is a plain-text server.
		c.s.mu.Lock()
		c.drop()
		c.s.mu.Unlock()
		c.conn.Close()
		return
	}
	for {
		m, err := rd.ReadMessage()
		if err != nil {
			c.s.mu.Lock()
			c.drop()
			c.s.mu.Unlock()
			c.conn.Close()
			return
		}
		c.s.mu.Lock()
		c.recv = append(c.recv, m)
		c.s.w.R.Tracef("%s#%d << %v", c.s.addr, c.n, m)
		if !c.closed {
			c.handle(m)
		}
		c.s.mu.Unlock()
	}
}

// drop removes the connection's user from the network (mutex held).
func (c *UpConn) drop() {
	if c.closed {
		return
	}
	c.closed = true
	if c.Me != nil {
		f := c.s.Fold(c.Me.Nick)
		for _, ch := range c.s.Chans {
			delete(ch.Members, f)
		}
		delete(c.s.Users, f)
	}
}

// Close closes the connection from the server side.
func (c *UpConn) Close() {
	c.s.mu.Lock()
	c.drop()
	c.s.mu.Unlock()
	c.conn.Close()
}

func (c *UpConn) IsClosed() bool { c.s.mu.Lock(); defer c.s.mu.Unlock(); return c.closed }

func (c *UpConn) IsRegistered() bool { c.s.mu.Lock(); defer c.s.mu.Unlock(); return c.Registered }

// Take returns messages received since the last Take.
func (c *UpConn) Take() []*irc.Message {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	m := c.recv[c.taken:]
	c.taken = len(c.recv)
	return m
}

// All returns everything received.
func (c *UpConn) All() []*irc.Message {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	return append([]*irc.Message(nil), c.recv...)
}

// CurNick is the nick of the bouncer on this connection.
func (c *UpConn) CurNick() string { c.s.mu.Lock(); defer c.s.mu.Unlock(); return c.Nick }

// Raw sends a raw line to the bouncer.
func (c *UpConn) Raw(lines ...string) {
	for _, l := range lines {
		c.s.w.R.Tracef("%s#%d >> %s", c.s.addr, c.n, l)
		c.conn.Write([]byte(l + "\r\n"))
	}
}

// reply queues a reply to the current request (mutex held).
func (c *UpConn) reply(format string, args ...any) {
	line := fmt.Sprintf(format, args...)
	m, err := irc.ParseMessage(line)
	if err != nil {
		panic(harnessErr("bad reply %q: %v", line, err))
	}
	if m.Prefix.Name == "" {
		m.Prefix = &irc.Prefix{Name: c.s.name}
	}
	if c.inReq {
		c.out = append(c.out, m)
		return
	}
	c.Raw(m.String())
}

func (c *UpConn) num(cmd string, args string) {
	n := c.Nick
	if n == "" || !c.Registered {
		n = "*"
		if c.Registered {
			n = c.Nick
		}
	}
	c.reply(":%s %s %s %s", c.s.name, cmd, n, args)
}

func (c *UpConn) flush(label string) {
	out := c.out
	c.out = nil
	c.inReq = false
	if label != "" && c.Caps["labeled-response"] && c.Caps["batch"] {
		switch len(out) {
		case 0:
			c.Raw("@label=" + label + " :" + c.s.name + " ACK")
		case 1:
			out[0].Tags["label"] = label
			c.Raw(out[0].String())
		default:
			c.s.batch++
			ref := fmt.Sprintf("b%d", c.s.batch)
			c.Raw(fmt.Sprintf("@label=%s :%s BATCH +%s labeled-response", label, c.s.name, ref))
			for _, m := range out {
				m.Tags["batch"] = ref
				c.Raw(m.String())
			}
			c.Raw(fmt.Sprintf(":%s BATCH -%s", c.s.name, ref))
		}
		return
	}
	for _, m := range out {
		c.Raw(m.String())
	}
}

func (c *UpConn) handle(m *irc.Message) {
	s := c.s
	if !c.Registered {
		if s.RegHook != nil && s.RegHook(c, m) {
			return
		}
		c.handleReg(m)
		return
	}
	if s.Hook != nil && s.Hook(c, m) {
		return
	}
	label := m.Tags["label"]
	c.inReq = true
	c.handleCmd(m)
	c.flush(label)
}

func (c *UpConn) handleCap(m *irc.Message) {
	s := c.s
	sub := strings.ToUpper(param(m, 0))
	nick := "*"
	if c.Registered {
		nick = c.Nick
	}
	switch sub {
	case "LS":
		if !c.Registered {
			c.capNeg = true
		}
		n := max(1, s.CapLines)
		for i := 0; i < n; i++ {
			lo, hi := len(s.Caps)*i/n, len(s.Caps)*(i+1)/n
			star := "* "
			if i == n-1 {
				star = ""
			}
			c.reply(":%s CAP %s LS %s:%s", s.name, nick, star, strings.Join(s.Caps[lo:hi], " "))
		}
	case "REQ":
		ok := !s.NakCaps
		for _, cp := range strings.Fields(param(m, 1)) {
			if !s.hasCap(strings.TrimPrefix(cp, "-")) {
				ok = false
			}
		}
		verb := "NAK"
		if ok {
			verb = "ACK"
			for _, cp := range strings.Fields(param(m, 1)) {
				if strings.HasPrefix(cp, "-") {
					delete(c.Caps, cp[1:])
				} else {
					c.Caps[cp] = true
				}
			}
		}
		c.reply(":%s CAP %s %s :%s", s.name, nick, verb, param(m, 1))
	case "END":
		c.capNeg = false
	}
}

func (c *UpConn) handleSASL(m *irc.Message) {
	s := c.s
	p := param(m, 0)
	nick := "*"
	if c.Nick != "" {
		nick = c.Nick
	}
	fail := func() {
		c.saslMech, c.saslBuf = "", ""
		c.reply(":%s 904 %s :SASL authentication failed", s.name, nick)
	}
	if p == "*" {
		c.saslMech, c.saslBuf = "", ""
		c.reply(":%s 906 %s :SASL authentication aborted", s.name, nick)
		return
	}
	if c.saslMech == "" {
		c.saslMech = strings.ToUpper(p)
		c.saslBuf = ""
		if c.saslMech != "PLAIN" && c.saslMech != "EXTERNAL" {
			fail()
			return
		}
		c.reply("AUTHENTICATE +")
		return
	}
	if p != "+" {
		c.saslBuf += p
	}
	if len(p) == 400 {
		return
	}
	dec, err := base64.StdEncoding.DecodeString(c.saslBuf)
	mech := c.saslMech
	c.saslMech, c.saslBuf = "", ""
	if err != nil {
		fail()
		return
	}
	account := ""
	switch mech {
	case "PLAIN":
		parts := strings.Split(string(dec), "\x00")
		if len(parts) != 3 || s.Accounts[parts[1]] == "" || s.Accounts[parts[1]] != parts[2] {
			fail()
			return
		}
		account = parts[1]
	case "EXTERNAL":
		if !s.AcceptExt {
			fail()
			return
		}
		account = "extaccount"
	}
	c.AuthedAs = account
	if c.Me != nil {
		c.Me.Account = account
	}
	user := "user"
	if c.userMsg != nil {
		user = param(c.userMsg, 0)
	}
	host := "bouncer.host"
	if c.Me != nil {
		user, host = c.Me.User, c.Me.Host
	}
	c.reply(":%s 900 %s %s!%s@%s %s :You are now logged in as %s", s.name, nick, nick, user, host, account, account)
	c.reply(":%s 903 %s :SASL authentication successful", s.name, nick)
}

func (c *UpConn) handleReg(m *irc.Message) {
	s := c.s
	switch m.Command {
	case "CAP":
		c.handleCap(m)
	case "AUTHENTICATE":
		c.handleSASL(m)
	case "PASS":
		c.pass = param(m, 0)
	case "PING":
		c.reply(":%s PONG %s :%s", s.name, s.name, param(m, 0))
		return
	case "NICK":
		n := s.trunc(param(m, 0))
		if s.Ghost {
			for _, o := range s.conns {
				if o != c && !o.closed && o.Me != nil && s.Fold(o.Me.Nick) == s.Fold(n) {
					o.drop()
					o.conn.Close()
				}
			}
		}
		if s.nickTaken(n) {
			c.reply(":%s 433 * %s :Nickname is already in use", s.name, n)
			return
		}
		c.Nick = n
	case "USER":
		c.gotUser = true
		c.userMsg = m
	}
	if c.capNeg || !c.gotUser || c.Nick == "" || s.NoRegister {
		return
	}
	if s.PassReq != "" && c.pass != s.PassReq {
		c.reply(":%s 464 * :Password incorrect", s.name)
		c.drop()
		c.conn.Close()
		return
	}
	if s.nickTaken(c.Nick) {
		c.reply(":%s 433 * %s :Nickname is already in use", s.name, c.Nick)
		c.Nick = ""
		return
	}
	c.Registered = true
	c.Me = &SUser{Nick: c.Nick, User: param(c.userMsg, 0), Host: "bouncer.host", Real: param(c.userMsg, 3), Server: s.name, Account: c.AuthedAs}
	s.Users[s.Fold(c.Nick)] = c.Me
	c.num("001", ":Welcome")
	c.num("002", ":Your host")
	c.num("003", ":Created")
	c.num("004", s.name+" simd iow bklmnostv")
	tokens := append([]string{}, s.Isupport...)
	if s.CM != "" && !s.NoCM {
		tokens = append(tokens, "CASEMAPPING="+s.CM)
	}
	tokens = append(tokens, "soju.im/SAFERATE", "CHANTYPES=#", "CHANMODES=be,k,l,imnst", fmt.Sprintf("PREFIX=(%s)%s", s.PrefixM, s.PrefixP))
	for i := 0; i < len(tokens); i += 10 {
		c.num("005", strings.Join(tokens[i:min(i+10, len(tokens))], " ")+" :are supported by this server")
	}
	if s.Motd {
		c.num("375", ":- MOTD")
		c.num("372", ":- hello")
		c.num("376", ":End of MOTD")
	} else {
		c.num("422", ":No MOTD")
	}
}

func (s *IRCd) trunc(n string) string {
	if s.Trunc > 0 && len(n) > s.Trunc {
		return n[:s.Trunc]
	}
	return n
}

func (s *IRCd) nickTaken(n string) bool {
	f := s.Fold(n)
	return s.Taken[f] || s.Users[f] != nil
}

// chan returns the channel, creating it when needed (mutex held).
func (s *IRCd) channel(name string, create bool) *SChan {
	f := s.Fold(name)
	ch := s.Chans[f]
	if ch == nil && create {
		s.clock++
		ch = &SChan{Name: name, Modes: map[byte]string{'n': "", 't': ""}, Created: s.clock, Members: map[string]string{}}
		s.Chans[f] = ch
	}
	return ch
}

func (s *IRCd) sortModes(m string) string {
	var sb strings.Builder
	for i := 0; i < len(s.PrefixM); i++ {
		if strings.IndexByte(m, s.PrefixM[i]) >= 0 {
			sb.WriteByte(s.PrefixM[i])
		}
	}
	return sb.String()
}

func (s *IRCd) prefixes(m string, multi bool) string {
	var sb strings.Builder
	for i := 0; i < len(s.PrefixM); i++ {
		if strings.IndexByte(m, s.PrefixM[i]) >= 0 {
			sb.WriteByte(s.PrefixP[i])
			if !multi {
				break
			}
		}
	}
	return sb.String()
}

func (c *UpConn) names(ch *SChan) {
	s := c.s
	var l []string
	var keys []string
	for k := range ch.Members {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if u := s.Users[k]; u != nil {
			l = append(l, s.prefixes(ch.Members[k], c.Caps["multi-prefix"])+u.Nick)
		}
	}
	st := "="
	if ch.Secret {
		st = "@"
	}
	for i := 0; i < len(l); i += 7 {
		c.num("353", st+" "+ch.Name+" :"+strings.Join(l[i:min(i+7, len(l))], " "))
	}
	c.num("366", ch.Name+" :End of /NAMES list")
}

func (ch *SChan) modeString() (string, []string) {
	var ks []byte
	for k := range ch.Modes {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	str := "+"
	var args []string
	for _, k := range ks {
		str += string(k)
		if ch.Modes[k] != "" {
			args = append(args, ch.Modes[k])
		}
	}
	return str, args
}

func (c *UpConn) joinMsg(ch *SChan, u *SUser) string {
	if c.Caps["extended-join"] {
		acc := u.Account
		if acc == "" {
			acc = "*"
		}
		return fmt.Sprintf(":%s JOIN %s %s :%s", u.Prefix(), ch.Name, acc, u.Real)
	}
	return fmt.Sprintf(":%s JOIN %s", u.Prefix(), ch.Name)
}

func (c *UpConn) handleCmd(m *irc.Message) {
	s := c.s
	switch m.Command {
	case "CAP":
		c.handleCap(m)
	case "AUTHENTICATE":
		c.handleSASL(m)
	case "PING":
		c.reply(":%s PONG %s :%s", s.name, s.name, param(m, 0))
	case "PONG":
	case "JOIN":
		keys := strings.Split(param(m, 1), ",")
		for i, name := range strings.Split(param(m, 0), ",") {
			key := ""
			if i < len(keys) {
				key = keys[i]
			}
			if !strings.HasPrefix(name, "#") {
				c.num("403", name+" :No such channel")
				continue
			}
			ch := s.channel(name, true)
			if ch.Key != "" && ch.Key != key {
				c.num("475", name+" :Cannot join channel (+k)")
				continue
			}
			f := s.Fold(c.Nick)
			if _, ok := ch.Members[f]; ok {
				continue
			}
			ch.Members[f] = ""
			c.reply("%s", c.joinMsg(ch, c.Me))
			if ch.Topic != "" {
				c.num("332", ch.Name+" :"+ch.Topic)
				c.num("333", fmt.Sprintf("%s %s %d", ch.Name, ch.TopicWho, ch.TopicTime))
			}
			c.names(ch)
		}
	case "PART":
		for _, name := range strings.Split(param(m, 0), ",") {
			ch := s.channel(name, false)
			f := s.Fold(c.Nick)
			if ch == nil {
				c.num("403", name+" :No such channel")
				continue
			}
			if _, ok := ch.Members[f]; !ok {
				c.num("442", name+" :You're not on that channel")
				continue
			}
			delete(ch.Members, f)
			if r := param(m, 1); r != "" {
				c.reply(":%s PART %s :%s", c.Me.Prefix(), ch.Name, r)
			} else {
				c.reply(":%s PART %s", c.Me.Prefix(), ch.Name)
			}
		}
	case "MODE":
		name := param(m, 0)
		if !strings.HasPrefix(name, "#") {
			if len(m.Params) > 1 {
				c.reply(":%s MODE %s %s", c.Me.Prefix(), c.Nick, m.Params[1])
			} else {
				c.num("221", "+i")
			}
			return
		}
		ch := s.channel(name, false)
		if ch == nil {
			c.num("403", name+" :No such channel")
			return
		}
		if len(m.Params) == 1 {
			str, args := ch.modeString()
			c.num("324", strings.Join(append([]string{ch.Name, str}, args...), " "))
			c.num("329", fmt.Sprintf("%s %d", ch.Name, ch.Created))
			return
		}
		if param(m, 1) == "b" || param(m, 1) == "+b" && len(m.Params) == 2 {
			c.num("367", ch.Name+" *!*@banned")
			c.num("368", ch.Name+" :End of channel ban list")
			return
		}
		c.reply(":%s MODE %s", c.Me.Prefix(), strings.Join(append([]string{ch.Name}, m.Params[1:]...), " "))
		s.applyMode(ch, m.Params[1], m.Params[2:])
	case "TOPIC":
		ch := s.channel(param(m, 0), false)
		if ch == nil {
			c.num("403", param(m, 0)+" :No such channel")
			return
		}
		if len(m.Params) > 1 {
			s.clock++
			ch.Topic, ch.TopicWho, ch.TopicTime = m.Params[1], c.Me.Prefix(), time.Now().Unix()
			c.reply(":%s TOPIC %s :%s", c.Me.Prefix(), ch.Name, ch.Topic)
		} else if ch.Topic != "" {
			c.num("332", ch.Name+" :"+ch.Topic)
			c.num("333", fmt.Sprintf("%s %s %d", ch.Name, ch.TopicWho, ch.TopicTime))
		} else {
			c.num("331", ch.Name+" :No topic is set")
		}
	case "NAMES":
		ch := s.channel(param(m, 0), false)
		if ch == nil {
			c.num("366", param(m, 0)+" :End of /NAMES list")
			return
		}
		c.names(ch)
	case "NICK":
		n := s.trunc(param(m, 0))
		if s.nickTaken(n) && s.Fold(n) != s.Fold(c.Nick) {
			c.num("433", n+" :Nickname is already in use")
			return
		}
		old := c.Me.Prefix()
		s.rename(c.Me, n)
		c.Nick = n
		c.reply(":%s NICK %s", old, n)
	case "SETNAME":
		c.Me.Real = param(m, 0)
		c.reply(":%s SETNAME :%s", c.Me.Prefix(), c.Me.Real)
	case "AWAY":
		c.Me.Away = param(m, 0)
		if c.Me.Away != "" {
			c.num("306", ":You have been marked as being away")
		} else {
			c.num("305", ":You are no longer marked as being away")
		}
	case "PRIVMSG", "NOTICE", "TAGMSG":
		if !c.Caps["echo-message"] {
			return
		}
		e := m.Copy()
		e.Prefix = irc.ParsePrefix(c.Me.Prefix())
		delete(e.Tags, "label")
		c.out = append(c.out, e)
	case "WHO":
		c.who(m)
	case "WHOIS":
		nick := param(m, -1)
		if u := s.Users[s.Fold(nick)]; u != nil {
			c.num("311", fmt.Sprintf("%s %s %s * :%s", u.Nick, u.User, u.Host, u.Real))
			c.num("312", fmt.Sprintf("%s %s :server", u.Nick, u.Server))
			if u.Account != "" {
				c.num("330", fmt.Sprintf("%s %s :is logged in as", u.Nick, u.Account))
			}
			c.num("318", u.Nick+" :End of /WHOIS list")
		} else {
			c.num("401", nick+" :No such nick")
		}
	case "LIST":
		c.num("321", "Channel :Users  Name")
		var ks []string
		for k := range s.Chans {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if p := param(m, 0); p != "" && s.Fold(p) != k {
				continue
			}
			c.num("322", fmt.Sprintf("%s %d :%s", s.Chans[k].Name, len(s.Chans[k].Members), s.Chans[k].Topic))
		}
		c.num("323", ":End of /LIST")
	case "MONITOR":
		c.monitor(m)
	case "INVITE":
		c.num("341", param(m, 0)+" "+param(m, 1))
	case "MOTD":
		c.num("375", ":- MOTD")
		c.num("372", ":- hello")
		c.num("376", ":End of MOTD")
	case "QUIT":
		c.drop()
		c.conn.Close()
	default:
		c.num("421", m.Command+" :Unknown command")
	}
}

func (c *UpConn) monitor(m *irc.Message) {
	s := c.s
	switch strings.ToUpper(param(m, 0)) {
	case "+":
		for _, t := range strings.Split(param(m, 1), ",") {
			if t == "" {
				continue
			}
			f := s.Fold(t)
			if s.MonLimit > 0 && !c.Monitored[f] && len(c.Monitored) >= s.MonLimit {
				c.num("734", fmt.Sprintf("%d %s :Monitor list is full", s.MonLimit, t))
				continue
			}
			c.Monitored[f] = true
			if u := s.Users[f]; u != nil {
				c.num("730", ":"+u.Prefix())
			} else {
				c.num("731", ":"+t)
			}
		}
	case "-":
		for _, t := range strings.Split(param(m, 1), ",") {
			delete(c.Monitored, s.Fold(t))
		}
	case "C":
		c.Monitored = map[string]bool{}
	}
}

func (c *UpConn) who(m *irc.Message) {
	s := c.s
	mask := param(m, 0)
	opts := param(m, 1)
	var us []*SUser
	chname := "*"
	var ch *SChan
	if ch = s.channel(mask, false); ch != nil {
		chname = ch.Name
		var ks []string
		for k := range ch.Members {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if s.Users[k] != nil {
				us = append(us, s.Users[k])
			}
		}
	} else if u := s.Users[s.Fold(mask)]; u != nil {
		us = append(us, u)
	}
	for _, u := range us {
		flags := "H"
		if u.Away != "" {
			flags = "G"
		}
		if ch != nil {
			flags += s.prefixes(ch.Members[s.Fold(u.Nick)], c.Caps["multi-prefix"])
		}
		if i := strings.IndexByte(opts, '%'); i >= 0 {
			fields, token, _ := strings.Cut(opts[i+1:], ",")
			var vals []string
			for _, f := range []byte("tcuihsnfdlaor") {
				if strings.IndexByte(fields, f) < 0 {
					continue
				}
				v := ""
				switch f {
				case 't':
					v = token
				case 'c':
					v = chname
				case 'u':
					v = u.User
				case 'i':
					v = "255.255.255.255"
				case 'h':
					v = u.Host
				case 's':
					v = u.Server
				case 'n':
					v = u.Nick
				case 'f':
					v = flags
				case 'd', 'l':
					v = "0"
				case 'a':
					v = u.Account
					if v == "" {
						v = "0"
					}
				case 'o':
					v = "n/a"
				case 'r':
					v = ":" + u.Real
				}
				vals = append(vals, v)
			}
			c.num("354", strings.Join(vals, " "))
		} else {
			c.num("352", fmt.Sprintf("%s %s %s %s %s %s :0 %s", chname, u.User, u.Host, u.Server, u.Nick, flags, u.Real))
		}
	}
	c.num("315", mask+" :End of /WHO list")
}

func (s *IRCd) rename(u *SUser, n string) {
	of, nf := s.Fold(u.Nick), s.Fold(n)
	u.Nick = n
	delete(s.Users, of)
	s.Users[nf] = u
	if of == nf {
		return
	}
	for _, ch := range s.Chans {
		if m, ok := ch.Members[of]; ok {
			delete(ch.Members, of)
			ch.Members[nf] = m
		}
	}
}

// applyMode applies a well-formed channel mode change (CHANMODES=be,k,l,imnst).
func (s *IRCd) applyMode(ch *SChan, str string, args []string) {
	plus := true
	ai := 0
	next := func() string {
		if ai < len(args) {
			ai++
			return args[ai-1]
		}
		return ""
	}
	for i := 0; i < len(str); i++ {
		m := str[i]
		switch {
		case m == '+':
			plus = true
		case m == '-':
			plus = false
		case strings.IndexByte(s.PrefixM, m) >= 0:
			f := s.Fold(next())
			cur, ok := ch.Members[f]
			if !ok {
				continue
			}
			cur = strings.ReplaceAll(cur, string(m), "")
			if plus {
				cur += string(m)
			}
			ch.Members[f] = s.sortModes(cur)
		case m == 'b' || m == 'e':
			next()
		case m == 'Z':
			// not advertised, and not reported either
		case m == 'k':
			a := next()
			if plus {
				ch.Modes['k'] = a
			} else {
				delete(ch.Modes, 'k')
			}
		case m == 'l':
			if plus {
				ch.Modes['l'] = next()
			} else {
				delete(ch.Modes, 'l')
			}
		default:
			if plus {
				ch.Modes[m] = ""
			} else {
				delete(ch.Modes, m)
			}
		}
	}
}

// ---------------------------------------------------------------- driving

// With runs f with the server lock held.
func (s *IRCd) With(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f()
}

// AddUser adds a simulated user.
func (s *IRCd) AddUser(nick string) *SUser {
	s.mu.Lock()
	defer s.mu.Unlock()
	u := &SUser{Nick: nick, User: "u" + nick, Host: "host." + nick, Real: "Real " + nick, Server: s.name}
	s.Users[s.Fold(nick)] = u
	return u
}

// InChan reports whether the bouncer is in the channel.
func (c *UpConn) InChan(name string) bool {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	ch := c.s.channel(name, false)
	if ch == nil {
		return false
	}
	_, ok := ch.Members[c.s.Fold(c.Nick)]
	return ok
}

// ChanList returns the folded names of channels the bouncer is in.
func (c *UpConn) ChanList() []string {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	var l []string
	for k, ch := range c.s.Chans {
		if _, ok := ch.Members[c.s.Fold(c.Nick)]; ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}
