package harness

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C22: registration with upstream servers follows the configuration.

// tlsKit holds the certificates used by simulated TLS servers. The CA becomes
// the only one the process trusts.
type tlsKit struct {
	certs map[string]tls.Certificate
	cli   [][2][]byte // client certificates (DER, PKCS #8 key)
}

const (
	tlsHost0 = "irc0.test"
	tlsHost1 = "irc1.test"
)

var getTLSKit = sync.OnceValue(func() *tlsKit {
	must := func(err error) {
		if err != nil {
			panic(harnessErr("TLS kit: %v", err))
		}
	}
	from, to := time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	serial := int64(1)
	mk := func(t *x509.Certificate, parent *x509.Certificate, pk crypto.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		t.SerialNumber = big.NewInt(serial)
		serial++
		if parent == nil {
			parent, pk = t, k
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pk)
		must(err)
		c, err := x509.ParseCertificate(der)
		must(err)
		return c, k, der
	}
	ca, caKey, caDER := mk(&x509.Certificate{Subject: pkix.Name{CommonName: "verif CA"}, NotBefore: from, NotAfter: to, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, nil, nil)
	dir, err := os.MkdirTemp("", "ca-")
	must(err)
	file := filepath.Join(dir, "ca.pem")
	must(os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDER}), 0o600))
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
	_, err = x509.SystemCertPool()
	must(err)
	must(os.RemoveAll(dir))
	kit := &tlsKit{certs: map[string]tls.Certificate{}}
	srv := func(name string, self bool, nb, na time.Time, hosts ...string) {
		t := &x509.Certificate{Subject: pkix.Name{CommonName: hosts[0]}, NotBefore: nb, NotAfter: na, DNSNames: hosts, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		p, pk := ca, crypto.PrivateKey(caKey)
		if self {
			p, pk = nil, nil
		}
		_, k, der := mk(t, p, pk)
		kit.certs[name] = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	}
	srv("ca", false, from, to, tlsHost0, tlsHost1)
	srv("self", true, from, to, tlsHost0, tlsHost1)
	srv("host", false, from, to, "other.test")
	srv("expired", false, from, time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), tlsHost0, tlsHost1)
	for i := 0; i < 2; i++ {
		_, k, der := mk(&x509.Certificate{Subject: pkix.Name{CommonName: "soju user"}, NotBefore: from, NotAfter: to}, nil, nil)
		pk, err := x509.MarshalPKCS8PrivateKey(k)
		must(err)
		kit.cli = append(kit.cli, [2][]byte{der, pk})
	}
	return kit
})

type c22Cfg struct {
	Nick, User, Real, Pass string
	Cmds                   []string
	Mech                   string
	SUser, SPass           string
	FP                     string // "", ok256, ok512, bad
}

type c22Net struct {
	Cfg      c22Cfg
	Disabled bool
	TLS      string // "" for plain-text, else the kind of certificate
	Caps     []string
	Lines    int
	UseNick  bool
	CapMode  string // ack, nak, naksasl, split, unknown, silent
	SASL     string // "" for success, else the numeric
	Taken    int
	Err      string // error sent at registration
	ErrN     int    // to that many attempts
	Monitor  bool
	Busy     int // how often the nick is temporarily unavailable once free
	NoMotd   bool
}

type c22Op struct {
	K   string
	N   int
	Cfg c22Cfg
	Cap []string
}

type c22Case struct {
	UNick, UReal string
	Nets         []c22Net
	Ops          []c22Op
}

var (
	c22Nicks = []string{"", "al", "Alice", "al[x]", "verylongnickname-0123456789", "exactly-twenty-nine-char-nick", "x"}
	c22Reals = []string{"", "Al Ice", ":colon first", "ü é", "one", " lead"}
	c22Users = []string{"", "ident", "~tilde", "u2"}
	c22Pass  = []string{"", "srvpass", "pass with space", ":colon", "p=a:s\\s"}
	c22Cmds  = []string{"OPER admin %sec", "MODE al +B", "PRIVMSG NickServ :IDENTIFY %sec", "", ":onlyprefix", "CAPAB :x  y", "@tag=1 PRIVMSG #c :hi", "@tag ", "@tag", "JOIN #extra", "privmsg bot :lower", "PRIVMSG bot :same", "PRIVMSG bot :same"}
	c22Mechs = []string{"", "PLAIN", "EXTERNAL"}
	c22Acct  = []string{"alice", "Acc ount", "ünï"}
	c22Saslv = []string{"sasl", "sasl=PLAIN", "sasl=EXTERNAL", "sasl=PLAIN,EXTERNAL", "sasl=plain", "sasl=SCRAM-SHA-256", "sasl=EXTERNAL,PLAIN,SCRAM-SHA-1", "sasl="}
	c22Caps  = []string{"message-tags", "server-time", "batch", "labeled-response", "echo-message", "multi-prefix", "extended-join", "away-notify", "account-notify", "account-tag", "chghost", "setname", "invite-notify", "cap-notify", "extended-monitor", "draft/account-registration", "unknown/x=1,2", "tls", "draft/chathistory", "userhost-in-names", "sts=port=6697"}
)

func genC22Cfg(g *G, secret string) c22Cfg {
	c := c22Cfg{Nick: Pick(g, c22Nicks), User: Pick(g, c22Users), Real: Pick(g, c22Reals), FP: []string{"", "ok256", "ok512", "bad"}[g.W(6, 3, 3, 2)]}
	if g.P(40) {
		c.Pass = Pick(g, c22Pass[1:]) + secret
	}
	for i := g.N(4); i > 0; i-- {
		c.Cmds = append(c.Cmds, strings.ReplaceAll(Pick(g, c22Cmds), "%sec", "cmd"+secret))
	}
	c.Mech = c22Mechs[g.W(3, 5, 3)]
	if c.Mech == "PLAIN" {
		c.SUser = Pick(g, c22Acct)
		c.SPass = "sasl" + secret + strings.Repeat("x", []int{0, 5, g.N(700)}[g.W(4, 2, 2)])
	}
	return c
}

func genC22(g *G) c22Case {
	c := c22Case{UNick: Pick(g, c22Nicks), UReal: Pick(g, c22Reals)}
	secn := 0
	sec := func() string { secn++; return fmt.Sprintf("~S%dE%d~", secn, g.N(90)) }
	for i, n := 0, 1+g.W(6, 4); i < n; i++ {
		nt := c22Net{
			Cfg: genC22Cfg(g, sec()), Disabled: g.P(5), TLS: []string{"", "ca", "self", "host", "expired"}[g.W(6, 4, 2, 1, 1)],
			Caps: Subset(g, c22Caps, 60), Lines: 1 + g.W(6, 2, 1), UseNick: g.P(40),
			CapMode: []string{"ack", "nak", "naksasl", "split", "unknown", "silent"}[g.W(10, 1, 2, 3, 1, 1)],
			SASL:    []string{"", "904", "905", "906", "902", "908", "907"}[g.W(10, 2, 1, 1, 1, 1, 1)],
			Taken:   []int{0, 1, 2, 3}[g.W(8, 4, 2, 1)], Monitor: g.P(50), NoMotd: g.P(50),
		}
		if g.P(85) {
			nt.Caps = append(nt.Caps, Pick(g, c22Saslv))
		}
		if g.P(25) {
			nt.Err, nt.ErrN = Pick(g, []string{"drop", "ERROR", "436", "437", "465", "464", "432", "FAIL", "dropcap", "refuse"}), 1+g.N(3)
		}
		if !nt.Monitor && g.P(40) {
			nt.Busy = 1 + g.N(2)
		}
		c.Nets = append(c.Nets, nt)
	}
	for i, n := 0, g.Size(0, 6); i < n; i++ {
		op := c22Op{K: []string{"drop", "update", "free", "new", "del", "down", "saslset", "saslreset"}[g.W(4, 5, 4, 3, 2, 2, 2, 1)], N: g.N(2)}
		switch op.K {
		case "update", "saslset":
			op.Cfg = genC22Cfg(g, sec())
		case "new", "del":
			op.Cap = Subset(g, append(append([]string{}, c22Caps...), "sasl"), 15)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c22Conn struct {
	cfg       c22Cfg
	offered   map[string]bool
	saslv     *string
	acked     map[string]bool
	authed    int // SASL outcomes sent
	authStart bool
	capEnd    int
	nicks     []string
	refused   map[string]bool
	regAt     int // number of lines received when registration completed
	cert      []byte
	errs      []string
}

type c22State struct {
	net   c22Net
	cfg   c22Cfg
	srv   *IRCd
	tls   bool
	ci    map[*UpConn]*c22Conn
	tries int
	dials []time.Time
	busy  int
	stop  bool // a permanent error was sent
	free  bool
}

func (st *c22State) supports(k *c22Conn, mech string) bool {
	if k.saslv == nil {
		return false
	}
	if *k.saslv == "" {
		return true
	}
	for _, m := range strings.Split(*k.saslv, ",") {
		if strings.EqualFold(m, mech) {
			return true
		}
	}
	return false
}

func (k *c22Conn) offer(caps []string, add bool) {
	for _, c := range caps {
		name, v, _ := strings.Cut(c, "=")
		name = strings.ToLower(name)
		if add {
			k.offered[name] = true
		} else {
			delete(k.offered, name)
			delete(k.acked, name)
		}
		if name == "sasl" {
			k.saslv = nil
			if add {
				k.saslv = &v
			}
		}
	}
}

func (k *c22Conn) bad(format string, args ...any) {
	k.errs = append(k.errs, fmt.Sprintf(format, args...))
}

func (st *c22State) conn(c *UpConn) *c22Conn {
	k := st.ci[c]
	if k == nil {
		k = &c22Conn{cfg: st.cfg, offered: map[string]bool{}, acked: map[string]bool{}, refused: map[string]bool{}}
		st.ci[c] = k
		st.tries++
		if tc, ok := c.conn.(*tls.Conn); ok {
			if pc := tc.ConnectionState().PeerCertificates; len(pc) > 0 {
				k.cert = pc[0].Raw
			}
		}
	}
	return k
}

// hook handles the capability and SASL parts (server mutex held).
func (st *c22State) hook(c *UpConn, m *irc.Message) bool {
	k := st.conn(c)
	s := st.srv
	tgt := "*"
	if st.net.UseNick && c.Nick != "" || c.Registered {
		tgt = c.Nick
	}
	switch m.Command {
	case "CAP":
		switch strings.ToUpper(param(m, 0)) {
		case "LS":
			switch st.net.CapMode {
			case "unknown":
				c.Raw(":" + s.name + " 421 * CAP :Unknown command")
				return true
			case "silent":
				return true
			}
			c.capNeg = true
			if st.net.UseNick {
				return false // answered once the nick is known
			}
			st.ls(c, k, tgt)
			return true
		case "REQ":
			req := strings.Fields(param(m, 1))
			ok := st.net.CapMode != "nak"
			for _, r := range req {
				n := strings.ToLower(strings.TrimPrefix(r, "-"))
				if !k.offered[n] && !strings.HasPrefix(r, "-") {
					k.bad("requested capability %q, which the server didn't offer", r)
					ok = false
				}
				if n == "sasl" && st.net.CapMode == "naksasl" {
					ok = false
				}
			}
			if !ok {
				c.Raw(fmt.Sprintf(":%s CAP %s NAK :%s", s.name, tgt, param(m, 1)))
				return true
			}
			for _, r := range req {
				n := strings.ToLower(strings.TrimPrefix(r, "-"))
				k.acked[n] = !strings.HasPrefix(r, "-")
				c.Caps[n] = k.acked[n]
			}
			if st.net.CapMode == "split" {
				for _, r := range req {
					c.Raw(fmt.Sprintf(":%s CAP %s ACK :%s", s.name, tgt, r))
				}
			} else {
				c.Raw(fmt.Sprintf(":%s CAP %s ACK :%s", s.name, tgt, param(m, 1)))
			}
			return true
		case "END":
			k.capEnd++
			if c.Registered {
				k.bad("CAP END after registration")
			} else if k.capEnd > 1 {
				k.bad("CAP END was sent twice")
			}
			if k.cfg.Mech != "" && st.supports(k, k.cfg.Mech) && k.acked["sasl"] && k.authed == 0 {
				k.bad("CAP END was sent before the SASL authentication completed")
			}
		}
	case "AUTHENTICATE":
		p := param(m, 0)
		if !k.acked["sasl"] {
			k.bad("AUTHENTICATE without the capability")
		}
		if k.cfg.Mech == "" {
			k.bad("AUTHENTICATE although no SASL mechanism is configured")
		}
		if !k.authStart {
			k.authStart = true
			if p != k.cfg.Mech {
				k.bad("AUTHENTICATE %s, the configured mechanism is %q", p, k.cfg.Mech)
			}
			if !st.supports(k, p) {
				k.bad("AUTHENTICATE %s, which the server doesn't offer", p)
			}
			c.saslBuf = ""
			c.Raw("AUTHENTICATE +")
			return true
		}
		if p == "*" {
			k.bad("the bouncer aborted the authentication")
			c.Raw(fmt.Sprintf(":%s 906 %s :aborted", s.name, tgt))
			return true
		}
		if p != "+" {
			c.saslBuf += p
		}
		if len(p) == 400 {
			return true
		}
		dec, err := base64.StdEncoding.DecodeString(c.saslBuf)
		want := ""
		if k.cfg.Mech == "PLAIN" {
			want = "\x00" + k.cfg.SUser + "\x00" + k.cfg.SPass
		}
		if got := string(dec); err != nil || got != want {
			k.bad("SASL response %q (%v), expected %q", got, err, want)
		}
		k.authed++
		k.authStart = false
		switch st.net.SASL {
		case "":
			c.Raw(fmt.Sprintf(":%s 900 %s %s!u@h acct :logged in", s.name, tgt, tgt), fmt.Sprintf(":%s 903 %s :success", s.name, tgt))
		case "902":
			c.Raw(fmt.Sprintf(":%s 902 %s :You must use a nick assigned to you", s.name, tgt))
		case "908":
			c.Raw(fmt.Sprintf(":%s 908 %s SCRAM-SHA-256 :are available SASL mechanisms", s.name, tgt), fmt.Sprintf(":%s 904 %s :failed", s.name, tgt))
		default:
			c.Raw(fmt.Sprintf(":%s %s %s :failed", s.name, st.net.SASL, tgt))
		}
		return true
	}
	return false
}

func (st *c22State) ls(c *UpConn, k *c22Conn, tgt string) {
	n := max(1, st.net.Lines)
	caps := st.net.Caps
	for i := 0; i < n; i++ {
		lo, hi := len(caps)*i/n, len(caps)*(i+1)/n
		star := "* "
		if i == n-1 {
			star = ""
		}
		k.offer(caps[lo:hi], true)
		c.Raw(fmt.Sprintf(":%s CAP %s LS %s:%s", st.srv.name, tgt, star, strings.Join(caps[lo:hi], " ")))
	}
}

func (st *c22State) regHook(c *UpConn, m *irc.Message) bool {
	k := st.conn(c)
	s := st.srv
	switch m.Command {
	case "CAP", "PASS", "NICK", "USER", "AUTHENTICATE", "PING", "PONG", "QUIT":
	default:
		k.bad("%v before registration", m)
	}
	if st.hook(c, m) {
		return true
	}
	if m.Command == "CAP" && strings.ToUpper(param(m, 0)) == "LS" {
		return true
	}
	if m.Command == "PASS" && len(k.nicks)+btoi(c.gotUser) > 0 {
		k.bad("PASS after NICK or USER")
	}
	if m.Command == "NICK" {
		n := param(m, 0)
		if k.refused[s.Fold(n)] {
			k.bad("NICK %s, which the server has refused already", n)
		}
		k.nicks = append(k.nicks, n)
		if s.nickTaken(n) {
			k.refused[s.Fold(n)] = true
		}
	}
	fail := st.net.ErrN > 0 && st.tries <= st.net.ErrN
	if m.Command == "USER" && fail && st.net.Err != "dropcap" {
		switch st.net.Err {
		case "drop":
		case "ERROR":
			c.Raw("ERROR :Closing link: go away")
		case "FAIL":
			c.Raw("FAIL * TEMP_ERROR :Try again later")
		case "464", "432":
			st.stop = true
			c.Raw(fmt.Sprintf(":%s %s * :no", s.name, st.net.Err))
		default:
			c.Raw(fmt.Sprintf(":%s %s * :no", s.name, st.net.Err))
		}
		c.drop()
		c.conn.Close()
		return true
	}
	if m.Command == "CAP" && fail && st.net.Err == "dropcap" {
		c.drop()
		c.conn.Close()
		return true
	}
	c.handleReg(m)
	if m.Command == "USER" && st.net.UseNick && c.capNeg {
		tgt := c.Nick
		if tgt == "" {
			tgt = "*"
		}
		st.ls(c, k, tgt)
	}
	if c.Registered {
		k.regAt = len(c.recv)
		if k.cfg.Mech != "" && k.acked["sasl"] && st.supports(k, k.cfg.Mech) && k.authed == 0 {
			k.bad("registered without authenticating")
		}
	}
	return true
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runC22(r *R, c c22Case) error {
	if len(c.Nets) < 1 || len(c.Nets) > 2 {
		return errInvalid{}
	}
	in := func(l []string, s string) bool { return idxOf(l, s) >= 0 }
	okCfg := func(c c22Cfg) bool {
		for _, cmd := range c.Cmds {
			if strings.ContainsAny(cmd, "\r\n\x00") {
				return false
			}
		}
		return in(c22Nicks, c.Nick) && in(c22Users, c.User) && in(c22Reals, c.Real) && !strings.ContainsAny(c.Pass+c.SPass+c.SUser, "\r\n\x00") && in(c22Mechs, c.Mech) && (c.Mech != "PLAIN" || c.SUser != "" && c.SPass != "")
	}
	for _, n := range c.Nets {
		if !okCfg(n.Cfg) || n.Lines < 1 || n.Taken < 0 || n.Taken > 5 || !in([]string{"", "ca", "self", "host", "expired"}, n.TLS) || n.ErrN < 0 || n.ErrN > 3 {
			return errInvalid{}
		}
		for _, cp := range n.Caps {
			if !in(c22Caps, cp) && !in(c22Saslv, cp) {
				return errInvalid{}
			}
		}
		if !in([]string{"ack", "nak", "naksasl", "split", "unknown", "silent"}, n.CapMode) || !in([]string{"", "904", "905", "906", "902", "908", "907"}, n.SASL) || !in([]string{"", "drop", "ERROR", "436", "437", "465", "464", "432", "FAIL", "dropcap", "refuse"}, n.Err) {
			return errInvalid{}
		}
	}
	for _, op := range c.Ops {
		if !okCfg(op.Cfg) || op.N < 0 {
			return errInvalid{}
		}
		for _, cp := range op.Cap {
			if !in(c22Caps, cp) && cp != "sasl" {
				return errInvalid{}
			}
		}
	}
	if !in(c22Nicks, c.UNick) || !in(c22Reals, c.UReal) {
		return errInvalid{}
	}
	kit := getTLSKit()
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		user := &database.User{}
		*user = *w.AddUser("alice", func(u *database.User) { u.Nick, u.Realname = c.UNick, c.UReal })
		nickOf := func(cfg c22Cfg) string {
			for _, n := range []string{cfg.Nick, c.UNick} {
				if n != "" {
					return n
				}
			}
			return "alice"
		}
		realOf := func(cfg c22Cfg) string {
			for _, n := range []string{cfg.Real, c.UReal} {
				if n != "" {
					return n
				}
			}
			return nickOf(cfg)
		}
		fpOf := func(st *c22State, kind string) string {
			if !st.tls {
				return "sha-256:" + strings.Repeat("00", 32)
			}
			der := kit.certs[st.net.TLS].Certificate[0]
			switch kind {
			case "ok256":
				h := sha256.Sum256(der)
				return "sha-256:" + hex.EncodeToString(h[:])
			case "ok512":
				h := sha512.Sum512(der)
				return "sha-512:" + hex.EncodeToString(h[:])
			case "bad":
				h := sha256.Sum256(append([]byte{1}, der...))
				return "sha-256:" + hex.EncodeToString(h[:])
			}
			return ""
		}
		fill := func(st *c22State, n *database.Network, cfg c22Cfg) {
			n.Nick, n.Username, n.Realname, n.Pass = cfg.Nick, cfg.User, cfg.Real, cfg.Pass
			n.ConnectCommands = cfg.Cmds
			n.SASL = database.SASL{Mechanism: cfg.Mech}
			switch cfg.Mech {
			case "PLAIN":
				n.SASL.Plain.Username, n.SASL.Plain.Password = cfg.SUser, cfg.SPass
			case "EXTERNAL":
				n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = kit.cli[0][0], kit.cli[0][1]
			}
			if st.tls {
				n.CertFP = fpOf(st, cfg.FP)
			}
		}
		var sts []*c22State
		for i := range c.Nets {
			n := c.Nets[i]
			st := &c22State{net: n, cfg: n.Cfg, ci: map[*UpConn]*c22Conn{}, tls: n.TLS != "", busy: n.Busy}
			addr, sa := netAddr0, srvAddr0
			if i == 1 {
				addr, sa = netAddr1, srvAddr1
			}
			if st.tls {
				h := []string{tlsHost0, tlsHost1}[i]
				addr, sa = "ircs://"+h, h+":6697"
			}
			s := w.AddServer(sa)
			if st.tls {
				s.TLS = &tls.Config{Certificates: []tls.Certificate{kit.certs[n.TLS]}, ClientAuth: tls.RequestClientCert}
			}
			s.Ghost = false
			s.Motd = !n.NoMotd
			if n.Monitor {
				s.Isupport = append(s.Isupport, "MONITOR=100")
			}
			st.srv = s
			s.RegHook = st.regHook
			s.Hook = func(c *UpConn, m *irc.Message) bool {
				if m.Command == "NICK" && st.busy > 0 && s.Fold(param(m, 0)) == s.Fold(nickOf(st.cfg)) && !s.nickTaken(param(m, 0)) {
					st.busy--
					c.num("437", param(m, 0)+" :Nick/channel is temporarily unavailable")
					return true
				}
				return st.hook(c, m)
			}
			x := nickOf(st.cfg)
			for t := 0; t < n.Taken; t++ {
				s.AddUser(x)
				x += "_"
			}
			w.AddNetwork(user, fmt.Sprintf("net%d", i), addr, func(dn *database.Network) {
				fill(st, dn, st.cfg)
				dn.Enabled = !n.Disabled
			})
			sts = append(sts, st)
		}
		w.Start()
		start := time.Now()
		settle := 0
		for _, st := range sts {
			settle = max(settle, st.net.ErrN)
		}
		w.Sleep(3*time.Minute + time.Duration(settle)*12*time.Minute)
		adm := w.Admin()

		// expectation for a connection attempt under the current settings
		allowed := func(st *c22State, cfg c22Cfg) bool {
			if st.net.Disabled {
				return false
			}
			if !st.tls {
				return true
			}
			switch cfg.FP {
			case "ok256", "ok512":
				return true
			case "bad":
				return false
			}
			return st.net.TLS == "ca"
		}
		// fallback is the nick expected to be obtained, "" if none.
		check := func(desc string) error {
			w.Wait()
			if err := w.CheckPanics(); err != nil {
				return err
			}
			for i, st := range sts {
				s := st.srv
				conns := s.Conns()
				for _, uc := range conns {
					var k *c22Conn
					var msgs []*irc.Message
					var reg bool
					s.With(func() { k = st.ci[uc]; reg = uc.Registered })
					msgs = uc.All()
					if k == nil {
						if len(msgs) > 0 {
							return harnessErr("connection without state")
						}
						continue
					}
					pre := fmt.Sprintf("%s: network %d, connection %d", desc, i, uc.n)
					if len(k.errs) > 0 {
						return vio("transcript", "%s: %s", pre, strings.Join(k.errs, "; "))
					}
					if !allowed(st, k.cfg) {
						return vio("untrusted", "%s: the bouncer talks to a server it must not (%s certificate, fingerprint %q, disabled %v): %s", pre, st.net.TLS, k.cfg.FP, st.net.Disabled, fmtMsgs(msgs))
					}
					if k.cfg.Mech == "EXTERNAL" && st.tls {
						if !bytes.Equal(k.cert, kit.cli[0][0]) {
							return vio("client-cert", "%s: the configured client certificate wasn't presented", pre)
						}
					} else if k.cert != nil {
						return vio("client-cert", "%s: a client certificate was presented although EXTERNAL isn't configured", pre)
					}
					var pass, usr, nick int
					for _, m := range msgs {
						switch m.Command {
						case "PASS":
							pass++
							if param(m, 0) != k.cfg.Pass || k.cfg.Pass == "" {
								return vio("pass", "%s: PASS %q, configured %q", pre, param(m, 0), k.cfg.Pass)
							}
						case "USER":
							usr++
							u := k.cfg.User
							if u == "" {
								u = nickOf(k.cfg)
							}
							if param(m, 0) != u || param(m, 3) != realOf(k.cfg) {
								return vio("user", "%s: %v, expected %q and %q", pre, m, u, realOf(k.cfg))
							}
						case "NICK":
							nick++
							if nick == 1 && param(m, 0) != nickOf(k.cfg) {
								return vio("nick", "%s: first NICK is %q, configured %q", pre, param(m, 0), nickOf(k.cfg))
							}
						}
						// other networks' secrets
						for j := range sts {
							for _, o := range sts[j].ci {
								if j == i {
									continue
								}
								for _, sec := range []string{o.cfg.Pass, o.cfg.SPass} {
									if len(sec) > 8 && strings.Contains(m.String(), sec) {
										return vio("leak", "%s: received a secret of network %d: %v", pre, j, m)
									}
								}
							}
						}
					}
					if reg {
						if usr != 1 || nick < 1 || pass != btoi(k.cfg.Pass != "") {
							return vio("registration", "%s: %d USER, %d NICK and %d PASS", pre, usr, nick, pass)
						}
						if k.authed > 0 {
							r.Count("sasl")
						}
					}
				}
				// outcome
				uc := s.Conn()
				if !allowed(st, st.cfg) || st.stop {
					continue
				}
				// can some nick be had?
				x, possible := nickOf(st.cfg), true
				s.With(func() {
					for {
						u := s.Users[s.Fold(x)]
						if u == nil || uc != nil && u == uc.Me {
							return
						}
						if len(x)+1 >= 30 {
							possible = false
							return
						}
						x += "_"
					}
				})
				if !possible {
					continue
				}
				if uc == nil || !uc.IsRegistered() {
					var l []*irc.Message
					if uc != nil {
						l = uc.All()
					}
					return vio("not-registered", "%s: network %d isn't connected (%d attempts; last: %s)", desc, i, len(conns), fmtMsgs(l))
				}
				r.NonTrivial()
				var k *c22Conn
				s.With(func() { k = st.ci[uc] })
				// connect commands
				var want, got []string
				cmds := map[string]bool{}
				for _, l := range k.cfg.Cmds {
					if m := c22Parse(l); m != nil {
						l = untagged(m) // tags depend on the capabilities
						want = append(want, l)
						cmds[l] = true
					}
				}
				for _, m := range uc.All()[k.regAt:] {
					l := untagged(m)
					if cmds[l] {
						got = append(got, l)
					}
				}
				if !eqStrs(got, want) {
					return vio("connect-commands", "%s: network %d: connect commands %q, received %q", desc, i, want, got)
				}
				if len(want) > 0 {
					r.Count("connect-commands")
				}
				// regain
				if st.free {
					if n := uc.CurNick(); s.Fold(n) != s.Fold(nickOf(st.cfg)) {
						return vio("regain", "%s: network %d: the nick is %q although %q has been free for 45 minutes", desc, i, n, nickOf(st.cfg))
					}
					r.Count("regained")
				}
			}
			return nil
		}
		// delays between failed attempts
		pace := func() error {
			for i, st := range sts {
				n := 0
				h := []string{srvAddr0, srvAddr1}[i]
				if st.tls {
					h = []string{tlsHost0, tlsHost1}[i] + ":6697"
				}
				for _, d := range w.Dials() {
					if strings.Fields(d)[1] == h {
						n++
					}
				}
				if el := time.Since(start); n > 3+int(el/(30*time.Second)) {
					return vio("hammering", "network %d: %d connection attempts in %v", i, n, el)
				}
				if allowed(st, st.cfg) || st.net.Disabled {
					continue
				}
				if n < 1 {
					return vio("never-tried", "network %d: no connection attempt", i)
				}
			}
			return nil
		}
		if err := check("at start"); err != nil {
			return err
		}
		if err := pace(); err != nil {
			return err
		}
		admDo := func(cmd string) error {
			m := adm.Do("BOUNCERSERV :" + cmd)
			if len(m) == 0 || m[len(m)-1].Command != "BOUNCERSERV" {
				return vio("refused", "%q was answered by %s", cmd, fmtMsgs(m))
			}
			return nil
		}
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d %s", i, op.K)
			ni := op.N % len(sts)
			st := sts[ni]
			s := st.srv
			r.Count(op.K)
			switch op.K {
			case "drop":
				s.closeAll()
				w.Sleep(5 * time.Minute)
			case "down":
				s.SetDown(true)
				s.closeAll()
				w.Sleep(time.Hour)
				s.SetDown(false)
				w.Sleep(15 * time.Minute)
			case "update":
				cfg := op.Cfg
				cfg.Mech, cfg.SUser, cfg.SPass = st.cfg.Mech, st.cfg.SUser, st.cfg.SPass
				s.With(func() {
					st.cfg = cfg
					st.stop = false
					if st.net.ErrN > 0 && st.tries <= st.net.ErrN {
						st.net.ErrN = 0
					}
					st.free = false
				})
				cmd := fmt.Sprintf("user run alice network update net%d -nick %s -username %s -realname %s -pass %s", ni, quoteWord(cfg.Nick), quoteWord(cfg.User), quoteWord(cfg.Real), quoteWord(cfg.Pass))
				if st.tls {
					_, fp, _ := strings.Cut(fpOf(st, cfg.FP), ":")
					if i%2 == 1 {
						fp = strings.ToUpper(fp)
					}
					if i%3 == 2 && len(fp) == 64 {
						// as openssl shows it
						var l []string
						for j := 0; j < len(fp); j += 2 {
							l = append(l, fp[j:j+2])
						}
						fp = strings.Join(l, ":")
					}
					cmd += " -certfp " + quoteWord(fp)
				}
				var l []string
				for _, x := range cfg.Cmds {
					if c22Parse(x) != nil {
						cmd += " -connect-command " + quoteWord(x)
						l = append(l, x)
					}
				}
				if len(l) == 0 {
					cmd += ` -connect-command ""`
				}
				s.With(func() { st.cfg.Cmds = l })
				if len(cmd) > 900 {
					return errInvalid{}
				}
				if err := admDo(cmd); err != nil {
					return err
				}
				w.Sleep(10 * time.Minute)
			case "saslset":
				if op.Cfg.Mech != "PLAIN" || len(op.Cfg.SPass) > 200 {
					continue
				}
				if err := admDo(fmt.Sprintf("user run alice sasl set-plain -network net%d %s %s", ni, quoteWord(op.Cfg.SUser), quoteWord(op.Cfg.SPass))); err != nil {
					return err
				}
				s.With(func() { st.cfg.Mech, st.cfg.SUser, st.cfg.SPass = "PLAIN", op.Cfg.SUser, op.Cfg.SPass })
				s.closeAll()
				w.Sleep(15 * time.Minute)
			case "saslreset":
				if err := admDo(fmt.Sprintf("user run alice sasl reset -network net%d", ni)); err != nil {
					return err
				}
				s.With(func() { st.cfg.Mech, st.cfg.SUser, st.cfg.SPass = "", "", "" })
				s.closeAll()
				w.Sleep(15 * time.Minute)
			case "free":
				n := nickOf(st.cfg)
				uc := s.Conn()
				s.With(func() {
					u := s.Users[s.Fold(n)]
					if uc != nil && u == uc.Me {
						return
					}
					delete(s.Users, s.Fold(n))
					if uc != nil && uc.Registered && uc.Monitored[s.Fold(n)] {
						uc.num("731", ":"+n)
					}
					st.free = true
				})
				w.Sleep(45 * time.Minute)
			case "new", "del":
				uc := s.Conn()
				if uc == nil || !uc.IsRegistered() || len(op.Cap) == 0 || st.net.CapMode == "unknown" || st.net.CapMode == "silent" {
					continue
				}
				s.With(func() {
					k := st.ci[uc]
					k.offer(op.Cap, op.K == "new")
					uc.Raw(fmt.Sprintf(":%s CAP %s %s :%s", s.name, uc.Nick, strings.ToUpper(op.K), strings.Join(op.Cap, " ")))
				})
				w.Sleep(3 * time.Minute)
			default:
				return errInvalid{}
			}
			if err := check(desc); err != nil {
				return err
			}
		}
		return nil
	})
}

// c22Parse returns nil for what isn't an IRC message.
func c22Parse(l string) *irc.Message {
	if strings.HasPrefix(l, "@") && !strings.Contains(strings.TrimRight(l, " "), " ") {
		return nil
	}
	m, err := irc.ParseMessage(l)
	if err != nil {
		return nil
	}
	return m
}

func untagged(m *irc.Message) string {
	c := m.Copy()
	c.Tags = nil
	return c.String()
}

func init() {
	p := prop("C22", "some network completes registration", 12000, 300000,
		"the certificate authority, the servers and their certificates are simulated; SASL mechanisms PLAIN and EXTERNAL (all soju implements)")
	add(p, "registration", 1, genC22, runC22)
}
