package harness

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C29: the credentials the bouncer learns.

type c29Op struct {
	K    string
	S    int
	Tgt  int
	Form int
	U, P int
	Out  int
	Hold bool
}

type c29Case struct {
	Sasl  int
	Label bool
	Reg   bool
	Init  int
	CM    string
	Ops   []c29Op
}

var (
	c29Sasl   = []string{"sasl", "sasl=PLAIN", "sasl=PLAIN,EXTERNAL", "sasl=EXTERNAL", ""}
	c29Users  = []string{"acct", "mynick", "Äcc[t]", "other"}
	c29Passes = []string{"pw1", "p:w2", "sécret", strings.Repeat("longpass", 45)}
	c29Tgts   = []string{"NickServ", "nickserv", "NICKSERV", "bob", "bob,NickServ", "NickServ,bob", "ChanServ", "#chan"}
	// %u and %p stand for the account and the password
	c29Forms = []struct {
		text string
		u, p string // what is learned, "" if nothing
	}{
		{"IDENTIFY %p", "nick", "p"},
		{"identify %u %p", "u", "p"},
		{"IDENTIFY %u %p", "u", "p"},
		{"REGISTER %p mail@example.org", "nick", "p"},
		{"register %p", "nick", "p"},
		{"SET PASSWORD %p", "nick", "p"},
		{"set password %p", "nick", "p"},
		{"SET EMAIL %p", "", ""},
		{"SET HIDEMAIL ON", "", ""},
		{"SET ENFORCE", "", ""},
		{"set language %u extra", "", ""},
		{"IDENTIFY", "", ""},
		{"INFO %u", "", ""},
		{"GHOST %u %p", "", ""},
		{"LOGOUT", "", ""},
		{"DROP %u %p", "", ""},
		{"I want to IDENTIFY %p", "", ""},
		{"RELEASE %u %p", "", ""},
	}
)

func genC29(g *G) c29Case {
	c := c29Case{Sasl: g.W(4, 3, 3, 1, 1), Label: g.Bool(), Reg: g.P(75), Init: g.W(4, 2, 2), CM: Pick(g, []string{"rfc1459", "ascii"})}
	kinds := []string{"ns", "auth", "abort", "anon", "reg", "verify", "set", "reset", "drop", "restart", "nick", "notice", "relogin", "status", "certgen"}
	for i, n := 0, g.Size(2, 14); i < n; i++ {
		c.Ops = append(c.Ops, c29Op{
			K: kinds[g.W(10, 8, 2, 2, 6, 2, 2, 1, 4, 2, 2, 1, 2, 2, 1)], S: g.N(2),
			Tgt: g.W(6, 2, 2, 1, 1, 1, 1, 1), Form: g.N(len(c29Forms)), U: g.N(len(c29Users)), P: g.W(5, 4, 3, 1), Out: g.N(3), Hold: g.P(40),
		})
	}
	return c
}

type c29Reg struct {
	cl      *Client
	account string
	pass    string
	id      string
	cmd     string
	out     int
	gone    bool
	done    bool
}

func runC29(r *R, c c29Case) error {
	if c.Sasl < 0 || c.Sasl >= len(c29Sasl) || c.Init < 0 || c.Init > 2 || c.CM != "rfc1459" && c.CM != "ascii" {
		return errInvalid{}
	}
	for _, op := range c.Ops {
		if op.S < 0 || op.S > 1 || op.Tgt < 0 || op.Tgt >= len(c29Tgts) || op.Form < 0 || op.Form >= len(c29Forms) || op.U < 0 || op.U >= len(c29Users) || op.P < 0 || op.P >= len(c29Passes) || op.Out < 0 || op.Out > 2 {
			return errInvalid{}
		}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore("memory")
		s := w.AddServer(srvAddr0)
		s.Ghost = true
		s.CM = c.CM
		s.AcceptExt = true
		s.Accounts = map[string]string{c29Users[0]: c29Passes[0], c29Users[1]: c29Passes[1], c29Users[2]: c29Passes[2], c29Users[3]: c29Passes[3]}
		if c29Sasl[c.Sasl] != "" {
			s.Caps = append(s.Caps, c29Sasl[c.Sasl])
		}
		if c.Label {
			s.Caps = append(s.Caps, "labeled-response", "batch", "message-tags")
		}
		if c.Reg {
			s.Caps = append(s.Caps, "draft/account-registration=before-connect")
		}
		for _, nk := range []string{"bob", "NickServ", "ChanServ"} {
			s.AddUser(nk)
		}
		var mu sync.Mutex
		var queue []*irc.Message // account registration requests the server has yet to answer
		s.Hook = func(uc *UpConn, m *irc.Message) bool {
			if m.Command != "REGISTER" && m.Command != "VERIFY" {
				return false
			}
			mu.Lock()
			queue = append(queue, m)
			mu.Unlock()
			return true
		}
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		var want database.SASL
		switch c.Init {
		case 1:
			want.Mechanism = "PLAIN"
			want.Plain.Username, want.Plain.Password = "old", "oldpw"
		case 2:
			want.Mechanism = "EXTERNAL"
			want.External.CertBlob, want.External.PrivKeyBlob = []byte("cert"), []byte("key")
		}
		w.AddNetwork(u, "net0", netAddr0, func(n *database.Network) { n.SASL = want })
		w.AddServer(srvAddr1)
		w.AddNetwork(u, "net1", netAddr1, nil)
		learn := func(user, pass string) {
			if want.Mechanism == "EXTERNAL" {
				return
			}
			want.Mechanism = "PLAIN"
			want.Plain.Username, want.Plain.Password = user, pass
		}
		w.Start()
		var uc *UpConn
		var sess [2]*Client
		offers := func(mech string) bool {
			v := c29Sasl[c.Sasl]
			_, l, ok := strings.Cut(v, "=")
			return v != "" && (!ok || strings.Contains(","+l+",", ","+mech+","))
		}
		// connected waits for the connection to the server and checks how
		// the bouncer authenticated.
		connected := func(what string) error {
			w.Sleep(15 * time.Minute)
			uc = s.Conn()
			if uc == nil || !uc.IsRegistered() || uc.IsClosed() {
				return vio("no-upstream", "%s: the bouncer is not connected", what)
			}
			var mechs []string
			resp := ""
			for _, m := range uc.All() {
				if m.Command == "CAP" && param(m, 0) == "END" {
					break
				}
				if m.Command != "AUTHENTICATE" {
					continue
				}
				if len(mechs) == 0 {
					mechs = append(mechs, param(m, 0))
				} else if p := param(m, 0); p != "+" {
					resp += p
				}
			}
			dec, err := base64.StdEncoding.DecodeString(resp)
			if err != nil {
				return vio("malformed", "%s: invalid response %q", what, resp)
			}
			exp, expResp := "", ""
			if want.Mechanism != "" && offers(want.Mechanism) {
				exp = want.Mechanism
				if exp == "PLAIN" {
					expResp = "\x00" + want.Plain.Username + "\x00" + want.Plain.Password
				}
			}
			if strings.Join(mechs, " ") != exp || string(dec) != expResp {
				return vio("used", "%s: the bouncer authenticated with mechanism %q and response %q, expected %q and %q", what, mechs, dec, exp, expResp)
			}
			return nil
		}
		login := func(i int) {
			sess[i], _ = w.LoginFull(LoginOpts{User: "alice", Network: "net0", Client: fmt.Sprint("c", i), Caps: []string{"draft/account-registration"}})
			sess[i].Do("CAP REQ sasl")
			sess[i].Take()
		}
		if err := connected("start"); err != nil {
			return err
		}
		login(0)
		login(1)
		stored := func(what string) error {
			nets, err := w.DB.ListNetworks(ctxBg, u.ID)
			w.must(err)
			for _, n := range nets {
				exp := want
				if n.Name != "net0" {
					exp = database.SASL{}
				}
				if n.SASL.Mechanism != exp.Mechanism || n.SASL.Plain != exp.Plain || !bytes.Equal(n.SASL.External.CertBlob, exp.External.CertBlob) || !bytes.Equal(n.SASL.External.PrivKeyBlob, exp.External.PrivKeyBlob) {
					return vio("stored", "%s: network %s has the credentials %+v, expected %+v", what, n.Name, n.SASL, exp)
				}
			}
			return nil
		}
		var pending []*c29Reg
		// flush lets the server answer the account registration requests.
		flush := func(what string) error {
			for {
				w.Wait()
				mu.Lock()
				if len(queue) == 0 {
					mu.Unlock()
					break
				}
				m := queue[0]
				queue = queue[1:]
				mu.Unlock()
				var p *c29Reg
				for _, x := range pending {
					if x.done || x.cmd != m.Command {
						continue
					}
					if x.gone && x.id != param(m, 1) {
						x.done = true // it was dropped with its client
						continue
					}
					p = x
					break
				}
				if p == nil || p.account != param(m, 0) || p.id != param(m, 1) {
					return vio("forwarded", "%s: the server received %q unexpectedly", what, m)
				}
				p.done = true
				tags := ""
				if l := m.Tags["label"]; l != "" {
					tags = "@label=" + string(l) + " "
				}
				account := p.account
				if account == "*" {
					account = uc.CurNick()
				}
				expect := ""
				switch {
				case p.out == 0:
					uc.Raw(fmt.Sprintf("%s:%s %s SUCCESS %s :done", tags, s.name, m.Command, account))
					expect = m.Command
				case p.out == 1 && m.Command == "REGISTER":
					uc.Raw(fmt.Sprintf("%s:%s REGISTER VERIFICATION_REQUIRED %s :check your mail", tags, s.name, account))
					expect = m.Command
				default:
					uc.Raw(fmt.Sprintf("%s:%s FAIL %s TEMPORARILY_UNAVAILABLE %s :sorry", tags, s.name, m.Command, account))
					expect = "FAIL"
				}
				w.Wait()
				if p.gone {
					// whether the credentials are kept if the client left is
					// not judged
					p.done = true
					nets, _ := w.DB.ListNetworks(ctxBg, u.ID)
					for _, n := range nets {
						if n.Name == "net0" && expect == "REGISTER" && want.Mechanism != "EXTERNAL" && n.SASL.Plain.Username == account && n.SASL.Plain.Password == p.pass {
							learn(account, p.pass)
						}
					}
					continue
				}
				if expect == "REGISTER" {
					learn(account, p.pass)
				}
				if n := len(filter(p.cl.Take(), expect)); n != 1 {
					return vio("reply", "%s: the client received %d replies %s to its %s, expected one", what, n, expect, m.Command)
				}
				if err := stored(what); err != nil {
					return err
				}
			}
			for _, p := range pending {
				if !p.done && !p.gone {
					return vio("forwarded", "%s: %s %s never reached the server", what, p.cmd, p.account)
				}
			}
			pending = nil
			return nil
		}
		changes := 0
		hasSASL := false
		for oi, op := range c.Ops {
			what := fmt.Sprintf("op %d %+v", oi, op)
			if op.K != "reg" && op.K != "verify" && op.K != "drop" && op.K != "relogin" && op.K != "ns" {
				if err := flush(what); err != nil {
					return err
				}
			}
			cl := sess[op.S]
			user, pass := c29Users[op.U], c29Passes[op.P]
			if op.K == "auth" || op.K == "abort" || op.K == "anon" {
				cl.Take()
				hasSASL = len(filter(cl.Do("CAP REQ sasl"), "CAP")) > 0 && cl.HasCap("sasl") && offers("PLAIN")
			}
			before := want
			r.Count("op-" + op.K)
			switch op.K {
			case "ns", "notice":
				f := c29Forms[op.Form]
				text := strings.NewReplacer("%u", user, "%p", pass).Replace(f.text)
				cmd := "PRIVMSG"
				if op.K == "notice" {
					cmd = "NOTICE"
				}
				cl.Do(fmt.Sprintf("%s %s :%s", cmd, c29Tgts[op.Tgt], text))
				if cmd == "PRIVMSG" && f.p != "" && strings.Contains(strings.ToLower(c29Tgts[op.Tgt]), "nickserv") {
					if f.u == "nick" {
						user = uc.CurNick()
					}
					learn(user, pass)
				}
			case "auth":
				out := filter(cl.Do("AUTHENTICATE PLAIN"), "AUTHENTICATE", "904", "906", "908", "421")
				if !hasSASL || len(out) != 1 || out[0].Command != "AUTHENTICATE" {
					if hasSASL || len(out) != 1 || out[0].Command != "904" {
						return vio("reply", "%s: AUTHENTICATE was answered with %s", what, fmtMsgs(out))
					}
					break
				}
				b := base64.StdEncoding.EncodeToString([]byte("\x00" + user + "\x00" + pass))
				var lines []string
				for len(b) >= 400 {
					lines = append(lines, "AUTHENTICATE "+b[:400])
					b = b[400:]
				}
				if b == "" {
					b = "+"
				}
				lines = append(lines, "AUTHENTICATE "+b)
				cl.Send(lines...)
				w.Wait()
				ok := s.Accounts[user] == pass
				exp := "904"
				if ok {
					exp = "903"
					learn(user, pass)
				}
				out = filter(cl.Take(), "903", "904", "905", "906", "902", "907")
				if len(out) != 1 || out[0].Command != exp {
					return vio("reply", "%s: the authentication was answered with %s, expected %s", what, fmtMsgs(out), exp)
				}
			case "abort":
				cl.Do("AUTHENTICATE PLAIN")
				if out := filter(cl.Do("AUTHENTICATE *"), "903", "904", "906"); len(out) != 1 || out[0].Command == "903" {
					return vio("reply", "%s: the aborted authentication was answered with %s", what, fmtMsgs(out))
				}
			case "anon":
				if !hasSASL {
					break
				}
				cl.Do("AUTHENTICATE ANONYMOUS")
				cl.Send("AUTHENTICATE " + base64.StdEncoding.EncodeToString([]byte("trace")))
				w.Wait()
				if out := filter(cl.Take(), "903", "904", "906"); len(out) != 1 || out[0].Command != "903" {
					return vio("reply", "%s: logging out was answered with %s", what, fmtMsgs(out))
				}
				had := want.Mechanism != ""
				want = database.SASL{}
				if had {
					if err := stored(what); err != nil {
						return err
					}
					if err := connected(what); err != nil {
						return err
					}
				}
			case "reg", "verify":
				p := &c29Reg{cl: cl, account: user, pass: pass, cmd: "REGISTER", out: op.Out, id: fmt.Sprintf("id%d@example.org", oi)}
				if op.K == "verify" {
					p.cmd = "VERIFY"
				} else if op.Tgt == 1 {
					p.account = "*"
				}
				line := "REGISTER " + p.account + " " + p.id + " :" + pass
				if op.K == "verify" {
					line = "VERIFY " + p.account + " " + p.id
				}
				cl.Take()
				out := cl.Do(line)
				if !c.Reg {
					if len(filter(out, "FAIL", "421")) != 1 {
						return vio("reply", "%s: unsupported %s was answered with %s", what, p.cmd, fmtMsgs(out))
					}
					break
				}
				pending = append(pending, p)
				if !op.Hold {
					if err := flush(what); err != nil {
						return err
					}
				}
			case "set":
				out := filter(cl.Do(fmt.Sprintf("PRIVMSG BouncerServ :sasl set-plain \"%s\" \"%s\"", user, pass)), "PRIVMSG")
				if len(out) == 0 || strings.HasPrefix(param(out[0], 1), "error") {
					return vio("reply", "%s: set-plain was answered with %s", what, fmtMsgs(out))
				}
				want = database.SASL{Mechanism: "PLAIN"}
				want.Plain.Username, want.Plain.Password = user, pass
			case "reset":
				cl.Do("PRIVMSG BouncerServ :sasl reset")
				want = database.SASL{}
			case "certgen":
				// a generated certificate is used from now on
				cl.Do("PRIVMSG BouncerServ :certfp generate -key-type " + []string{"ed25519", "ecdsa"}[op.P%2])
				nets, err := w.DB.ListNetworks(ctxBg, u.ID)
				w.must(err)
				for _, n := range nets {
					if n.Name != "net0" {
						continue
					}
					x := n.SASL.External
					if len(x.CertBlob) == 0 || len(x.PrivKeyBlob) == 0 || bytes.Equal(x.CertBlob, want.External.CertBlob) || bytes.Equal(x.PrivKeyBlob, want.External.PrivKeyBlob) {
						return vio("certificate", "%s: no certificate was generated", what)
					}
					want = database.SASL{Mechanism: "EXTERNAL", External: x}
				}
				r.Count("certificate")
				r.NonTrivial()
			case "status":
				cl.Take()
				out := filter(cl.Do("PRIVMSG BouncerServ :sasl status"), "PRIVMSG")
				txt := fmtMsgs(out)
				exp := "SASL is disabled"
				switch want.Mechanism {
				case "PLAIN":
					exp = want.Plain.Username
				case "EXTERNAL":
					exp = "EXTERNAL"
				}
				if !strings.Contains(txt, exp) {
					return vio("status", "%s: sasl status answered %s, expected it to mention %q", what, txt, exp)
				}
				for _, p := range c29Passes {
					if strings.Contains(txt, p) {
						return vio("status", "%s: sasl status discloses the password", what)
					}
				}
			case "drop":
				// outstanding requests are aborted
				mu.Lock()
				queue = nil
				mu.Unlock()
				uc.Close()
				w.Wait()
				for i, x := range sess {
					n := 0
					for _, p := range pending {
						if p.cl == x && !p.gone {
							n++
						}
					}
					if got := len(filter(x.Take(), "FAIL")); got != n {
						return vio("reply", "%s: session %d received %d FAIL messages for %d aborted requests", what, i, got, n)
					}
				}
				pending = nil
				if err := connected(what); err != nil {
					return err
				}
			case "restart":
				w.Stop()
				w.Start()
				if err := connected(what); err != nil {
					return err
				}
				login(0)
				login(1)
			case "nick":
				cl.Do(fmt.Sprintf("NICK nick%d", oi))
			case "relogin":
				for _, p := range pending {
					if p.cl == cl {
						p.gone = true
					}
				}
				cl.Close()
				w.Wait()
				login(op.S)
			default:
				return errInvalid{}
			}
			if before.Plain != want.Plain || before.Mechanism != want.Mechanism {
				changes++
			}
			if err := stored(what); err != nil {
				return err
			}
		}
		if err := flush("end"); err != nil {
			return err
		}
		uc.Close()
		if err := connected("end"); err != nil {
			return err
		}
		if changes > 0 {
			r.NonTrivial()
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C29", "the credentials in force changed at least once", 5000, 150000,
		"the bouncer reaches its servers through the simulated network", "SASL PLAIN accounts and account registration are simulated; replies to REGISTER carry the account name as the draft demands")
	add(p, "credentials", 1, genC29, runC29)
}
