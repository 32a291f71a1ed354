package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C15: bouncer-wide broadcasts are for administrators, and commands are only
// taken from messages meant to run them.

type c15BcOp struct {
	K   string // "mask", "notice", "svc", "deaf", "admin", "login", "logout"
	S   int
	U   int
	Cmd int
	T   int
	On  bool
}

type c15BcCase struct {
	Admin int // bitmask of the users
	Sess  []c15BcOp
	Ops   []c15BcOp
	Host  int
}

var (
	c15BcUsers = []string{"alice", "bob", "carol"}
	c15BcHosts = []string{"localhost", "bnc.example.org", "irc.example"}
	c15BcCmds  = []string{"PRIVMSG", "NOTICE", "TAGMSG"}
	c15BcCaps  = []string{"message-tags", "server-time", "echo-message", "batch"}
)

func genC15Bc(g *G) c15BcCase {
	c := c15BcCase{Admin: g.N(8), Host: g.N(3)}
	op := func(kinds ...string) c15BcOp {
		return c15BcOp{K: Pick(g, kinds), S: g.N(8), U: g.N(3), Cmd: g.N(3), T: g.N(64), On: g.Bool()}
	}
	for i, n := 0, g.R(2, 5); i < n; i++ {
		c.Sess = append(c.Sess, op("login"))
	}
	for i, n := 0, g.Size(3, 14); i < n; i++ {
		c.Ops = append(c.Ops, op("mask", "mask", "mask", "notice", "svc", "svc", "deaf", "admin", "login", "logout"))
	}
	return c
}

type c15BcSess struct {
	cl    *Client
	u     int
	bound bool
}

func runC15Bc(r *R, c c15BcCase) error {
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore("memory")
		host := c15BcHosts[c.Host%len(c15BcHosts)]
		w.Cfg.Hostname = host
		addrs, nets := []string{srvAddr0, srvAddr1, ""}, []string{netAddr0, netAddr1, ""}
		var srv []*IRCd
		admin := map[int]bool{}
		for i, name := range c15BcUsers {
			admin[i] = c.Admin&(1<<i) != 0
			u := w.AddUser(name, func(u *database.User) { u.Admin = admin[i] })
			if nets[i] == "" {
				continue
			}
			s := w.AddServer(addrs[i])
			s.Caps = normCaps([]string{"message-tags"})
			s.Hook = func(uc *UpConn, m *irc.Message) bool {
				return m.Command == "PRIVMSG" || m.Command == "NOTICE" || m.Command == "TAGMSG"
			}
			srv = append(srv, s)
			w.AddNetwork(u, "net", nets[i], nil)
		}
		w.Start()
		w.Sleep(time.Second)
		adm := w.Admin()
		var sess []*c15BcSess
		login := func(op c15BcOp) {
			x := &c15BcSess{u: op.U % 3, bound: op.On && nets[op.U%3] != ""}
			o := LoginOpts{User: c15BcUsers[op.U%3]}
			if x.bound {
				o.Network = "net"
			}
			for i, k := range c15BcCaps {
				if op.T&(1<<i) != 0 {
					o.Caps = append(o.Caps, k)
				}
			}
			x.cl, _ = w.MustLogin(o)
			sess = append(sess, x)
		}
		for _, op := range c.Sess {
			login(op)
		}
		if len(sess) == 0 {
			return errInvalid{}
		}
		for oi, op := range c.Ops {
			desc := fmt.Sprintf("op %d %+v (host %s, administrators %v)", oi, op, host, admin)
			w.Wait()
			for _, x := range sess {
				x.cl.Take()
			}
			for _, s := range srv {
				if uc := s.Conn(); uc != nil {
					uc.Take()
				}
			}
			tok := fmt.Sprintf("tok%d", oi)
			x := sess[op.S%len(sess)]
			bcast, upstream := "", ""
			switch op.K {
			case "login":
				if len(sess) < 8 {
					login(op)
				}
				continue
			case "logout":
				if len(sess) > 1 {
					i := op.S % len(sess)
					sess[i].cl.Close()
					sess = append(sess[:i], sess[i+1:]...)
				}
				continue
			case "admin":
				v := op.On
				out := adm.Do(fmt.Sprintf("BOUNCERSERV :user update %s -admin=%v", c15BcUsers[op.U%3], v))
				if !strings.Contains(fmt.Sprint(fmtMsgs(out)), "updated user") {
					return vio("admin-refused", "%s: %v", desc, fmtMsgs(out))
				}
				admin[op.U%3] = v
				continue
			case "mask":
				cmd := c15BcCmds[op.Cmd%3]
				mask := []string{"$" + host, "$*", "$" + host, "$*", "$other.example", "$" + host + "x", "#" + host, "$"}[op.T%8]
				m := &irc.Message{Command: cmd, Params: []string{mask}}
				if cmd == "TAGMSG" {
					m.Tags = irc.Tags{"+tok": tok}
					if !x.cl.HasCap("message-tags") {
						continue
					}
				} else {
					m.Params = append(m.Params, tok)
				}
				if mask == "$"+host || mask == "$*" && !x.bound {
					if admin[x.u] {
						bcast = cmd
					}
				} else if x.bound {
					upstream = cmd
				}
				x.cl.Send(m.String())
			case "notice":
				// the same by the service's command
				if admin[x.u] {
					bcast = "NOTICE"
				}
				line := "server notice " + tok
				if op.T%4 == 1 {
					line = "serv not " + tok
				} else if op.T%4 == 2 {
					// an administrator stays one when running commands for others
					line = "user run " + c15BcUsers[op.U%3] + " server notice " + tok
				}
				x.cl.Send(Pick(NewG(uint64(op.T)), []string{"PRIVMSG BouncerServ :", "PRIVMSG bouncerserv :"}) + line)
			case "svc":
				bcast = "NOTICE"
				adm.Send("BOUNCERSERV :server notice " + tok)
			case "deaf":
				// not messages which run commands
				line := []string{"server notice " + tok, "user update " + c15BcUsers[x.u] + " -admin=" + fmt.Sprint(!admin[x.u]), "network create -name " + tok + " -addr irc.example", "user create -username " + tok + " -disable-password"}[op.T%4]
				before := w.dump()
				x.cl.Send([]string{"NOTICE BouncerServ :" + line, "NOTICE bouncerserv :" + line, "TAGMSG BouncerServ :" + line}[op.Cmd%3])
				w.Wait()
				if d := fmt.Sprint(w.dump()); d != fmt.Sprint(before) {
					return vio("notice-command", "%s: a command sent with NOTICE or TAGMSG was run: %s", desc, d)
				}
			}
			w.Wait()
			r.Count(op.K)
			if bcast != "" || op.K == "mask" || op.K == "deaf" || op.K == "notice" {
				r.NonTrivial()
			}
			for si, y := range sess {
				n, other := 0, 0
				for _, m := range y.cl.Take() {
					if param(m, -1) != tok && m.Tags["+tok"] != tok {
						if m.Command != "PING" {
							other++
						}
						continue
					}
					if m.Prefix != nil && m.Prefix.Name == "BouncerServ" && m.Command == bcast {
						n++
						continue
					}
					if y.u == x.u && (upstream != "" || op.K == "deaf" && y == x) {
						continue // an echo
					}
					return vio("stray", "%s: session %d of %s received %q", desc, si, c15BcUsers[y.u%3], fmtMsg(m))
				}
				want := 0
				if bcast != "" && (bcast != "TAGMSG" || y.cl.HasCap("message-tags")) {
					want = 1
				}
				if n != want {
					return vio("broadcast", "%s: session %d of %s received the broadcast %d times, expected %d", desc, si, c15BcUsers[y.u%3], n, want)
				}
				if y == x && bcast == "" && upstream == "" && (op.K == "notice" || op.K == "mask") && other == 0 {
					return vio("silent-refusal", "%s: the refused client was told nothing", desc)
				}
			}
			for i, s := range srv {
				n := 0
				if uc := s.Conn(); uc != nil {
					for _, m := range uc.Take() {
						if param(m, -1) == tok || m.Tags["+tok"] == tok {
							n++
						}
					}
				}
				want := 0
				if upstream != "" && i == x.u%3 {
					want = 1
				}
				if n != want {
					return vio("upstream", "%s: the network of %s received the message %d times, expected %d", desc, c15BcUsers[i], n, want)
				}
			}
		}
		return w.CheckPanics()
	})
}

func init() {
	add(properties["C15"], "broadcast", 1, genC15Bc, runC15Bc)
}
