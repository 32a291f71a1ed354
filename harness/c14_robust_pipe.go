package harness

import (
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"codeberg.org/emersion/soju/database"
)

// C14: sessions which send many commands without waiting for the answers, at
// the same time, don't make the bouncer's users wait for each other forever,
// also while a user is deleted and while the bouncer is stopped.

type c14PipeSeg struct {
	K string
	N int
	U int
}

type c14PipeBurst struct {
	S    int // which session
	Segs []c14PipeSeg
}

type c14PipeCase struct {
	Boss   bool // a second administrator
	Sess   []int
	Bound  int
	Rounds [][]c14PipeBurst
	Delete bool // delete carol during the last round
	Logins int  // connections of carol's which authenticate meanwhile
	Dirty  bool // stop in the middle of the last round
}

var (
	c14PipeUsers = []string{"root", "boss", "alice", "carol"}
	c14PipeKinds = []string{"mask", "mask", "notice", "ping", "status", "update", "run", "create", "net", "upstream", "away"}
)

func genC14Pipe(g *G) c14PipeCase {
	c := c14PipeCase{Boss: g.P(60), Bound: g.N(256), Delete: g.P(40), Logins: g.N(4), Dirty: g.P(30)}
	for i, n := 0, g.R(1, 5); i < n; i++ {
		c.Sess = append(c.Sess, g.W(5, 3, 2, 2))
	}
	for i, n := 0, g.R(1, 3); i < n; i++ {
		var round []c14PipeBurst
		for j, m := 0, g.R(1, 4); j < m; j++ {
			b := c14PipeBurst{S: g.N(8)}
			for k, o := 0, g.R(1, 4); k < o; k++ {
				b.Segs = append(b.Segs, c14PipeSeg{K: Pick(g, c14PipeKinds), N: g.Size(1, 120), U: g.N(4)})
			}
			round = append(round, b)
		}
		c.Rounds = append(c.Rounds, round)
	}
	return c
}

type c14PipeSess struct {
	cl    *Client
	u     int
	sent  []string            // texts broadcast by this session
	seen  map[int][]string    // sender -> texts
	dup   map[string]struct{} // all texts seen
	alone bool
}

func runC14Pipe(r *R, c c14PipeCase) error {
	if len(c.Sess) == 0 || len(c.Sess) > 8 {
		return errInvalid{}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore("memory")
		w.Cfg.Hostname = "bnc.example"
		addrs, nets := []string{srvAddr0, srvAddr1}, []string{netAddr0, netAddr1}
		admin := []bool{true, c.Boss, false, false}
		for i, name := range c14PipeUsers {
			u := w.AddUser(name, func(u *database.User) { u.Admin = admin[i] })
			if i < 2 {
				w.AddServer(addrs[i])
				w.AddNetwork(u, "net", nets[i], nil)
			}
		}
		w.Start()
		w.Sleep(time.Second)
		adm := w.Admin()
		token := ""
		if c.Delete {
			for _, m := range adm.Do("BOUNCERSERV :user delete carol") {
				if _, after, ok := strings.Cut(param(m, 1), "user delete carol "); ok {
					token = strings.Trim(strings.Fields(after)[0], "\"'`.,)")
				}
			}
			if token == "" {
				return harnessErr("no token to delete a user")
			}
		}
		var sess []*c14PipeSess
		add := func(u int, bound bool) {
			o := LoginOpts{User: c14PipeUsers[u]}
			if bound && u < 2 {
				o.Network = "net"
			}
			cl, _ := w.MustLogin(o)
			sess = append(sess, &c14PipeSess{cl: cl, u: u, seen: map[int][]string{}})
		}
		for i, u := range c.Sess {
			add(u&3, c.Bound&(1<<i) != 0)
		}
		add(2, false) // somebody who does nothing
		witness := sess[len(sess)-1]
		total := 0
		deleted := false
		for ri, round := range c.Rounds {
			last := ri == len(c.Rounds)-1
			desc := fmt.Sprintf("round %d %+v", ri, round)
			w.Wait()
			for _, x := range sess {
				x.cl.Take()
				x.sent = nil
			}
			bufs := map[int]*strings.Builder{}
			senders := map[int]bool{}
			blocking := false
			for _, b := range round {
				si := b.S % (len(sess) - 1)
				x := sess[si]
				senders[x.u] = true
				sb := bufs[si]
				if sb == nil {
					sb = new(strings.Builder)
					bufs[si] = sb
				}
				for _, sg := range b.Segs {
					n := sg.N
					if n < 0 || n > 400 {
						return errInvalid{}
					}
					other := c14PipeUsers[sg.U&3]
					for i := 0; i < n; i++ {
						switch sg.K {
						case "mask":
							t := fmt.Sprintf("bc-%d-%d", si, len(x.sent))
							x.sent = append(x.sent, t)
							fmt.Fprintf(sb, "PRIVMSG $bnc.example :%s\r\n", t)
						case "notice":
							fmt.Fprintf(sb, "PRIVMSG BouncerServ :server notice sn\r\n")
						case "ping":
							fmt.Fprintf(sb, "PING p%d\r\n", i)
						case "status":
							fmt.Fprintf(sb, "PRIVMSG BouncerServ :user status\r\n")
						case "update":
							blocking = true
							fmt.Fprintf(sb, "PRIVMSG BouncerServ :user update %s -max-networks %d\r\n", other, i+5)
						case "run":
							blocking = true
							fmt.Fprintf(sb, "PRIVMSG BouncerServ :user run %s network status\r\n", other)
						case "create":
							if i < 3 && x.u == 0 {
								fmt.Fprintf(sb, "PRIVMSG BouncerServ :user create -username tmp%d -password x\r\n", total+i)
							}
						case "net":
							fmt.Fprintf(sb, "PRIVMSG BouncerServ :network status\r\n")
						case "upstream":
							if i < 3 {
								fmt.Fprintf(sb, "PRIVMSG #a :x\r\n")
							}
						case "away":
							fmt.Fprintf(sb, "AWAY :x\r\n")
						default:
							return errInvalid{}
						}
						total++
					}
				}
			}
			for si, sb := range bufs {
				sess[si].cl.conn.Write([]byte(sb.String()))
			}
			var pending []*Client
			if last && token != "" {
				adm.Send("BOUNCERSERV :user delete carol " + token)
				for i := 0; i < c.Logins&3; i++ {
					cl := w.Connect()
					cl.conn.Write([]byte("PASS pw-carol\r\nNICK x\r\nUSER carol 0 * :x\r\n"))
					pending = append(pending, cl)
				}
				deleted = true
			}
			if last && c.Dirty {
				r.Count("dirty")
				break
			}
			w.Sleep(3 * time.Hour) // commands which wait for another user are given up after some seconds each
			if deleted {
				r.Count("deleted")
				for _, x := range sess {
					if x.u == 3 {
						pending = append(pending, x.cl)
					}
				}
				for _, cl := range pending {
					if !cl.Closed() {
						return vio("deleted-connected", "%s: a connection of a user deleted hours ago is still open, it got %v", desc, fmtMsgs(cl.Take()))
					}
				}
			}
			for si, x := range sess {
				if deleted && x.u == 3 {
					continue
				}
				if x.cl.Closed() {
					return vio("session-closed", "%s: session %d of %s was closed", desc, si, c14PipeUsers[x.u])
				}
				var bc []string
				for _, m := range x.cl.Take() {
					if m.Command == "PRIVMSG" && param(m, 0) == "$bnc.example" {
						bc = append(bc, param(m, 1))
					}
				}
				seen := map[string]int{}
				pos := map[string]int{}
				for i, t := range bc {
					seen[t]++
					pos[t] = i
				}
				for sj, y := range sess {
					prev := -1
					for _, t := range y.sent {
						n := seen[t]
						if !admin[y.u] && n > 0 {
							return vio("broadcast-refused", "%s: session %d got a broadcast of someone who isn't an administrator", desc, si)
						}
						if n > 1 {
							return vio("broadcast-twice", "%s: session %d got %s %d times", desc, si, t, n)
						}
						if n == 1 && pos[t] < prev {
							return vio("broadcast-order", "%s: session %d got %s out of order", desc, si, t)
						}
						if n == 1 {
							prev = pos[t]
						}
						if n == 0 && admin[y.u] && len(senders) == 1 && !blocking && !deleted {
							return vio("broadcast-lost", "%s: session %d did not get %s of session %d", desc, si, t, sj)
						}
					}
				}
				ok := false
				for _, m := range x.cl.Do("PING tok") {
					ok = ok || m.Command == "PONG"
				}
				if !ok {
					return vio("session-stuck", "%s: session %d of %s gets no answer", desc, si, c14PipeUsers[x.u])
				}
			}
			if cl, m := w.Login(LoginOpts{User: "alice"}); m == nil {
				return vio("login-refused", "%s: cannot log in any more: %v", desc, fmtMsgs(cl.Take()))
			} else {
				cl.Close()
			}
			if out := adm.Do("BOUNCERSERV :user status"); !strings.Contains(fmt.Sprint(fmtMsgs(out)), "alice") {
				return vio("admin-stuck", "%s: the administration socket gets no answer: %v", desc, fmtMsgs(out))
			}
		}
		_ = witness
		if total > 70 {
			r.NonTrivial()
		}
		if !c.Dirty {
			if !w.Stop() {
				return vio("shutdown", "the shutdown does not complete")
			}
		} else {
			w.running = false
			done := make(chan struct{})
			srv := w.Srv
			go func() {
				srv.Shutdown()
				close(done)
			}()
			synctest.Wait()
			for _, cl := range w.clients {
				cl.Close()
			}
			w.Sleep(20 * time.Minute)
			select {
			case <-done:
				w.clients = nil
			default:
				return vio("shutdown", "the shutdown does not complete")
			}
		}
		return w.CheckPanics()
	})
}

func init() {
	add(properties["C14"], "pipelined", 2, genC14Pipe, runC14Pipe)
}
