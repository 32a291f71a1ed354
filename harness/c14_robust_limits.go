package harness

import (
	"fmt"
	"net"
	"runtime"
	"strings"
	"time"
)

// C14: what a peer sends is not buffered without limit.

type c14LimCase struct {
	Side int // 0: client which isn't logged in, 1: logged in, 2: server
	SASL bool
	Pre  int
	MB   int
}

var c14LimPre = []string{"", "@a=", ":bob!u@h PRIVMSG mynick :", "PRIVMSG #a :", "@time=2020-01-01T00:00:00.000Z :bob!u@h PRIVMSG #a :", "USER ", " ", ":"}

func genC14Lim(g *G) c14LimCase {
	c := c14LimCase{Side: g.N(3), SASL: g.P(30), Pre: g.N(len(c14LimPre)), MB: g.R(6, 10)}
	if c.SASL {
		c.Side = 0
	}
	return c
}

func heapInUse() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func runC14Lim(r *R, c c14LimCase) error {
	if c.MB < 4 {
		return errInvalid{}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore("memory")
		s0, s1 := w.AddServer(srvAddr0), w.AddServer(srvAddr1)
		mal := w.AddUser("mallory", nil)
		ali := w.AddUser("alice", nil)
		w.AddNetwork(mal, "net0", netAddr0, nil)
		w.AddNetwork(ali, "net0", netAddr1, nil)
		w.Start()
		w.Sleep(time.Second)
		other, _ := w.MustLogin(LoginOpts{User: "alice", Network: "net0"})
		var att *Client
		if c.Side == 1 {
			att, _ = w.MustLogin(LoginOpts{User: "mallory", Network: "net0"})
		} else {
			att = w.Connect()
		}
		up := s0.Conn()
		if up == nil || s1.Conn() == nil {
			return vio("no-upstream", "the bouncer did not register on the network")
		}
		r.NonTrivial()
		desc := fmt.Sprintf("%+v", c)
		if c.SASL {
			// an endless SASL response
			att.Do("CAP LS 302", "CAP REQ :sasl", "NICK x", "AUTHENTICATE PLAIN")
			chunk := "AUTHENTICATE " + strings.Repeat("A", 400)
			stopped := false
			for i := 0; i < 700 && !stopped; i++ {
				for _, m := range att.Do(chunk) {
					stopped = stopped || m.Command != "AUTHENTICATE" && m.Command != "PING"
				}
				stopped = stopped || att.Closed()
			}
			if !stopped {
				return vio("unbounded-sasl", "%s: a SASL response of 280 KB was accepted from a client which isn't logged in", desc)
			}
			r.Count("sasl")
		} else {
			var conn net.Conn = att.conn
			closed := att.Closed
			if c.Side == 2 {
				conn, closed = up.conn, up.IsClosed
			}
			before := heapInUse()
			conn.Write([]byte(c14LimPre[c.Pre%len(c14LimPre)]))
			block := []byte(strings.Repeat("x", 1<<16))
			for i := 0; i < c.MB<<4 && !closed(); i++ {
				if _, err := conn.Write(block); err != nil {
					break
				}
				w.Wait()
			}
			if closed() {
				r.Count("closed")
			} else if after := heapInUse(); after > before && after-before > uint64(c.MB)<<19 {
				return vio("unbounded-line", "%s: %d MB of a line without end are kept in memory", desc, c.MB)
			}
		}
		ok := false
		for _, m := range other.Do("PING tok") {
			ok = ok || m.Command == "PONG"
		}
		if !ok {
			return vio("session-stuck", "%s: the other user's session gets no answer", desc)
		}
		if cl, m := w.Login(LoginOpts{User: "mallory", Network: "net0"}); m == nil {
			return vio("login-refused", "%s: cannot log in any more: %v", desc, fmtMsgs(cl.Take()))
		}
		if !w.Stop() {
			return vio("shutdown", "the shutdown does not complete")
		}
		return w.CheckPanics()
	})
}

func init() {
	add(properties["C14"], "endless", 1, genC14Lim, runC14Lim)
}
