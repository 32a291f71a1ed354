package harness

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/coder/websocket"

	"codeberg.org/emersion/soju/database"
)

// A hostile WebSocket client.

type c14WSStep struct {
	K string // "l": a line, "i": a line with another one after a line break, "b": binary, "e": empty, "p": ping, "x": close with a code, "g": bytes instead of frames, "z": long
	L string
	N int
}

type c14WS struct {
	Login bool
	Caps  int
	Steps []c14WSStep
}

var c14Breaks = []string{"\n", "\r\n", "\r", "\n\r", "\r\n\r\n", "\x00\n"}

func genC14WS(g *G) c14WS {
	c := c14WS{Login: g.P(80), Caps: g.N(4)}
	for i, n := 0, g.Size(1, 10); i < n; i++ {
		s := c14WSStep{K: []string{"l", "i", "b", "e", "p", "x", "g", "z"}[g.W(10, 6, 1, 1, 1, 1, 1, 1)], N: g.N(64)}
		switch s.K {
		case "l", "b", "g":
			s.L = unlatin(strings.TrimRight(c14Line(g, false), "\r\n"))
		case "i":
			s.L = Pick(g, []string{"PRIVMSG #a :x", "PRIVMSG bob :hello", "JOIN #z", "TOPIC #a :t", "AWAY :gone", "NICK foo", "PING", "@+a=b TAGMSG #a", "PRIVMSG BouncerServ :help", "WHOIS bob", "NOTICE mynick :me", "MODE #a +o bob", ":x PRIVMSG #a y"})
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runC14WS(r *R, c c14WS) error {
	for _, s := range c.Steps {
		if s.N < 0 {
			return errInvalid{}
		}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		u := w.AddUser("alice", func(u *database.User) { u.Nick = "mynick" })
		s := w.AddServer(srvAddr0)
		s.AddUser("bob")
		w.AddNetwork(u, "net0", netAddr0, nil)
		w.Start()
		w.Sleep(3 * time.Second)
		wit, _ := w.LoginFull(LoginOpts{User: "alice", Network: "net0", Client: "wit", Caps: []string{"echo-message", "message-tags", "server-time"}})
		wit.Do("JOIN #a")
		e := w.ServeWS()
		defer e.Close()
		cl, ws, code := e.Connect(wsOpts{})
		if cl == nil {
			return vio("websocket", "a WebSocket connection is refused with HTTP status %d", code)
		}
		caps := []string{}
		if c.Caps > 0 {
			caps = c14Caps[:c.Caps*4]
		}
		cl.Send("CAP LS 302")
		for _, x := range caps {
			cl.Send("CAP REQ " + x)
		}
		if c.Login {
			cl.Send("PASS pw-alice", "NICK mynick", "USER alice/net0@ws 0 * :x", "CAP END")
			w.Sleep(time.Second)
			if len(filter(cl.Take(), "001")) != 1 {
				return vio("websocket", "a WebSocket client cannot log in")
			}
		}
		ctx := context.Background()
		sent := 0
		for i, st := range c.Steps {
			if cl.Closed() {
				break
			}
			l := latin(st.L)
			r.Tracef("step %d %s %q", i, st.K, l)
			switch st.K {
			case "l":
				ws.Write(ctx, websocket.MessageText, []byte(l))
				sent++
			case "i":
				if !c.Login {
					continue
				}
				br := c14Breaks[st.N%len(c14Breaks)]
				l += br + Pick(NewG(uint64(st.N)), []string{"PRIVMSG bob :INJECTED", "QUIT :INJECTED", "JOIN #INJECTED", "PRIVMSG #a :INJECTED", "NOTICE mynick :INJECTED"})
				if st.N%3 == 0 {
					l += br
				}
				ws.Write(ctx, websocket.MessageText, []byte(l))
				r.Count("line-break")
				sent++
			case "b":
				ws.Write(ctx, websocket.MessageBinary, []byte(l))
			case "e":
				ws.Write(ctx, websocket.MessageText, nil)
			case "z":
				ws.Write(ctx, websocket.MessageText, []byte("PRIVMSG #a :"+strings.Repeat("z", 1000*(1+st.N))))
			case "p":
				pctx, cancel := context.WithTimeout(ctx, time.Second)
				ws.Ping(pctx)
				cancel()
			case "x":
				go ws.Close(websocket.StatusCode([]int{1000, 1001, 1002, 1008, 3000, 4999}[st.N%6]), "bye")
			case "g":
				a, b := memPair(memAddr("10.1.0.1:80"), memAddr("10.2.9.9:1"))
				e.ln.ch <- a
				b.Write([]byte(l + "\r\n\r\n"))
				w.Wait()
				b.Close()
			default:
				return errInvalid{}
			}
			if st.N%4 == 0 {
				w.Wait()
			}
		}
		w.Sleep(2 * time.Minute)
		if sent > 0 {
			r.NonTrivial()
		}
		if n := s.OpenConns(); n != 1 {
			return vio("upstream-lost", "%d connections to the server are open after input by a WebSocket client", n)
		}
		uc := s.Conn()
		for _, m := range uc.All() {
			for k, p := range m.Params {
				if strings.TrimPrefix(p, "#") == "INJECTED" {
					return vio("injected", "a WebSocket message with a line break reached the server as several lines: %q (parameter %d)", m.String(), k)
				}
			}
		}
		for _, m := range wit.Take() {
			for _, p := range m.Params {
				if strings.TrimPrefix(p, "#") == "INJECTED" {
					return vio("injected", "a WebSocket message with a line break reached another session as several lines: %q", m.String())
				}
			}
		}
		// the witness still works
		if wit.Closed() {
			return vio("witness-lost", "another session was closed after input by a WebSocket client")
		}
		if got := wit.Do("PING tok"); len(filter(got, "PONG")) != 1 {
			return vio("witness-stuck", "another session gets no PONG: %s", fmtMsgs(got))
		}
		t := fmt.Sprintf("fine %d", sent)
		wit.Send("PRIVMSG bob :" + t)
		w.Sleep(3 * time.Minute)
		for _, m := range uc.All() {
			if m.Command == "PRIVMSG" && param(m, 0) == "bob" && param(m, 1) == t {
				return nil
			}
		}
		return vio("witness-stuck", "a message by another session doesn't reach the server")
	})
}

func init() {
	add(properties["C14"], "websocket", 8, genC14WS, runC14WS)
}
