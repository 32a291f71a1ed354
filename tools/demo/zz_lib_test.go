package soju

// Small test bench for the demonstrations: a scripted upstream server on the
// loopback interface and line-based clients.

import (
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

type zUp struct {
	t     *testing.T
	ln    net.Listener
	caps  string
	extra []string // lines sent after the welcome
	hook  func(c *zUpConn, m *irc.Message) bool
	conns chan *zUpConn
}

type zUpConn struct {
	u     *zUp
	c     net.Conn
	mu    sync.Mutex
	nick  string
	lines []*irc.Message
	reg   chan struct{}
	once  sync.Once
	caps  map[string]bool
}

func newUp(t *testing.T, caps string) *zUp {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	u := &zUp{t: t, ln: ln, caps: caps, conns: make(chan *zUpConn, 100)}
	t.Cleanup(func() { ln.Close() })
	return u
}

func (u *zUp) start() {
	go func() {
		for {
			c, err := u.ln.Accept()
			if err != nil {
				return
			}
			uc := &zUpConn{u: u, c: c, reg: make(chan struct{}), caps: map[string]bool{}}
			u.conns <- uc
			go uc.run()
		}
	}()
}

func (u *zUp) addr() string { return "irc+insecure://" + u.ln.Addr().String() }

func (c *zUpConn) send(lines ...string) {
	for _, l := range lines {
		fmt.Fprintf(c.c, "%s\r\n", l)
	}
}

func (c *zUpConn) run() {
	buf := make([]byte, 0, 4096)
	tmp := make([]byte, 4096)
	gotUser, inCap := false, false
	welcome := func() {
		if !gotUser || inCap || c.nick == "" {
			return
		}
		c.once.Do(func() {
			c.send(":srv 001 "+c.nick+" :Welcome", ":srv 004 "+c.nick+" srv x aiwroO OovaimnqpsrtklbeI")
			for _, l := range c.u.extra {
				c.send(strings.ReplaceAll(l, "$me", c.nick))
			}
			c.send(":srv 422 " + c.nick + " :no MOTD")
			close(c.reg)
		})
	}
	for {
		n, err := c.c.Read(tmp)
		if err != nil {
			return
		}
		buf = append(buf, tmp[:n]...)
		for {
			i := strings.IndexByte(string(buf), '\n')
			if i < 0 {
				break
			}
			line := strings.TrimRight(string(buf[:i]), "\r")
			buf = append([]byte(nil), buf[i+1:]...)
			m, err := irc.ParseMessage(line)
			if err != nil {
				continue
			}
			c.mu.Lock()
			c.lines = append(c.lines, m)
			c.mu.Unlock()
			if c.u.hook != nil && c.u.hook(c, m) {
				continue
			}
			switch m.Command {
			case "CAP":
				switch m.Params[0] {
				case "LS":
					inCap = true
					c.send(":srv CAP * LS :" + c.u.caps)
				case "REQ":
					for _, k := range strings.Fields(m.Params[1]) {
						c.caps[k] = true
					}
					c.send(":srv CAP * ACK :" + m.Params[1])
				case "END":
					inCap = false
					welcome()
				}
			case "NICK":
				old := c.nick
				c.nick = m.Params[0]
				select {
				case <-c.reg:
					c.send(":" + old + "!u@h NICK " + c.nick)
				default:
				}
				welcome()
			case "USER":
				gotUser = true
				welcome()
			case "PING":
				c.send(":srv PONG srv :" + m.Params[0])
			case "JOIN":
				for _, ch := range strings.Split(m.Params[0], ",") {
					c.send(":"+c.nick+"!u@h JOIN "+ch, ":srv 353 "+c.nick+" = "+ch+" :"+c.nick+" @op", ":srv 366 "+c.nick+" "+ch+" :end")
				}
			case "PART":
				for _, ch := range strings.Split(m.Params[0], ",") {
					c.send(":" + c.nick + "!u@h PART " + ch)
				}
			}
		}
	}
}

// got returns the messages the bouncer has sent so far, of one command ("" for all).
func (c *zUpConn) got(cmd string) []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var l []string
	for _, m := range c.lines {
		if cmd == "" || m.Command == cmd {
			l = append(l, m.String())
		}
	}
	return l
}

type zEnv struct {
	t   *testing.T
	db  database.Database
	srv *Server
}

func newEnv(t *testing.T, cfg func(c *Config)) *zEnv {
	e := &zEnv{t: t, db: createTempSqliteDB(t)}
	e.srv = NewServer(e.db)
	e.srv.Logger = NewLogger(zDiscard{}, false)
	c := *e.srv.Config()
	if cfg != nil {
		cfg(&c)
	}
	e.srv.SetConfig(&c)
	return e
}

type zDiscard struct{}

func (zDiscard) Write(b []byte) (int, error) { return len(b), nil }

func (e *zEnv) user(name string, f func(u *database.User)) *database.User {
	u := database.NewUser(name)
	u.Password = ""
	if err := u.SetPassword(name); err != nil {
		e.t.Fatal(err)
	}
	if f != nil {
		f(u)
	}
	if err := e.db.StoreUser(context.Background(), u); err != nil {
		e.t.Fatal(err)
	}
	return u
}

func (e *zEnv) network(u *database.User, name string, up *zUp, f func(n *database.Network)) *database.Network {
	addr := "irc+insecure://127.0.0.1:1"
	if up != nil {
		addr = up.addr()
	}
	n := database.NewNetwork(addr)
	n.Name = name
	if f != nil {
		f(n)
	}
	if err := e.db.StoreNetwork(context.Background(), u.ID, n); err != nil {
		e.t.Fatal(err)
	}
	return n
}

func (e *zEnv) start() {
	if err := e.srv.Start(); err != nil {
		e.t.Fatal(err)
	}
	e.t.Cleanup(e.srv.Shutdown)
}

func (e *zEnv) upConn(u *zUp) *zUpConn {
	select {
	case c := <-u.conns:
		select {
		case <-c.reg:
		case <-time.After(10 * time.Second):
			e.t.Fatal("upstream registration does not complete")
		}
		time.Sleep(100 * time.Millisecond)
		return c
	case <-time.After(20 * time.Second):
		e.t.Fatal("no upstream connection")
	}
	return nil
}

type zClient struct {
	t *testing.T
	c net.Conn
	// in receives the messages sent to the client, and is closed at the end
	in chan *irc.Message
}

// connect opens a connection without registering.
func (e *zEnv) connect() *zClient {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		e.t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		c, err := ln.Accept()
		if err == nil {
			e.srv.Handle(newNetIRCConn(c))
		}
	}()
	c, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		e.t.Fatal(err)
	}
	zc := &zClient{t: e.t, c: c, in: make(chan *irc.Message, 10000)}
	conn := newNetIRCConn(c)
	go func() {
		for {
			m, err := conn.ReadMessage()
			if err != nil {
				close(zc.in)
				return
			}
			if m.Command == "PING" {
				fmt.Fprintf(c, "PONG :%s\r\n", m.Params[len(m.Params)-1])
			}
			zc.in <- m
		}
	}()
	e.t.Cleanup(func() { c.Close() })
	return zc
}

// login registers; user may be "name/network@client".
func (e *zEnv) login(user, caps string) (*zClient, []string) {
	c := e.connect()
	name := user
	if i := strings.IndexAny(name, "/@"); i >= 0 {
		name = name[:i]
	}
	if caps != "" {
		c.send("CAP LS 302", "CAP REQ :"+caps)
	}
	c.send("PASS "+name, "NICK "+name, "USER "+user+" 0 * :"+name)
	if caps != "" {
		c.send("CAP END")
	}
	return c, c.sync()
}

func (c *zClient) send(lines ...string) {
	for _, l := range lines {
		fmt.Fprintf(c.c, "%s\r\n", l)
	}
}

var zSeq int

// sync returns everything received up to now.
func (c *zClient) sync() []string {
	zSeq++
	tok := fmt.Sprintf("zsync%d", zSeq)
	time.Sleep(150 * time.Millisecond)
	c.send("PING " + tok)
	var out []string
	to := time.After(10 * time.Second)
	for {
		select {
		case m, ok := <-c.in:
			if !ok {
				return append(out, "CLOSED")
			}
			if m.Command == "PONG" && m.Params[len(m.Params)-1] == tok {
				return out
			}
			out = append(out, m.String())
		case <-to:
			c.t.Fatalf("no answer to PING; received %q", out)
		}
	}
}

func grep(l []string, sub string) []string {
	var out []string
	for _, s := range l {
		if strings.Contains(s, sub) {
			out = append(out, s)
		}
	}
	return out
}
