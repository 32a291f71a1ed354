package harness

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/identd"
)

// bubble runs f in a synctest bubble. Errors and panics of the bubble's main
// goroutine are transferred to the caller.
func bubble(r *R, f func() error) (err error) {
	var inner any
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.Contains(s, "deadlock: main bubble goroutine has exited") {
				// goroutines of the code under test which outlive the case
				r.Count("leaked-bubbles")
				if os.Getenv("VERIF_LEAKS") != "" {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					for _, g := range strings.Split(string(buf), "\n\n") {
						if strings.Contains(g, "synctest bubble") && !strings.Contains(g, "bubble(") {
							fmt.Fprintln(os.Stderr, "LEAK", g)
						}
					}
				}
			} else {
				panic(e)
			}
		}
		if inner != nil {
			panic(inner)
		}
	}()
	synctest.Test(r.T, func(*testing.T) {
		defer func() {
			if e := recover(); e != nil {
				inner = e
			}
		}()
		err = f()
	})
	return err
}

// noCloseDB keeps the database open across bouncer restarts.
type noCloseDB struct{ database.Database }

func (noCloseDB) Close() error { return nil }

// fakeAuth accepts "pw-<username>" as the password of any user in the DB.
type fakeAuth struct{}

func (fakeAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	if _, err := db.GetUser(ctx, username); err != nil {
		return &auth.Error{InternalErr: err, ExternalMsg: "Invalid credentials"}
	}
	if password != "pw-"+username {
		return &auth.Error{InternalErr: fmt.Errorf("wrong password"), ExternalMsg: "Invalid credentials"}
	}
	return nil
}

// World is a running bouncer with its simulated surroundings. It must only be
// used from the main goroutine of a bubble.
type World struct {
	logins int
	R      *R
	DB     database.Database
	Srv    *soju.Server
	Cfg    soju.Config
	Reg    *prometheus.Registry
	Identd *identd.Identd

	// UnlimitedRate is the default for simulated servers
	servers map[string]*IRCd // by host:port
	clients []*Client
	ln      *memListener
	running bool
	nclient int
	log     syncBuffer
	panics  float64

	dialMu  sync.Mutex
	dialLog []string // "network addr localaddr"
	tmp     []string
}

type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuffer) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuffer) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// NewWorld creates a bouncer which isn't started yet.
func NewWorld(r *R) *World {
	db, err := database.OpenTempSqliteDB()
	if err != nil {
		panic(harnessErr("cannot open DB: %v", err))
	}
	w := &World{
		R:       r,
		DB:      db,
		servers: map[string]*IRCd{},
		Cfg: soju.Config{
			Hostname:        "bouncer.test",
			MaxUserNetworks: -1,
			Auth:            &auth.Authenticator{Plain: fakeAuth{}},
		},
	}
	soju.VerifDialContext = w.dial
	soju.VerifDialTLSContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		// only used to tell whether a server exists
		if !strings.HasPrefix(addr, "10.9.") {
			return nil, fmt.Errorf("dial %v %v: connection refused", network, addr)
		}
		a, _ := memPair(memAddr("10.0.0.1:39999"), memAddr(addr))
		return a, nil
	}
	return w
}

func (w *World) TempDir() string {
	d, err := os.MkdirTemp("", "case-")
	if err != nil {
		panic(harnessErr("%v", err))
	}
	w.tmp = append(w.tmp, d)
	return d
}

func (w *World) dial(ctx context.Context, d *net.Dialer, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, fmt.Errorf("dial %v %v: %w", network, addr, err)
	}
	w.dialMu.Lock()
	la := ""
	if d.LocalAddr != nil {
		la = d.LocalAddr.String()
	}
	w.dialLog = append(w.dialLog, network+" "+addr+" "+la)
	s := w.servers[addr]
	n := len(w.dialLog)
	w.dialMu.Unlock()
	if s == nil || s.isDown() {
		return nil, fmt.Errorf("dial %v %v: connection refused", network, addr)
	}
	a, b := memPair(memAddr(fmt.Sprintf("10.0.0.1:%d", 40000+n)), memAddr(s.addr))
	return s.accept(ctx, a, b)
}

func (w *World) Dials() []string {
	w.dialMu.Lock()
	defer w.dialMu.Unlock()
	return append([]string(nil), w.dialLog...)
}

// AddUser stores a user record (before Start).
func (w *World) AddUser(name string, f func(u *database.User)) *database.User {
	u := database.NewUser(name)
	if f != nil {
		f(u)
	}
	w.must(w.DB.StoreUser(context.Background(), u))
	return u
}

func (w *World) AddNetwork(u *database.User, name, addr string, f func(n *database.Network)) *database.Network {
	n := database.NewNetwork(addr)
	n.Name = name
	if f != nil {
		f(n)
	}
	w.must(w.DB.StoreNetwork(context.Background(), u.ID, n))
	return n
}

func (w *World) must(err error) {
	if err != nil {
		panic(harnessErr("%v", err))
	}
}

// Start boots the bouncer on the current database.
func (w *World) Start() {
	w.Reg = prometheus.NewRegistry()
	w.Srv = soju.NewServer(noCloseDB{w.DB})
	w.Srv.Logger = soju.NewLogger(&w.log, w.R.tracing)
	w.Srv.MetricsRegistry = w.Reg
	w.Srv.Identd = w.Identd
	cfg := w.Cfg
	w.Srv.SetConfig(&cfg)
	if err := w.Srv.Start(); err != nil {
		panic(harnessErr("cannot start: %v", err))
	}
	w.ln = newMemListener()
	ln, srv := w.ln, w.Srv
	go srv.Serve(ln, srv.Handle)
	w.running = true
	synctest.Wait()
}

// Stop shuts the bouncer down. It reports whether the shutdown completed.
func (w *World) Stop() bool {
	if !w.running {
		return true
	}
	w.running = false
	for _, c := range w.clients {
		c.Close()
	}
	synctest.Wait()
	done := make(chan struct{})
	srv := w.Srv
	w.panics += w.workerPanics()
	go func() {
		srv.Shutdown()
		close(done)
	}()
	synctest.Wait()
	for i := 0; i < 40; i++ {
		select {
		case <-done:
			synctest.Wait()
			w.clients = nil
			return true
		default:
		}
		time.Sleep(30 * time.Second)
		synctest.Wait()
	}
	return false
}

// Finish tears everything down; it must be called exactly once per world.
func (w *World) Finish() {
	w.Stop()
	time.Sleep(20 * time.Minute) // for networks which wait before reconnecting
	for _, s := range w.servers {
		s.closeAll()
	}
	w.DB.Close()
	for _, d := range w.tmp {
		os.RemoveAll(d)
	}
	if w.R.tracing {
		for _, l := range strings.Split(w.log.String(), "\n") {
			w.R.Tracef("log: %s", l)
		}
	}
}

func (w *World) workerPanics() float64 {
	return w.Metric("soju_worker_panics_total")
}

// Metric returns the value of a counter or gauge.
func (w *World) Metric(name string) float64 {
	mfs, err := w.Reg.Gather()
	w.must(err)
	for _, mf := range mfs {
		if mf.GetName() == name {
			m := mf.GetMetric()[0]
			if mf.GetType() == dto.MetricType_COUNTER {
				return m.GetCounter().GetValue()
			}
			return m.GetGauge().GetValue()
		}
	}
	panic(harnessErr("metric %q not found", name))
}

// CheckPanics returns a violation if a worker crashed.
func (w *World) CheckPanics() error {
	n := w.panics
	if w.running {
		n += w.workerPanics()
	}
	log := w.log.String()
	if n > 0 || strings.Contains(log, "panic serving") {
		i := strings.Index(log, "panic serving")
		if i < 0 {
			i = 0
		}
		ex := log[i:]
		if len(ex) > 3000 {
			ex = ex[:3000]
		}
		return vio("worker-panic", "%s", ex)
	}
	return nil
}

// Wait waits until the bouncer is idle.
func (w *World) Wait() { synctest.Wait() }

// Sleep advances the clock.
func (w *World) Sleep(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

// ---------------------------------------------------------------- clients

// Client is a simulated IRC client.
type Client struct {
	w    *World
	conn *memConn
	id   int

	// Caps is the set of acknowledged capabilities
	Caps map[string]bool

	mu     sync.Mutex
	msgs   []*irc.Message
	closed bool
	noPong bool
}

// SetPong controls whether the client answers PINGs (the default).
func (c *Client) SetPong(on bool) { c.mu.Lock(); c.noPong = !on; c.mu.Unlock() }

// Connect opens a raw connection to the bouncer.
func (w *World) Connect() *Client {
	return w.connectTo(w.ln)
}

func (w *World) connectTo(ln *memListener) *Client {
	w.nclient++
	a, b := memPair(memAddr("10.1.0.1:6667"), memAddr(fmt.Sprintf("10.2.0.%d:%d", w.nclient%250+1, 50000+w.nclient)))
	c := &Client{w: w, conn: b, id: w.nclient, Caps: map[string]bool{}}
	w.clients = append(w.clients, c)
	ln.ch <- a
	go c.readLoop()
	return c
}

// lineReader reads messages, skipping lines which aren't messages.
type lineReader struct {
	r   *bufio.Reader
	bad []string
}

func newLineReader(r io.Reader) *lineReader { return &lineReader{r: bufio.NewReader(r)} }

func (lr *lineReader) ReadMessage() (*irc.Message, error) {
	for {
		line, err := lr.r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		line = strings.TrimRight(line, "\r\n")
		if _, rest, ok := strings.Cut(line, " "); strings.HasPrefix(line, "@") && (!ok || rest == "") {
			lr.bad = append(lr.bad, line)
			continue
		}
		m, err := irc.ParseMessage(line)
		if err != nil {
			lr.bad = append(lr.bad, line)
			continue
		}
		return m, nil
	}
}

func (c *Client) readLoop() {
	rd := newLineReader(c.conn)
	for {
		m, err := rd.ReadMessage()
		if err != nil {
			c.mu.Lock()
			c.closed = true
			c.mu.Unlock()
			return
		}
		c.mu.Lock()
		c.msgs = append(c.msgs, m)
		pong := m.Command == "PING" && !c.noPong
		if m.Command == "CAP" && len(m.Params) >= 3 {
			for _, cp := range strings.Fields(m.Params[2]) {
				name := strings.TrimPrefix(strings.SplitN(cp, "=", 2)[0], "-")
				switch m.Params[1] {
				case "ACK":
					if strings.HasPrefix(cp, "-") {
						delete(c.Caps, name)
					} else {
						c.Caps[name] = true
					}
				case "DEL":
					delete(c.Caps, name)
				}
			}
		}
		c.mu.Unlock()
		if pong {
			c.conn.Write([]byte("PONG :" + param(m, -1) + "\r\n"))
		}
	}
}

// Send writes raw lines.
func (c *Client) Send(lines ...string) {
	for _, l := range lines {
		c.w.R.Tracef("C%d >> %s", c.id, l)
		c.conn.Write([]byte(l + "\r\n"))
	}
}

// Do sends lines, waits until the bouncer is idle and returns what arrived.
func (c *Client) Do(lines ...string) []*irc.Message {
	c.Send(lines...)
	synctest.Wait()
	return c.Take()
}

// Do0 is Do without taking the messages.
func (c *Client) Do0(lines ...string) {
	c.Send(lines...)
	synctest.Wait()
}

// Take returns the messages received since the last call.
func (c *Client) Take() []*irc.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.msgs
	c.msgs = nil
	for _, x := range m {
		c.w.R.Tracef("C%d << %v", c.id, x)
	}
	return m
}

// inject puts messages back so that Take returns them again.
func (c *Client) inject(m []*irc.Message) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.msgs = append(append([]*irc.Message(nil), m...), c.msgs...)
}

func (c *Client) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Client) Close() { c.conn.Close() }

// LoginOpts describes the registration of a client.
type LoginOpts struct {
	User, Pass    string
	Network       string
	Client        string
	Nick          string
	Caps          []string
	NoCapEnd      bool
	BindID        int64
	ExpectFailure bool
}

// Login connects and registers a client with SASL-less PASS authentication.
// It returns the messages received from RPL_WELCOME on, or nil if the
// registration failed.
func (w *World) Login(o LoginOpts) (*Client, []*irc.Message) {
	c := w.Connect()
	if o.Nick == "" {
		o.Nick = "clientnick"
	}
	if o.Pass == "" {
		o.Pass = "pw-" + o.User
	}
	ident := o.User
	// both orders mean the same
	w.logins++
	if o.Network != "" && w.logins%3 != 0 {
		ident += "/" + o.Network
	}
	if o.Client != "" {
		ident += "@" + o.Client
	}
	if o.Network != "" && w.logins%3 == 0 {
		ident += "/" + o.Network
	}
	if len(o.Caps) > 0 {
		c.Send("CAP LS 302")
		for i := 0; i < len(o.Caps); i += 8 {
			j := min(i+8, len(o.Caps))
			c.Send("CAP REQ :" + strings.Join(o.Caps[i:j], " "))
		}
	}
	c.Send("PASS "+o.Pass, "NICK "+o.Nick, "USER "+ident+" 0 * :real name")
	if len(o.Caps) > 0 && !o.NoCapEnd {
		if o.BindID != 0 {
			c.Send(fmt.Sprintf("BOUNCER BIND %d", o.BindID))
		}
		c.Send("CAP END")
	}
	synctest.Wait()
	msgs := c.Take()
	for i, m := range msgs {
		if m.Command == "001" {
			return c, msgs[i:]
		}
	}
	return c, nil
}

// upstreamCaps depend on the upstream server: they can only be requested once
// the network is known.
var upstreamDependentCaps = []string{"account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor", "message-tags", "multi-prefix", "draft/extended-monitor", "draft/account-registration", "draft/event-playback"}

func isUpstreamCap(c string) bool {
	for _, x := range upstreamDependentCaps {
		if x == c {
			return true
		}
	}
	return false
}

// LoginFull logs in and then requests the capabilities which depend on the
// network one by one. Client.Caps holds what was acknowledged. It returns the
// messages received from RPL_WELCOME to the end of the registration burst.
func (w *World) LoginFull(o LoginOpts) (*Client, []*irc.Message) {
	var pre, post []string
	for _, c := range o.Caps {
		if isUpstreamCap(c) {
			post = append(post, c)
		} else {
			pre = append(pre, c)
		}
	}
	o.Caps = pre
	c, m := w.MustLogin(o)
	for _, x := range post {
		c.Send("CAP REQ " + x)
	}
	w.Wait()
	c.Take()
	return c, m
}

// HasCap tells whether the session acknowledged a capability.
func (c *Client) HasCap(name string) bool { c.mu.Lock(); defer c.mu.Unlock(); return c.Caps[name] }

// MustLogin is Login for registrations which are part of the setup.
func (w *World) MustLogin(o LoginOpts) (*Client, []*irc.Message) {
	c, m := w.Login(o)
	if m == nil {
		panic(&violation{"login-refused", fmt.Sprintf("valid registration %+v did not complete", o)})
	}
	return c, m
}

// ---------------------------------------------------------------- helpers

func filter(msgs []*irc.Message, cmds ...string) []*irc.Message {
	var out []*irc.Message
	for _, m := range msgs {
		for _, c := range cmds {
			if m.Command == c {
				out = append(out, m)
				break
			}
		}
	}
	return out
}

func fmtMsgs(msgs []*irc.Message) string {
	var sb strings.Builder
	for _, m := range msgs {
		sb.WriteString("  " + m.String() + "\n")
	}
	return sb.String()
}

func param(m *irc.Message, i int) string {
	if i < 0 {
		i += len(m.Params)
	}
	if i < 0 || i >= len(m.Params) {
		return ""
	}
	return m.Params[i]
}

func synctestWait() { synctest.Wait() }
