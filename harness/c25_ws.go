package harness

import (
	"net"
	"net/http"
	"path"
	"strings"
	"time"
)

type c25Fwd struct {
	Proxy    []string // accept-proxy-ip
	From     string
	Fwd      int
	XFwd     int
	Patterns []string
	Origin   string
	Host     string
}

var (
	c25Froms = []string{"10.0.0.1:1000", "10.3.4.5:1000", "127.0.0.1:5", "[::1]:99", "192.168.1.7:8080", "192.168.1.8:8080", "[2001:db8::7]:44", "203.0.113.9:44"}
	c25Prox  = []string{"10.0.0.0/24", "127.0.0.0/8", "::1/128", "192.168.1.7/32", "2001:db8::/32"}
	// header, address it stands for ("" if none)
	c25Fwds = [][2]string{{"", ""}, {"for=192.0.2.60", "192.0.2.60"}, {`for="[2001:db8:cafe::17]:4711"`, "2001:db8:cafe::17"}, {"for=192.0.2.43;proto=http;by=203.0.113.43", "192.0.2.43"}, {"proto=https; for=192.0.2.44; host=x.org", "192.0.2.44"}, {"FOR=192.0.2.45", "192.0.2.45"}, {`for="192.0.2.47:4711"`, "192.0.2.47"}, {"proto=https", ""}, {"for=192.0.2.99, for=192.0.2.61", "192.0.2.61"}, {`for="a,b", for=192.0.2.62;proto=http`, "192.0.2.62"}}
	c25XFwd = [][2]string{{"", ""}, {"198.51.100.7", "198.51.100.7"}, {"198.51.100.8:1234", "198.51.100.8"}, {"[2001:db8::99]:80", "2001:db8::99"}, {"1.2.3.4, 198.51.100.9", "198.51.100.9"}, {"1.2.3.4,198.51.100.10", "198.51.100.10"}, {"evil host name, 198.51.100.11", "198.51.100.11"}}
	c25Pats = []string{"*.example.org", "web.test", "*", "w?b.te[r-t]t"}
	c25Orig = []string{"", "https://app.example.org", "https://web.test", "https://evil.test", "https://bouncer.test", "https://example.org.evil.test", "https://a.b.example.org", "null"}
)

func genC25Fwd(g *G) c25Fwd {
	c := c25Fwd{Proxy: Subset(g, c25Prox, 40), From: Pick(g, c25Froms), Fwd: g.N(len(c25Fwds)), XFwd: g.N(len(c25XFwd)), Host: "bouncer.test"}
	if g.P(40) {
		c.Fwd = 0
	}
	if g.P(40) {
		c.Patterns = Subset(g, c25Pats, 30)
		c.Origin = Pick(g, c25Orig)
	}
	return c
}

func runC25Fwd(r *R, c c25Fwd) error {
	if idxOf(c25Froms, c.From) < 0 || idxOf(c25Orig, c.Origin) < 0 || c.Fwd < 0 || c.Fwd >= len(c25Fwds) || c.XFwd < 0 || c.XFwd >= len(c25XFwd) || c.Host != "bouncer.test" {
		return errInvalid{}
	}
	for _, p := range c.Proxy {
		if idxOf(c25Prox, p) < 0 {
			return errInvalid{}
		}
	}
	for _, p := range c.Patterns {
		if idxOf(c25Pats, p) < 0 {
			return errInvalid{}
		}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.AddUser("alice", nil)
		host, _, _ := net.SplitHostPort(c.From)
		trusted := false
		for _, p := range c.Proxy {
			_, n, err := net.ParseCIDR(p)
			if err != nil {
				return harnessErr("%v", err)
			}
			w.Cfg.AcceptProxyIPs = append(w.Cfg.AcceptProxyIPs, n)
			trusted = trusted || n.Contains(net.ParseIP(host))
		}
		w.Cfg.HTTPOrigins = c.Patterns
		w.Start()
		e := w.ServeWS()
		defer e.Close()
		h := http.Header{}
		want := host
		if f := c25Fwds[c.Fwd]; f[0] != "" {
			h.Set("Forwarded", f[0])
			if trusted && f[1] != "" {
				want = f[1]
			}
		}
		if f := c25XFwd[c.XFwd]; f[0] != "" {
			h.Set("X-Forwarded-For", f[0])
			if trusted && c25Fwds[c.Fwd][0] == "" {
				want = f[1]
			}
		}
		allowed := true
		if c.Origin != "" {
			h.Set("Origin", c.Origin)
			oh := strings.TrimPrefix(c.Origin, "https://")
			allowed = oh == c.Host
			for _, p := range c.Patterns {
				if ok, _ := path.Match(p, oh); ok && c.Origin != "null" {
					allowed = true
				}
			}
			if c.Origin == "null" {
				// whether "*" covers opaque origins isn't documented
				for _, p := range c.Patterns {
					if p == "*" {
						return nil
					}
				}
			}
			r.Count("origin")
		}
		cl, _, code := e.Connect(wsOpts{From: c.From, Header: h, Host: c.Host})
		if (cl != nil) != allowed {
			return vio("origin", "origin %q, allowed %q: HTTP status %d", c.Origin, c.Patterns, code)
		}
		if cl == nil {
			return nil
		}
		cl.Send("PASS pw-alice", "NICK x", "USER alice 0 * :x")
		w.Sleep(time.Second)
		if len(filter(cl.Take(), "001")) != 1 {
			return vio("websocket", "a WebSocket client cannot log in")
		}
		got := ""
		for _, m := range cl.Do("PRIVMSG alice :hello") {
			if m.Command == "PRIVMSG" && param(m, 1) == "hello" && m.Prefix != nil {
				got = m.Prefix.Host
			}
		}
		if strings.Trim(got, "[]") != want {
			return vio("forwarded", "a client connecting from %s with %v (trusted proxies %v) is taken to come from %q, expected %q", c.From, h, c.Proxy, got, want)
		}
		if trusted && want != host {
			r.Count("forwarded")
			r.NonTrivial()
		}
		if !trusted && len(h) > 0 {
			r.Count("spoofed")
			r.NonTrivial()
		}
		cl.Close()
		return nil
	})
}

func init() {
	add(properties["C25"], "forwarded", 200, genC25Fwd, runC25Fwd)
}
