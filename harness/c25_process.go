package harness

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/pires/go-proxyproto"
	"gopkg.in/irc.v4"
)

// The real soju executable, with its listeners, signals and PROXY protocol.

type c25Proc struct {
	Title, Title2 string
	Host, Host2   string
	Motd, Motd2   string
	Proxy, Proxy2 []string
	Header        int // PROXY header: 0 none, 1 v1 TCP4, 2 v1 TCP6, 3 v2 TCP4, 4 v2 TCP6
	TLS           bool
	Prom          bool
	Ident         bool
	Bad           int  // >0: an invalid configuration
	Reload        int  // 0 no, 1 valid, 2 invalid
	Restart       bool // the process is started again
}

var (
	c25Titles = []string{"", "MyBouncer", "x"}
	c25PHosts = []string{"", "irc.example.org", "other.example.org"}
	c25Motds  = []string{"", "Welcome!", "line one\nline two\n", "a\n\nb\n"}
	c25PProx  = []string{"localhost", "127.0.0.0/8", "127.0.0.2/32", "10.0.0.0/8", "::1/128"}
	c25BadCfg = []string{
		"listen irc://127.0.0.1:0", "listen http://127.0.0.1:0", "listen ws://127.0.0.1:0",
		"listen http+prometheus://127.0.0.1:0", "listen http+pprof://127.0.0.1:0",
		"listen foo://127.0.0.1:0", "listen ircs://127.0.0.1:0", "listen 127.0.0.1:0",
		"listen wss://127.0.0.1:0", "listen https://127.0.0.1:0", "hostnam x", "auth internal\nauth internal",
		"motd /nonexistent/motd", "tls /nonexistent/a /nonexistent/b", "file-upload fs", "auth nope",
	}
)

func genC25Proc(g *G) c25Proc {
	c := c25Proc{Title: Pick(g, c25Titles), Title2: Pick(g, c25Titles), Host: Pick(g, c25PHosts), Host2: Pick(g, c25PHosts), Motd: Pick(g, c25Motds), Motd2: Pick(g, c25Motds),
		Header: g.N(5), TLS: g.P(40), Prom: g.P(30), Ident: g.P(40), Reload: g.W(2, 3, 2), Restart: g.P(30)}
	if g.P(80) {
		c.Proxy = []string{Pick(g, c25PProx)}
	}
	if g.P(80) {
		c.Proxy2 = []string{Pick(g, c25PProx)}
	}
	if g.P(25) {
		c.Bad = 1 + g.N(len(c25BadCfg))
	}
	return c
}

func freePort() (int, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

var c25CertOnce sync.Once
var c25CertPEM, c25KeyPEM []byte

func c25Cert() ([]byte, []byte) {
	c25CertOnce.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(harnessErr("%v", err))
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "soju"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			panic(harnessErr("%v", err))
		}
		kb, err := x509.MarshalPKCS8PrivateKey(k)
		if err != nil {
			panic(harnessErr("%v", err))
		}
		c25CertPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		c25KeyPEM = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
	})
	return c25CertPEM, c25KeyPEM
}

// c25Talk sends lines and reads messages until one of the given commands.
func c25Talk(conn net.Conn, rd *lineReader, until string, lines ...string) ([]*irc.Message, error) {
	conn.SetDeadline(time.Now().Add(30 * time.Second))
	for _, l := range lines {
		if _, err := io.WriteString(conn, l+"\r\n"); err != nil {
			return nil, err
		}
	}
	var l []*irc.Message
	for {
		m, err := rd.ReadMessage()
		if err != nil {
			return l, err
		}
		l = append(l, m)
		for _, u := range strings.Split(until, ",") {
			if m.Command == u {
				return l, nil
			}
		}
	}
}

func runC25Proc(r *R, c c25Proc) error {
	bin := os.Getenv("VERIF_SOJU")
	if bin == "" {
		return harnessErr("VERIF_SOJU is not set")
	}
	okList := func(l []string) bool {
		for _, x := range l {
			if idxOf(c25PProx, x) < 0 {
				return false
			}
		}
		return true
	}
	if idxOf(c25Titles, c.Title) < 0 || idxOf(c25Titles, c.Title2) < 0 || idxOf(c25PHosts, c.Host) < 0 || idxOf(c25PHosts, c.Host2) < 0 || idxOf(c25Motds, c.Motd) < 0 || idxOf(c25Motds, c.Motd2) < 0 || !okList(c.Proxy) || !okList(c.Proxy2) || c.Header < 0 || c.Header > 4 || c.Bad < 0 || c.Bad > len(c25BadCfg) || c.Reload < 0 || c.Reload > 2 {
		return errInvalid{}
	}
	dir, err := os.MkdirTemp("", "sj")
	if err != nil {
		return harnessErr("%v", err)
	}
	defer os.RemoveAll(dir)
	f := func(n string) string { return filepath.Join(dir, n) }
	cert, key := c25Cert()
	os.WriteFile(f("cert.pem"), cert, 0600)
	os.WriteFile(f("key.pem"), key, 0600)
	var ports [4]int
	write := func(title, host, motd string, proxy []string, extra string) {
		var sb strings.Builder
		fmt.Fprintf(&sb, "db sqlite3 %s\n", f("main.db"))
		fmt.Fprintf(&sb, "listen unix+admin://%s\nlisten unix://%s\nlisten irc+insecure://127.0.0.1:%d\nlisten http+unix://%s\nlisten ws+unix://%s\n", f("admin"), f("irc"), ports[0], f("http"), f("ws"))
		if c.TLS {
			fmt.Fprintf(&sb, "listen ircs://127.0.0.1:%d\ntls %s %s\n", ports[1], f("cert.pem"), f("key.pem"))
		}
		if c.Prom {
			fmt.Fprintf(&sb, "listen http+prometheus://localhost:%d\n", ports[2])
		}
		if c.Ident {
			fmt.Fprintf(&sb, "listen ident://127.0.0.1:%d\n", ports[3])
		}
		if title != "" {
			fmt.Fprintf(&sb, "title %q\n", title)
		}
		if host != "" {
			fmt.Fprintf(&sb, "hostname %s\n", host)
		}
		if motd != "" {
			os.WriteFile(f("motd"), []byte(motd), 0600)
			fmt.Fprintf(&sb, "motd %s\n", f("motd"))
		}
		if len(proxy) > 0 {
			fmt.Fprintf(&sb, "accept-proxy-ip %s\n", strings.Join(proxy, " "))
		}
		sb.WriteString(extra)
		os.WriteFile(f("cfg"), []byte(sb.String()), 0600)
		r.Tracef("config:\n%s", sb.String())
	}
	type proc struct {
		cmd  *exec.Cmd
		out  *syncBuffer
		done chan error
	}
	launch := func() (*proc, error) {
		p := &proc{cmd: exec.Command(bin, "-config", f("cfg")), out: &syncBuffer{}, done: make(chan error, 1)}
		p.cmd.Dir = dir
		p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := p.cmd.Start(); err != nil {
			return nil, harnessErr("%v", err)
		}
		go func() { p.done <- p.cmd.Wait() }()
		return p, nil
	}
	var cur *proc
	defer func() {
		if cur != nil {
			cur.cmd.Process.Kill()
			<-cur.done
		}
	}()
	newPorts := func() error {
		for i := range ports {
			var err error
			if ports[i], err = freePort(); err != nil {
				return harnessErr("%v", err)
			}
		}
		return nil
	}
	if c.Bad > 0 {
		if err := newPorts(); err != nil {
			return err
		}
		bad := c25BadCfg[c.Bad-1]
		if c.TLS && (strings.Contains(bad, "ircs:") || strings.Contains(bad, "listen 127") || strings.Contains(bad, "wss:") || strings.Contains(bad, "https:") || strings.HasPrefix(bad, "tls ")) {
			c.TLS = false
		}
		write(c.Title, c.Host, "", c.Proxy, bad+"\n")
		p, err := launch()
		if err != nil {
			return err
		}
		cur = p
		select {
		case err := <-p.done:
			cur = nil
			if err == nil {
				return vio("bad-config", "soju exits successfully with %q:\n%s", bad, p.out.String())
			}
			if strings.Contains(p.out.String(), "panic") || strings.Contains(p.out.String(), "goroutine ") {
				return vio("config-crash", "soju crashes with %q:\n%s", bad, p.out.String())
			}
			if strings.TrimSpace(p.out.String()) == "" {
				return vio("vague-error", "soju doesn't say what is wrong with %q", bad)
			}
		case <-time.After(3 * time.Second):
			// still running: does it work?
			if conn, err := net.Dial("unix", f("admin")); err == nil {
				conn.Close()
				return vio("bad-config", "soju starts with %q:\n%s", bad, p.out.String())
			}
			select {
			case <-p.done:
				cur = nil
			case <-time.After(30 * time.Second):
				return vio("bad-config", "soju keeps running with %q:\n%s", bad, p.out.String())
			}
		}
		r.Count("bad-config")
		r.NonTrivial()
		return nil
	}
	dial := func(network, addr string) (net.Conn, error) {
		var err error
		for i := 0; i < 600; i++ {
			var conn net.Conn
			if conn, err = net.Dial(network, addr); err == nil {
				return conn, nil
			}
			select {
			case e := <-cur.done:
				cur.done <- e
				return nil, vio("start", "soju exited (%v):\n%s", e, cur.out.String())
			case <-time.After(50 * time.Millisecond):
			}
		}
		return nil, vio("start", "%s doesn't accept connections (%v):\n%s", addr, err, cur.out.String())
	}
	for try := 0; ; try++ {
		if err := newPorts(); err != nil {
			return err
		}
		write(c.Title, c.Host, c.Motd, c.Proxy, "")
		p, err := launch()
		if err != nil {
			return err
		}
		cur = p
		conn, err := dial("unix", f("admin"))
		if err != nil {
			if strings.Contains(cur.out.String(), "address already in use") && try < 10 {
				<-cur.done
				cur = nil
				for _, n := range []string{"admin", "irc", "http", "ws"} {
					os.Remove(f(n))
				}
				continue
			}
			return err
		}
		msgs, err := c25Talk(conn, newLineReader(conn), "BOUNCERSERV,FAIL,ERROR", "BOUNCERSERV :user create -username alice -password pw -nick ally")
		conn.Close()
		if err != nil || msgs[len(msgs)-1].Command != "BOUNCERSERV" {
			return vio("admin", "cannot create a user over the admin socket: %v %s", err, fmtMsgs(msgs))
		}
		break
	}
	st, err := os.Stat(f("admin"))
	if err != nil || st.Mode().Perm()&077 != 0 {
		return vio("admin-mode", "the admin socket is accessible to others: %v (%v)", st.Mode(), err)
	}
	sysHost, _ := os.Hostname()
	look := func(kind string, hdr int, proxy []string) (title, host, motd, from string, err error) {
		var conn net.Conn
		switch kind {
		case "tcp":
			conn, err = dial("tcp", fmt.Sprintf("127.0.0.1:%d", ports[0]))
		case "unix":
			conn, err = dial("unix", f("irc"))
		case "tls":
			if conn, err = dial("tcp", fmt.Sprintf("127.0.0.1:%d", ports[1])); err == nil {
				conn = tls.Client(conn, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"irc"}})
			}
		}
		if err != nil {
			return
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(30 * time.Second))
		if hdr > 0 {
			src, dst := &net.TCPAddr{IP: net.ParseIP("198.51.100.77"), Port: 4321}, &net.TCPAddr{IP: net.ParseIP("203.0.113.1"), Port: 6667}
			if hdr == 2 || hdr == 4 {
				src, dst = &net.TCPAddr{IP: net.ParseIP("2001:db8::77"), Port: 4321}, &net.TCPAddr{IP: net.ParseIP("2001:db8::1"), Port: 6667}
			}
			if _, e := proxyproto.HeaderProxyFromAddrs(byte((hdr+1)/2), src, dst).WriteTo(conn); e != nil {
				err = harnessErr("%v", e)
				return
			}
		}
		rd := newLineReader(conn)
		msgs, e := c25Talk(conn, rd, "376,422,464,FAIL,ERROR", "PASS pw", "NICK x", "USER alice 0 * :x")
		if e != nil || len(filter(msgs, "001")) != 1 {
			err = vio("login", "cannot log in over %s with PROXY header %d: %v %s\n%s", kind, hdr, e, fmtMsgs(msgs), cur.out.String())
			return
		}
		var lines []string
		for _, m := range msgs {
			switch m.Command {
			case "001":
				if m.Prefix != nil {
					host = m.Prefix.Name
				}
			case "005":
				for _, t := range m.Params {
					if v, ok := strings.CutPrefix(t, "NETWORK="); ok {
						title = v
					}
				}
			case "372":
				lines = append(lines, strings.TrimPrefix(param(m, -1), "- "))
			}
		}
		motd = strings.Join(lines, "\n")
		msgs, e = c25Talk(conn, rd, "PRIVMSG", "PRIVMSG ally :hi there")
		if e != nil {
			err = vio("echo", "no echo: %v %s", e, fmtMsgs(msgs))
			return
		}
		from = msgs[len(msgs)-1].Prefix.Host
		return
	}
	judge := func(desc, title, host, motd string, proxy []string, poll bool) error {
		if host == "" {
			host = sysHost
		}
		trusted := false
		for _, p := range proxy {
			trusted = trusted || p == "localhost" || p == "127.0.0.0/8"
		}
		kinds := []string{"tcp", "unix"}
		if c.TLS {
			kinds = append(kinds, "tls")
		}
		for _, kind := range kinds {
			hdr := 0
			want := "127.0.0.1"
			if kind == "tcp" {
				hdr = c.Header
				if hdr > 0 && trusted {
					want = []string{"", "198.51.100.77", "2001:db8::77", "198.51.100.77", "2001:db8::77"}[hdr]
				}
				if hdr > 0 {
					r.Count("proxy-header")
				}
			}
			var err error
			for i := 0; i < 100; i++ {
				var t, h, m, from string
				if t, h, m, from, err = look(kind, hdr, proxy); err != nil {
					return err
				}
				switch {
				case t != title:
					err = vio("title", "%s: over %s the title is %q, configured %q", desc, kind, t, title)
				case h != host:
					err = vio("hostname", "%s: over %s the server calls itself %q, configured %q", desc, kind, h, host)
				case m != strings.TrimSuffix(motd, "\n"):
					err = vio("motd", "%s: over %s the MOTD is %q, configured %q", desc, kind, m, motd)
				case kind != "unix" && from != want:
					err = vio("proxy", "%s: over %s with PROXY header %d and trusted proxies %v, the client is taken to come from %q, expected %q", desc, kind, hdr, proxy, from, want)
				}
				if err == nil || !poll {
					break
				}
				time.Sleep(100 * time.Millisecond)
			}
			if err != nil {
				return err
			}
		}
		return nil
	}
	if err := judge("after the start", c.Title, c.Host, c.Motd, c.Proxy, false); err != nil {
		return err
	}
	r.NonTrivial()
	hc := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, n, a string) (net.Conn, error) {
		return dial("unix", f(strings.SplitN(a, ".", 2)[0]))
	}}}
	for url, want := range map[string][]int{"http://http.test/socket": {426, 400}, "http://http.test/uploads/nope": {404}, "http://http.test/other": {404}, "http://ws.test/": {426, 400}} {
		resp, err := hc.Get(url)
		if err != nil {
			return vio("http", "%s: %v", url, err)
		}
		resp.Body.Close()
		ok := false
		for _, x := range want {
			ok = ok || resp.StatusCode == x
		}
		if !ok {
			return vio("http", "%s: HTTP status %d, expected one of %v", url, resp.StatusCode, want)
		}
	}
	if c.Prom {
		conn, err := dial("tcp", fmt.Sprintf("localhost:%d", ports[2]))
		if err != nil {
			return err
		}
		conn.Close()
		resp, err := http.Get(fmt.Sprintf("http://localhost:%d/metrics", ports[2]))
		if err != nil {
			return vio("metrics", "%v", err)
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if resp.StatusCode != 200 || !bytes.Contains(b, []byte("soju_")) {
			return vio("metrics", "no metrics: HTTP status %d", resp.StatusCode)
		}
	}
	if c.Ident {
		conn, err := dial("tcp", fmt.Sprintf("127.0.0.1:%d", ports[3]))
		if err != nil {
			return err
		}
		conn.SetDeadline(time.Now().Add(30 * time.Second))
		io.WriteString(conn, "6697, 12345\r\n")
		b, _ := io.ReadAll(conn)
		conn.Close()
		if !strings.Contains(string(b), "NO-USER") {
			return vio("ident", "the ident server answers %q", b)
		}
	}
	title, host, motd, proxy := c.Title, c.Host, c.Motd, c.Proxy
	switch c.Reload {
	case 1:
		title, host, motd, proxy = c.Title2, c.Host2, c.Motd2, c.Proxy2
		write(title, host, motd, proxy, "")
		cur.cmd.Process.Signal(syscall.SIGHUP)
		if err := judge("after reloading the configuration", title, host, motd, proxy, true); err != nil {
			return err
		}
		r.Count("reload")
	case 2:
		write(c.Title2, c.Host2, c.Motd2, c.Proxy2, "nope\n")
		cur.cmd.Process.Signal(syscall.SIGHUP)
		time.Sleep(300 * time.Millisecond)
		if err := judge("after reloading an invalid configuration", title, host, motd, proxy, false); err != nil {
			return err
		}
		write(title, host, motd, proxy, "")
		r.Count("reload-invalid")
	}
	stop := func() error {
		cur.cmd.Process.Signal(syscall.SIGTERM)
		select {
		case err := <-cur.done:
			out := cur.out.String()
			cur = nil
			if err != nil {
				return vio("stop", "soju exits with %v on SIGTERM:\n%s", err, out)
			}
		case <-time.After(60 * time.Second):
			return vio("stop", "soju doesn't stop on SIGTERM")
		}
		return nil
	}
	if err := stop(); err != nil {
		return err
	}
	if c.Restart {
		for _, n := range []string{"admin", "irc", "http", "ws"} {
			os.Remove(f(n))
		}
		p, err := launch()
		if err != nil {
			return err
		}
		cur = p
		if err := judge("after a restart", title, host, motd, proxy, false); err != nil {
			if cur != nil && strings.Contains(cur.out.String(), "address already in use") {
				return nil // another process took the port
			}
			return err
		}
		r.Count("restart")
		return stop()
	}
	return nil
}

func init() {
	add(properties["C25"], "process", 4, genC25Proc, runC25Proc)
}
