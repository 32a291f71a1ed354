package harness

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hkdf"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C26: web push notifications.

type c26Op struct {
	K  string
	S  int // session
	E  int // endpoint
	Y  int // keys
	N  int
	T  int
	Tg int
	Lc bool
}

type c26Case struct {
	Ops []c26Op
}

type c26EP struct {
	url  string
	good bool
}

var c26EPs = []c26EP{
	{"https://198.51.100.7/push/a", true},
	{"https://198.51.100.7/push/b?x=1&y=2", true},
	{"https://push.test/q/abc", true},
	{"https://dual.test/", true},
	{"https://203.0.113.9:8443/wp", true},
	{"https://push.test:4443/with/port", true},
	{"https://[2001:db8::77]/six", true},
	{"https://[2001:db8::77]:444/six", true},
	// not public HTTPS services
	{"http://198.51.100.7/push/a", false},
	{"https://127.0.0.1/x", false},
	{"https://127.9.8.7:8080/x", false},
	{"https://10.0.0.5/x", false},
	{"https://192.168.1.1:8443/x", false},
	{"https://172.16.3.4/x", false},
	{"https://[::1]/x", false},
	{"https://[::1]:8443/x", false},
	{"https://[::ffff:127.0.0.1]/x", false},
	{"https://[fd00::1]/x", false},
	{"https://169.254.169.254/latest/meta-data", false},
	{"https://[fe80::1]/x", false},
	{"https://0.0.0.0/x", false},
	{"https://[::]/x", false},
	{"https://224.0.0.1/x", false},
	{"https://intra.test/x", false},
	{"https://intra.test:8443/x", false},
	{"https://mixed.test/x", false},
	{"https://meta.test/x", false},
	{"https://nx.test/x", false},
	{"https://", false},
	{"ftp://198.51.100.7/x", false},
	{"198.51.100.7/x", false},
	{"https://%zz/x", false},
}

var c26DNS = map[string][]string{
	"push.test":  {"198.51.100.70"},
	"dual.test":  {"198.51.100.71", "2001:db8::71"},
	"intra.test": {"10.3.2.1"},
	"mixed.test": {"198.51.100.72", "::1"},
	"meta.test":  {"169.254.169.254"},
}

type c26Key struct {
	priv       *ecdh.PrivateKey
	auth       []byte
	sAuth, sPK string // as given by the client
}

var c26Keys = sync.OnceValue(func() []c26Key {
	var l []c26Key
	encs := []*base64.Encoding{base64.RawURLEncoding, base64.URLEncoding, base64.StdEncoding, base64.RawURLEncoding}
	for i, e := range encs {
		seed := sha256.Sum256([]byte(fmt.Sprintf("c26 key %d", i)))
		priv, err := ecdh.P256().NewPrivateKey(seed[:])
		if err != nil {
			panic(err)
		}
		a := sha256.Sum256(seed[:])
		l = append(l, c26Key{priv: priv, auth: a[:16], sAuth: e.EncodeToString(a[:16]), sPK: e.EncodeToString(priv.PublicKey().Bytes())})
	}
	return l
})

// c26BadKeys are parameters which don't contain usable keys.
var c26BadKeys = []string{
	"auth=AAAAAAAAAAAAAAAAAAAAAA",
	"p256dh=AAAA",
	"foo=bar",
	"auth=AAAAAAAAAAAAAAAAAAAAAA;p256dh=AAAA",
	"auth=AAAAAAAAAAAAAAAAAAAAAA;p256dh=!!!!",
	"auth=****;p256dh=BBBB",
}

var (
	c26Msgs  = []string{"chan-hl", "chan-plain", "chan-notice-hl", "chan-status-hl", "dm", "dm-notice", "dm-tag", "chan-tag", "self-dm", "self-chan-hl", "server", "mask", "ctx-hl", "ctx-plain", "invite", "invite-other", "service", "dm-action", "other-chan-hl"}
	c26MsgW  = []int{10, 5, 3, 2, 10, 3, 2, 1, 2, 2, 2, 1, 2, 2, 3, 1, 1, 1, 2}
	c26Stats = []int{201, 404, 500, 201, 410, -1, -2, 201, 429, -307, -302}
	c26Filt  = []string{"none", "highlight", "message", "default"}
)

func genC26(g *G) c26Case {
	var c c26Case
	kinds := []string{"reg", "unreg", "msg", "status", "restart", "read", "detach", "attach", "nick", "logout", "login", "netdel", "netupd", "netoff", "badsub"}
	ws := []int{16, 4, 24, 5, 3, 5, 3, 2, 1, 2, 3, 1, 1, 1, 1}
	for i, n := 0, g.Size(4, 32); i < n; i++ {
		k := g.W(ws...)
		if i < 2 {
			k = 0
		}
		op := c26Op{K: kinds[k], S: g.N(5), E: g.N(4), Y: g.N(4), N: g.N(100), T: g.N(8) + 8*g.N(2)*g.N(1000), Tg: g.W(5, 2, 1, 1), Lc: g.P(15)}
		if g.P(30) {
			op.E = g.N(len(c26EPs))
		}
		if op.K == "reg" {
			if g.P(70) {
				op.S = g.N(2)
			}
			if g.P(8) {
				op.Y = 4 + g.N(len(c26BadKeys))
			}
		}
		if op.K == "msg" {
			op.N = g.W(c26MsgW...)
		}
		c.Ops = append(c.Ops, op)
		if g.P(4) {
			// a subscription is renewed, perhaps after a long time, and its
			// endpoint fails for a moment
			x := c26Op{S: g.N(2), E: g.N(4), Y: g.N(4), N: g.N(100), Tg: g.N(2)}
			for _, k := range []string{"login", "reg", "restart", "login", "reg", "status", "msg", "status", "msg"} {
				y := x
				y.K = k
				switch k {
				case "restart":
					y.N = Pick(g, []int{2, 2, 1})
				case "status":
					y.N = g.N(len(c26Stats))
				case "msg":
					y.N, y.T = 0, g.N(8)
				}
				c.Ops = append(c.Ops, y)
			}
		}
	}
	return c
}

// ---------------------------------------------------------------- endpoints

type c26Req struct {
	url     string
	method  string
	header  http.Header
	body    []byte
	at      time.Time
	matched bool
}

type c26Net struct {
	mu     sync.Mutex
	status map[string]int
	reqs   []*c26Req
}

func (n *c26Net) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	n.mu.Lock()
	n.reqs = append(n.reqs, &c26Req{url: req.URL.String(), method: req.Method, header: req.Header.Clone(), body: body, at: time.Now()})
	st := n.status[req.URL.String()]
	n.mu.Unlock()
	switch st {
	case 0:
		st = 201
	case -1:
		return nil, errors.New("connection refused")
	case -2:
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	hdr := http.Header{}
	if st < -100 { // redirection to a private service
		st = -st
		hdr.Set("Location", "http://127.0.0.1:8080/internal")
	}
	return &http.Response{StatusCode: st, Status: fmt.Sprintf("%d %s", st, http.StatusText(st)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hdr, Body: io.NopCloser(strings.NewReader("")), Request: req}, nil
}

func (n *c26Net) take() []*c26Req {
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.reqs
	n.reqs = nil
	return l
}

// c26Resolve answers a DNS query over a stream connection.
func c26Resolve(ctx context.Context, network, address string) (net.Conn, error) {
	a, b := memPair(memAddr("resolver"), memAddr("dns"))
	go func() {
		defer b.Close()
		for {
			var l [2]byte
			if _, err := io.ReadFull(b, l[:]); err != nil {
				return
			}
			q := make([]byte, binary.BigEndian.Uint16(l[:]))
			if _, err := io.ReadFull(b, q); err != nil || len(q) < 17 {
				return
			}
			var labels []string
			i := 12
			for i < len(q) && q[i] != 0 {
				n := int(q[i])
				if i+1+n > len(q) {
					return
				}
				labels = append(labels, string(q[i+1:i+1+n]))
				i += 1 + n
			}
			if i+5 > len(q) {
				return
			}
			qtype := binary.BigEndian.Uint16(q[i+1:])
			question := q[12 : i+5]
			addrs, ok := c26DNS[strings.ToLower(strings.Join(labels, "."))]
			var ans []byte
			cnt := 0
			for _, s := range addrs {
				ip := net.ParseIP(s)
				rd := []byte(ip.To4())
				t := uint16(1)
				if rd == nil {
					rd, t = ip.To16(), 28
				}
				if t != qtype {
					continue
				}
				cnt++
				ans = append(ans, 0xc0, 0x0c, 0, byte(t), 0, 1, 0, 0, 0, 60, 0, byte(len(rd)))
				ans = append(ans, rd...)
			}
			resp := []byte{q[0], q[1], 0x81, 0x80, 0, 1, 0, byte(cnt), 0, 0, 0, 0}
			if !ok {
				resp[3] = 0x83
			}
			resp = append(append(resp, question...), ans...)
			out := binary.BigEndian.AppendUint16(nil, uint16(len(resp)))
			if _, err := b.Write(append(out, resp...)); err != nil {
				return
			}
		}
	}()
	return a, nil
}

// c26Decrypt decrypts a push message as per RFC 8291.
func c26Decrypt(body []byte, k c26Key) ([]byte, error) {
	if len(body) < 21 || len(body) < 21+int(body[20]) {
		return nil, errors.New("short header")
	}
	salt, rs, id, ct := body[:16], binary.BigEndian.Uint32(body[16:20]), body[21:21+int(body[20])], body[21+int(body[20]):]
	if len(ct) > int(rs) {
		return nil, errors.New("several records")
	}
	pub, err := ecdh.P256().NewPublicKey(id)
	if err != nil {
		return nil, err
	}
	shared, err := k.priv.ECDH(pub)
	if err != nil {
		return nil, err
	}
	info := "WebPush: info\x00" + string(k.priv.PublicKey().Bytes()) + string(id)
	ikm, err := hkdf.Key(sha256.New, shared, k.auth, info, 32)
	if err != nil {
		return nil, err
	}
	cek, err := hkdf.Key(sha256.New, ikm, salt, "Content-Encoding: aes128gcm\x00", 16)
	if err != nil {
		return nil, err
	}
	nonce, err := hkdf.Key(sha256.New, ikm, salt, "Content-Encoding: nonce\x00", 12)
	if err != nil {
		return nil, err
	}
	blk, err := aes.NewCipher(cek)
	if err != nil {
		return nil, err
	}
	gcm, err := cipher.NewGCM(blk)
	if err != nil {
		return nil, err
	}
	pt, err := gcm.Open(nil, nonce, ct, nil)
	if err != nil {
		return nil, err
	}
	pt = bytes.TrimRight(pt, "\x00")
	if len(pt) == 0 || pt[len(pt)-1] != 2 {
		return nil, errors.New("missing record delimiter")
	}
	return pt[:len(pt)-1], nil
}

// c26Auth checks the VAPID authorization of a request.
func c26Auth(q *c26Req, vapid string) string {
	h := q.header.Get("Authorization")
	if !strings.HasPrefix(h, "vapid ") {
		return fmt.Sprintf("Authorization is %q", h)
	}
	var t, k string
	for _, p := range strings.Split(h[6:], ",") {
		p = strings.TrimSpace(p)
		if strings.HasPrefix(p, "t=") {
			t = p[2:]
		} else if strings.HasPrefix(p, "k=") {
			k = p[2:]
		}
	}
	if strings.TrimRight(k, "=") != strings.TrimRight(vapid, "=") {
		return fmt.Sprintf("VAPID key is %q, advertised was %q", k, vapid)
	}
	dec := func(s string) []byte { b, _ := base64.RawURLEncoding.DecodeString(strings.TrimRight(s, "=")); return b }
	raw := dec(k)
	if len(raw) != 65 || raw[0] != 4 {
		return fmt.Sprintf("VAPID key %q isn't an uncompressed point", k)
	}
	parts := strings.Split(t, ".")
	if len(parts) != 3 {
		return fmt.Sprintf("token %q", t)
	}
	sig := dec(parts[2])
	if len(sig) != 64 {
		return fmt.Sprintf("signature of %d bytes", len(sig))
	}
	pk := ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(raw[1:33]), Y: new(big.Int).SetBytes(raw[33:])}
	sum := sha256.Sum256([]byte(parts[0] + "." + parts[1]))
	if !ecdsa.Verify(&pk, sum[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])) {
		return "the token isn't signed by the advertised VAPID key"
	}
	var claims struct {
		Aud string  `json:"aud"`
		Exp float64 `json:"exp"`
	}
	if err := json.Unmarshal(dec(parts[1]), &claims); err != nil {
		return err.Error()
	}
	origin := q.url
	if i := strings.Index(origin[8:], "/"); i >= 0 {
		origin = origin[:8+i]
	}
	if claims.Aud != origin {
		return fmt.Sprintf("token for %q instead of %q", claims.Aud, origin)
	}
	exp := time.Unix(int64(claims.Exp), 0)
	if !exp.After(q.at) || exp.After(q.at.Add(24*time.Hour)) {
		return fmt.Sprintf("token expires at %v, sent at %v", exp, q.at)
	}
	return ""
}

// ---------------------------------------------------------------- model

type c26Sub struct {
	key     int
	updated time.Time
	unsure  bool // a delivery which isn't required may have removed it
}

type c26Expect struct {
	url      string
	key      int
	what     string
	match    func(*irc.Message) bool
	optional bool
	done     bool
}

// c26Scope is a network of a user, or the user itself (without network).
type c26Scope struct {
	user   *database.User
	id     int64 // 0 without network
	name   string
	s      *IRCd
	subs   map[string]*c26Sub
	read   map[string]time.Time
	push   map[string]time.Time // targets with notifications, by folded name
	maybe  map[string]bool      // as above, before a restart
	det    bool
	relay  string
	reatt  string
	off    bool
	remade int
}

func (x *c26Scope) sortedEPs() []string { return keysOf(x.subs) }

type c26Sess struct {
	cl    *Client
	scope int
	cap   bool
}

const c26Long = "+vendor.example/blob="

func runC26(r *R, c c26Case) error {
	for _, op := range c.Ops {
		if op.S < 0 || op.E < 0 || op.Y < 0 || op.N < 0 || op.T < 0 || op.Tg < 0 {
			return errInvalid{}
		}
	}
	return bubble(r, func() error {
		hn := &c26Net{status: map[string]int{}}
		oldT, oldR := http.DefaultTransport, net.DefaultResolver
		http.DefaultTransport = hn
		net.DefaultResolver = &net.Resolver{PreferGo: true, StrictErrors: true, Dial: c26Resolve}
		defer func() { http.DefaultTransport, net.DefaultResolver = oldT, oldR }()
		keys := c26Keys()

		w := NewWorld(r)
		defer w.Finish()
		w.setStore("memory")
		al, bo := w.AddUser("alice", nil), w.AddUser("erin", nil)
		mk := func(u *database.User, name, host, addr string) *c26Scope {
			s := w.AddServer(host)
			s.Isupport = []string{"STATUSMSG=@+"}
			s.Ghost = true
			n := w.AddNetwork(u, name, addr, nil)
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: "#c"}))
			w.must(w.DB.StoreChannel(ctxBg, n.ID, &database.Channel{Name: "#d"}))
			return &c26Scope{user: u, id: n.ID, name: name, s: s, subs: map[string]*c26Sub{}, read: map[string]time.Time{}, push: map[string]time.Time{}, maybe: map[string]bool{}, relay: "default", reatt: "default"}
		}
		scopes := []*c26Scope{
			mk(al, "net0", srvAddr0, netAddr0),
			mk(al, "net1", srvAddr1, netAddr1),
			{user: al, subs: map[string]*c26Sub{}},
			mk(bo, "net0", "10.1.0.7:6667", "irc+insecure://10.1.0.7"),
		}
		w.Start()
		// sessions: 0 and 4 share a network, 2 isn't bound to one
		sess := make([]*c26Sess, 5)
		vapid := ""
		login := func(i int) error {
			sc := i
			if i == 4 {
				sc = 0
			}
			x := scopes[sc]
			o := LoginOpts{User: x.user.Username, Network: x.name, Client: fmt.Sprintf("s%d", i), Caps: []string{"draft/read-marker", "server-time"}}
			y := &c26Sess{scope: sc, cap: i != 4 || len(c.Ops)%2 == 0}
			if x.id == 0 {
				o.Caps = append(o.Caps, "soju.im/bouncer-networks")
			}
			if y.cap {
				o.Caps = append(o.Caps, "soju.im/webpush")
			}
			cl, msgs := w.MustLogin(o)
			y.cl = cl
			sess[i] = y
			got := ""
			for _, m := range filter(msgs, "005") {
				for _, t := range m.Params {
					if strings.HasPrefix(t, "VAPID=") {
						got = t[6:]
					}
				}
			}
			if y.cap && got == "" {
				return vio("vapid", "session %d enabled soju.im/webpush but wasn't told the VAPID key", i)
			}
			if y.cap && vapid != "" && got != vapid {
				return vio("vapid", "session %d was told VAPID key %q, earlier ones %q", i, got, vapid)
			}
			if y.cap {
				vapid = got
			}
			return nil
		}
		w.Sleep(3 * time.Second)
		for i := range sess {
			if err := login(i); err != nil {
				return err
			}
		}
		var expect []*c26Expect
		enter := func(x *c26Scope) {
			uc := x.s.Conn()
			if uc != nil && uc.IsRegistered() && !uc.IsClosed() {
				uc.Raw(":bob!ub@h.bob JOIN #c")
			}
		}
		for _, x := range scopes {
			if x.s != nil {
				enter(x)
			}
		}
		w.Wait()
		slow := func() bool {
			for _, st := range hn.status {
				if st == -2 {
					return true
				}
			}
			return false
		}
		// notify adds the deliveries expected for a message
		notify := func(x *c26Scope, what string, optional bool, match func(*irc.Message) bool) {
			for _, u := range x.sortedEPs() {
				sub := x.subs[u]
				expect = append(expect, &c26Expect{url: u, key: sub.key, what: what, match: match, optional: optional})
				if optional && hn.status[u] != 0 && hn.status[u] != 201 {
					sub.unsure = true
					continue
				}
				switch st := hn.status[u]; st {
				case 0, 201:
				case 404:
					delete(x.subs, u)
					r.Count("expired")
				default:
					if time.Since(sub.updated) > 30*24*time.Hour {
						delete(x.subs, u)
						r.Count("pruned")
					}
				}
			}
		}
		check := func(desc string) error {
			w.Sleep(2 * time.Second)
			if slow() {
				w.Sleep(200 * time.Second)
			}
			for _, q := range hn.take() {
				ok := false
				for _, e := range c26EPs {
					ok = ok || e.good && e.url == q.url
				}
				if !ok {
					return vio("endpoint", "%s: a request was sent to %s, which isn't a public HTTPS service", desc, q.url)
				}
				if q.method != "POST" || q.header.Get("Content-Encoding") != "aes128gcm" || q.header.Get("TTL") == "" {
					return vio("request", "%s: %s request with headers %v to %s", desc, q.method, q.header, q.url)
				}
				if s := c26Auth(q, vapid); s != "" {
					return vio("vapid-auth", "%s: request to %s: %s", desc, q.url, s)
				}
				var plain []string
				for i, k := range keys {
					if pt, err := c26Decrypt(q.body, k); err == nil {
						plain = append(plain, fmt.Sprintf("key %d: %s", i, pt))
						m, err := irc.ParseMessage(string(pt))
						if err != nil {
							return vio("payload", "%s: payload %q for %s isn't a message", desc, pt, q.url)
						}
						for _, opt := range []bool{false, true} {
							for _, e := range expect {
								if !q.matched && !e.done && e.optional == opt && e.url == q.url && e.key == i && e.match(m) {
									e.done, q.matched = true, true
								}
							}
						}
					}
				}
				if len(plain) == 0 {
					return vio("decrypt", "%s: no key decrypts the payload sent to %s", desc, q.url)
				}
				if !q.matched {
					return vio("unexpected-push", "%s: unexpected notification for %s: %s\nexpected: %s", desc, q.url, strings.Join(plain, " "), c26Show(expect))
				}
				r.Count("push")
			}
			for _, e := range expect {
				if !e.done && !e.optional {
					return vio("missing-push", "%s: %s was not notified (keys %d) of: %s", desc, e.url, e.key, e.what)
				}
			}
			expect = nil
			for _, x := range scopes {
				subs, err := w.DB.ListWebPushSubscriptions(ctxBg, x.user.ID, x.id)
				w.must(err)
				var got, want []string
				for _, s := range subs {
					got = append(got, fmt.Sprintf("%s %s %s", s.Endpoint, s.Keys.Auth, s.Keys.P256DH))
				}
				for _, u := range x.sortedEPs() {
					stored := false
					for _, s := range subs {
						stored = stored || s.Endpoint == u
					}
					if x.subs[u].unsure && !stored {
						delete(x.subs, u)
						continue
					}
					x.subs[u].unsure = false
					k := keys[x.subs[u].key]
					want = append(want, fmt.Sprintf("%s %s %s", u, k.sAuth, k.sPK))
				}
				sort.Strings(got)
				sort.Strings(want)
				if !eqStrs(got, want) {
					return vio("stored", "%s: the subscriptions of %s on %q (%d) are %q instead of %q", desc, x.user.Username, x.name, x.id, got, want)
				}
			}
			return nil
		}
		relogin := func() error {
			for i, y := range sess {
				if y == nil {
					continue
				}
				if y.cl.Closed() {
					if err := login(i); err != nil {
						return err
					}
				}
				y.cl.Take()
			}
			return nil
		}
		for i, op := range c.Ops {
			desc := fmt.Sprintf("op %d %s", i, op.K)
			r.Tracef("%s %+v", desc, op)
			si := op.S % len(sess)
			y := sess[si]
			x := scopes[si%4]
			if si == 4 {
				x = scopes[0]
			}
			ep := c26EPs[op.E%len(c26EPs)]
			now := time.Now()
			if op.K != "login" && op.K != "restart" && op.K != "status" && op.K != "msg" && y == nil {
				continue
			}
			switch op.K {
			case "reg", "badsub":
				y.cl.Take()
				bad := op.Y >= len(keys)
				ks := ""
				if bad {
					ks = c26BadKeys[(op.Y-len(keys))%len(c26BadKeys)]
				} else {
					ks = "auth=" + keys[op.Y].sAuth + ";p256dh=" + keys[op.Y].sPK
					if op.N%2 == 0 {
						ks = "p256dh=" + keys[op.Y].sPK + ";foo=bar;auth=" + keys[op.Y].sAuth
					}
				}
				sub := "REGISTER"
				if op.Lc {
					sub = "register"
				}
				if op.K == "badsub" {
					sub = "REGISTRATION"
				}
				msgs := y.cl.Do("WEBPUSH " + sub + " " + ep.url + " " + ks)
				if hn.status[ep.url] == -2 {
					w.Sleep(20 * time.Second)
					msgs = append(msgs, y.cl.Take()...)
				}
				oks, fails := filter(msgs, "WEBPUSH"), filter(msgs, "FAIL", "421", "461")
				if len(oks)+len(fails) != 1 {
					return vio("reply", "%s: %d replies to WEBPUSH %s %s:\n%s", desc, len(oks)+len(fails), sub, ep.url, fmtMsgs(msgs))
				}
				acked := len(oks) == 1 && strings.EqualFold(param(oks[0], 0), "REGISTER") && param(oks[0], 1) == ep.url
				if len(oks) == 1 && !acked {
					return vio("reply", "%s: WEBPUSH %s %s was answered %q", desc, sub, ep.url, oks[0].String())
				}
				valid := ep.good && !bad && y.cap && op.K == "reg"
				test := &c26Expect{url: ep.url, key: op.Y, what: "the registration itself", match: func(m *irc.Message) bool { return m.Command == "NOTE" && param(m, 0) == "WEBPUSH" }}
				if !valid {
					if acked {
						return vio("accepted", "%s: WEBPUSH %s %s %s was accepted", desc, sub, ep.url, ks)
					}
					r.Count("refused")
					break
				}
				old := x.subs[ep.url]
				if old != nil && old.key == op.Y && now.Sub(old.updated) < 24*time.Hour {
					test.optional = true
					expect = append(expect, test)
					if st := hn.status[ep.url]; !acked && (st == 0 || st == 201) {
						return vio("refused", "%s: the renewal of %s was refused: %s", desc, ep.url, fmtMsgs(fails))
					}
					break
				}
				expect = append(expect, test)
				st := hn.status[ep.url]
				if want := st == 0 || st == 201; want != acked {
					return vio("register", "%s: WEBPUSH %s %s (endpoint status %d) was answered:\n%s", desc, sub, ep.url, st, fmtMsgs(msgs))
				}
				if acked {
					x.subs[ep.url] = &c26Sub{key: op.Y, updated: time.Now()}
					if old != nil {
						r.Count("renewed")
					}
					r.Count("registered")
				}
			case "unreg":
				y.cl.Take()
				sub := "UNREGISTER"
				if op.Lc {
					sub = "Unregister"
				}
				msgs := y.cl.Do("WEBPUSH " + sub + " " + ep.url)
				oks, fails := filter(msgs, "WEBPUSH"), filter(msgs, "FAIL", "421", "461")
				if !y.cap {
					if len(oks) != 0 || len(fails) != 1 {
						return vio("reply", "%s: WEBPUSH without the capability was answered:\n%s", desc, fmtMsgs(msgs))
					}
					break
				}
				if len(oks) != 1 || len(fails) != 0 || !strings.EqualFold(param(oks[0], 0), "UNREGISTER") || param(oks[0], 1) != ep.url {
					return vio("reply", "%s: WEBPUSH %s %s was answered:\n%s", desc, sub, ep.url, fmtMsgs(msgs))
				}
				if x.subs[ep.url] != nil {
					r.Count("unregistered")
				}
				delete(x.subs, ep.url)
			case "status":
				hn.mu.Lock()
				hn.status[ep.url] = c26Stats[op.N%len(c26Stats)]
				hn.mu.Unlock()
			case "msg":
				if x.s == nil || x.off {
					continue
				}
				uc := x.s.Conn()
				if uc == nil || uc.IsClosed() || !uc.IsRegistered() {
					continue
				}
				nick := uc.CurNick()
				kind := c26Msgs[op.N%len(c26Msgs)]
				from := []string{":bob!ub@h.bob", ":carol!uc@h.carol"}[op.T%2]
				hl := []string{nick + ": ping " + fmt.Sprint(i), "hi (" + nick + ") no " + fmt.Sprint(i), fmt.Sprint(i, " hello ", nick), nick}[op.T/2%4]
				plain := []string{fmt.Sprint("hi all ", i), fmt.Sprint(i, " x"+nick+"x"), fmt.Sprintf("%d https://example.org/%s", i, nick), fmt.Sprint(i)}[op.T/2%4]
				if op.T >= 8 {
					hl, plain = mentionWith(op.T*64+i, nick, true), mentionWith(op.T*64+i, nick, false)
				}
				var tags irc.Tags
				msgid := fmt.Sprintf("id-%d", i)
				pfx := ""
				at := now
				switch op.Tg {
				case 1:
					at = now.Add(-time.Duration(op.T%8) * time.Minute)
					pfx = "@time=" + at.UTC().Format("2006-01-02T15:04:05.000Z") + ";msgid=" + msgid + ";account=acc "
				case 2:
					pfx = "@msgid=" + msgid + ";+draft/reply=abc;vendor/x=a\\sb "
				case 3:
					pfx = "@msgid=" + msgid + ";" + c26Long + strings.Repeat("0123456789", []int{120, 170, 190, 400}[op.T/2%4]) + " "
				}
				target, body, push, optional, dm := "#c", "", false, false, ""
				cmd := "PRIVMSG"
				inC, isHL := false, false
				switch kind {
				case "chan-hl":
					body, inC, isHL, push = hl, true, true, true
				case "chan-plain":
					body, inC = plain, true
				case "chan-notice-hl":
					cmd, body, inC, isHL, push = "NOTICE", hl, true, true, true
				case "chan-status-hl":
					target, body, inC, isHL, push = "@#c", hl, true, true, true
				case "other-chan-hl":
					target, body, push = "#d", hl, true
				case "dm":
					target, body, push = nick, plain, true
				case "dm-notice":
					cmd, target, body, push = "NOTICE", nick, plain, true
				case "dm-action":
					target, body, push = nick, "\x01ACTION waves "+fmt.Sprint(i)+"\x01", true
				case "dm-tag":
					cmd, target, push, optional = "TAGMSG", nick, true, true
				case "chan-tag":
					cmd = "TAGMSG"
				case "self-dm":
					from, target, body = ":"+nick+"!ua@h.alice", "bob", hl
				case "self-chan-hl":
					from, body = ":"+nick+"!ua@h.alice", hl
				case "server":
					from, cmd, target, body = ":"+x.s.name, []string{"NOTICE", "PRIVMSG"}[op.T%2], nick, hl
				case "mask":
					cmd, target, body = "NOTICE", "$*", hl
				case "ctx-hl", "ctx-plain":
					from, target = ":bob!ub@h.bob", nick
					body, isHL = plain, false
					inC = true
					if kind == "ctx-hl" {
						body, isHL, push = hl, true, true
					}
					if pfx == "" {
						pfx = "@+draft/channel-context=#c "
					} else {
						pfx = strings.TrimSuffix(pfx, " ") + ";+draft/channel-context=#c "
					}
				case "invite":
					cmd, target, body, push = "INVITE", nick, fmt.Sprintf("#new%d", i), true
				case "invite-other":
					cmd, target, body = "INVITE", "dave", "#c"
				case "service":
					from, target, body = ":BouncerServ!x@y", nick, hl
				}
				line := pfx + from + " " + cmd + " " + target
				if cmd == "TAGMSG" {
					if pfx == "" {
						line = "@+typing=active " + line
					}
				} else {
					line += " :" + body
				}
				tm, err := irc.ParseMessage(line)
				if err != nil {
					panic(harnessErr("%v", err))
				}
				tags = tm.Tags
				// what a detached channel does with it
				if inC && x.det && cmd != "TAGMSG" {
					if x.reatt == "message" || x.reatt == "highlight" && isHL {
						x.det = false
						r.Count("reattached")
					}
					if x.det && x.relay == "none" {
						push = false
						r.Count("detached-silent")
					}
				}
				if push && cmd != "INVITE" && !optional {
					dm = target
					switch {
					case inC:
						dm = "#c"
					case target == nick:
						dm = tm.Prefix.Name
					}
				}
				uc.Raw(line)
				if len(x.subs) > 0 && push {
					r.NonTrivial()
					if op.Tg == 3 {
						r.Count("long-tags")
					}
				}
				if push {
					notify(x, line, optional, func(m *irc.Message) bool {
						if m.Command != tm.Command || !eqStrs(m.Params, tm.Params) || m.Prefix == nil || m.Prefix.String() != tm.Prefix.String() {
							return false
						}
						for k, v := range m.Tags {
							if ov, ok := tags[k]; k != "time" && (!ok || ov != v) {
								return false
							}
						}
						return m.Tags["msgid"] == tags["msgid"]
					})
				} else if len(x.subs) > 0 {
					r.Count("not-notified")
				}
				if dm != "" {
					x.push[foldWith("rfc1459", dm)] = at.Truncate(time.Millisecond)
				}
				if optional {
					x.maybe[foldWith("rfc1459", tm.Prefix.Name)] = true
				}
			case "restart":
				for _, y := range sess {
					if y != nil {
						y.cl.Close()
					}
				}
				w.Wait()
				if !w.Stop() {
					return vio("shutdown", "%s: shutdown didn't complete", desc)
				}
				time.Sleep([]time.Duration{0, 25 * time.Hour, 31 * 24 * time.Hour, time.Minute}[op.N%4])
				w.Start()
				w.Sleep(3 * time.Second)
				for j, y := range sess {
					if y != nil {
						if err := login(j); err != nil {
							return err
						}
					}
				}
				for _, x := range scopes {
					if x.s == nil {
						continue
					}
					for t := range x.push {
						x.maybe[t] = true
					}
					x.push = map[string]time.Time{}
					if !x.off {
						enter(x)
					}
				}
				r.Count("restart")
			case "read":
				if x.s == nil {
					continue
				}
				t := []string{"#c", "bob", "carol", "#C"}[op.T%4]
				f := foldWith("rfc1459", t)
				d := []time.Duration{-time.Hour, 0, time.Hour, -30 * time.Second}[op.N%4]
				ts := now.Add(d).UTC().Truncate(time.Millisecond)
				msgs := y.cl.Do("MARKREAD " + t + " timestamp=" + ts.Format("2006-01-02T15:04:05.000Z"))
				if len(filter(msgs, "MARKREAD")) == 0 {
					return vio("markread", "%s: MARKREAD wasn't answered:\n%s", desc, fmtMsgs(msgs))
				}
				eff := ts
				if eff.After(now) {
					eff = now
				}
				if x.read[f].Before(eff) {
					x.read[f] = eff
					str := "timestamp=" + eff.UTC().Format("2006-01-02T15:04:05.000Z")
					last, pushed := x.push[f]
					if pushed || x.maybe[f] {
						notify(x, "the read marker "+t+" "+str, !pushed, func(m *irc.Message) bool {
							return m.Command == "MARKREAD" && foldWith("rfc1459", param(m, 0)) == f && param(m, 1) == str
						})
						r.Count("marker-push")
					}
					if pushed && !eff.Before(last) {
						delete(x.push, f)
					}
				}
			case "detach", "attach":
				if x.s == nil || x.off {
					continue
				}
				cmd := "channel update #c -detached true -relay-detached " + c26Filt[op.N%4] + " -reattach-on " + c26Filt[op.N/4%4]
				if op.K == "attach" {
					cmd = "channel update #c -detached false"
				}
				msgs := y.cl.Do("PRIVMSG BouncerServ :" + cmd)
				if !strings.Contains(fmtMsgs(msgs), "updated channel") {
					return vio("setup", "%s: %s: %s", desc, cmd, fmtMsgs(msgs))
				}
				x.det = op.K == "detach"
				if x.det {
					x.relay, x.reatt = c26Filt[op.N%4], c26Filt[op.N/4%4]
				}
			case "nick":
				if x.s == nil {
					continue
				}
				y.cl.Send("NICK " + []string{"alice", "alice2", "zed"}[op.N%3])
			case "logout":
				y.cl.Close()
				sess[si] = nil
			case "login":
				if y == nil {
					if err := login(si); err != nil {
						return err
					}
				}
			case "netupd":
				if x.s == nil || x.off {
					continue
				}
				y.cl.Do("PRIVMSG BouncerServ :network update " + x.name + fmt.Sprintf(" -realname r%d", i))
				w.Sleep(30 * time.Second)
				enter(x)
			case "netoff":
				if x.s == nil {
					continue
				}
				x.off = !x.off
				y.cl.Do("PRIVMSG BouncerServ :network update " + x.name + fmt.Sprintf(" -enabled %v", !x.off))
				w.Sleep(30 * time.Second)
				if !x.off {
					enter(x)
				}
			case "netdel":
				if x.s == nil || si != 1 {
					continue
				}
				if len(x.subs) > 0 {
					r.Count("deleted-with-subscriptions")
				}
				m := y.cl.Do("PRIVMSG BouncerServ :network delete " + x.name)
				w.Sleep(time.Second)
				subs, err := w.DB.ListWebPushSubscriptions(ctxBg, x.user.ID, x.id)
				w.must(err)
				if len(subs) > 0 {
					return vio("stored", "%s: subscriptions of a deleted network remain (%s)", desc, fmtMsgs(m))
				}
				n := sess[0]
				if n == nil {
					if err := login(0); err != nil {
						return err
					}
					n = sess[0]
				}
				n.cl.Do("PRIVMSG BouncerServ :network create -addr " + netAddr1 + " -name net1")
				w.Sleep(30 * time.Second)
				x.id = 0
				l, err := w.DB.ListNetworks(ctxBg, x.user.ID)
				w.must(err)
				for _, nn := range l {
					if nn.Name == "net1" {
						x.id = nn.ID
					}
				}
				if x.id == 0 {
					return vio("setup", "%s: network not created", desc)
				}
				*x = c26Scope{user: x.user, id: x.id, name: x.name, s: x.s, subs: map[string]*c26Sub{}, read: map[string]time.Time{}, push: map[string]time.Time{}, maybe: map[string]bool{}, relay: "default", reatt: "default"}
				if err := login(1); err != nil {
					return err
				}
				sess[1].cl.Do("JOIN #c", "JOIN #d")
				w.Sleep(2 * time.Second)
				enter(x)
			default:
				return errInvalid{}
			}
			if err := check(desc); err != nil {
				return err
			}
			if err := relogin(); err != nil {
				return err
			}
		}
		return w.CheckPanics()
	})
}

func c26Show(l []*c26Expect) string {
	var s []string
	for _, e := range l {
		if !e.done {
			s = append(s, fmt.Sprintf("%s (key %d): %s", e.url, e.key, e.what))
		}
	}
	return strings.Join(s, "; ")
}

func init() {
	p := prop("C26", "a notification is due for a registered subscription", 9000, 150000,
		"push endpoints and name servers are simulated: requests are recorded where the bouncer hands them to the HTTP transport",
		"whether TAGMSG in private conversations are notified is left to the bouncer")
	add(p, "webpush", 1, genC26, runC26)
}
