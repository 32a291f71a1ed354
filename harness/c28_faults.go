package harness

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C28: faults of the database and restarts.

// faultDB makes chosen calls of a database fail before they have any effect.
type faultDB struct {
	database.Database
	mu     sync.Mutex
	kind   string // "": none, "w": writes, "r": reads, "*": all, or a method
	skip   int
	count  int
	frozen bool // the process died
	hits   []string
	wrote  int
}

func (f *faultDB) arm(kind string, skip, count int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.kind, f.skip, f.count, f.hits, f.wrote = kind, skip, count, nil, 0
}

func (f *faultDB) disarm() (hits []string, wrote int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.kind = ""
	return f.hits, f.wrote
}

var errFault = errors.New("injected database fault")

func (f *faultDB) fail(method string, write bool) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.frozen {
		return errFault
	}
	if f.kind == "*" || f.kind == "w" && write || f.kind == "r" && !write || f.kind == method {
		if f.skip > 0 {
			f.skip--
		} else if f.count > 0 {
			f.count--
			f.hits = append(f.hits, method)
			return errFault
		}
	}
	if write {
		f.wrote++
	}
	return nil
}

func (f *faultDB) Close() error { return nil }

func (f *faultDB) Stats(ctx context.Context) (*database.DatabaseStats, error) {
	if err := f.fail("Stats", false); err != nil {
		return nil, err
	}
	return f.Database.Stats(ctx)
}

func (f *faultDB) ListUsers(ctx context.Context) ([]database.User, error) {
	if err := f.fail("ListUsers", false); err != nil {
		return nil, err
	}
	return f.Database.ListUsers(ctx)
}

func (f *faultDB) GetUser(ctx context.Context, username string) (*database.User, error) {
	if err := f.fail("GetUser", false); err != nil {
		return nil, err
	}
	return f.Database.GetUser(ctx, username)
}

func (f *faultDB) StoreUser(ctx context.Context, user *database.User) error {
	if err := f.fail("StoreUser", true); err != nil {
		return err
	}
	return f.Database.StoreUser(ctx, user)
}

func (f *faultDB) DeleteUser(ctx context.Context, id int64) error {
	if err := f.fail("DeleteUser", true); err != nil {
		return err
	}
	return f.Database.DeleteUser(ctx, id)
}

func (f *faultDB) ListInactiveUsernames(ctx context.Context, limit time.Time) ([]string, error) {
	if err := f.fail("ListInactiveUsernames", false); err != nil {
		return nil, err
	}
	return f.Database.ListInactiveUsernames(ctx, limit)
}

func (f *faultDB) ListNetworks(ctx context.Context, userID int64) ([]database.Network, error) {
	if err := f.fail("ListNetworks", false); err != nil {
		return nil, err
	}
	return f.Database.ListNetworks(ctx, userID)
}

func (f *faultDB) StoreNetwork(ctx context.Context, userID int64, network *database.Network) error {
	if err := f.fail("StoreNetwork", true); err != nil {
		return err
	}
	return f.Database.StoreNetwork(ctx, userID, network)
}

func (f *faultDB) DeleteNetwork(ctx context.Context, id int64) error {
	if err := f.fail("DeleteNetwork", true); err != nil {
		return err
	}
	return f.Database.DeleteNetwork(ctx, id)
}

func (f *faultDB) ListChannels(ctx context.Context, networkID int64) ([]database.Channel, error) {
	if err := f.fail("ListChannels", false); err != nil {
		return nil, err
	}
	return f.Database.ListChannels(ctx, networkID)
}

func (f *faultDB) StoreChannel(ctx context.Context, networkID int64, ch *database.Channel) error {
	if err := f.fail("StoreChannel", true); err != nil {
		return err
	}
	return f.Database.StoreChannel(ctx, networkID, ch)
}

func (f *faultDB) DeleteChannel(ctx context.Context, id int64) error {
	if err := f.fail("DeleteChannel", true); err != nil {
		return err
	}
	return f.Database.DeleteChannel(ctx, id)
}

func (f *faultDB) ListDeliveryReceipts(ctx context.Context, networkID int64) ([]database.DeliveryReceipt, error) {
	if err := f.fail("ListDeliveryReceipts", false); err != nil {
		return nil, err
	}
	return f.Database.ListDeliveryReceipts(ctx, networkID)
}

func (f *faultDB) StoreClientDeliveryReceipts(ctx context.Context, networkID int64, client string, receipts []database.DeliveryReceipt) error {
	if err := f.fail("StoreClientDeliveryReceipts", true); err != nil {
		return err
	}
	return f.Database.StoreClientDeliveryReceipts(ctx, networkID, client, receipts)
}

func (f *faultDB) GetReadReceipt(ctx context.Context, networkID int64, name string) (*database.ReadReceipt, error) {
	if err := f.fail("GetReadReceipt", false); err != nil {
		return nil, err
	}
	return f.Database.GetReadReceipt(ctx, networkID, name)
}

func (f *faultDB) StoreReadReceipt(ctx context.Context, networkID int64, receipt *database.ReadReceipt) error {
	if err := f.fail("StoreReadReceipt", true); err != nil {
		return err
	}
	return f.Database.StoreReadReceipt(ctx, networkID, receipt)
}

func (f *faultDB) ListWebPushConfigs(ctx context.Context) ([]database.WebPushConfig, error) {
	if err := f.fail("ListWebPushConfigs", false); err != nil {
		return nil, err
	}
	return f.Database.ListWebPushConfigs(ctx)
}

func (f *faultDB) StoreWebPushConfig(ctx context.Context, config *database.WebPushConfig) error {
	if err := f.fail("StoreWebPushConfig", true); err != nil {
		return err
	}
	return f.Database.StoreWebPushConfig(ctx, config)
}

func (f *faultDB) ListWebPushSubscriptions(ctx context.Context, userID, networkID int64) ([]database.WebPushSubscription, error) {
	if err := f.fail("ListWebPushSubscriptions", false); err != nil {
		return nil, err
	}
	return f.Database.ListWebPushSubscriptions(ctx, userID, networkID)
}

func (f *faultDB) StoreWebPushSubscription(ctx context.Context, userID, networkID int64, sub *database.WebPushSubscription) error {
	if err := f.fail("StoreWebPushSubscription", true); err != nil {
		return err
	}
	return f.Database.StoreWebPushSubscription(ctx, userID, networkID, sub)
}

func (f *faultDB) DeleteWebPushSubscription(ctx context.Context, id int64) error {
	if err := f.fail("DeleteWebPushSubscription", true); err != nil {
		return err
	}
	return f.Database.DeleteWebPushSubscription(ctx, id)
}

func (f *faultDB) GetMessageLastID(ctx context.Context, networkID int64, name string) (int64, error) {
	if err := f.fail("GetMessageLastID", false); err != nil {
		return 0, err
	}
	return f.Database.GetMessageLastID(ctx, networkID, name)
}

func (f *faultDB) StoreMessages(ctx context.Context, networkID int64, name string, msgs []*irc.Message) ([]int64, error) {
	if err := f.fail("StoreMessages", true); err != nil {
		return nil, err
	}
	return f.Database.StoreMessages(ctx, networkID, name, msgs)
}

func (f *faultDB) ListMessageLastPerTarget(ctx context.Context, networkID int64, options *database.MessageOptions) ([]database.MessageTarget, error) {
	if err := f.fail("ListMessageLastPerTarget", false); err != nil {
		return nil, err
	}
	return f.Database.ListMessageLastPerTarget(ctx, networkID, options)
}

func (f *faultDB) ListMessages(ctx context.Context, networkID int64, name string, options *database.MessageOptions) ([]*irc.Message, error) {
	if err := f.fail("ListMessages", false); err != nil {
		return nil, err
	}
	return f.Database.ListMessages(ctx, networkID, name, options)
}

// ---------------------------------------------------------------- cases

type c28Op struct {
	K    string
	I, J int
	F    string // methods which fail, "" for none
	Skip int
	Cnt  int
}

type c28Case struct {
	Store string
	Ops   []c28Op
}

var (
	c28Kinds = []string{"net-create", "net-update", "net-delete", "bnc-add", "bnc-change", "bnc-del", "sasl", "sasl-reset", "certfp", "chan-create", "chan-update", "chan-delete", "join", "part", "detach", "markread", "nick", "setname", "user-update", "user-create", "user-upd2", "user-del", "nickserv", "msg", "history", "login", "restart", "crash", "p-toggle", "unbound-nick", "p-msg", "chat", "wait"}
	c28W     = []int{3, 6, 2, 2, 4, 2, 4, 2, 1, 4, 6, 4, 8, 5, 4, 4, 3, 3, 4, 2, 3, 2, 2, 5, 4, 3, 3, 3, 6, 2, 4, 4, 2}
	c28Fault = []string{"w", "w", "w", "w", "r", "*", "StoreNetwork", "StoreChannel", "StoreUser"}
)

func genC28(g *G) c28Case {
	c := c28Case{Store: Pick(g, []string{"memory", "db", "db", "fs"})}
	for i, n := 0, g.Size(2, 14); i < n; i++ {
		op := c28Op{K: c28Kinds[g.W(c28W...)], I: g.N(24), J: g.N(24)}
		if g.P(60) {
			op.F = Pick(g, c28Fault)
			op.Skip = g.W(6, 2, 1)
			op.Cnt = Pick(g, []int{1, 1, 2, 1000})
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c28Dump struct {
	D    dbDump
	Read map[string]string
}

const c28Srv2 = "10.1.0.9:6667"

var c28Chans = []string{"#c0", "#c1", "#c2", "#C1", "#c3"}

func c28Refused(msgs []*irc.Message) bool {
	for _, m := range msgs {
		if m.Command == "FAIL" || m.Command == "ERROR" {
			return true
		}
		if len(m.Command) == 3 && (m.Command[0] == '4' || m.Command[0] == '5') && m.Command != "422" {
			return true
		}
	}
	return false
}

func runC28(r *R, c c28Case) error {
	if c.Store != "memory" && c.Store != "db" && c.Store != "fs" {
		return errInvalid{}
	}
	for _, op := range c.Ops {
		if op.I < 0 || op.J < 0 || op.Skip < 0 || op.Cnt < 0 || op.F != "" && idxOf(c28Fault, op.F) < 0 || idxOf(c28Kinds, op.K) < 0 {
			return errInvalid{}
		}
	}
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		fdb := &faultDB{Database: w.DB}
		real := w.DB
		w.setStore(c.Store)
		w.Sleep(137137 * time.Millisecond)
		var servers []*IRCd
		for _, a := range []string{srvAddr0, srvAddr1, c28Srv2} {
			s := w.AddServer(a)
			s.Ghost = true
			s.AcceptExt = true
			s.Caps = append(s.Caps, "sasl=PLAIN,EXTERNAL")
			s.Accounts = map[string]string{}
			for i := 0; i < 3; i++ {
				s.Accounts[fmt.Sprintf("acc%d", i)] = fmt.Sprintf("pw%d", i)
			}
			s.AddUser("bob")
			servers = append(servers, s)
		}
		u := w.AddUser("alice", nil)
		n0 := w.AddNetwork(u, "net0", netAddr0, nil)
		w.must(w.DB.StoreChannel(ctxBg, n0.ID, &database.Channel{Name: "#c0"}))
		w.AddNetwork(u, "net1", netAddr1, nil)
		w.DB = fdb
		w.Start()
		w.DB = real
		w.Sleep(10 * time.Second)

		var s0, s1, adm, pc *Client
		newBuf := map[string]bool{} // messages client "p" hasn't received yet
		pAcked := false             // it has received one from bob
		pSeen := false              // and disconnected afterwards
		takeP := func() {
			if pc == nil {
				return
			}
			for _, m := range filter(pc.Take(), "PRIVMSG") {
				delete(newBuf, param(m, 1))
				if m.Prefix != nil && m.Prefix.Name == "bob" && strings.HasPrefix(param(m, 1), "text ") && param(m, 0)[0] != '#' {
					pAcked = true
				}
			}
		}
		login := func() {
			if adm == nil || adm.Closed() {
				adm = w.Admin()
			}
			if s0 == nil || s0.Closed() {
				caps := []string{"server-time", "setname", "draft/read-marker", "batch"}
				if c.Store != "memory" {
					caps = append(caps, "draft/chathistory")
				}
				s0, _ = w.LoginFull(LoginOpts{User: "alice", Network: "net0", Client: "main", Caps: caps})
			}
			if s1 == nil || s1.Closed() {
				s1, _ = w.loginBind(LoginOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}})
			}
		}
		dump := func() c28Dump {
			d := c28Dump{D: w.dump(), Read: map[string]string{}}
			for _, ns := range d.D.Nets {
				for _, n := range ns {
					for _, t := range []string{"#c0", "#c1", "bob"} {
						rr, err := w.DB.GetReadReceipt(ctxBg, n.ID, t)
						w.must(err)
						if rr != nil {
							d.Read[fmt.Sprintf("%d %s", n.ID, t)] = rr.Timestamp.UTC().String()
						}
					}
				}
			}
			return d
		}
		svc := func(cmd string) []*irc.Message { return adm.Do("BOUNCERSERV :" + cmd) }
		texts := func(msgs []*irc.Message) []string {
			var l []string
			for _, m := range msgs {
				if m.Command == "PRIVMSG" || m.Command == "NOTICE" || m.Command == "FAIL" {
					l = append(l, param(m, -1))
				}
			}
			return l
		}
		// view collects what users, clients and servers can see
		view := func() []string {
			var v []string
			for i, s := range servers {
				uc := s.Conn()
				if uc == nil || uc.IsClosed() {
					continue
				}
				for _, m := range uc.All() {
					switch m.Command {
					case "PASS", "NICK", "USER", "AUTHENTICATE", "MODE":
						v = append(v, fmt.Sprintf("server %d: %s", i, m.String()))
					}
				}
				for _, ch := range uc.ChanList() {
					v = append(v, fmt.Sprintf("server %d: in %s", i, foldWith("rfc1459", ch)))
				}
				for _, m := range uc.All() {
					if m.Command == "JOIN" {
						keys := strings.Split(param(m, 1), ",")
						for k, ch := range strings.Split(param(m, 0), ",") {
							key := ""
							if k < len(keys) {
								key = keys[k]
							}
							v = append(v, fmt.Sprintf("server %d: JOIN %s %s", i, ch, key))
						}
					}
				}
			}
			login()
			for _, cmd := range []string{"user run alice network status", "user run alice channel status", "user status", "user run alice sasl status -network net0", "user run alice sasl status -network net1", "user run alice certfp fingerprint -network net0"} {
				for _, t := range texts(svc(cmd)) {
					v = append(v, cmd+": "+t)
				}
			}
			s0.Take()
			s1.Take()
			for _, m := range filter(s1.Do("BOUNCER LISTNETWORKS"), "BOUNCER") {
				a := irc.ParseTags(param(m, 2))
				delete(a, "error")
				var l []string
				for k, x := range a {
					l = append(l, k+"="+x)
				}
				sort.Strings(l)
				v = append(v, "LISTNETWORKS "+param(m, 1)+" "+strings.Join(l, ";"))
			}
			for _, t := range []string{"#c0", "#c1", "bob"} {
				for _, m := range filter(s0.Do("MARKREAD "+t), "MARKREAD", "FAIL") {
					v = append(v, m.Command+" "+strings.Join(m.Params, " "))
				}
			}
			c2, m2 := w.Login(LoginOpts{User: "alice", Network: "net0"})
			if m2 == nil {
				v = append(v, "cannot log in to net0")
			}
			for _, m := range filter(m2, "001", "JOIN") {
				if m.Command == "001" {
					v = append(v, "welcome "+param(m, 0))
				} else {
					v = append(v, "session in "+foldWith("rfc1459", param(m, 0)))
				}
			}
			// what detached channels relay
			if uc := servers[0].Conn(); uc != nil && !uc.IsClosed() && uc.IsRegistered() {
				det := map[string]bool{}
				for _, t := range texts(svc("user run alice channel status -network net0")) {
					if strings.Contains(t, "detached") {
						det[strings.Fields(t)[0]] = true
					}
				}
				for _, ch := range sortedStrs(det) {
					c2.Take()
					uc.Raw(":bob!ub@h PRIVMSG "+ch+" :plain", ":bob!ub@h PRIVMSG "+ch+" :"+uc.CurNick()+": hi")
					w.Sleep(time.Second)
					v = append(v, "relayed "+fmt.Sprint(texts(c2.Take())))
				}
			}
			c2.Close()
			w.Wait()
			sort.Strings(v)
			return v
		}
		settle := func() {
			w.Sleep(3 * time.Minute)
		}
		reconnect := func() {
			for _, s := range servers {
				s.closeAll()
			}
			w.Sleep(15 * time.Minute)
		}
		diff := func(a, b []string) string {
			m := map[string]int{}
			for _, x := range a {
				m[x]++
			}
			for _, x := range b {
				m[x]--
			}
			var l []string
			for _, k := range sortedKeysInt(m) {
				if m[k] > 0 {
					l = append(l, "before: "+k)
				} else if m[k] < 0 {
					l = append(l, "after:  "+k)
				}
			}
			return strings.Join(l, "\n")
		}
		tainted, reatt := false, false
		reopen := func() {
			s0, s1, adm, pc = nil, nil, nil, nil
			fdb = &faultDB{Database: real}
			w.DB = fdb
		}
		restart := func(desc string, crash bool, op c28Op) error {
			reconnect()
			if reatt {
				// viewing sends messages to the detached channels
				view()
			}
			before := view()
			takeP()
			if crash {
				fdb.mu.Lock()
				fdb.frozen = true
				fdb.mu.Unlock()
			}
			if !w.Stop() {
				return vio("shutdown", "%s: shutdown didn't complete", desc)
			}
			reopen()
			if op.F != "" {
				// The database fails while users are started: what isn't
				// available must not be half running
				fdb.arm([]string{"ListNetworks", "ListChannels", "ListDeliveryReceipts"}[op.I%3], op.Skip, op.Cnt)
				w.Start()
				w.DB = real
				w.Sleep(time.Minute)
				hits, _ := fdb.disarm()
				if len(hits) > 0 {
					r.NonTrivial()
					r.Count("startup-faults")
				}
				x, _ := w.Login(LoginOpts{User: "alice"})
				w.Sleep(15 * time.Minute)
				for i, s := range servers {
					if n := s.OpenConns(); n > 1 {
						return vio("duplicate", "%s: %d connections to server %d (failed calls: %v)", desc, n, i, hits)
					}
				}
				x.Close()
				w.Wait()
				if !w.Stop() {
					return vio("shutdown", "%s: shutdown didn't complete after failed calls %v", desc, hits)
				}
				for i, s := range servers {
					if n := s.OpenConns(); n > 0 {
						return vio("shutdown", "%s: %d connections to server %d left open (failed calls: %v)", desc, n, i, hits)
					}
				}
				reopen()
			}
			w.Start()
			w.DB = real
			w.Sleep(15 * time.Minute)
			after := view()
			if tainted {
				r.Count("tainted")
				tainted = false
				return nil
			}
			if d := diff(before, after); d != "" {
				return vio("restart", "%s: what can be seen differs from before:\n%s", desc, d)
			}
			return nil
		}
		login()
		ops := c.Ops
		for i := 0; i < len(ops); i++ {
			if ops[i].K == "p-msg" {
				// client p receives a message, leaves, and comes back after
				// another one
				x := c28Op{K: []string{"p-toggle", "restart", "crash"}[ops[i].I%3], F: ops[i].F, Skip: ops[i].Skip, Cnt: ops[i].Cnt}
				l := []c28Op{{K: "p-on"}, {K: "msg"}, {K: "p-toggle"}, {K: "msg"}, x, {K: "p-on"}}
				ops = append(append(append([]c28Op(nil), ops[:i]...), l...), ops[i+1:]...)
			}
		}
		for i, op := range ops {
			desc := fmt.Sprintf("op %d %s", i, op.K)
			r.Tracef("%s %+v", desc, op)
			login()
			settle()
			s0.Take()
			s1.Take()
			adm.Take()
			takeP()
			before := dump()
			netName := []string{"net0", "net1", "extra"}[op.I%3]
			ch := c28Chans[op.J%len(c28Chans)]
			var cl *Client
			var lines []string
			admc := func(cmd string) { cl, lines = adm, []string{"BOUNCERSERV :" + cmd} }
			ali := func(cmd string) { admc("user run alice " + cmd) }
			online := false
			if uc := servers[0].Conn(); uc != nil && !uc.IsClosed() && uc.IsRegistered() {
				online = true
			}
			special := op.K == "join" || op.K == "part" || op.K == "detach"
			netID := func() string {
				for _, n := range before.D.Nets["alice"] {
					if n.Name == netName {
						return fmt.Sprint(n.ID)
					}
				}
				return "9999"
			}
			switch op.K {
			case "net-create":
				ali("network create -addr irc+insecure://10.1.0.9 -name extra" + []string{"", " -nick xn", " -pass sekret", " -enabled false"}[op.J%4])
			case "net-update":
				ali("network update " + netName + []string{" -realname \"Real " + fmt.Sprint(op.J) + "\"", " -nick al" + fmt.Sprint(op.J), " -pass pw" + fmt.Sprint(op.J), " -enabled false", " -enabled true", " -connect-command \"MODE al +x\"", " -auto-away false", " -username u" + fmt.Sprint(op.J)}[op.J%8])
			case "net-delete":
				ali("network delete extra")
			case "bnc-add":
				cl, lines = s1, []string{"BOUNCER ADDNETWORK host=10.1.0.9;tls=0;name=extra;nickname=xb"}
			case "bnc-change":
				cl, lines = s1, []string{"BOUNCER CHANGENETWORK " + netID() + " " + []string{"nickname=bn" + fmt.Sprint(op.J), "realname=bnc\\s" + fmt.Sprint(op.J), "pass=x" + fmt.Sprint(op.J)}[op.J%3]}
			case "bnc-del":
				netName = "extra"
				cl, lines = s1, []string{"BOUNCER DELNETWORK " + netID()}
			case "sasl":
				ali(fmt.Sprintf("sasl set-plain -network %s acc%d pw%d", netName, op.J%3, op.J%3))
			case "sasl-reset":
				ali("sasl reset -network " + netName)
			case "certfp":
				ali("certfp generate -key-type ed25519 -network net0")
			case "chan-create":
				ali("channel create " + ch + "/net0" + []string{"", " -detached true", " -relay-detached message", " -detached true -relay-detached none"}[op.I%4])
			case "chan-update":
				ali("channel update " + ch + "/net0" + []string{" -detached true", " -detached false", " -relay-detached message", " -relay-detached none", " -detach-after 3h", " -detached true -relay-detached highlight", " -detached true -reattach-on message", " -detached true -reattach-on highlight", " -detach-after 3h -detached true -reattach-on message"}[op.I%9])
				reatt = true
			case "chan-delete":
				ali("channel delete " + ch + "/net0")
			case "join":
				cl, lines = s0, []string{"JOIN " + ch + []string{"", " key" + fmt.Sprint(op.I)}[op.I%2]}
			case "part":
				cl, lines = s0, []string{"PART " + ch}
			case "detach":
				cl, lines = s0, []string{"PART " + ch + " :detach"}
			case "markread":
				cl, lines = s0, []string{"MARKREAD " + []string{"#c0", "bob", "#c1"}[op.I%3] + " timestamp=" + time.Now().Add(-time.Duration(op.J)*time.Minute).UTC().Format("2006-01-02T15:04:05.000Z")}
			case "nick":
				cl, lines = s0, []string{"NICK ni" + fmt.Sprint(op.J)}
			case "unbound-nick":
				cl, lines = s1, []string{[]string{"NICK un" + fmt.Sprint(op.J), "SETNAME :Un " + fmt.Sprint(op.J)}[op.I%2]}
			case "setname":
				cl, lines = s0, []string{"SETNAME :Name " + fmt.Sprint(op.J)}
			case "user-update":
				ali("user update " + []string{"-nick un" + fmt.Sprint(op.J), "-realname \"User " + fmt.Sprint(op.J) + "\""}[op.J%2])
			case "user-create":
				admc("user create -username carol -password x" + []string{"", " -admin=true", " -max-networks 3", " -enabled=false"}[op.J%4])
			case "user-upd2":
				admc("user update carol " + []string{"-admin true", "-admin false", "-max-networks 7", "-enabled false", "-enabled true"}[op.J%5])
			case "user-del":
				special = true
				tok := ""
				for _, t := range texts(svc("user delete carol")) {
					if f := strings.Fields(strings.Trim(t, "\"")); len(f) > 0 {
						tok = strings.Trim(f[len(f)-1], "\"")
					}
				}
				admc("user delete carol " + tok)
			case "nickserv":
				if !online {
					continue
				}
				cl, lines = s0, []string{fmt.Sprintf("PRIVMSG NickServ :IDENTIFY acc%d pw%d", op.J%3, op.J%3)}
				special = true // saved in passing
			case "msg":
				uc := servers[0].Conn()
				if uc == nil || uc.IsClosed() || !uc.IsRegistered() {
					continue
				}
				t := fmt.Sprintf("text %d", i)
				tgt := uc.CurNick()
				fdb.arm(op.F, op.Skip, op.Cnt)
				uc.Raw(":bob!ub@h PRIVMSG " + tgt + " :" + t)
				w.Wait()
				hits, _ := fdb.disarm()
				if len(filter(s0.Take(), "PRIVMSG")) != 1 {
					return vio("relay", "%s: a message wasn't relayed (failed calls: %v)", desc, hits)
				}
				if len(hits) == 0 && pc == nil && pSeen && c.Store != "memory" {
					newBuf[t] = true
				}
				continue
			case "chat", "wait":
				// messages re-attach channels, time detaches them
				uc := servers[0].Conn()
				if op.K == "chat" && !online {
					continue
				}
				fdb.arm(op.F, op.Skip, op.Cnt)
				if op.K == "wait" {
					w.Sleep(4 * time.Hour)
				} else {
					for _, ch := range uc.ChanList() {
						uc.Raw(":bob!ub@h PRIVMSG " + ch + " :" + []string{"hi all", uc.CurNick() + ": hi"}[op.I%2])
					}
				}
				w.Wait()
				hits, _ := fdb.disarm()
				for _, h := range hits {
					tainted = tainted || h == "StoreChannel"
				}
				if s0.Closed() {
					return vio("closed", "%s: the session was closed (failed calls: %v)", desc, hits)
				}
				continue
			case "history":
				want := s0.Do("CHATHISTORY LATEST bob * 100")
				fdb.arm(op.F, op.Skip, op.Cnt)
				got := s0.Do("CHATHISTORY LATEST bob * 100")
				hits, _ := fdb.disarm()
				if len(hits) > 0 {
					r.NonTrivial()
					r.Count("history-faults")
				}
				if s0.Closed() {
					return vio("closed", "%s: the session was closed (failed calls: %v)", desc, hits)
				}
				if a, b := len(filter(want, "PRIVMSG")), len(filter(got, "PRIVMSG")); a != b && len(filter(got, "FAIL")) == 0 {
					return vio("history", "%s: %d messages were returned instead of %d (failed calls: %v)", desc, b, a, hits)
				}
				if len(filter(got, "FAIL")) > 0 && len(hits) == 0 {
					return vio("history", "%s: failed for no reason:\n%s", desc, fmtMsgs(got))
				}
				continue
			case "login":
				fdb.arm(op.F, op.Skip, op.Cnt)
				x, msgs := w.Login(LoginOpts{User: "alice", Network: "net0"})
				w.Sleep(time.Second)
				hits, _ := fdb.disarm()
				if len(hits) > 0 {
					r.NonTrivial()
					r.Count("login-faults")
				}
				if msgs == nil && len(hits) == 0 {
					return vio("login", "%s: login failed for no reason", desc)
				}
				x.Close()
				continue
			case "p-toggle", "p-on":
				if pc != nil && op.K == "p-on" {
					continue
				}
				if pc != nil {
					takeP()
					pc.Close()
					w.Wait()
					pc = nil
					pSeen = pSeen || pAcked
					continue
				}
				x, msgs := w.MustLogin(LoginOpts{User: "alice", Network: "net0", Client: "p"})
				pc = x
				w.Sleep(time.Second)
				for _, m := range filter(append(msgs, pc.Take()...), "PRIVMSG") {
					delete(newBuf, param(m, 1))
					r.Count("replayed")
				}
				if len(newBuf) > 0 {
					return vio("backlog", "%s: messages received while client p was away aren't replayed: %v", desc, sortedStrs(newBuf))
				}
				continue
			case "restart", "crash":
				if err := restart(desc, op.K == "crash", op); err != nil {
					return err
				}
				r.Count(op.K)
				continue
			default:
				return errInvalid{}
			}
			fdb.arm(op.F, op.Skip, op.Cnt)
			msgs := cl.Do(lines...)
			w.Sleep(30 * time.Second)
			hits, _ := fdb.disarm()
			msgs = append(msgs, cl.Take()...)
			if cl.Closed() && op.K != "net-delete" && op.K != "bnc-del" {
				return vio("closed", "%s (%s): the session was closed (failed calls: %v)", desc, lines[0], hits)
			}
			refused := c28Refused(msgs)
			for _, t := range texts(msgs) {
				refused = refused || strings.HasPrefix(t, "error:")
			}
			after := dump()
			if len(hits) > 0 {
				r.NonTrivial()
				r.Count("faults")
				if refused {
					r.Count("refused")
				}
			}
			changed := !reflect.DeepEqual(before, after)
			if len(msgs) == 0 && !special && len(hits) > 0 {
				return vio("unanswered", "%s (%s): no answer (failed calls: %v)", desc, lines[0], hits)
			}
			if refused && changed && len(hits) > 0 && op.K != "user-del" {
				return vio("partial", "%s (%s) was refused but changed what is stored (failed calls: %v)\nanswer:\n%sbefore: %+v\nafter:  %+v", desc, lines[0], hits, fmtMsgs(msgs), before, after)
			}
			fw := false
			for _, h := range hits {
				if op.K == "user-create" && h == "ListNetworks" {
					tainted = true // started at the next login
				}
				fw = fw || strings.HasPrefix(h, "Store") && h != "StoreClientDeliveryReceipts" && h != "StoreMessages" || strings.HasPrefix(h, "Delete")
			}
			if fw && special {
				// done for now, but forgotten at the next restart
				tainted = true
			}
			if fw && !refused && !changed && !special {
				return vio("unreported", "%s (%s) was not refused although it couldn't be stored (failed calls: %v)\nanswer:\n%s", desc, lines[0], hits, fmtMsgs(msgs))
			}
			if err := w.CheckPanics(); err != nil {
				return err
			}
		}
		return restart("at the end", false, c28Op{})
	})
}

func sortedKeysInt(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	p := prop("C28", "a database call needed by a request failed", 5000, 60000,
		"a failing database call has no effect")
	add(p, "faults", 1, genC28, runC28)
}
