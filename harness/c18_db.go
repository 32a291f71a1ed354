package harness

import (
	"database/sql"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// scratchDir creates a temporary directory, in memory where possible.
func scratchDir() string {
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "soju-verif-")
	if err != nil {
		d, err = os.MkdirTemp("", "soju-verif-")
		if err != nil {
			panic(harnessErr("%v", err))
		}
	}
	return d
}

type c18Op struct {
	K          string
	A, B, X, Y int
	S, S2      string
	F          int
	L          []string
}

type c18Case struct {
	File bool
	Ops  []c18Op
}

var c18Kinds = []string{"user", "userupd", "userdel", "net", "netupd", "netdel", "chan", "chanupd", "chandel", "rcpt", "read", "sub", "subupd", "subdel", "vapid", "msgs", "reopen", "baduser", "badnet", "badsasl", "badchan", "badfk", "failrcpt"}
var c18W = []int{8, 6, 3, 12, 8, 4, 12, 8, 3, 8, 8, 6, 3, 2, 2, 10, 3, 2, 3, 2, 3, 3, 2}

var c18Strs = []string{"", "a", "b", "alice", "Alice", "bob", "#chan", "#Chan", "#c[h]", "née", "a b", "x'; DROP TABLE User; --", "%", "_", "\"q\"", "long" + strings.Repeat("y", 600), "🎉", "NULL", "0", "a\\b", "*"}

func genC18(g *G) c18Case {
	c := c18Case{File: g.P(25)}
	for i, n := 0, g.R(5, 60); i < n; i++ {
		op := c18Op{K: c18Kinds[g.W(c18W...)], A: g.N(6), B: g.N(6), X: g.N(1000), Y: g.N(4), S: Pick(g, c18Strs), S2: Pick(g, c18Strs), F: g.N(1 << 12)}
		for j, m := 0, g.Size(0, 5); j < m; j++ {
			op.L = append(op.L, Pick(g, c18Strs[1:]))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type mNet struct {
	user int64
	n    database.Network
}
type mChan struct {
	net int64
	c   database.Channel
}
type mSub struct {
	user, net int64
	s         database.WebPushSubscription
}
type mMsg struct {
	id   int64
	m    *irc.Message
	t    time.Time
	text bool
}

type dbModel struct {
	users map[int64]database.User
	nets  map[int64]*mNet
	chans map[int64]*mChan
	rcpts map[int64]map[string]map[string]string
	reads map[int64]map[string]database.ReadReceipt
	subs  map[int64]*mSub
	vapid map[int64]database.WebPushConfig
	msgs  map[int64]map[string][]mMsg
	// identifiers seen, to look for leftovers
	oldNets  map[int64]bool
	oldUsers map[int64]bool
}

func newDBModel() *dbModel {
	return &dbModel{
		users: map[int64]database.User{}, nets: map[int64]*mNet{}, chans: map[int64]*mChan{},
		rcpts: map[int64]map[string]map[string]string{}, reads: map[int64]map[string]database.ReadReceipt{},
		subs: map[int64]*mSub{}, vapid: map[int64]database.WebPushConfig{}, msgs: map[int64]map[string][]mMsg{},
		oldNets: map[int64]bool{}, oldUsers: map[int64]bool{},
	}
}

func sortedKeys[V any](m map[int64]V) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func pickKey[V any](m map[int64]V, i int) (int64, bool) {
	l := sortedKeys(m)
	if len(l) == 0 {
		return 0, false
	}
	return l[i%len(l)], true
}

func (m *dbModel) dropNet(id int64) {
	delete(m.nets, id)
	for k, ch := range m.chans {
		if ch.net == id {
			delete(m.chans, k)
		}
	}
	for k, s := range m.subs {
		if s.net == id {
			delete(m.subs, k)
		}
	}
	delete(m.rcpts, id)
	delete(m.reads, id)
	delete(m.msgs, id)
	m.oldNets[id] = true
}

func normNet(n database.Network) database.Network {
	if len(n.ConnectCommands) == 0 {
		n.ConnectCommands = nil
	}
	if n.SASL.Mechanism != "PLAIN" {
		n.SASL.Plain.Username, n.SASL.Plain.Password = "", ""
	} else {
		n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = nil, nil
	}
	if len(n.SASL.External.CertBlob) == 0 {
		n.SASL.External.CertBlob = nil
	}
	if len(n.SASL.External.PrivKeyBlob) == 0 {
		n.SASL.External.PrivKeyBlob = nil
	}
	return n
}

func c18Time(x int) time.Time {
	return time.Date(2001+x%19, 3, 4, 5, 6, x%60, (x%1000)*1000000, time.UTC)
}

func fillUser(u *database.User, op c18Op) {
	u.Password = op.S2
	u.Nick = Pick(NewG(uint64(op.X)), c18Strs)
	u.Realname = Pick(NewG(uint64(op.X+7)), c18Strs)
	u.Admin = op.F&1 != 0
	u.Enabled = op.F&2 != 0
	u.MaxNetworks = op.Y - 1
	u.DownstreamInteractedAt = time.Time{}
	if op.F&4 != 0 {
		u.DownstreamInteractedAt = c18Time(op.X)
	}
}

func fillNet(n *database.Network, op c18Op) {
	g := NewG(uint64(op.X*4096 + op.F))
	n.Name = op.S
	n.Addr = Pick(g, c18Strs[1:])
	n.Nick = Pick(g, c18Strs)
	n.Username = Pick(g, c18Strs)
	n.Realname = Pick(g, c18Strs)
	n.Pass = Pick(g, c18Strs)
	n.CertFP = Pick(g, c18Strs)
	n.ConnectCommands = append([]string(nil), op.L...)
	n.AutoAway = op.F&1 != 0
	n.Enabled = op.F&2 != 0
	n.SASL = database.SASL{}
	n.SASL.Mechanism = []string{"", "PLAIN", "EXTERNAL"}[op.Y%3]
	n.SASL.Plain.Username = Pick(g, c18Strs)
	n.SASL.Plain.Password = Pick(g, c18Strs)
	if op.F&8 != 0 {
		n.SASL.External.CertBlob = []byte{1, 0, byte(op.X), 255}
		n.SASL.External.PrivKeyBlob = []byte{0, byte(op.X)}
	}
}

func fillChan(c *database.Channel, op c18Op) {
	c.Key = op.S2
	c.Detached = op.F&1 != 0
	c.DetachedInternalMsgID = Pick(NewG(uint64(op.X)), c18Strs)
	c.RelayDetached = database.MessageFilter(op.F >> 1 & 3)
	c.ReattachOn = database.MessageFilter(op.F >> 3 & 3)
	c.DetachOn = database.MessageFilter(op.F >> 5 & 3)
	c.DetachAfter = time.Duration(op.X) * time.Second
}

func netConflict(m *dbModel, user int64, id int64, n *database.Network) bool {
	for k, o := range m.nets {
		if k == id || o.user != user {
			continue
		}
		if n.Name != "" && o.n.Name == n.Name {
			return true
		}
		if n.Nick != "" && o.n.Nick == n.Nick && o.n.Addr == n.Addr {
			return true
		}
	}
	return false
}

func (m *dbModel) verify(db database.Database) error {
	st, err := db.Stats(ctxBg)
	if err != nil {
		return vio("db-error", "Stats: %v", err)
	}
	if int(st.Users) != len(m.users) || int(st.Networks) != len(m.nets) || int(st.Channels) != len(m.chans) {
		return vio("db-stats", "Stats = %+v, expected %d users, %d networks, %d channels", *st, len(m.users), len(m.nets), len(m.chans))
	}
	us, err := db.ListUsers(ctxBg)
	if err != nil {
		return vio("db-error", "ListUsers: %v", err)
	}
	if len(us) != len(m.users) {
		return vio("db-users", "ListUsers returned %d users, expected %d", len(us), len(m.users))
	}
	for _, u := range us {
		if !reflect.DeepEqual(u, m.users[u.ID]) {
			return vio("db-users", "ListUsers returned %+v, expected %+v", u, m.users[u.ID])
		}
	}
	for id, u := range m.users {
		gu, err := db.GetUser(ctxBg, u.Username)
		if err != nil || !reflect.DeepEqual(*gu, u) {
			return vio("db-users", "GetUser(%q) = %+v, %v, expected %+v", u.Username, gu, err, u)
		}
		ns, err := db.ListNetworks(ctxBg, id)
		if err != nil {
			return vio("db-error", "ListNetworks: %v", err)
		}
		cnt := 0
		for _, o := range m.nets {
			if o.user == id {
				cnt++
			}
		}
		if len(ns) != cnt {
			return vio("db-networks", "user %d has %d networks, expected %d", id, len(ns), cnt)
		}
		for _, n := range ns {
			o := m.nets[n.ID]
			if o == nil || o.user != id || !reflect.DeepEqual(normNet(n), o.n) {
				return vio("db-networks", "user %d has network %+v, expected %+v", id, n, o)
			}
			if n.SASL.Mechanism == "" && n.SASL.Plain.Username != "" {
				return vio("db-networks", "stale SASL credentials %+v", n)
			}
		}
		for _, net := range append(sortedKeys(m.nets), 0) {
			ss, err := db.ListWebPushSubscriptions(ctxBg, id, net)
			if err != nil {
				return vio("db-error", "ListWebPushSubscriptions: %v", err)
			}
			cnt := 0
			for _, s := range m.subs {
				if s.user == id && s.net == net {
					cnt++
				}
			}
			if len(ss) != cnt {
				return vio("db-subs", "user %d network %d has %d subscriptions, expected %d", id, net, len(ss), cnt)
			}
			for _, s := range ss {
				o := m.subs[s.ID]
				if o == nil || o.user != id || o.net != net || o.s.Endpoint != s.Endpoint || o.s.Keys != s.Keys {
					return vio("db-subs", "user %d network %d has subscription %+v, expected %+v", id, net, s, o)
				}
				if s.UpdatedAt.Before(s.CreatedAt) || s.CreatedAt.IsZero() {
					return vio("db-subs", "bad subscription timestamps %+v", s)
				}
			}
		}
	}
	for id := range m.nets {
		if err := m.verifyNet(db, id); err != nil {
			return err
		}
	}
	for id := range m.oldNets {
		if m.nets[id] == nil {
			if err := m.verifyNet(db, id); err != nil {
				return err
			}
		}
	}
	for id := range m.oldUsers {
		if _, ok := m.users[id]; ok {
			continue
		}
		ns, err := db.ListNetworks(ctxBg, id)
		if err != nil || len(ns) > 0 {
			return vio("db-leftover", "deleted user %d still has networks (%v)", id, err)
		}
		ss, err := db.ListWebPushSubscriptions(ctxBg, id, 0)
		if err != nil || len(ss) > 0 {
			return vio("db-leftover", "deleted user %d still has subscriptions (%v)", id, err)
		}
	}
	cs, err := db.ListWebPushConfigs(ctxBg)
	if err != nil || len(cs) != len(m.vapid) {
		return vio("db-vapid", "ListWebPushConfigs returned %d configs (%v), expected %d", len(cs), err, len(m.vapid))
	}
	for _, c := range cs {
		if m.vapid[c.ID] != c {
			return vio("db-vapid", "got %+v, expected %+v", c, m.vapid[c.ID])
		}
	}
	for _, y := range []int{0, 5, 10, 18} {
		lim := c18Time(y)
		names, err := db.ListInactiveUsernames(ctxBg, lim)
		if err != nil {
			return vio("db-error", "ListInactiveUsernames: %v", err)
		}
		var want []string
		for _, u := range m.users {
			if !u.DownstreamInteractedAt.IsZero() && u.DownstreamInteractedAt.Before(lim) {
				want = append(want, u.Username)
			}
		}
		sort.Strings(want)
		sort.Strings(names)
		if strings.Join(want, "\x00") != strings.Join(names, "\x00") {
			return vio("db-inactive", "ListInactiveUsernames(%v) = %q, expected %q", lim, names, want)
		}
	}
	names, err := db.ListInactiveUsernames(ctxBg, time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC))
	if err != nil || len(names) != len(m.users) {
		return vio("db-inactive", "ListInactiveUsernames(2200) = %q, %v, expected all users", names, err)
	}
	return nil
}

func (m *dbModel) verifyNet(db database.Database, id int64) error {
	cs, err := db.ListChannels(ctxBg, id)
	if err != nil {
		return vio("db-error", "ListChannels: %v", err)
	}
	cnt := 0
	for _, c := range m.chans {
		if c.net == id {
			cnt++
		}
	}
	if len(cs) != cnt {
		return vio("db-channels", "network %d has %d channels, expected %d", id, len(cs), cnt)
	}
	for _, c := range cs {
		o := m.chans[c.ID]
		if o == nil || o.net != id || c != o.c {
			return vio("db-channels", "network %d has channel %+v, expected %+v", id, c, o)
		}
	}
	rs, err := db.ListDeliveryReceipts(ctxBg, id)
	if err != nil {
		return vio("db-error", "ListDeliveryReceipts: %v", err)
	}
	got := map[string]string{}
	for _, r := range rs {
		k := r.Client + "\x00" + r.Target
		if _, dup := got[k]; dup {
			return vio("db-receipts", "duplicate delivery receipt %+v", r)
		}
		got[k] = r.InternalMsgID
	}
	want := map[string]string{}
	for cl, tm := range m.rcpts[id] {
		for t, v := range tm {
			want[cl+"\x00"+t] = v
		}
	}
	if !reflect.DeepEqual(got, want) {
		return vio("db-receipts", "network %d has delivery receipts %q, expected %q", id, got, want)
	}
	for _, t := range c18Strs[1:] {
		rr, err := db.GetReadReceipt(ctxBg, id, t)
		if err != nil {
			return vio("db-error", "GetReadReceipt: %v", err)
		}
		w, ok := m.reads[id][t]
		if ok != (rr != nil) || ok && (*rr != w) {
			return vio("db-read", "network %d target %q has read receipt %+v, expected %+v", id, t, rr, w)
		}
		ms, err := db.ListMessages(ctxBg, id, t, &database.MessageOptions{Limit: 1000, Events: true})
		if err != nil {
			return vio("db-error", "ListMessages: %v", err)
		}
		wm := m.msgs[id][t]
		if len(ms) != len(wm) {
			return vio("db-messages", "network %d target %q has %d messages, expected %d", id, t, len(ms), len(wm))
		}
		ord := append([]mMsg(nil), wm...)
		sort.SliceStable(ord, func(i, j int) bool { return ord[i].t.Before(ord[j].t) })
		for i := range ms {
			if !sameMsg(ms[i], ord[i].m) || !reflect.DeepEqual(ms[i].Tags, ord[i].m.Tags) {
				return vio("db-messages", "network %d target %q message %d is %q, expected %q", id, t, i, ms[i], ord[i].m)
			}
		}
		lid, err := db.GetMessageLastID(ctxBg, id, t)
		if err != nil {
			return vio("db-error", "GetMessageLastID: %v", err)
		}
		if len(wm) == 0 && lid != 0 {
			return vio("db-messages", "GetMessageLastID = %d without messages", lid)
		}
		if len(wm) > 0 {
			ok := false
			for _, x := range wm {
				ok = ok || x.id == lid
			}
			if !ok {
				return vio("db-messages", "GetMessageLastID = %d isn't a message of network %d target %q", lid, id, t)
			}
		}
	}
	mt, err := db.ListMessageLastPerTarget(ctxBg, id, &database.MessageOptions{Limit: 1000, Events: true})
	if err != nil {
		return vio("db-error", "ListMessageLastPerTarget: %v", err)
	}
	if len(mt) != len(m.msgs[id]) {
		return vio("db-targets", "network %d has targets %+v, expected %d", id, mt, len(m.msgs[id]))
	}
	for _, x := range mt {
		var last time.Time
		for _, y := range m.msgs[id][x.Name] {
			if y.t.After(last) {
				last = y.t
			}
		}
		if !x.LatestMessage.Equal(last) {
			return vio("db-targets", "network %d target %q latest %v, expected %v", id, x.Name, x.LatestMessage, last)
		}
	}
	return nil
}

func runC18(r *R, c c18Case) error {
	var db database.Database
	var err error
	path := ""
	if c.File {
		d := scratchDir()
		defer os.RemoveAll(d)
		path = filepath.Join(d, "main.db")
		db, err = database.Open("sqlite3", path)
	} else {
		db, err = database.OpenTempSqliteDB()
	}
	if err != nil {
		return vio("db-open", "cannot open: %v", err)
	}
	defer func() { db.Close() }()
	m := newDBModel()
	oks, refused := 0, 0
	for oi, op := range c.Ops {
		what := fmt.Sprintf("op %d %+v", oi, op)
		fail := func(err error) error { return vio("db-op", "%s failed: %v", what, err) }
		switch op.K {
		case "user", "baduser":
			if op.S == "" {
				continue
			}
			dup := false
			for _, u := range m.users {
				dup = dup || u.Username == op.S
			}
			u := database.NewUser(op.S)
			fillUser(u, op)
			err := db.StoreUser(ctxBg, u)
			if dup {
				refused++
				if err == nil {
					return vio("db-unique", "%s: duplicate user name accepted", what)
				}
				break
			}
			if err != nil {
				return fail(err)
			}
			if _, ok := m.users[u.ID]; ok || u.ID == 0 {
				return vio("db-id", "%s: identifier %d is not fresh", what, u.ID)
			}
			m.users[u.ID] = *u
		case "userupd":
			id, ok := pickKey(m.users, op.A)
			if !ok {
				continue
			}
			u := m.users[id]
			fillUser(&u, op)
			if err := db.StoreUser(ctxBg, &u); err != nil {
				return fail(err)
			}
			m.users[id] = u
		case "userdel":
			id, ok := pickKey(m.users, op.A)
			if !ok {
				continue
			}
			if err := db.DeleteUser(ctxBg, id); err != nil {
				return fail(err)
			}
			if _, err := db.GetUser(ctxBg, m.users[id].Username); !errors.Is(err, sql.ErrNoRows) {
				return vio("db-deleted", "%s: GetUser after deletion: %v", what, err)
			}
			delete(m.users, id)
			m.oldUsers[id] = true
			for k, n := range m.nets {
				if n.user == id {
					m.dropNet(k)
				}
			}
			for k, s := range m.subs {
				if s.user == id {
					delete(m.subs, k)
				}
			}
		case "net", "badnet":
			uid, ok := pickKey(m.users, op.A)
			if !ok {
				continue
			}
			n := &database.Network{}
			fillNet(n, op)
			bad := netConflict(m, uid, 0, n)
			err := db.StoreNetwork(ctxBg, uid, n)
			if bad {
				refused++
				if err == nil {
					return vio("db-unique", "%s: conflicting network accepted", what)
				}
				break
			}
			if err != nil {
				return fail(err)
			}
			if m.nets[n.ID] != nil || n.ID == 0 {
				return vio("db-id", "%s: identifier %d is not fresh", what, n.ID)
			}
			m.nets[n.ID] = &mNet{uid, normNet(*n)}
		case "netupd", "badsasl":
			id, ok := pickKey(m.nets, op.A)
			if !ok {
				continue
			}
			n := m.nets[id].n
			fillNet(&n, op)
			bad := netConflict(m, m.nets[id].user, id, &n)
			if op.K == "badsasl" {
				n.SASL.Mechanism = "SCRAM-SHA-256"
				bad = true
			}
			err := db.StoreNetwork(ctxBg, m.nets[id].user, &n)
			if bad {
				refused++
				if err == nil {
					return vio("db-unique", "%s: invalid network accepted", what)
				}
				break
			}
			if err != nil {
				return fail(err)
			}
			m.nets[id].n = normNet(n)
		case "netdel":
			id, ok := pickKey(m.nets, op.A)
			if !ok {
				continue
			}
			if err := db.DeleteNetwork(ctxBg, id); err != nil {
				return fail(err)
			}
			m.dropNet(id)
		case "chan", "badchan", "chanupd":
			id, ok := pickKey(m.nets, op.A)
			if !ok || op.S == "" {
				continue
			}
			ch := database.Channel{Name: op.S}
			if op.K == "chanupd" {
				cid, ok := pickKey(m.chans, op.B)
				if !ok {
					continue
				}
				ch = m.chans[cid].c
				id = m.chans[cid].net
				if op.F&512 != 0 {
					ch.Name = op.S
				}
			}
			fillChan(&ch, op)
			bad := false
			for k, o := range m.chans {
				bad = bad || (k != ch.ID && o.net == id && o.c.Name == ch.Name)
			}
			err := db.StoreChannel(ctxBg, id, &ch)
			if bad {
				refused++
				if err == nil {
					return vio("db-unique", "%s: duplicate channel accepted", what)
				}
				break
			}
			if err != nil {
				return fail(err)
			}
			if ch.ID == 0 || m.chans[ch.ID] != nil && op.K != "chanupd" {
				return vio("db-id", "%s: identifier %d is not fresh", what, ch.ID)
			}
			m.chans[ch.ID] = &mChan{id, ch}
		case "chandel":
			id, ok := pickKey(m.chans, op.A)
			if !ok {
				continue
			}
			if err := db.DeleteChannel(ctxBg, id); err != nil {
				return fail(err)
			}
			delete(m.chans, id)
		case "rcpt", "failrcpt":
			id, ok := pickKey(m.nets, op.A)
			if !ok {
				continue
			}
			client := op.S
			tm := map[string]string{}
			var l []database.DeliveryReceipt
			dup := false
			for i, t := range op.L {
				if _, ok := tm[t]; ok {
					if op.K == "rcpt" || client == "" {
						continue
					}
					dup = true
				}
				v := fmt.Sprintf("id%d-%d", op.X, i)
				tm[t] = v
				l = append(l, database.DeliveryReceipt{Target: t, InternalMsgID: v})
			}
			err := db.StoreClientDeliveryReceipts(ctxBg, id, client, l)
			if dup {
				refused++
				if err == nil {
					return vio("db-unique", "%s: duplicate receipts accepted", what)
				}
				break
			}
			if err != nil {
				return fail(err)
			}
			if m.rcpts[id] == nil {
				m.rcpts[id] = map[string]map[string]string{}
			}
			m.rcpts[id][client] = tm
		case "read":
			id, ok := pickKey(m.nets, op.A)
			if !ok || op.S == "" {
				continue
			}
			rr, err := db.GetReadReceipt(ctxBg, id, op.S)
			if err != nil {
				return fail(err)
			}
			if rr == nil {
				rr = &database.ReadReceipt{Target: op.S}
			}
			rr.Timestamp = c18Time(op.X)
			if err := db.StoreReadReceipt(ctxBg, id, rr); err != nil {
				return fail(err)
			}
			if m.reads[id] == nil {
				m.reads[id] = map[string]database.ReadReceipt{}
			}
			m.reads[id][op.S] = *rr
		case "sub":
			uid, ok := pickKey(m.users, op.A)
			if !ok || op.S == "" {
				continue
			}
			nid := int64(0)
			if op.F&1 != 0 {
				for _, k := range sortedKeys(m.nets) {
					if m.nets[k].user == uid {
						nid = k
					}
				}
			}
			dup := false
			for _, s := range m.subs {
				dup = dup || (s.net == nid && nid != 0 && s.s.Endpoint == op.S)
			}
			s := database.WebPushSubscription{Endpoint: op.S}
			s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID = op.S2, fmt.Sprint(op.X), "v"+op.S2
			err := db.StoreWebPushSubscription(ctxBg, uid, nid, &s)
			if dup {
				refused++
				if err == nil {
					return vio("db-unique", "%s: duplicate subscription accepted", what)
				}
				break
			}
			if err != nil {
				return fail(err)
			}
			m.subs[s.ID] = &mSub{uid, nid, s}
		case "subupd":
			id, ok := pickKey(m.subs, op.A)
			if !ok {
				continue
			}
			s := m.subs[id]
			s.s.Keys.Auth, s.s.Keys.P256DH, s.s.Keys.VAPID = "n"+op.S2, fmt.Sprint(op.X), op.S
			cp := s.s
			if err := db.StoreWebPushSubscription(ctxBg, s.user, s.net, &cp); err != nil {
				return fail(err)
			}
		case "subdel":
			id, ok := pickKey(m.subs, op.A)
			if !ok {
				continue
			}
			if err := db.DeleteWebPushSubscription(ctxBg, id); err != nil {
				return fail(err)
			}
			delete(m.subs, id)
		case "vapid":
			cfg := database.WebPushConfig{}
			cfg.VAPIDKeys.Public, cfg.VAPIDKeys.Private = op.S, op.S2
			dup := false
			for _, o := range m.vapid {
				dup = dup || o.VAPIDKeys.Public == op.S
			}
			err := db.StoreWebPushConfig(ctxBg, &cfg)
			if dup != (err != nil) {
				return vio("db-unique", "%s: StoreWebPushConfig: %v", what, err)
			}
			if err == nil {
				m.vapid[cfg.ID] = cfg
			}
		case "msgs":
			id, ok := pickKey(m.nets, op.A)
			if !ok || op.S == "" {
				continue
			}
			var l []*irc.Message
			var ts []time.Time
			for i, t := range op.L {
				tm := c18Time(op.X + i)
				msg := &irc.Message{Tags: irc.Tags{"time": tm.Format("2006-01-02T15:04:05.000Z"), "+x": t}, Prefix: &irc.Prefix{Name: "n" + fmt.Sprint(op.B), User: "u", Host: "h"}, Command: "PRIVMSG", Params: []string{op.S, strings.ReplaceAll(t, "\n", "")}}
				if op.F>>uint(i)&1 != 0 {
					msg.Command, msg.Params = "JOIN", []string{"#c"}
				}
				l = append(l, msg)
				ts = append(ts, tm)
			}
			ids, err := db.StoreMessages(ctxBg, id, op.S, l)
			if err != nil {
				return fail(err)
			}
			if len(ids) != len(l) {
				return vio("db-messages", "%s: %d identifiers for %d messages", what, len(ids), len(l))
			}
			if len(l) > 0 && m.msgs[id] == nil {
				m.msgs[id] = map[string][]mMsg{}
			}
			for i := range ids {
				m.msgs[id][op.S] = append(m.msgs[id][op.S], mMsg{ids[i], irc.MustParseMessage(l[i].String()), ts[i], true})
			}
		case "badfk":
			refused++
			bad := int64(99999)
			var err error
			switch op.Y {
			case 0:
				n := &database.Network{}
				fillNet(n, op)
				err = db.StoreNetwork(ctxBg, bad, n)
			case 1:
				err = db.StoreChannel(ctxBg, bad, &database.Channel{Name: "#x"})
			case 2:
				err = db.StoreReadReceipt(ctxBg, bad, &database.ReadReceipt{Target: "x", Timestamp: c18Time(1)})
			default:
				err = db.StoreClientDeliveryReceipts(ctxBg, bad, "c", []database.DeliveryReceipt{{Target: "x", InternalMsgID: "y"}})
			}
			if err == nil {
				return vio("db-fk", "%s: record for an unknown owner accepted", what)
			}
		case "reopen":
			if !c.File {
				continue
			}
			if err := db.Close(); err != nil {
				return fail(err)
			}
			db, err = database.Open("sqlite3", path)
			if err != nil {
				return vio("db-open", "%s: cannot reopen: %v", what, err)
			}
		default:
			continue
		}
		oks++
		r.Count("op-" + op.K)
		if (oi+op.A)%4 == 0 || strings.HasSuffix(op.K, "del") || op.K == "reopen" {
			if err := m.verify(db); err != nil {
				return err
			}
		}
	}
	if oks >= 5 && len(m.users)+len(m.oldUsers) > 0 {
		r.NonTrivial()
	}
	if refused > 0 {
		r.Count("cases-with-refusals")
	}
	return m.verify(db)
}

// ---------------------------------------------------------------- upgrades

const sqliteV0 = `
CREATE TABLE User (
	username VARCHAR(255) NOT NULL UNIQUE,
	password VARCHAR(255)
);
CREATE TABLE Network (
	id INTEGER PRIMARY KEY,
	name VARCHAR(255),
	user VARCHAR(255) NOT NULL,
	addr VARCHAR(255) NOT NULL,
	nick VARCHAR(255) NOT NULL,
	username VARCHAR(255),
	realname VARCHAR(255),
	pass VARCHAR(255),
	sasl_mechanism VARCHAR(255),
	sasl_plain_username VARCHAR(255),
	sasl_plain_password VARCHAR(255),
	UNIQUE(user, addr, nick),
	UNIQUE(user, name)
);
CREATE TABLE Channel (
	id INTEGER PRIMARY KEY,
	network INTEGER NOT NULL,
	name VARCHAR(255) NOT NULL,
	key VARCHAR(255),
	FOREIGN KEY(network) REFERENCES Network(id),
	UNIQUE(network, name)
);
PRAGMA user_version = 1;
`

type c18UpCase struct {
	Users []string
	Nets  []c18UpNet
}
type c18UpNet struct {
	U     int
	Name  string
	Nick  string
	Sasl  bool
	Chans []string
}

func genC18Up(g *G) c18UpCase {
	c := c18UpCase{}
	for i, n := 0, g.R(1, 4); i < n; i++ {
		c.Users = append(c.Users, fmt.Sprintf("%s%d", Pick(g, c18Strs), i))
	}
	for i, n := 0, g.R(0, 5); i < n; i++ {
		un := c18UpNet{U: g.N(len(c.Users)), Name: fmt.Sprintf("%s%d", Pick(g, c18Strs), i), Nick: Pick(g, c18Strs[1:]), Sasl: g.Bool()}
		for j, m := 0, g.R(0, 3); j < m; j++ {
			un.Chans = append(un.Chans, fmt.Sprintf("%s%d", Pick(g, c18Strs), j))
		}
		c.Nets = append(c.Nets, un)
	}
	return c
}

func runC18Up(r *R, c c18UpCase) error {
	d := scratchDir()
	defer os.RemoveAll(d)
	path := filepath.Join(d, "main.db")
	raw, err := sql.Open("sqlite3", path)
	if err != nil {
		panic(harnessErr("%v", err))
	}
	exec := func(q string, args ...any) {
		if _, err := raw.Exec(q, args...); err != nil {
			panic(harnessErr("%s: %v", q, err))
		}
	}
	exec(sqliteV0)
	for i, u := range c.Users {
		exec("INSERT INTO User(username, password) VALUES (?, ?)", u, fmt.Sprintf("pw%d", i))
	}
	nch := 0
	for i, n := range c.Nets {
		var mech, su, sp any
		if n.Sasl {
			mech, su, sp = "PLAIN", "su", "sp"
		}
		exec("INSERT INTO Network(id, name, user, addr, nick, username, realname, pass, sasl_mechanism, sasl_plain_username, sasl_plain_password) VALUES (?,?,?,?,?,?,?,?,?,?,?)",
			i+1, n.Name, c.Users[n.U%len(c.Users)], fmt.Sprintf("addr%d", i), n.Nick, "usr", "real", "pass", mech, su, sp)
		for _, ch := range n.Chans {
			exec("INSERT INTO Channel(network, name, key) VALUES (?, ?, ?)", i+1, ch, "k")
			nch++
		}
	}
	raw.Close()
	if len(c.Nets) > 0 {
		r.NonTrivial()
	}
	db, err := database.Open("sqlite3", path)
	if err != nil {
		return vio("upgrade-failed", "cannot open a version 1 database with %d users, %d networks, %d channels: %v", len(c.Users), len(c.Nets), nch, err)
	}
	defer db.Close()
	us, err := db.ListUsers(ctxBg)
	if err != nil || len(us) != len(c.Users) {
		return vio("upgrade-lost", "%d users (%v), expected %d", len(us), err, len(c.Users))
	}
	for i, name := range c.Users {
		u, err := db.GetUser(ctxBg, name)
		if err != nil || u.Password != fmt.Sprintf("pw%d", i) || !u.Enabled || u.Admin || u.MaxNetworks != -1 {
			return vio("upgrade-lost", "user %q became %+v (%v)", name, u, err)
		}
		ns, err := db.ListNetworks(ctxBg, u.ID)
		if err != nil {
			return vio("upgrade-lost", "ListNetworks: %v", err)
		}
		got := map[string]database.Network{}
		for _, n := range ns {
			got[n.Name] = n
		}
		cnt := 0
		for j, n := range c.Nets {
			if n.U%len(c.Users) != i {
				continue
			}
			cnt++
			o, ok := got[n.Name]
			if !ok || o.Addr != fmt.Sprintf("addr%d", j) || o.Nick != n.Nick || o.Username != "usr" || o.Realname != "real" || o.Pass != "pass" || !o.Enabled || !o.AutoAway || (o.SASL.Mechanism == "PLAIN") != n.Sasl || n.Sasl && (o.SASL.Plain.Username != "su" || o.SASL.Plain.Password != "sp") {
				return vio("upgrade-lost", "network %+v became %+v", n, o)
			}
			cs, err := db.ListChannels(ctxBg, o.ID)
			if err != nil || len(cs) != len(n.Chans) {
				return vio("upgrade-lost", "network %q has channels %+v (%v), expected %q", n.Name, cs, err, n.Chans)
			}
			sort.Slice(cs, func(a, b int) bool { return cs[a].ID < cs[b].ID })
			for k, ch := range cs {
				if ch.Name != n.Chans[k] || ch.Key != "k" || ch.Detached {
					return vio("upgrade-lost", "channel %q became %+v", n.Chans[k], ch)
				}
			}
		}
		if cnt != len(ns) {
			return vio("upgrade-lost", "user %q has %d networks, expected %d", name, len(ns), cnt)
		}
	}
	// the upgraded database accepts everything a fresh one does
	u := database.NewUser("\x01new")
	if err := db.StoreUser(ctxBg, u); err != nil {
		return vio("upgrade-broken", "StoreUser: %v", err)
	}
	n := database.NewNetwork("x")
	if err := db.StoreNetwork(ctxBg, u.ID, n); err != nil {
		return vio("upgrade-broken", "StoreNetwork: %v", err)
	}
	if err := db.StoreChannel(ctxBg, n.ID, &database.Channel{Name: "#x"}); err != nil {
		return vio("upgrade-broken", "StoreChannel: %v", err)
	}
	if _, err := db.StoreMessages(ctxBg, n.ID, "#x", []*irc.Message{{Prefix: &irc.Prefix{Name: "a"}, Command: "PRIVMSG", Params: []string{"#x", "hi"}}}); err != nil {
		return vio("upgrade-broken", "StoreMessages: %v", err)
	}
	if err := db.DeleteUser(ctxBg, u.ID); err != nil {
		return vio("upgrade-broken", "DeleteUser: %v", err)
	}
	return nil
}

func init() {
	p := prop("C18", "at least 5 operations on a database that had a user (model), or at least one network (upgrade)", 6000, 200000,
		"SQLite only: no PostgreSQL server is available")
	add(p, "model", 6, genC18, runC18)
	add(p, "upgrade", 1, genC18Up, runC18Up)
}
