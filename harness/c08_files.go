package harness

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"io/fs"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/fileupload"
	"codeberg.org/emersion/soju/msgstore"
)

const c08Depth = 16

// deepRoot is a configured directory which lies so deep inside of a scratch
// directory that no relative name made by the generators leaves the scratch
// directory. Decoy files lie on every level.
type deepRoot struct {
	top, dir string
	before   map[string]string
}

func newDeepRoot() *deepRoot {
	d := &deepRoot{top: scratchDir()}
	d.dir = d.top
	for i := 0; i < c08Depth; i++ {
		d.decoys(d.dir)
		d.dir = filepath.Join(d.dir, fmt.Sprintf("d%d", i))
		if err := os.Mkdir(d.dir, 0o755); err != nil {
			panic(harnessErr("%v", err))
		}
	}
	d.decoys(d.dir)
	d.dir = filepath.Join(d.dir, "root")
	d.before = d.snapshot()
	return d
}

const decoyLine = "[00:00:00] <mallory> SECRET decoy\n"

func (d *deepRoot) decoys(dir string) {
	for _, name := range []string{"decoy", "2000-01-01.log", "decoy.txt"} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(decoyLine), 0o644); err != nil {
			panic(harnessErr("%v", err))
		}
	}
}

// snapshot describes everything outside of the configured directory.
func (d *deepRoot) snapshot() map[string]string {
	m := map[string]string{}
	err := filepath.WalkDir(d.top, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if p == d.dir {
			if e.IsDir() {
				return filepath.SkipDir
			}
			m[p] = "not a directory"
			return nil
		}
		rel, _ := filepath.Rel(d.top, p)
		if e.IsDir() {
			m[rel] = "dir"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		m[rel] = string(b)
		return nil
	})
	if err != nil {
		panic(harnessErr("%v", err))
	}
	return m
}

// files lists the files below the configured directory.
func (d *deepRoot) files() map[string]string {
	m := map[string]string{}
	filepath.WalkDir(d.dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(d.dir, p)
		b, _ := os.ReadFile(p)
		m[filepath.ToSlash(rel)] = string(b)
		return nil
	})
	return m
}

func (d *deepRoot) checkOutside(after string) error {
	now := d.snapshot()
	for k, v := range now {
		if old, ok := d.before[k]; !ok {
			return vio("escape", "%s: %q (%s) appeared outside of the configured directory", after, k, head(v, 60))
		} else if old != v {
			return vio("escape", "%s: %q was changed outside of the configured directory", after, k)
		}
	}
	for k := range d.before {
		if _, ok := now[k]; !ok {
			return vio("escape", "%s: %q was removed outside of the configured directory", after, k)
		}
	}
	return nil
}

var c08Parts = []string{"..", "..", ".", "a", "b", "decoy", "root", "d15", "...", "..a", "a..", "2000-01-01.log", "#chan", "", "%2e%2e", "%2F", "-", "--", "~", "*", "con", "A"}

// hostileName makes names with path metacharacters. "$S" stands for the
// scratch directory.
func hostileName(g *G) string {
	switch g.W(4, 8, 2, 2, 2, 1) {
	case 0:
		return Pick(g, c08Parts)
	case 1:
		sep := Pick(g, []string{"/", "/", "\\", "-", "//"})
		var l []string
		for i, n := 0, g.R(2, 6); i < n; i++ {
			l = append(l, Pick(g, c08Parts))
		}
		s := strings.Join(l, sep)
		if g.P(20) {
			s = sep + s
		}
		if g.P(20) {
			s += sep
		}
		return s
	case 2:
		return strings.Repeat("../", g.R(1, 12)) + Pick(g, []string{"", "decoy", "x", "d3/x"})
	case 3:
		return "$S/" + Pick(g, []string{"decoy", "x", "d0/d1/x", ".."})
	case 4:
		return g.Str("abAB#./\\-_ é'\"%&;|$`\t", 1, 8)
	default:
		return strings.Repeat(g.Str("ab./", 1, 2), g.R(60, 130))
	}
}

type c08Op struct {
	K             string
	U, N, E, Cmd  int
	Name, Text    string
	FromName      string
	EntFold, Read bool
}

type c08Case struct {
	Users, Nets, Ents []string
	Ops               []c08Op
}

// looseName is the documented loss of the log layout (as in ZNC's): names
// which differ only by these characters share a directory.
func looseName(s string) string {
	switch s {
	case ".":
		return "-"
	case "..":
		return "--"
	}
	return strings.NewReplacer("/", "-", "\\", "-").Replace(s)
}

func hostileSet(g *G, n int, base []string, collide bool) []string {
	var out []string
	seen := map[string]bool{}
	for tries := 0; len(out) < n && tries < 30; tries++ {
		s := hostileName(g)
		if g.P(25) {
			s = Pick(g, base)
		}
		k := looseName(s)
		if collide {
			k = s
		}
		if s == "" || seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, s)
	}
	if len(out) == 0 {
		out = []string{base[0]}
	}
	return out
}

func genC08(g *G) c08Case {
	col := g.P(6)
	c := c08Case{
		Users: hostileSet(g, g.R(1, 3), []string{"alice", "bob"}, col),
		Nets:  hostileSet(g, g.R(1, 3), []string{"libera", "oftc", "irc.example.org:6697"}, col),
		Ents:  hostileSet(g, g.R(1, 4), []string{"#chan", "bob", "#a/b"}, col),
	}
	for i, n := 0, g.R(4, 24); i < n; i++ {
		op := c08Op{K: []string{"append", "read", "rename", "targets", "reopen", "lastid"}[g.W(12, 4, 2, 1, 1, 1)], U: g.N(3), N: g.N(3), E: g.N(4), Name: hostileName(g), Text: "t", FromName: "bob"}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runC08(r *R, c c08Case) error {
	if len(c.Users) == 0 || len(c.Nets) == 0 || len(c.Ents) == 0 {
		return errInvalid{}
	}
	return bubble(r, func() error {
		d := newDeepRoot()
		defer os.RemoveAll(d.top)
		exp := func(s string) string { return strings.ReplaceAll(s, "$S", d.top) }
		for _, l := range [][]string{c.Users, c.Nets, c.Ents} {
			seen := map[string]bool{}
			for _, s := range l {
				if s == "" || seen[s] {
					return errInvalid{}
				}
				seen[s] = true
			}
		}
		hostile := func(s string) bool {
			return strings.ContainsAny(s, "/\\") || s == "." || s == ".."
		}
		type netState struct {
			rec  *database.Network
			name string
		}
		users := make([]*database.User, len(c.Users))
		stores := make([]msgstore.Store, len(c.Users))
		nets := make([][]*netState, len(c.Users))
		open := func(u int) {
			stores[u] = msgstore.NewFSStore(d.dir, users[u])
		}
		id := int64(0)
		for i, name := range c.Users {
			users[i] = database.NewUser(exp(name))
			users[i].Nick = "mynick"
			for _, n := range c.Nets {
				id++
				rec := database.NewNetwork("irc.example.org")
				rec.ID = id
				rec.Name = exp(n)
				nets[i] = append(nets[i], &netState{rec, rec.Name})
			}
			open(i)
		}
		defer func() {
			for _, s := range stores {
				s.Close()
			}
		}()
		type key struct{ u, n, e int }
		model := map[key][]string{}
		// dirs records which network directory names are or were in use per user
		used := map[string]bool{}
		owner := map[string]key{} // log file -> its only writer
		entities := make([]string, len(c.Ents))
		for i := range c.Ents {
			entities[i] = exp(c.Ents[i])
		}
		long := func(k key) bool {
			for _, s := range []string{users[k.u].Username, nets[k.u][k.n].name, entities[k.e]} {
				if len(s) > 250 {
					return true
				}
			}
			return false
		}
		// collide reports whether a difference can be explained by the lossy
		// escaping of names
		collide := func(a, b key) bool {
			return looseName(users[a.u].Username) == looseName(users[b.u].Username) && looseName(nets[a.u][a.n].name) == looseName(nets[b.u][b.n].name) && looseName(entities[a.e]) == looseName(entities[b.e])
		}
		anyCollision := func(k key) bool {
			for o := range model {
				if o != k && collide(o, k) {
					return true
				}
			}
			return false
		}
		class := func(k key, def string) string {
			if anyCollision(k) {
				return "escape-collision"
			}
			return def
		}
		check := func(k key) error {
			time.Sleep(1001 * time.Millisecond)
			cs := stores[k.u].(msgstore.ChatHistoryStore)
			opts := &msgstore.LoadMessageOptions{Network: nets[k.u][k.n].rec, Entity: entities[k.e], Limit: 1000}
			got, err := stores[k.u].LoadLatestID(ctxBg, "", opts)
			if err != nil {
				if long(k) {
					return nil
				}
				return vio(class(k, "read-error"), "reading user %q network %q target %q: %v", users[k.u].Username, nets[k.u][k.n].name, entities[k.e], err)
			}
			got2, err := cs.LoadBeforeTime(ctxBg, time.Now().Add(time.Hour), time.Time{}, opts)
			if err != nil {
				return vio(class(k, "read-error"), "reading (by time) target %q: %v", entities[k.e], err)
			}
			for _, g := range [][]*irc.Message{got, got2} {
				var l []string
				for _, m := range g {
					l = append(l, m.Params[1])
				}
				if !eqStrs(l, model[k]) {
					return vio(class(k, "mixed-up"), "user %q network %q target %q: read back %q, stored %q", users[k.u].Username, nets[k.u][k.n].name, entities[k.e], l, model[k])
				}
			}
			return nil
		}
		seq := 0
		for i, op := range c.Ops {
			k := key{op.U % len(c.Users), op.N % len(c.Nets), op.E % len(c.Ents)}
			ns := nets[k.u][k.n]
			st := stores[k.u]
			ent := entities[k.e]
			desc := fmt.Sprintf("op %d %s user=%q net=%q target=%q", i, op.K, users[k.u].Username, ns.name, ent)
			switch op.K {
			case "append":
				time.Sleep(1101 * time.Millisecond)
				seq++
				text := fmt.Sprintf("%s%d", op.Text, seq)
				m := &irc.Message{Tags: irc.Tags{}, Prefix: &irc.Prefix{Name: "bob"}, Command: "PRIVMSG", Params: []string{ent, text}}
				before := d.files()
				_, err := st.Append(ns.rec, ent, m)
				if err != nil {
					if long(k) {
						r.Count("too-long")
						break
					}
					return vio(class(k, "append-error"), "%s: %v", desc, err)
				}
				if hostile(users[k.u].Username) || hostile(ns.name) || hostile(ent) {
					r.NonTrivial()
				}
				model[k] = append(model[k], text)
				used[fmt.Sprintf("%d/%s", k.u, looseName(ns.name))] = true
				// exactly one file grew
				var ch []string
				for p, v := range d.files() {
					if before[p] != v {
						ch = append(ch, p)
					}
				}
				sort.Strings(ch)
				if len(ch) != 1 {
					if err := d.checkOutside(desc); err != nil {
						return err
					}
					return vio("write", "%s: %d files changed: %q", desc, len(ch), ch)
				}
				parts := strings.Split(ch[0], "/")
				if len(parts) != 4 {
					return vio("layout", "%s: written to %q, not <user>/<network>/<target>/<day>", desc, ch[0])
				}
				if o, ok := owner[ch[0]]; ok && o != k {
					return vio(class(k, "shared-file"), "%s: %q also holds messages of user %q network %q target %q", desc, ch[0], users[o.u].Username, nets[o.u][o.n].name, entities[o.e])
				}
				owner[ch[0]] = k
				for p, o := range owner {
					pp := strings.Split(p, "/")
					if pp[0] == parts[0] && o.u != k.u {
						cl := "shared-user-dir"
						if looseName(users[o.u].Username) == looseName(users[k.u].Username) {
							cl = "escape-collision"
						}
						return vio(cl, "%s: users %q and %q share the directory %q", desc, users[o.u].Username, users[k.u].Username, pp[0])
					}
					if pp[0] == parts[0] && pp[1] == parts[1] && (o.n != k.n) {
						cl := "shared-network-dir"
						if looseName(nets[o.u][o.n].name) == looseName(nets[k.u][k.n].name) {
							cl = "escape-collision"
						}
						return vio(cl, "%s: networks %q and %q share the directory %q", desc, nets[o.u][o.n].name, nets[k.u][k.n].name, pp[1])
					}
				}
			case "read":
				if err := check(k); err != nil {
					return err
				}
			case "lastid":
				st.LastMsgID(ns.rec, ent, time.Now())
			case "targets":
				cs := st.(msgstore.ChatHistoryStore)
				l, err := cs.ListTargets(ctxBg, ns.rec, time.Unix(0, 0), time.Now().Add(200*365*24*time.Hour), 1000, false)
				if err != nil {
					if long(k) {
						break
					}
					return vio(class(k, "targets"), "%s: %v", desc, err)
				}
				want := map[string]bool{}
				for o := range model {
					if o.u == k.u && o.n == k.n {
						want[looseName(entities[o.e])] = true
					}
				}
				got := map[string]bool{}
				for _, t := range l {
					got[looseName(t.Name)] = true
				}
				if fmt.Sprint(got) != fmt.Sprint(want) && !anyCollision(k) {
					loose := false
					for j, o := range nets[k.u] {
						if j != k.n && looseName(o.name) == looseName(ns.name) {
							loose = true
						}
					}
					if !loose {
						return vio("targets", "%s: listed %v, want %v", desc, got, want)
					}
				}
			case "rename":
				name := exp(op.Name)
				if name == "" || used[fmt.Sprintf("%d/%s", k.u, looseName(name))] || len(name) > 250 {
					break
				}
				clash := false
				for _, o := range nets[k.u] {
					if looseName(o.name) == looseName(name) {
						clash = true
					}
				}
				if clash {
					break
				}
				n2 := *ns.rec
				n2.Name = name
				err := st.(msgstore.RenameNetworkStore).RenameNetwork(ns.rec, &n2)
				has := false
				for o := range model {
					if o.u == k.u && o.n == k.n {
						has = true
					}
				}
				if err != nil && has {
					if anyCollision(k) {
						break
					}
					return vio("rename-error", "%s to %q: %v", desc, name, err)
				}
				delete(used, fmt.Sprintf("%d/%s", k.u, looseName(ns.name)))
				if has {
					r.Count("renames")
				}
				ns.rec = &n2
				ns.name = name
				used[fmt.Sprintf("%d/%s", k.u, looseName(name))] = true
				no := map[string]key{}
				for p, o := range owner {
					if o.u != k.u || o.n != k.n {
						no[p] = o
					}
				}
				owner = no
				for o := range model {
					if o.u == k.u && o.n == k.n {
						if err := check(o); err != nil {
							return err
						}
					}
				}
			case "reopen":
				st.Close()
				open(k.u)
			default:
				return errInvalid{}
			}
			if err := d.checkOutside(desc); err != nil {
				return err
			}
		}
		for k := range model {
			if err := check(k); err != nil {
				return err
			}
		}
		return d.checkOutside("end")
	})
}

// --- uploads ---

type upReq struct {
	K        string // post, get, head, options, other
	U        int
	Auth     string
	Pass     int
	Name     string // file name for Content-Disposition
	Disp     string // form of the Content-Disposition header
	Type     string
	Body     int // body seed
	Len      int
	Path     string
	F        int // fetch: index of an earlier upload
	Range    string
	Origin   string
	Fail     int // body fails after this many bytes (if > 0)
	Chunked  bool
	Method   string
	Mut      int
	PostPath string
}

type upCase struct {
	Users []string
	Reqs  []upReq
}

type bearerAuth struct{}

func (bearerAuth) AuthOAuthBearer(ctx ctxT, db database.Database, token string) (string, error) {
	if !strings.HasPrefix(token, "tok-") {
		return "", &auth.Error{InternalErr: fmt.Errorf("bad token"), ExternalMsg: "bad token"}
	}
	return strings.TrimPrefix(token, "tok-"), nil
}

type listAuth struct{ users map[string]bool }

func (a listAuth) AuthPlain(ctx ctxT, db database.Database, username, password string) error {
	if !a.users[username] || password != "pw-"+username {
		return &auth.Error{InternalErr: fmt.Errorf("wrong"), ExternalMsg: "Invalid credentials"}
	}
	return nil
}

func upBody(seed, n int) []byte {
	heads := [][]byte{nil, []byte("<html><script>alert(1)</script></html>"), []byte("\x89PNG\r\n\x1a\n"), []byte("<?xml version=\"1.0\"?><svg xmlns=\"http://www.w3.org/2000/svg\"/>"), []byte("GIF89a"), []byte("%PDF-1.4\n"), []byte("plain text"), []byte("\x00\x01\x02")}
	h := heads[seed%len(heads)]
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	copy(b, h)
	return b
}

var upTypes = []string{"", "text/plain", "text/html", "image/png", "image/jpeg", "image/svg+xml", "application/octet-stream", "application/pdf", "text/plain; charset=utf-8", "text/plain; charset=latin1", "text/plain; charset=iso-8859-1", "text/html; charset=us-ascii", "application/xhtml+xml", "bad//type", "text/javascript", "video/mp4", "application/json"}
var upNames = []string{"", "a.txt", "x.html", "pic.PNG", "noext", "a.svg", "weird name.txt", "é✓.png", "../../decoy", "..", ".", "/", "a/b/c.txt", "$S/decoy", "..\\..\\decoy", "x\".html", "a.xhtml", "x.js", ".html", "a%2fb.txt", "x;y.txt", "a-b-c.txt", "con.txt", "noext.", "x.HTML", "a.txt/", "-", "a?b#c.txt"}

func genUpReq(g *G, nu int) upReq {
	q := upReq{U: g.N(nu), Body: g.N(64), Len: Pick(g, []int{0, 1, 10, 100, 600, 5000}), Type: Pick(g, upTypes), Name: Pick(g, upNames), F: g.N(8)}
	if g.P(20) {
		q.Name = hostileName(g)
	}
	q.K = []string{"post", "get", "getpath", "head", "options", "other", "postpath"}[g.W(10, 7, 6, 2, 1, 1, 1)]
	q.Auth = []string{"basic", "bearer", "none", "wrongpass", "otherpass", "badscheme", "garbage", "unknown", "badtoken", "emptypass"}[g.W(14, 3, 1, 1, 1, 1, 1, 1, 1, 1)]
	q.Disp = []string{"attachment", "none", "inline", "bad", "nofilename"}[g.W(8, 2, 1, 1, 1)]
	q.Range = Pick(g, []string{"", "", "", "bytes=0-3", "bytes=5-", "bytes=-2", "bytes=9-1", "junk"})
	q.Origin = []string{"", "same", "allowed", "evil", "null", "bad", "suffix"}[g.W(12, 2, 2, 1, 1, 1, 1)]
	q.Chunked = g.P(20)
	if g.P(8) {
		q.Fail = g.R(1, 4000)
	}
	q.Method = Pick(g, []string{"PUT", "DELETE", "PATCH", "post", "TRACE"})
	q.PostPath = Pick(g, []string{"/uploads/", "/uploads/x", "/", "/other", "/uploads/../uploads"})
	q.Mut = g.N(100)
	if q.K == "getpath" {
		q.Path = Pick(g, []string{"/uploads/", "/uploads", "/", "/uploads/../", "/socket", "/uploads//", "/uploadsx/"})
		if g.P(70) {
			q.Path = "/uploads/"
		}
		n := hostileName(g)
		if g.P(40) {
			n = Pick(g, []string{"../decoy", "..%2fdecoy", "%2e%2e/decoy", "%2e%2e%2f%2e%2e%2fdecoy.txt", "..\\decoy", "alice", "alice/", "alice/../../decoy", "./../decoy", "alice%2f..%2f..%2fdecoy", "alice%2f..%2fbob", "//decoy", "%5c..%5cdecoy", "$S/decoy", "%00", "decoy%00.txt", "..;/decoy", "..%252fdecoy"})
		}
		q.Path += n
	}
	return q
}

func genUp(g *G) upCase {
	var c upCase
	c.Users = []string{"alice", "bob"}
	if g.P(50) {
		c.Users = hostileSet(g, g.R(1, 3), []string{"alice", "bob", "a%2fb", "%2e%2e", "%2E%2E", "a b", "x?y"}, true)
	}
	for i, n := 0, g.R(2, 14); i < n; i++ {
		c.Reqs = append(c.Reqs, genUpReq(g, len(c.Users)))
	}
	return c
}

type failingBody struct {
	b   []byte
	off int
}

func (f *failingBody) Read(p []byte) (int, error) {
	if f.off >= len(f.b) {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, f.b[f.off:])
	f.off += n
	return n, nil
}

// activeType reports whether a browser could run content of that type.
func passiveType(t string) bool {
	switch t {
	case "text/plain", "application/pdf":
		return true
	}
	major, minor, _ := strings.Cut(t, "/")
	return (major == "image" && minor != "svg+xml") || major == "audio" || major == "video"
}

// runUp drives the upload handler. Both C08 and C24 use it.
func runUp(r *R, c upCase) error {
	d := newDeepRoot()
	defer os.RemoveAll(d.top)
	exp := func(s string) string { return strings.ReplaceAll(s, "$S", d.top) }
	users := map[string]bool{}
	var ul []string
	for _, u := range c.Users {
		u = exp(u)
		if u == "" || users[u] || strings.ContainsAny(u, ":\x00") {
			return errInvalid{}
		}
		users[u] = true
		ul = append(ul, u)
	}
	if len(ul) == 0 {
		return errInvalid{}
	}
	up, err := fileupload.New("fs", d.dir)
	if err != nil {
		panic(harnessErr("%v", err))
	}
	h := &fileupload.Handler{
		Uploader:    up,
		Auth:        &auth.Authenticator{Plain: listAuth{users}, OAuthBearer: bearerAuth{}},
		HTTPOrigins: []string{"good.example", "*.ok.example"},
	}
	type uploaded struct {
		loc  string
		body []byte
		user string
		file string
	}
	var ups []uploaded
	byFile := map[string]int{}
	dirOf := map[string]string{} // first-level directory -> user
	for i, q := range c.Reqs {
		desc := fmt.Sprintf("request %d (%s)", i, q.K)
		user := ul[q.U%len(ul)]
		body := upBody(q.Body, q.Len)
		method, target := "GET", "/uploads/x"
		switch q.K {
		case "post":
			method, target = "POST", "/uploads"
		case "postpath":
			method, target = "POST", q.PostPath
		case "get", "head":
			if len(ups) == 0 {
				continue
			}
			method, target = strings.ToUpper(q.K), ups[q.F%len(ups)].loc
		case "getpath":
			target = exp(q.Path)
			if q.Mut < 25 && len(ups) > 0 { // a mutation of an existing location
				l := ups[q.F%len(ups)].loc
				switch q.Mut % 5 {
				case 0:
					target = l + "x"
				case 1:
					target = l[:len(l)-1]
				case 2:
					target = strings.Replace(l, "/uploads/", "/uploads/./", 1)
				case 3:
					target = path.Dir(l)
				default:
					target = strings.Replace(l, "/uploads/", "/uploads/../uploads/", 1)
				}
			}
		case "options":
			method, target = "OPTIONS", "/uploads"
		case "other":
			method, target = q.Method, "/uploads"
		default:
			return errInvalid{}
		}
		u, err := url.ParseRequestURI(target)
		if err != nil {
			if q.K == "get" || q.K == "head" {
				return vio("location", "%s: the returned location %q is not a valid URL: %v", desc, target, err)
			}
			r.Count("unparsable-paths")
			continue
		}
		req := httptest.NewRequest("GET", "/", nil)
		req.Method = method
		req.URL = u
		req.Host = "bouncer.test"
		req.RequestURI = target
		failing := false
		if method == "POST" || q.K == "other" {
			rd := io.Reader(bytes.NewReader(body))
			req.ContentLength = int64(len(body))
			if q.Fail > 0 && q.Fail < len(body) {
				rd = &failingBody{b: body[:q.Fail]}
				failing = true
			}
			if q.Chunked {
				req.ContentLength = -1
			}
			req.Body = io.NopCloser(rd)
			if q.Type != "" {
				req.Header.Set("Content-Type", q.Type)
			}
			name := exp(q.Name)
			switch q.Disp {
			case "attachment", "inline":
				req.Header.Set("Content-Disposition", mime.FormatMediaType(q.Disp, map[string]string{"filename": name}))
			case "bad":
				req.Header.Set("Content-Disposition", "attachment; filename=\"unterminated")
			case "nofilename":
				req.Header.Set("Content-Disposition", "attachment")
			}
		}
		basic := func(u, p string) {
			req.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
		}
		authOK := false
		switch q.Auth {
		case "basic":
			basic(user, "pw-"+user)
			authOK = true
		case "bearer":
			req.Header.Set("Authorization", "Bearer tok-"+user)
			authOK = true
		case "wrongpass":
			basic(user, "nope")
		case "otherpass":
			basic(user, "pw-"+ul[(q.U+1)%len(ul)])
			authOK = len(ul) == 1
		case "badscheme":
			req.Header.Set("Authorization", "Digest pw-"+user)
		case "garbage":
			req.Header.Set("Authorization", "Basic !!!")
		case "unknown":
			basic("nobody", "pw-nobody")
		case "badtoken":
			req.Header.Set("Authorization", "Bearer pw-"+user)
		case "emptypass":
			basic(user, "")
		}
		originOK := true
		switch q.Origin {
		case "same":
			req.Header.Set("Origin", "https://bouncer.test")
		case "allowed":
			req.Header.Set("Origin", "https://x.ok.example")
		case "evil":
			req.Header.Set("Origin", "https://evil.example")
			originOK = false
		case "null":
			req.Header.Set("Origin", "null")
			originOK = false
		case "bad":
			req.Header.Set("Origin", "https://good.example.evil.example")
			originOK = false
		case "suffix":
			req.Header.Set("Origin", []string{"https://evilbouncer.test", "https://bouncer.test.evil.example", "https://test", "https://xgood.example", "https://ok.example"}[len(q.Name)%5])
			originOK = false
		}
		if q.Range != "" && (q.K == "get") {
			req.Header.Set("Range", q.Range)
		}
		before := d.files()
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		res := rec.Result()
		got, _ := io.ReadAll(res.Body)
		r.Tracef("%s %s %q auth=%s -> %d %v (%d bytes)", desc, method, target, q.Auth, res.StatusCode, res.Header, len(got))
		desc = fmt.Sprintf("%s %s %q (auth %s, user %q, name %q, origin %q)", desc, method, target, q.Auth, user, q.Name, q.Origin)
		if err := d.checkOutside(desc); err != nil {
			return err
		}
		after := d.files()
		var changed []string
		for p, v := range after {
			if o, ok := before[p]; !ok || o != v {
				changed = append(changed, p)
			}
		}
		for p := range before {
			if _, ok := after[p]; !ok {
				return vio("file-lost", "%s: %q vanished", desc, p)
			}
		}
		if bytes.Contains(got, []byte("SECRET decoy")) {
			return vio("read-escape", "%s: the content of a file outside of the uploads directory was served", desc)
		}
		created := method == "POST" && res.StatusCode < 300
		if created {
			if q.K != "post" {
				return vio("wrong-path", "%s: accepted", desc)
			}
			if !authOK {
				return vio("unauthenticated", "%s: the upload was accepted", desc)
			}
			if !originOK {
				return vio("origin", "%s: the upload was accepted", desc)
			}
			if failing {
				return vio("partial", "%s: accepted although the body was cut short", desc)
			}
			if len(changed) != 1 {
				return vio("write", "%s: %d files changed: %q", desc, len(changed), changed)
			}
			f := changed[0]
			if _, ok := before[f]; ok {
				return vio("overwritten", "%s: an earlier upload was changed: %q", desc, f)
			}
			parts := strings.Split(f, "/")
			if len(parts) != 2 {
				return vio("layout", "%s: stored in %q, not below a directory of the user", desc, f)
			}
			if o, ok := dirOf[parts[0]]; ok && o != user {
				return vio("shared-user-dir", "%s: %q and %q share the directory %q", desc, o, user, parts[0])
			}
			dirOf[parts[0]] = user
			loc := res.Header.Get("Location")
			if loc == "" {
				return vio("location", "%s: no Location", desc)
			}
			r.Count("uploads")
			byFile[f] = len(ups)
			ups = append(ups, uploaded{loc, body, user, f})
			if strings.ContainsAny(user, "/\\.%") || strings.ContainsAny(q.Name, "/\\%") {
				r.NonTrivial()
			}
			continue
		}
		if len(changed) > 0 {
			if _, ok := before[changed[0]]; ok {
				return vio("overwritten", "%s: an earlier upload was changed: %q", desc, changed)
			}
			return vio("leftover", "%s: refused with status %d but left %q behind", desc, res.StatusCode, changed)
		}
		switch q.K {
		case "post":
			badType := strings.Contains(q.Type, "bad") || strings.Contains(q.Type, "latin1") || strings.Contains(q.Type, "iso-8859-1")
			name := exp(q.Name)
			badName := q.Disp == "bad" || len(name) > 200 || strings.ContainsAny(name, "\x00")
			if (q.Disp == "attachment" || q.Disp == "inline") && mime.FormatMediaType(q.Disp, map[string]string{"filename": name}) == "" {
				badName = false
			}
			if authOK && originOK && !failing && !badType && !badName && len(user) < 80 {
				if strings.HasSuffix(q.Disp, "ment") || q.Disp == "inline" {
					if _, params, err := mime.ParseMediaType(mime.FormatMediaType(q.Disp, map[string]string{"filename": name})); err != nil || params["filename"] != name {
						r.Count("odd-disposition")
						continue
					}
					if path.Base(name) == "/" || path.Base(name) == "." || path.Base(name) == ".." || strings.Contains(path.Base(name), "/") {
						r.Count("odd-name")
						continue
					}
				}
				return vio("refused", "%s (type %q disposition %q): a valid upload was refused with status %d: %s", desc, q.Type, q.Disp, res.StatusCode, got)
			}
			if res.StatusCode < 400 {
				return vio("status", "%s: status %d", desc, res.StatusCode)
			}
			r.Count("refused")
			r.NonTrivial()
		case "postpath", "other":
			if res.StatusCode < 400 {
				return vio("status", "%s: status %d", desc, res.StatusCode)
			}
		case "options":
			if originOK && res.StatusCode != 204 && res.StatusCode != 200 {
				return vio("status", "%s: status %d", desc, res.StatusCode)
			}
		case "get", "head", "getpath":
			ok := res.StatusCode == 200 || res.StatusCode == 206
			var want *uploaded
			if q.K != "getpath" {
				want = &ups[q.F%len(ups)]
			} else if ok {
				// which of the uploaded files is it, if any?
				for j := range ups {
					if lu, err := url.ParseRequestURI(ups[j].loc); err == nil && path.Clean(lu.Path) == path.Clean(u.Path) {
						want = &ups[j]
					}
				}
				if want == nil {
					return vio("wrong-file", "%s: status %d and %d bytes for a path at which nothing was uploaded", desc, res.StatusCode, len(got))
				}
			}
			if !originOK {
				if ok {
					return vio("origin", "%s: served", desc)
				}
				continue
			}
			if want == nil {
				if res.StatusCode < 400 {
					return vio("status", "%s: status %d", desc, res.StatusCode)
				}
				r.NonTrivial()
				continue
			}
			if res.StatusCode == 416 && q.Range != "" {
				continue
			}
			if !ok {
				return vio("lost", "%s: status %d for the upload of %q", desc, res.StatusCode, want.user)
			}
			exp := want.body
			if res.StatusCode == 206 {
				switch q.Range {
				case "bytes=0-3":
					exp = exp[:min(4, len(exp))]
				case "bytes=5-":
					exp = exp[min(5, len(exp)):]
				case "bytes=-2":
					exp = exp[max(0, len(exp)-2):]
				default:
					return vio("status", "%s: partial content without range", desc)
				}
			}
			if q.K == "head" {
				if len(got) != 0 {
					return vio("head", "%s: body in the response to HEAD", desc)
				}
				if cl := res.Header.Get("Content-Length"); cl != fmt.Sprint(len(want.body)) {
					return vio("content", "%s: Content-Length %s, uploaded %d bytes", desc, cl, len(want.body))
				}
			} else if !bytes.Equal(got, exp) {
				return vio("content", "%s: got %d bytes %q, uploaded %d bytes %q", desc, len(got), head(string(got), 60), len(exp), head(string(exp), 60))
			}
			r.Count("fetched")
			csp := res.Header.Get("Content-Security-Policy")
			if !strings.Contains(csp, "sandbox") || strings.Contains(csp, "allow-scripts") || !(strings.Contains(csp, "script-src 'none'") || strings.Contains(csp, "default-src 'none'")) {
				return vio("csp", "%s: Content-Security-Policy is %q", desc, csp)
			}
			ct := res.Header.Get("Content-Type")
			mt, _, _ := mime.ParseMediaType(ct)
			cd := res.Header.Get("Content-Disposition")
			if mt == "" || (!passiveType(mt) && !strings.HasPrefix(cd, "attachment")) {
				if cd == "" { // not representable
					r.Count("no-disposition")
				}
				return vio("disposition", "%s: Content-Type %q with Content-Disposition %q", desc, ct, cd)
			}
			if !passiveType(mt) {
				r.Count("attachments")
			}
			r.NonTrivial()
		}
	}
	// no upload has changed since
	files := d.files()
	for _, x := range ups {
		if files[x.file] != string(x.body) {
			return vio("content", "the file %q uploaded by %q was changed later", x.file, x.user)
		}
	}
	return nil
}

// --- uploads: size limit and HTTP backend ---

type upBig struct {
	Declared, Chunked bool
	Over              int
}

const upLimit = 50 * 1024 * 1024

type zeroReader struct {
	n    int64
	read int64
}

func (z *zeroReader) Read(p []byte) (int, error) {
	if z.read >= z.n {
		return 0, io.EOF
	}
	k := int64(len(p))
	if k > z.n-z.read {
		k = z.n - z.read
	}
	clear(p[:k])
	z.read += k
	return int(k), nil
}

func genUpBig(g *G) upBig {
	return upBig{Declared: g.P(60), Chunked: g.P(30), Over: Pick(g, []int{-1, 0, 1, 2, 1 << 20, 1 << 30})}
}

func runUpBig(r *R, c upBig) error {
	d := newDeepRoot()
	defer os.RemoveAll(d.top)
	up, _ := fileupload.New("fs", d.dir)
	h := &fileupload.Handler{Uploader: up, Auth: &auth.Authenticator{Plain: listAuth{map[string]bool{"alice": true}}}}
	n := int64(upLimit) + int64(c.Over)
	body := &zeroReader{n: n}
	req := httptest.NewRequest("POST", "/uploads", nil)
	req.Body = io.NopCloser(body)
	req.ContentLength = -1
	if c.Declared {
		req.ContentLength = n
	}
	req.SetBasicAuth("alice", "pw-alice")
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	files := d.files()
	if c.Over > 0 {
		r.NonTrivial()
		if rec.Code < 400 {
			return vio("too-large", "an upload of %d bytes was accepted (status %d)", n, rec.Code)
		}
		if len(files) != 0 {
			for p, v := range files {
				return vio("leftover", "an upload of %d bytes was refused with status %d but left %q (%d bytes) behind", n, rec.Code, p, len(v))
			}
		}
		if body.read > upLimit+(1<<20) {
			return vio("too-large", "%d bytes of a refused upload were read", body.read)
		}
		return nil
	}
	if rec.Code != http.StatusCreated || len(files) != 1 {
		return vio("refused", "an upload of %d bytes (the limit is %d) was refused with status %d", n, upLimit, rec.Code)
	}
	for _, v := range files {
		if int64(len(v)) != n {
			return vio("content", "%d bytes stored of %d", len(v), n)
		}
	}
	return nil
}

type upHTTP struct {
	Status      int
	Location    string
	Type, Name  string
	RespType    string
	RespBody    string
	Err         bool
	User        string
	Body, Len   int
	BackendPath string
}

func genUpHTTP(g *G) upHTTP {
	return upHTTP{
		Status:   Pick(g, []int{201, 201, 201, 200, 204, 400, 403, 413, 500, 503, 302}),
		Location: Pick(g, []string{"", "https://files.example/x/abc.txt", "/abs/path.png", "rel/file", "https://files.example/a%2Fb?q=1#f"}),
		Type:     Pick(g, []string{"", "text/plain", "image/png", "text/html; charset=utf-8"}),
		Name:     Pick(g, []string{"", "a.txt", "é.png", "a b.txt", "x/y.txt"}),
		RespType: Pick(g, []string{"", "text/plain", "text/html"}),
		RespBody: g.Str("abc<>", 0, 20),
		Err:      g.P(10),
		User:     Pick(g, []string{"alice", "bob", "a b", "x/y"}),
		Body:     g.N(64), Len: Pick(g, []int{0, 1, 100, 5000}),
	}
}

type rtFunc func(req *http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(req *http.Request) (*http.Response, error) { return f(req) }

func runUpHTTP(r *R, c upHTTP) error {
	up, err := fileupload.New("http", "https://backend.example/up")
	if err != nil {
		panic(harnessErr("%v", err))
	}
	body := upBody(c.Body, c.Len)
	var seen []*http.Request
	var seenBody []byte
	old := http.DefaultTransport
	http.DefaultTransport = rtFunc(func(req *http.Request) (*http.Response, error) {
		seen = append(seen, req)
		if req.Body != nil {
			b, err := io.ReadAll(req.Body)
			if err != nil {
				return nil, err
			}
			if len(seen) == 1 {
				seenBody = b
			}
		}
		if c.Err {
			return nil, fmt.Errorf("connection refused")
		}
		h := http.Header{}
		if c.Location != "" && c.Status == 201 {
			h.Set("Location", c.Location)
		}
		if c.RespType != "" {
			h.Set("Content-Type", c.RespType)
		}
		return &http.Response{StatusCode: c.Status, Header: h, Body: io.NopCloser(strings.NewReader(c.RespBody)), Request: req}, nil
	})
	defer func() { http.DefaultTransport = old }()
	h := &fileupload.Handler{Uploader: up, Auth: &auth.Authenticator{Plain: listAuth{map[string]bool{c.User: true}}}}
	req := httptest.NewRequest("POST", "/uploads", bytes.NewReader(body))
	req.SetBasicAuth(c.User, "pw-"+c.User)
	if c.Type != "" {
		req.Header.Set("Content-Type", c.Type)
	}
	if c.Name != "" {
		req.Header.Set("Content-Disposition", mime.FormatMediaType("attachment", map[string]string{"filename": c.Name}))
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	if len(seen) == 0 {
		return vio("backend", "the backend was not asked (status %d)", rec.Code)
	}
	b := seen[0]
	if b.Method != "POST" || b.URL.String() != "https://backend.example/up" {
		return vio("backend", "asked %s %s", b.Method, b.URL)
	}
	if !bytes.Equal(seenBody, body) {
		return vio("content", "the backend got %d bytes of %d", len(seenBody), len(body))
	}
	if got := b.Header.Get("Soju-Username"); got != c.User {
		return vio("backend", "the backend was told user %q instead of %q", got, c.User)
	}
	wt, _, _ := mime.ParseMediaType(c.Type)
	gt, _, _ := mime.ParseMediaType(b.Header.Get("Content-Type"))
	if wt != gt {
		return vio("backend", "the backend was told type %q instead of %q", gt, wt)
	}
	if c.Name != "" {
		_, p, _ := mime.ParseMediaType(b.Header.Get("Content-Disposition"))
		if p["filename"] != path.Base(c.Name) {
			return vio("backend", "the backend was told the file name %q instead of %q", p["filename"], path.Base(c.Name))
		}
	}
	r.NonTrivial()
	if c.Status == 201 && c.Location != "" && !c.Err {
		base, _ := url.Parse("/uploads/")
		l, _ := url.Parse(c.Location)
		if rec.Code != 201 || rec.Header().Get("Location") != base.ResolveReference(l).String() {
			return vio("location", "backend location %q: answered %d %q", c.Location, rec.Code, rec.Header().Get("Location"))
		}
		return nil
	}
	if rec.Code < 400 {
		return vio("backend", "backend status %d err %v: answered %d", c.Status, c.Err, rec.Code)
	}
	if !c.Err && c.Status >= 400 && rec.Code != c.Status {
		return vio("backend", "backend status %d: answered %d", c.Status, rec.Code)
	}
	return nil
}

func init() {
	p := prop("C08", "at least one name contains a path separator or is a dot name and a message or file was stored under it, or a request for another path was refused", 12000, 400000,
		"names are non-empty; the message log (file-system) and fs upload drivers are exercised, both in a scratch directory",
		"a network is renamed to a name which none of the user's networks had before")
	add(p, "logs", 5, genC08, runC08)
	add(p, "uploads", 3, genUp, runUp)
	q := prop("C24", "an upload was refused, a file was fetched back, or the backend was asked", 30000, 800000,
		"the handler is called directly with parsed requests; authentication is a stand-in",
		"browsers honour Content-Security-Policy and Content-Disposition")
	add(q, "requests", 300, genUp, runUp)
	add(q, "limit", 1, genUpBig, runUpBig)
	add(q, "http-backend", 60, genUpHTTP, runUpHTTP)
}
