package harness

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/xirc"
)

// wire sends a message over the wire: its line has to fit (with CR LF) and it
// has to come back the same.
func wire(m *irc.Message, limit bool) (*irc.Message, error) {
	s := m.String()
	if limit && len(s)+2 > 512 {
		return nil, vio("too-long", "the line %q takes %d bytes (with its line break)", s, len(s)+2)
	}
	if len(m.Params) > 15 {
		return nil, vio("too-many-params", "the line %q has %d parameters", s, len(m.Params))
	}
	n, err := irc.ParseMessage(s)
	if err != nil {
		return nil, vio("unparsable", "the line %q doesn't parse: %v", s, err)
	}
	if n.Command != m.Command || !(len(n.Params) == 0 && len(m.Params) == 0 || reflect.DeepEqual([]string(n.Params), []string(m.Params))) {
		return nil, vio("mangled", "message %#v is mangled to %#v by the line %q", m, n, s)
	}
	return n, nil
}

type c20Case struct {
	K    string
	L    []string
	Keys []string
	S    string
	N    int
}

// genNames draws names so that sums of lengths hit the limits.
func genNames(g *G, first string, maxLen int) []string {
	n := g.Size(0, 60)
	var l []string
	base := Pick(g, []int{1, 3, 8, 20, 30, 50, 100, 200})
	for i := 0; i < n; i++ {
		k := min(maxLen, max(1, base+g.R(-2, 2)))
		if g.P(5) {
			k = g.R(1, maxLen)
		}
		s := first + fmt.Sprint(i)
		for len(s) < k {
			s += Pick(g, []string{"a", "b", "Z", "é", "|", "-", "["})
		}
		l = append(l, s)
	}
	return l
}

func genC20(g *G) c20Case {
	c := c20Case{K: Pick(g, []string{"join", "monitor", "names", "isupport", "motd", "sasl", "casemap", "cmmap", "whox", "whoxopt", "time", "ctcp", "members"})}
	switch c.K {
	case "join":
		c.L = genNames(g, "#", 300)
		for range c.L {
			k := ""
			if g.P(30) {
				k = "k" + g.Str("abcé", 0, Pick(g, []int{3, 20, 90}))
			}
			c.Keys = append(c.Keys, k)
		}
	case "monitor":
		c.L = genNames(g, "n", 300)
		c.S = Pick(g, []string{"+", "-"})
	case "names":
		c.L = genNames(g, Pick(g, []string{"n", "@n", "@+n"}), 200)
		c.S = "#" + g.Str("abcé", 0, Pick(g, []int{3, 50}))
		c.N = g.N(3)
	case "isupport":
		for i, n := 0, g.N(40); i < n; i++ {
			t := fmt.Sprintf("TOK%d", i)
			if g.P(60) {
				t += "=" + g.Str("abc \\=:x205C,", 0, 12)
			}
			if g.P(5) {
				t = "-" + t
			}
			c.L = append(c.L, t)
		}
	case "motd":
		for i, n := 0, g.N(6); i < n; i++ {
			c.L = append(c.L, g.Str("ab :é", 0, 20))
		}
	case "sasl":
		c.N = Pick(g, []int{0, 1, 2, 3, 298, 299, 300, 301, 302, 599, 600, 601, 900, g.N(2000)})
	case "casemap":
		c.L = []string{g.Str("aAbB[{]}\\|~^`_é", 0, 8), ""}
		b := []byte(c.L[0])
		for i := range b {
			if g.P(50) {
				b[i] = altByte(b[i])
			}
		}
		c.L[1] = string(b)
	case "cmmap":
		c.N = g.N(3)
		for i, n := 0, g.Size(3, 30); i < n; i++ {
			c.L = append(c.L, Pick(g, []string{"set", "set", "get", "has", "del", "len", "each", "cm"}), g.Str("aA[{~^", 1, 2))
		}
	case "whox":
		c.S = g.Str("tcuihsnfdlaorxZ", 1, 14)
		for i := 0; i < 9; i++ {
			c.L = append(c.L, g.Str("ab01*:é", 1, 8))
		}
		if g.P(50) {
			c.L[7] = ""
		}
		if g.P(20) {
			c.L[1] = ""
		}
		if g.P(40) {
			c.L[3] = "::1"
		}
		c.L[8] = genText(g)
	case "whoxopt":
		c.S = g.Str("%,taNo1", 0, 9)
	case "time":
		c.N = g.N(2000000000)
		c.L = []string{fmt.Sprint(g.N(1000))}
	case "ctcp":
		c.S = Pick(g, []string{"PRIVMSG", "NOTICE", "TAGMSG", "PRIVMSG"})
		c.L = []string{logText(g)}
		if g.P(60) {
			c.L[0] = "\x01" + Pick(g, []string{"ACTION", "action", "VERSION", "", "PING 12 3", "ACTION  a "}) + Pick(g, []string{" x y", "", " "}) + Pick(g, []string{"", "\x01"})
		}
		if g.P(10) {
			c.L = nil
		}
	case "members":
		for i, n := 0, g.Size(1, 12); i < n; i++ {
			c.L = append(c.L, Pick(g, []string{"+", "+", "-"})+g.Str("qaohv", 1, 1))
		}
		c.N = g.N(3)
	}
	return c
}

func altByte(b byte) byte {
	switch {
	case b >= 'a' && b <= 'z':
		return b - 32
	case b >= 'A' && b <= 'Z':
		return b + 32
	}
	const x = "[{]}\\|~^"
	if i := strings.IndexByte(x, b); i >= 0 {
		return x[i^1]
	}
	return b
}

func validNames(l []string, maxLen int) bool {
	for _, s := range l {
		if s == "" || s[0] == ':' || len(s) > maxLen || strings.ContainsAny(s, " ,\x00\r\n") {
			return false
		}
	}
	return true
}

var cmNames = []string{"ascii", "rfc1459", "rfc1459-strict"}
var cmFuncs = map[string]xirc.CaseMapping{"ascii": xirc.CaseMappingASCII, "rfc1459": xirc.CaseMappingRFC1459, "rfc1459-strict": xirc.CaseMappingRFC1459Strict}

func runC20(r *R, c c20Case) error {
	r.Count(c.K)
	switch c.K {
	case "join":
		if len(c.Keys) != len(c.L) || !validNames(c.L, 304) {
			return errInvalid{}
		}
		type pair struct{ ch, key string }
		var want, got []pair
		for i := range c.L {
			if k := c.Keys[i]; k != "" && !validNames([]string{k}, 195) {
				return errInvalid{}
			}
			want = append(want, pair{c.L[i], c.Keys[i]})
		}
		msgs := xirc.GenerateJoin(append([]string(nil), c.L...), append([]string(nil), c.Keys...))
		for _, m := range msgs {
			n, err := wire(m, true)
			if err != nil {
				return err
			}
			if n.Command != "JOIN" || len(n.Params) < 1 || len(n.Params) > 2 {
				return vio("join", "unexpected message %q", n)
			}
			chs := strings.Split(n.Params[0], ",")
			var keys []string
			if len(n.Params) == 2 {
				keys = strings.Split(n.Params[1], ",")
			}
			if len(keys) > len(chs) {
				return vio("join", "more keys than channels in %q", n)
			}
			for i, ch := range chs {
				p := pair{ch: ch}
				if i < len(keys) {
					p.key = keys[i]
				}
				got = append(got, p)
			}
		}
		less := func(l []pair) { sort.Slice(l, func(i, j int) bool { return l[i].ch < l[j].ch }) }
		less(want)
		less(got)
		if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
			return vio("join", "channels %v with keys %q are joined as %v (expected %v)", c.L, c.Keys, got, want)
		}
		if len(msgs) > 1 {
			r.Count("several lines")
		}
	case "monitor":
		if !validNames(c.L, 304) || c.S != "+" && c.S != "-" {
			return errInvalid{}
		}
		var got []string
		msgs := xirc.GenerateMonitor(c.S, append([]string(nil), c.L...))
		for _, m := range msgs {
			n, err := wire(m, true)
			if err != nil {
				return err
			}
			if n.Command != "MONITOR" || len(n.Params) != 2 || n.Params[0] != c.S || n.Params[1] == "" {
				return vio("monitor", "unexpected message %q", n)
			}
			got = append(got, strings.Split(n.Params[1], ",")...)
		}
		if !eqStrs(got, c.L) {
			return vio("monitor", "targets %q are sent as %q", c.L, got)
		}
	case "names":
		if !validNames(c.L, 204) || !validNames([]string{c.S}, 105) {
			return errInvalid{}
		}
		st := []xirc.ChannelStatus{xirc.ChannelPublic, xirc.ChannelSecret, xirc.ChannelPrivate}[((c.N%3)+3)%3]
		var got []string
		msgs := xirc.GenerateNamesReply(c.S, st, append([]string(nil), c.L...))
		for i, m := range msgs {
			n, err := wire(m, true)
			if err != nil {
				return err
			}
			if i == len(msgs)-1 {
				if n.Command != irc.RPL_ENDOFNAMES || param(n, 1) != c.S {
					return vio("names", "the last reply is %q", n)
				}
				break
			}
			if n.Command != irc.RPL_NAMREPLY || len(n.Params) != 4 || n.Params[1] != string(st) || n.Params[2] != c.S {
				return vio("names", "unexpected reply %q", n)
			}
			got = append(got, strings.Split(n.Params[3], " ")...)
		}
		if !eqStrs(got, c.L) {
			return vio("names", "members %q are listed as %q", c.L, got)
		}
	case "isupport":
		for _, t := range c.L {
			if t == "" || t[0] == ' ' {
				return errInvalid{}
			}
		}
		var got []string
		for _, m := range xirc.GenerateIsupport(append([]string(nil), c.L...)) {
			n, err := wire(m, false)
			if err != nil {
				return err
			}
			if n.Command != irc.RPL_ISUPPORT || len(n.Params) < 3 {
				return vio("isupport", "unexpected message %q", n)
			}
			for _, t := range n.Params[1 : len(n.Params)-1] {
				if strings.Contains(t, " ") {
					return vio("isupport", "unescaped token in %q", n)
				}
				var sb strings.Builder
				for i := 0; i < len(t); i++ {
					if strings.HasPrefix(t[i:], "\\x") && i+4 <= len(t) {
						var b byte
						fmt.Sscanf(t[i+2:i+4], "%02X", &b)
						sb.WriteByte(b)
						i += 3
					} else {
						sb.WriteByte(t[i])
					}
				}
				got = append(got, sb.String())
			}
		}
		if !eqStrs(got, c.L) {
			return vio("isupport", "tokens %q are sent as %q", c.L, got)
		}
	case "motd":
		for _, l := range c.L {
			if strings.ContainsAny(l, "\r\n") {
				return errInvalid{}
			}
		}
		text := strings.Join(c.L, "\n")
		var got []string
		msgs := xirc.GenerateMOTD(text)
		for i, m := range msgs {
			n, err := wire(m, false)
			if err != nil {
				return err
			}
			switch {
			case i == 0 && n.Command == irc.RPL_MOTDSTART, i > 0 && i == len(msgs)-1 && n.Command == irc.RPL_ENDOFMOTD:
			case i > 0 && i < len(msgs)-1 && n.Command == irc.RPL_MOTD && len(n.Params) == 2:
				got = append(got, n.Params[1])
			default:
				return vio("motd", "unexpected message %q at position %d of %d", n, i, len(msgs))
			}
		}
		if strings.Join(got, "\n") != text {
			return vio("motd", "the text %q is sent as %q", text, got)
		}
	case "sasl":
		resp := make([]byte, max(0, c.N))
		NewG(uint64(c.N)).fill(resp)
		var enc string
		msgs := xirc.GenerateSASL(resp)
		for i, m := range msgs {
			n, err := wire(m, true)
			if err != nil {
				return err
			}
			if n.Command != "AUTHENTICATE" || len(n.Params) != 1 || len(n.Params[0]) > 400 || i < len(msgs)-1 && len(n.Params[0]) != 400 {
				return vio("sasl", "unexpected message %q (%d of %d)", n, i, len(msgs))
			}
			if i == len(msgs)-1 && len(n.Params[0]) == 400 {
				return vio("sasl", "the last chunk of %d bytes is complete: %q", len(resp), n)
			}
			if n.Params[0] != "+" {
				enc += n.Params[0]
			}
		}
		dec, err := base64.StdEncoding.DecodeString(enc)
		if err != nil || !bytes.Equal(dec, resp) || len(msgs) == 0 {
			return vio("sasl", "%d bytes decode to %d bytes (%v)", len(resp), len(dec), err)
		}
	case "casemap":
		if len(c.L) != 2 {
			return errInvalid{}
		}
		a, b := c.L[0], c.L[1]
		for name, cm := range cmFuncs {
			if pc := xirc.ParseCaseMapping(name); pc == nil || pc(a) != cm(a) {
				return vio("casemap", "case mapping %s isn't known by its name", name)
			}
			if cm(cm(a)) != cm(a) {
				return vio("casemap", "%s: %q maps to %q which maps to %q", name, a, cm(a), cm(cm(a)))
			}
			if foldWith(name, cm(a)) != foldWith(name, a) {
				return vio("casemap", "%s: %q maps to the different name %q", name, a, cm(a))
			}
			if (cm(a) == cm(b)) != (foldWith(name, a) == foldWith(name, b)) {
				return vio("casemap", "%s: %q and %q map to %q and %q", name, a, b, cm(a), cm(b))
			}
		}
		if xirc.ParseCaseMapping("unknown") != nil {
			return vio("casemap", "an unknown case mapping is accepted")
		}
	case "cmmap":
		if len(c.L)%2 != 0 {
			return errInvalid{}
		}
		name := cmNames[((c.N%3)+3)%3]
		m := xirc.NewCaseMappingMap[int](cmFuncs[name])
		type ent struct {
			key string
			v   int
		}
		model := map[string]ent{}
		for i := 0; i+1 < len(c.L); i += 2 {
			k := c.L[i+1]
			f := foldWith(name, k)
			what := fmt.Sprintf("%s map, step %d: %s %q", name, i/2, c.L[i], k)
			e, ok := model[f]
			switch c.L[i] {
			case "set":
				m.Set(k, i+1)
				if !ok {
					e.key = k
				}
				e.v = i + 1
				model[f] = e
			case "del":
				m.Del(k)
				delete(model, f)
			case "cm":
				// only to a mapping under which no entries collide
				nn := cmNames[i%3]
				nm := map[string]ent{}
				for _, e := range model {
					nm[foldWith(nn, e.key)] = e
				}
				if len(nm) != len(model) {
					continue
				}
				m.SetCaseMapping(cmFuncs[nn])
				name, model = nn, nm
			case "has":
				if m.Has(k) != ok {
					return vio("cmmap", "%s is %v", what, m.Has(k))
				}
			}
			e, ok = model[foldWith(name, k)]
			if m.Get(k) != e.v || m.Has(k) != ok || m.Len() != len(model) {
				return vio("cmmap", "%s: Get=%d Has=%v Len=%d, expected %d %v %d", what, m.Get(k), m.Has(k), m.Len(), e.v, ok, len(model))
			}
			n := 0
			var verr error
			m.ForEach(func(key string, v int) {
				n++
				if e, ok := model[foldWith(name, key)]; !ok || e.key != key || e.v != v {
					verr = vio("cmmap", "%s: ForEach yields %q=%d", what, key, v)
				}
			})
			if verr != nil {
				return verr
			}
			if n != len(model) {
				return vio("cmmap", "%s: ForEach yields %d entries of %d", what, n, len(model))
			}
		}
	case "whox":
		if len(c.L) != 9 || c.S == "" {
			return errInvalid{}
		}
		for i, v := range c.L[:8] {
			if strings.ContainsAny(v, " \r\n") || v == "" && i != 7 && i != 1 || strings.HasPrefix(v, ":") && i != 3 {
				return errInvalid{}
			}
		}
		info := &xirc.WHOXInfo{Token: c.L[0], Channel: c.L[1], Username: c.L[2], Hostname: c.L[3], Server: c.L[4], Nickname: c.L[5], Flags: c.L[6], Account: c.L[7], Realname: c.L[8]}
		want := *info
		if want.Channel == "" {
			want.Channel = "*"
		}
		if strings.HasPrefix(want.Hostname, ":") {
			want.Hostname = "0" + want.Hostname
		}
		if want.Account == "" || want.Account == "*" {
			want.Account = "0"
		}
		// plain reply
		n, err := wire(xirc.GenerateWHOXReply("", info), false)
		if err != nil {
			return err
		}
		if n.Command != irc.RPL_WHOREPLY || !eqStrs(n.Params, []string{"*", want.Channel, want.Username, want.Hostname, want.Server, want.Nickname, want.Flags, "0 " + want.Realname}) {
			return vio("who", "%+v is sent as %q", *info, n)
		}
		n, err = wire(xirc.GenerateWHOXReply(c.S, info), false)
		if err != nil {
			return err
		}
		got, err := xirc.ParseWHOXReply(n, c.S)
		if err != nil {
			return vio("whox", "%+v with fields %q is sent as %q: %v", *info, c.S, n, err)
		}
		var exp xirc.WHOXInfo
		cnt := 0
		for _, f := range "tcuihsnfdlaor" {
			if !strings.ContainsRune(c.S, f) {
				continue
			}
			cnt++
			switch f {
			case 't':
				exp.Token = want.Token
			case 'c':
				exp.Channel = want.Channel
			case 'u':
				exp.Username = want.Username
			case 'h':
				exp.Hostname = want.Hostname
			case 's':
				exp.Server = want.Server
			case 'n':
				exp.Nickname = want.Nickname
			case 'f':
				exp.Flags = want.Flags
			case 'a':
				exp.Account = want.Account
			case 'r':
				exp.Realname = want.Realname
			}
		}
		if *got != exp || len(n.Params) != 1+cnt {
			return vio("whox", "%+v with fields %q is sent as %q, which parses as %+v", *info, c.S, n, *got)
		}
		if cnt > 0 {
			if _, err := xirc.ParseWHOXReply(&irc.Message{Command: n.Command, Params: n.Params[:cnt]}, c.S); err == nil {
				return vio("whox", "the truncated reply %q is accepted", n.Params[:cnt])
			}
		}
	case "whoxopt":
		_, rest, ok := strings.Cut(c.S, "%")
		f, tok, hasTok := strings.Cut(rest, ",")
		f = strings.ToLower(f)
		if !ok {
			f = ""
		}
		if !hasTok || !strings.Contains(f, "t") {
			tok = ""
		}
		if gf, gt := xirc.ParseWHOXOptions(c.S); gf != f || gt != tok {
			return vio("whoxopt", "WHOX options %q parse as %q, %q", c.S, gf, gt)
		}
	case "time":
		if len(c.L) != 1 {
			return errInvalid{}
		}
		var ms int64
		fmt.Sscan(c.L[0], &ms)
		t := time.Unix(int64(c.N), ms%1000*1e6)
		for _, z := range []int{0, 7200, -12600} {
			s := xirc.FormatServerTime(t.In(time.FixedZone("X", z)))
			pt, err := time.Parse("2006-01-02T15:04:05.000Z", s)
			if err != nil || !pt.Equal(t) || len(s) != 24 {
				return vio("time", "%v is formatted as %q (%v)", t, s, err)
			}
		}
	case "ctcp":
		m := &irc.Message{Command: c.S, Params: append([]string{"#c"}, c.L...)}
		cmd, params, ok := xirc.ParseCTCPMessage(m)
		wantOK := (c.S == "PRIVMSG" || c.S == "NOTICE") && len(c.L) > 0 && strings.HasPrefix(c.L[0], "\x01")
		if ok != wantOK {
			return vio("ctcp", "%q is a CTCP message: %v", m, ok)
		}
		if ok {
			w, rest, _ := strings.Cut(strings.Trim(c.L[0], "\x01"), " ")
			if cmd != strings.ToUpper(w) || params != rest {
				return vio("ctcp", "%q parses as %q %q", m, cmd, params)
			}
		}
	case "members":
		avail := [][]xirc.Membership{
			{{Mode: 'q', Prefix: '~'}, {Mode: 'a', Prefix: '&'}, {Mode: 'o', Prefix: '@'}, {Mode: 'h', Prefix: '%'}, {Mode: 'v', Prefix: '+'}},
			{{Mode: 'o', Prefix: '@'}, {Mode: 'v', Prefix: '+'}},
			{{Mode: 'v', Prefix: '+'}, {Mode: 'h', Prefix: '%'}, {Mode: 'o', Prefix: '@'}},
		}[((c.N%3)+3)%3]
		var ms xirc.MembershipSet
		have := map[byte]bool{}
		for _, op := range c.L {
			if len(op) != 2 {
				return errInvalid{}
			}
			for _, a := range avail {
				if a.Mode == op[1] {
					if op[0] == '+' {
						ms.Add(avail, a)
						have[a.Mode] = true
					} else {
						ms.Remove(a)
						delete(have, a.Mode)
					}
				}
			}
			var want []xirc.Membership
			for _, a := range avail {
				if have[a.Mode] {
					want = append(want, a)
				}
			}
			if len(ms) != len(want) || len(want) > 0 && !reflect.DeepEqual([]xirc.Membership(ms), want) {
				return vio("members", "after %q the ranks are %v, expected %v", c.L, ms, want)
			}
		}
	default:
		return errInvalid{}
	}
	r.NonTrivial()
	return nil
}

func (g *G) fill(b []byte) {
	for i := range b {
		b[i] = byte(g.N(256))
	}
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	p := prop("C20", "a generated value was encoded and the encoding compared with the reference", 400000, 15000000,
		"channel names and keys are short enough for one of them to fit into a line")
	add(p, "encoders", 1, genC20, runC20)
}
