package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/msgstore/znclog"
)

// ---------------------------------------------------------------- messages

type c19Case struct {
	Cmd, Nick, User, Host, Entity string
	Self                          string
	Params                        []string // without the target
	Direct                        bool     // chat: sent to us by Nick
	Sec                           int
	Zone                          int
}

const nickAlpha = "abXYz019-_|[]{}\\^`~é"

func genNickName(g *G) string {
	if g.P(10) {
		return Pick(g, []string{"is", "Joins", "Parts", "Quits", "was", "a-", "--", "irc.server.example", "bob"})
	}
	return Pick(g, []string{"a", "b", "|", "_", "[", "Z", "`"}) + g.Str(nickAlpha, 0, 10)
}

// logText generates text made to confuse a line parser.
func logText(g *G) string {
	if g.P(25) {
		return genText(g)
	}
	frag := []string{"> ", "- ", "* ", "*** ", "<a> ", "-a- ", "*** Joins: x (y@z)", "(", ")", "'", "''", " ", "[00:00:00] ", "is now known as ", "was kicked by x ", "changes topic to 'a'", "sets mode: +o a", "\x01", "\x01ACTION ", "Quits: ", "\t", "\x00", "\v", "\u2028", "\x85", "é", "x", "word"}
	var sb strings.Builder
	for i, n := 0, g.Size(0, 8); i < n; i++ {
		sb.WriteString(Pick(g, frag))
	}
	return sb.String()
}

func genC19(g *G) c19Case {
	c := c19Case{Cmd: Pick(g, []string{"PRIVMSG", "PRIVMSG", "NOTICE", "ACTION", "JOIN", "PART", "QUIT", "KICK", "NICK", "TOPIC", "MODE", "TAGMSG", "AWAY", "ACCOUNT", "CHGHOST", "SETNAME", "INVITE", "PING", "001"}),
		Nick: genNickName(g), User: g.Str("ab~-.é", 1, 5), Host: Pick(g, []string{"host", "a.b.c", "::1", "user/cloak", "a:b:0"}), Self: Pick(g, []string{"me", "Me", "m_e"}), Sec: g.N(86400), Zone: Pick(g, []int{0, 60, -480, 345})}
	c.Entity = Pick(g, []string{"#chan", "#a b"[:2], "bob", "##x", "#é"})
	switch c.Cmd {
	case "PRIVMSG", "NOTICE", "ACTION":
		c.Params = []string{logText(g)}
		c.Direct = g.P(30)
	case "PART", "QUIT", "TOPIC":
		if g.P(80) {
			c.Params = []string{logText(g)}
		}
	case "KICK":
		c.Params = []string{genNickName(g)}
		if g.P(80) {
			c.Params = append(c.Params, logText(g))
		}
	case "NICK":
		c.Params = []string{genNickName(g)}
	case "MODE":
		c.Params = []string{g.Str("+-ovbk", 1, 5)}
		for i, n := 0, g.N(4); i < n; i++ {
			c.Params = append(c.Params, Pick(g, []string{"a", "b!*@*", "key", "*!*@::1", "-x"}))
		}
	default:
		c.Params = []string{logText(g)}
	}
	return c
}

func localZone(minutes int) func() {
	old := time.Local
	time.Local = time.FixedZone("TEST", minutes*60)
	return func() { time.Local = old }
}

func runC19(r *R, c c19Case) error {
	defer localZone(c.Zone)()
	if c.Nick == "" || strings.ContainsAny(c.Nick+c.Entity+c.User+c.Host+c.Self, " \n\r") || c.Entity == "" || strings.ContainsAny(c.Nick, ":") {
		return errInvalid{}
	}
	for _, p := range c.Params {
		if strings.ContainsAny(p, "\r\n") {
			return errInvalid{}
		}
	}
	day := time.Date(2021, 3, 4, 0, 0, 0, 0, time.Local)
	t := day.Add(time.Duration(((c.Sec%86400)+86400)%86400) * time.Second)
	user := &database.User{Username: "u", Nick: c.Self}
	network := &database.Network{Addr: "irc.x"}
	m := &irc.Message{Command: c.Cmd, Prefix: &irc.Prefix{Name: c.Nick, User: c.User, Host: c.Host}}
	entity := c.Entity
	target := entity
	ps := append([]string(nil), c.Params...)
	chat := false
	logged := true
	need := func(n int) bool { return len(ps) >= n }
	switch c.Cmd {
	case "PRIVMSG", "NOTICE", "ACTION":
		if !need(1) {
			return errInvalid{}
		}
		chat = true
		if c.Direct {
			entity = foldWith("rfc1459", c.Nick)
			target = c.Self
		} else if foldWith("rfc1459", c.Nick) == foldWith("rfc1459", entity) {
			target = c.Self
		}
		if c.Cmd == "ACTION" {
			m.Command = "PRIVMSG"
			ps[0] = "\x01ACTION " + strings.Trim(ps[0], "\x01") + "\x01"
		}
		m.Params = []string{target, ps[0]}
	case "JOIN":
		m.Params = []string{target}
	case "PART", "TOPIC":
		m.Params = append([]string{target}, ps...)
	case "QUIT":
		m.Params = ps
	case "KICK", "MODE":
		if !need(1) {
			return errInvalid{}
		}
		m.Params = append([]string{target}, ps...)
	case "NICK":
		if !need(1) {
			return errInvalid{}
		}
		m.Params = ps
	default:
		logged = false
		m.Params = append([]string{target}, ps...)
	}
	orig := m.Copy()
	line := znclog.MarshalLine(m, t)
	if m.String() != orig.String() {
		return vio("mutated", "MarshalLine changed its message from %q to %q", orig, m)
	}
	if !logged {
		if line != "" {
			return vio("unlogged", "MarshalLine(%q) = %q, expected nothing", m, line)
		}
		return nil
	}
	if strings.ContainsAny(line, "\r\n") {
		return vio("newline", "MarshalLine(%q) = %q holds a line break", m, line)
	}
	want := fsForm(m, entity, c.Self, t, func(s string) string { return foldWith("rfc1459", s) })
	if m.Command == "PRIVMSG" && strings.HasPrefix(m.Params[1], "\x01") {
		// a CTCP ACTION is normalised
		body := strings.Trim(m.Params[1], "\x01")
		w, rest, _ := strings.Cut(body, " ")
		if strings.EqualFold(w, "ACTION") {
			want.Params[1] = "\x01ACTION " + rest + "\x01"
		}
	}
	for _, ev := range []bool{true, false} {
		ref := t
		if c.Sec%2 == 0 {
			ref = day.Add(5 * time.Hour)
		}
		got, gt, err := znclog.UnmarshalLine(line, user, network, entity, ref, ev)
		if err != nil {
			return vio("error", "%q was logged as %q, which doesn't parse: %v", m, line, err)
		}
		if !ev && !chat {
			if got != nil {
				return vio("event", "%q was logged as %q, which parses as %q though events weren't asked for", m, line, got)
			}
			continue
		}
		if got == nil {
			return vio("lost", "%q was logged as %q, which parses as nothing", m, line)
		}
		if !sameMsg(got, want) {
			return vio("roundtrip", "%q was logged as %q, which parses as %q instead of %q", m, line, got, want)
		}
		if !gt.Equal(t) || got.Tags["time"] != want.Tags["time"] {
			return vio("time", "%q was logged at %v as %q, which parses as %q at %v", m, t, line, got, gt)
		}
	}
	r.NonTrivial()
	r.Count(c.Cmd)
	return nil
}

// ---------------------------------------------------------------- lines

type c19Line struct {
	Line string
}

func genC19Line(g *G) c19Line {
	frag := []string{"[", "]", "0", "12", ":", "[01:02:03] ", "[23:59:59] ", "*** ", "* ", "<", "> ", "-", "- ", "Joins: ", "Parts: ", "Quits: ", "nick", "bob", " ", "(", ")", "(u@h)", "@", "is now known as ", "was kicked by ", "changes topic to ", "'", "sets mode: ", "+o", "x", "é", "[99:99:99] ", "[-1:02:03] ", "[1:2:3] "}
	var sb strings.Builder
	if g.P(80) {
		sb.WriteString(Pick(g, []string{"[01:02:03] ", "[00:00:00] ", "[23:59:59] "}))
	}
	for i, n := 0, g.Size(0, 10); i < n; i++ {
		sb.WriteString(Pick(g, frag))
	}
	return c19Line{sb.String()}
}

func runC19Line(r *R, c c19Line) error {
	if strings.ContainsAny(c.Line, "\n\r\x01") {
		return errInvalid{}
	}
	defer localZone(0)()
	ref := time.Date(2021, 3, 4, 5, 6, 7, 0, time.Local)
	user := &database.User{Username: "u", Nick: "me"}
	network := &database.Network{Addr: "irc.x"}
	for _, ev := range []bool{false, true} {
		m, t, err := znclog.UnmarshalLine(c.Line, user, network, "bob", ref, ev)
		if err != nil || m == nil {
			if m != nil && err != nil {
				return vio("line", "%q parses as %q with error %v", c.Line, m, err)
			}
			continue
		}
		if !ev && !isChat(m) {
			return vio("event", "line %q parses as %q though events weren't asked for", c.Line, m)
		}
		if m.Prefix == nil || isChat(m) && len(m.Params) != 2 {
			return vio("line", "line %q parses as the incomplete message %q", c.Line, m)
		}
		l2 := znclog.MarshalLine(m, t)
		m2, _, err := znclog.UnmarshalLine(l2, user, network, "bob", t, ev)
		if err != nil || m2 == nil || !sameMsg(m, m2) {
			return vio("fixpoint", "line %q parses as %q, which is written as %q, which parses as %v (%v)", c.Line, m, l2, m2, err)
		}
		r.NonTrivial()
		r.Count(fmt.Sprintf("line %s", m.Command))
	}
	return nil
}

func init() {
	p := prop("C19", "a line was written and parsed back, or a generated line parsed as a message", 800000, 20000000,
		"nicks, user names, hosts and targets hold no spaces or line breaks, texts hold no line breaks (the protocol cannot carry them)")
	add(p, "messages", 3, genC19, runC19)
	add(p, "lines", 1, genC19Line, runC19Line)
}
