package harness

import (
	"sort"
	"strings"
	"unicode"

	"gopkg.in/irc.v4"
)

// view is what an ordinary IRC client would believe, given the messages it
// received: its nick, the channels it is in, their topics and members.
type view struct {
	cm             string
	prefixM        string
	prefixP        string
	multi          bool
	nick           string
	chans          map[string]*viewChan
	bad            string // first inconsistency noticed
	loose          bool   // don't complain about events of unknown members
	lastSelfPrefix string
}

type viewChan struct {
	name      string
	topic     string
	topicWho  string
	topicTime string
	members   map[string]string // folded nick -> mode letters
	names     bool              // an end of names was seen
	inNames   bool
}

func newView(cm, pm, pp string) *view {
	return &view{cm: cm, prefixM: pm, prefixP: pp, chans: map[string]*viewChan{}}
}

func (v *view) fold(s string) string { return foldWith(v.cm, s) }

func (v *view) fail(s string) {
	if v.bad == "" {
		v.bad = s
	}
}

func (v *view) splitPrefix(s string) (modes, nick string) {
	i := 0
	for i < len(s) {
		k := strings.IndexByte(v.prefixP, s[i])
		if k < 0 {
			break
		}
		modes += string(v.prefixM[k])
		i++
	}
	return modes, s[i:]
}

func (v *view) sortModes(m string) string {
	var sb strings.Builder
	for i := 0; i < len(v.prefixM); i++ {
		if strings.IndexByte(m, v.prefixM[i]) >= 0 {
			sb.WriteByte(v.prefixM[i])
		}
	}
	return sb.String()
}

func (v *view) feed(msgs []*irc.Message) {
	for _, m := range msgs {
		v.one(m)
	}
}

func (v *view) one(m *irc.Message) {
	if _, ok := m.Tags["batch"]; ok {
		return // history
	}
	src := ""
	if m.Prefix != nil {
		src = m.Prefix.Name
	}
	self := src != "" && v.nick != "" && v.fold(src) == v.fold(v.nick)
	if self && m.Prefix.User != "" {
		v.lastSelfPrefix = m.Prefix.String()
	}
	switch m.Command {
	case "001":
		v.nick = param(m, 0)
	case "NICK":
		if self {
			v.nick = param(m, 0)
		}
		o, n := v.fold(src), v.fold(param(m, 0))
		for _, ch := range v.chans {
			if x, ok := ch.members[o]; ok {
				delete(ch.members, o)
				ch.members[n] = x
			}
		}
	case "JOIN":
		f := v.fold(param(m, 0))
		if self {
			v.chans[f] = &viewChan{name: param(m, 0), members: map[string]string{v.fold(src): ""}}
			return
		}
		if ch := v.chans[f]; ch == nil {
			v.fail("JOIN of another user in a channel we aren't in: " + m.String())
		} else {
			ch.members[v.fold(src)] = ""
		}
	case "PART":
		f := v.fold(param(m, 0))
		if v.chans[f] == nil {
			if self {
				return // for instance of a detached channel
			}
			v.fail("PART for a channel we aren't in: " + m.String())
			return
		}
		if self {
			delete(v.chans, f)
		} else {
			delete(v.chans[f].members, v.fold(src))
		}
	case "KICK":
		f := v.fold(param(m, 0))
		if v.chans[f] == nil {
			v.fail("KICK for a channel we aren't in: " + m.String())
			return
		}
		if v.fold(param(m, 1)) == v.fold(v.nick) {
			delete(v.chans, f)
		} else {
			delete(v.chans[f].members, v.fold(param(m, 1)))
		}
	case "QUIT":
		for _, ch := range v.chans {
			delete(ch.members, v.fold(src))
		}
	case "MODE":
		ch := v.chans[v.fold(param(m, 0))]
		if ch == nil {
			if strings.HasPrefix(param(m, 0), "#") {
				v.fail("MODE for a channel we aren't in: " + m.String())
			}
			return
		}
		v.mode(ch, param(m, 1), m.Params[2:])
	case "TOPIC":
		if ch := v.chans[v.fold(param(m, 0))]; ch != nil {
			ch.topic = param(m, 1)
		} else {
			v.fail("TOPIC for a channel we aren't in: " + m.String())
		}
	case "332":
		if ch := v.chans[v.fold(param(m, 1))]; ch != nil {
			ch.topic = param(m, 2)
		}
	case "331":
		if ch := v.chans[v.fold(param(m, 1))]; ch != nil {
			ch.topic = ""
		}
	case "333":
		if ch := v.chans[v.fold(param(m, 1))]; ch != nil {
			ch.topicWho, ch.topicTime = param(m, 2), param(m, 3)
		}
	case "353":
		if ch := v.chans[v.fold(param(m, 2))]; ch != nil {
			if !ch.inNames {
				ch.inNames = true
				ch.members = map[string]string{}
			}
			for _, s := range strings.Fields(param(m, 3)) {
				modes, nick := v.splitPrefix(s)
				if _, dup := ch.members[v.fold(nick)]; dup {
					v.fail("member listed twice: " + m.String())
				}
				ch.members[v.fold(nick)] = modes
			}
		}
	case "366":
		if ch := v.chans[v.fold(param(m, 1))]; ch != nil {
			if !ch.inNames && len(ch.members) > 0 {
				// an empty list
				ch.members = map[string]string{}
			}
			ch.inNames = false
			ch.names = true
		}
	}
}

func (v *view) mode(ch *viewChan, str string, args []string) {
	plus, ai := true, 0
	next := func() string {
		if ai < len(args) {
			ai++
			return args[ai-1]
		}
		return ""
	}
	for i := 0; i < len(str); i++ {
		m := str[i]
		switch {
		case m == '+':
			plus = true
		case m == '-':
			plus = false
		case strings.IndexByte(v.prefixM, m) >= 0:
			f := v.fold(next())
			cur, ok := ch.members[f]
			if !ok {
				continue
			}
			cur = strings.ReplaceAll(cur, string(m), "")
			if plus {
				cur += string(m)
			}
			ch.members[f] = v.sortModes(cur)
		case m == 'b' || m == 'e' || m == 'k' || m == 'l' && plus:
			next()
		}
	}
}

func sortedStrs[T any](m map[string]T) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---------------------------------------------------------------- mentions

// mentions tells whether a text has a nick in it as a word of its own which
// isn't part of a URI.
func mentions(text, nick string) bool {
	word := func(r rune) bool {
		return r == '-' || r == '_' || r == '|' || unicode.IsLetter(r) || unicode.IsNumber(r)
	}
	for i := 0; i+len(nick) <= len(text); i++ {
		if text[i:i+len(nick)] != nick {
			continue
		}
		before, after := []rune(text[:i]), []rune(text[i+len(nick):])
		if len(before) > 0 && word(before[len(before)-1]) || len(after) > 0 && word(after[0]) {
			continue
		}
		tok := text[:i]
		if j := strings.LastIndexFunc(tok, unicode.IsSpace); j >= 0 {
			tok = tok[j:]
		}
		if j := strings.Index(tok, "://"); j > 0 && strings.ContainsRune("+-.0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", rune(tok[j-1])) {
			continue
		}
		return true
	}
	return false
}

// mentionText is a text made of pieces which have to do with a nick, and
// whether it mentions the nick.
func mentionText(seed int, nick string) (string, bool) {
	g := NewG(uint64(seed)*7919 + 13)
	pieces := []string{nick, nick + nick, "x" + nick, nick + "x", nick + "_a", "-" + nick, "https://h/" + nick, "https://h/?a=" + nick + "&b=" + nick, "(see irc+x://" + nick + "/" + nick + ")", "(" + nick + ")", nick + ":", "@" + nick + "!", "\u00e9" + nick, nick + "\u2019s", nick + "\u0434" + nick, "hello", "://", "\u2026", "1" + nick, nick + "|" + nick, nick[1:] + nick, nick + nick[:1]}
	var sb strings.Builder
	for i, n := 0, g.R(1, 5); i < n; i++ {
		if i > 0 {
			sb.WriteString(" ")
			if g.P(10) {
				sb.WriteString(" ")
			}
		}
		sb.WriteString(Pick(g, pieces))
	}
	return sb.String(), mentions(sb.String(), nick)
}

// mentionWith is a text which does, or doesn't, mention a nick.
func mentionWith(seed int, nick string, want bool) string {
	for i := 0; ; i++ {
		if t, hl := mentionText(seed+i, nick); hl == want {
			return t
		}
	}
}
