package harness

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// C14: no input takes the bouncer down.
//
// Lines are kept as strings in which each rune below 256 stands for a byte.

type c14Step struct {
	K string // "c": hostile client, "u": hostile server, "q": query by the witness, "t": time passes, "x": close
	L string
	N int
}

type c14Case struct {
	Login  string // user[/network] of the hostile client, "" if it isn't logged in
	Caps   int
	UpCaps []string
	Store  string
	Mute   bool // the server doesn't answer by itself
	Reg    bool // the server is hostile from the beginning of the connection
	Admin  bool
	Steps  []c14Step
}

func latin(s string) string {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		if r < 256 {
			b = append(b, byte(r))
		} else {
			b = append(b, '?')
		}
	}
	return string(b)
}

func unlatin(b string) string {
	r := make([]rune, 0, len(b))
	for i := 0; i < len(b); i++ {
		r = append(r, rune(b[i]))
	}
	return string(r)
}

var c14Caps = []string{"server-time", "message-tags", "batch", "echo-message", "labeled-response", "extended-join", "multi-prefix", "away-notify", "account-notify", "chghost", "setname", "invite-notify", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "soju.im/no-implicit-names", "draft/chathistory", "draft/event-playback", "soju.im/search", "draft/read-marker", "soju.im/webpush", "account-tag", "draft/account-registration", "extended-monitor", "cap-notify", "standard-replies", "userhost-in-names", "sasl"}

var c14Tokens = []string{
	"", " ", "*", "#a", "#A", "#b", "&x", "#", "mynick", "MYNICK", "bob", "carl", "a", "@#a", "+#a", "~&@%+#a", "BouncerServ", "bouncerserv", "net0", "net2", "other",
	"a!b@c", "!@", "@", "!", ":", ",", ",,", "#a,#b", "bob,carl", "a,,b", "0", "1", "-1", "302", "99999999999999999999", "1e9", "o", "+o", "-o", "+ov-v", "+b", "b", "+", "-", "+oooooo", "+i", "nuhsaflcdirt", "%tuhnfar,42", "%", "%,", "%t", "%zzz,1",
	"timestamp=2020-01-01T00:00:00.000Z", "timestamp=2100-01-01T00:00:00.000Z", "timestamp=", "timestamp=x", "msgid=abc", "LATEST", "BEFORE", "AFTER", "BETWEEN", "AROUND", "TARGETS", "from=bob", "in=#a", "text=\\:\\", "limit=3", "before=x;after=y",
	"\x01ACTION hi\x01", "\x01\x01", "\x01VERSION", "\x01", "mynick: hi", "hello world", "ü", "\xff\xfe", "\x00", "a\rb", "detach", "LS", "LIST", "REQ", "END", "ACK", "NAK", "NEW", "DEL", "sasl", "-sasl", "=", "sasl=PLAIN", "message-tags", "cap-notify", "~x", "PLAIN", "EXTERNAL", "ANONYMOUS", "SCRAM-SHA-256",
	"AGFsaWNlAHB3", "AA==", "AAAA", "====", "PREFIX=(ov)@+", "PREFIX=", "PREFIX=(ov)@", "PREFIX=(ov)", "CHANMODES=b,k,l", "PREFIX=()", "PREFIX", "-PREFIX", "CHANMODES=b,k,l,n", "CHANMODES=", "CHANMODES=,,,,", "CHANTYPES=", "CHANTYPES=#&", "CASEMAPPING=rfc1459", "CASEMAPPING=ascii", "CASEMAPPING=x", "CASEMAPPING", "MONITOR=3", "MONITOR", "MONITOR=x", "NETWORK=N", "STATUSMSG=@", "BOT=b", "WHOX", "ELIST=", "MAXLIST=b:x", "=x", "NICKLEN=3", "UTF8ONLY", "draft/FILEHOST=http://x", "soju.im/SAFERATE",
	"C", "S", "L", "+ bob carl", "@bob +carl", "chathistory", "netjoin", "netsplit", "labeled-response", "+ref", "-ref", "ref", "H", "G@", "H*B", "1600000000", "x1600000000", "BIND", "LISTNETWORKS", "ADDNETWORK", "CHANGENETWORK", "DELNETWORK", "host=h0;port=1", "name=x;host=h;tls=2", "nickname=", "REGISTER", "UNREGISTER", "http://h/x", "p256dh=x;auth=y", "IDENTIFY", "SET", "help", "version",
}

var c14CliCmds = []string{"PASS", "USER", "NICK", "CAP", "AUTHENTICATE", "BOUNCER", "QUIT", "PING", "PONG", "SETNAME", "JOIN", "PART", "KICK", "MODE", "TOPIC", "LIST", "NAMES", "WHO", "WHOIS", "PRIVMSG", "NOTICE", "TAGMSG", "INVITE", "REGISTER", "VERIFY", "AWAY", "INFO", "MONITOR", "CHATHISTORY", "READ", "MARKREAD", "SEARCH", "WEBPUSH", "ERROR", "001", "433", "ISON", "WHOWAS", "STATS", "BATCH", "ACK", "FAIL", "LUSERS", "MOTD", "USERHOST", "REDACT"}
var c14UpCmds = []string{"PING", "PONG", "NOTICE", "PRIVMSG", "TAGMSG", "CAP", "AUTHENTICATE", "900", "901", "396", "902", "903", "904", "905", "906", "908", "REGISTER", "VERIFY", "001", "002", "003", "004", "005", "422", "376", "BATCH", "NICK", "SETNAME", "CHGHOST", "JOIN", "PART", "KICK", "QUIT", "332", "331", "TOPIC", "MODE", "221", "324", "329", "333", "321", "322", "323", "353", "366", "352", "354", "315", "311", "312", "319", "317", "330", "318", "276", "307", "INVITE", "341", "730", "731", "734", "301", "AWAY", "ACCOUNT", "367", "368", "346", "348", "401", "402", "403", "421", "461", "263", "FAIL", "WARN", "ACK", "305", "306", "251", "265", "375", "372", "ERROR", "433", "432", "464", "437", "436", "465", "473", "999", "STANDARD", "CAP", "005", "353", "354", "MODE", "JOIN", "BATCH", "AUTHENTICATE", "KILL", "WALLOPS"}

// c14Hints are typical parameters, which get the message past the first
// checks.
var c14Hints = map[string][][]string{
	"CAP":          {{"mynick", "*"}, {"LS", "REQ", "ACK", "NAK", "NEW", "DEL", "LIST", "END", "*"}, {"sasl=PLAIN message-tags", "sasl", "*", "-sasl", "302", "message-tags batch", "-message-tags", "", "  ", "draft/account-registration=before-connect", "labeled-response", "cap-notify"}, {"sasl=EXTERNAL", "batch"}},
	"005":          {{"mynick"}, {"PREFIX=(ov)@+", "PREFIX=()", "PREFIX", "-PREFIX", "PREFIX=(o)@+", "PREFIX=(ov", "PREFIX=(ov)", "PREFIX=(ovh)@", "PREFIX=()@+", "PREFIX=)(", "CHANMODES=b,k,l,n", "CHANMODES=b", "CHANMODES=b,k", "CHANMODES=b,k,l", "CHANMODES=b,k,l,n,x,y", "CASEMAPPING=ascii", "CASEMAPPING=", "MONITOR=2", "MONITOR", "CHANTYPES", "CHANTYPES=", "STATUSMSG", "-STATUSMSG", "BOT=", "BOT", "WHOX"}, {"are supported"}},
	"353":          {{"mynick"}, {"=", "@", "*", "", "x"}, {"#a", "#b", "bob"}, {"@bob +carl mynick", "@", "@+", "", " ", "  bob  ", "bob!u@h", "@mynick!u@h +", "!", "#a"}},
	"366":          {{"mynick"}, {"#a", "#b", "#nope"}, {"end"}},
	"352":          {{"mynick"}, {"#a", "*"}, {"u"}, {"h"}, {"srv"}, {"bob", "#a", "", "mynick"}, {"H@", "G", "", "*"}, {"0 real", "0", "", "x"}},
	"354":          {{"mynick"}, {"42", "x"}, {"u"}, {"h"}, {"s"}, {"bob", "#a", "", "mynick"}, {"H"}, {"acct", "0"}, {"real"}},
	"MODE":         {{"#a", "mynick", "#b", "bob"}, {"+o", "+ov", "-o", "+b", "+l", "+k", "+ooo", "", "+", "ov", "+xyz", "+i"}, {"bob", "mynick", "#a", ""}, {"carl"}},
	"324":          {{"mynick"}, {"#a", "#b"}, {"+nt", "+l", "+k", "", "nt", "+lk"}, {"5"}},
	"BATCH":        {{"+ref", "-ref", "+", "-", "", "ref", "+ref2"}, {"netjoin", "chathistory", "labeled-response", ""}, {"#a"}},
	"AUTHENTICATE": {{"PLAIN", "+", "OAUTHBEARER", "*", "AGFsaWNlAHB3", "=", "ANONYMOUS", "EXTERNAL", "AG1hbGxvcnkAcHctbWFsbG9yeQ=="}},
	"NICK":         {{"mynick", "bob", "new", "", "#a", "a b", "*", "BouncerServ", ":x", "\xff", "n!u@h"}},
	"JOIN":         {{"#a", "#b", "#a,#b", "", ",", "0", "&x", "bob"}, {"key", "acct", "k,k2"}, {"real"}},
	"PART":         {{"#a", "#b", "#nope", "", ",", "bob"}, {"detach", "bye"}},
	"KICK":         {{"#a", "#nope"}, {"bob", "mynick", ""}, {"out"}},
	"TOPIC":        {{"#a", "#nope", "bob"}, {"t", ""}},
	"332":          {{"mynick"}, {"#a", "#nope"}, {"t", ""}},
	"333":          {{"mynick"}, {"#a", "#nope"}, {"bob!u@h", "", "!", "bob"}, {"1600000000", "x", "", "99999999999999999999"}},
	"329":          {{"mynick"}, {"#a", "#nope"}, {"1600000000", "x"}},
	"PRIVMSG":      {{"#a", "mynick", "bob", "BouncerServ", "@#a", "", "#a,bob", "$*", "@", "carl"}, {"hi", "mynick: hi", "\x01ACTION x\x01", "\x01\x01", "", "help", "network status", "channel status", "certfp fingerprint", "sasl status -network x", "network quote net0", "network quote net0 \"@a \"", "network update net0 -connect-command \"@a \"", "network update net0 -connect-command @a", "\"", "\\", "help help", "user status", "channel update #a -detach-after 1h", "channel create", "network create -addr x", "network create -addr unix:///nope", "server status"}},
	"NOTICE":       {{"#a", "mynick", "bob", "BouncerServ", "@#a", "*", ""}, {"hi", "mynick", "\x01PING\x01", ""}},
	"TAGMSG":       {{"#a", "mynick", "bob", "", "@#a"}},
	"730":          {{"mynick"}, {"bob!u@h", "bob", "bob,carl!u@h", "", ",", "!"}},
	"731":          {{"mynick"}, {"bob", "bob,carl", "", ","}},
	"734":          {{"mynick"}, {"3", "x"}, {"bob", "", ","}, {"full"}},
	"MONITOR":      {{"+", "-", "C", "L", "S", "", "X"}, {"bob", "bob,carl", "", ",", "#a", "mynick"}},
	"CHATHISTORY":  {{"LATEST", "BEFORE", "AFTER", "BETWEEN", "TARGETS", "AROUND", ""}, {"#a", "bob", "", "*", "timestamp=2020-01-01T00:00:00.000Z", "mynick", "../x"}, {"*", "timestamp=2020-01-01T00:00:00.000Z", "timestamp=2100-01-01T00:00:00.000Z", "msgid=x", "x", ""}, {"10", "0", "-1", "x", "timestamp=2020-01-01T00:00:00.000Z", "999999999999999999999"}, {"10"}},
	"MARKREAD":     {{"#a", "bob", "", "*"}, {"timestamp=2020-01-01T00:00:00.000Z", "timestamp=", "timestamp=9999-12-31T23:59:59.999Z", "x", "*"}},
	"READ":         {{"#a", "bob", "", "*"}, {"timestamp=2020-01-01T00:00:00.000Z", "*", "x"}},
	"SEARCH":       {{"text=hi", "in=#a;text=\"", "from=bob;limit=-1", "before=x", "", "after=2020-01-01T00:00:00.000Z;text=*", "text=a AND", "limit=99999999999", "in=../..;text=x"}},
	"BOUNCER":      {{"LISTNETWORKS", "BIND", "ADDNETWORK", "CHANGENETWORK", "DELNETWORK", "", "X"}, {"3", "x", "", "-1", "99999999999999999999", "host=h0;port=x", "name=q", "*"}, {"host=h1", "host=\\:\\s", "port=70000;host=a", "tls=x", "nickname=;realname=", "unknown=1", "pass=x", "host=[::1;port=1", "host=%zz"}},
	"WEBPUSH":      {{"REGISTER", "UNREGISTER", "", "X"}, {"http://h/x", "", "x", "ftp://a", "://"}, {"p256dh=x;auth=y", "", "p256dh=;auth="}},
	"WHO":          {{"#a", "bob", "mynick", "", "*", "BouncerServ", "0"}, {"%tuhnfar,42", "%", "o", "%t,", "%n,1", "", "%tcuihsnfdlaor,999"}},
	"WHOIS":        {{"bob", "mynick", "BouncerServ", "", "srv", "bob,carl"}, {"bob", ""}},
	"NAMES":        {{"#a", "", "#nope", "#a,#b", "bob"}},
	"LIST":         {{"#a", ">3", "", "*"}},
	"INVITE":       {{"bob", "mynick", ""}, {"#a", "#nope", "", "bob"}},
	"USER":         {{"mallory", "mallory/net0", "mallory@x", "mallory/net0@c", "", "/", "@", "mallory/", "alice", "mallory/127.0.0.1:1", "a/b@c/d@e"}, {"0"}, {"*"}, {"real", ""}},
	"PASS":         {{"pw-mallory", "", "mallory:pw-mallory", "mallory/net0:pw-mallory", "x", ":"}},
	"REGISTER":     {{"*", "acct", ""}, {"*", "mail", ""}, {"pw", ""}},
	"VERIFY":       {{"acct", "*"}, {"code", ""}},
	"900":          {{"mynick"}, {"mynick!u@h", ""}, {"acct", "", "*"}, {"ok"}},
	"FAIL":         {{"REGISTER", "AUTHENTICATE", "*", "JOIN", ""}, {"CODE", "ACCOUNT_REQUIRED", "NEED_REGISTRATION"}, {"ctx"}, {"desc"}},
	"433":          {{"mynick", "*"}, {"mynick", "", "bob"}, {"used"}},
	"401":          {{"mynick"}, {"bob", "", "#a"}, {"no"}},
	"421":          {{"mynick"}, {"WHO", "WHOIS", "LIST", "", "MONITOR", "X", "AUTHENTICATE", "CAP"}, {"unknown"}},
	"461":          {{"mynick"}, {"WHO", "JOIN", ""}, {"few"}},
	"001":          {{"mynick", "", "other", "*"}, {"welcome"}},
	"004":          {{"mynick"}, {"srv", ""}, {"v"}, {"io", ""}, {"ov"}},
	"CHGHOST":      {{"user", ""}, {"host", ""}},
	"SETNAME":      {{"name", ""}},
	"AWAY":         {{"gone", ""}},
	"ACCOUNT":      {{"acct", "*", ""}},
	"QUIT":         {{"bye"}},
	"396":          {{"mynick"}, {"host", "user@host", "@", ""}, {"x"}},
	"221":          {{"mynick"}, {"+i", "", "x", "-"}},
	"322":          {{"mynick"}, {"#a"}, {"3"}, {"topic"}},
	"323":          {{"mynick"}, {"end"}},
	"315":          {{"mynick"}, {"#a", "bob", ""}, {"end"}},
	"318":          {{"mynick"}, {"bob"}, {"end"}},
}

var c14Prefixes = []string{":srv.test", ":bob!u@h", ":mynick!u@h", ":MYNICK", ":", ":!", ":@", ":bob", ":!u@h", ":bob@h", ":#a", ":carl!!@@", ":a b", ": ", ":BouncerServ", ":\xff!\xfe@\xfd"}
var c14Tags = []string{"@time=2020-01-01T00:00:00.000Z", "@time=x", "@label=1", "@label=sd-1-1", "@label=", "@batch=ref", "@batch=", "@batch=nope", "@msgid=1;+typing=active", "@", "@;", "@=", "@a=\\", "@account=bob", "@account=", "@bot", "@;;=;x=y=z", "@+draft/reply=x"}

func c14Line(g *G, up bool) string {
	if g.P(3) { // arbitrary bytes
		b := make([]byte, g.Size(0, 60))
		for i := range b {
			b[i] = byte(g.W(1, 1, 1)*64 + g.N(64))
			if g.P(20) {
				b[i] = " :@!,#"[g.N(6)]
			}
		}
		return unlatin(strings.ReplaceAll(string(b), "\n", "?"))
	}
	var sb strings.Builder
	if g.P(15) {
		sb.WriteString(Pick(g, c14Tags))
		if !g.P(4) {
			sb.WriteString(" ")
		}
	}
	if up && g.P(85) || !up && g.P(5) {
		if g.P(70) {
			sb.WriteString(Pick(g, c14Prefixes[:3]))
		} else {
			sb.WriteString(Pick(g, c14Prefixes))
		}
		if !g.P(3) {
			sb.WriteString(" ")
		}
	}
	cmds := c14CliCmds
	if up {
		cmds = c14UpCmds
	}
	cmd := Pick(g, cmds)
	if g.P(2) {
		cmd = Pick(g, c14Tokens)
	}
	sb.WriteString(cmd)
	hints := c14Hints[cmd]
	if cmd == "CAP" && !up {
		hints = hints[1:]
	}
	n := len(hints)
	if n == 0 {
		n = g.N(5)
		if up {
			n++
		}
	}
	switch g.W(70, 10, 10, 10) {
	case 1:
		n = g.N(n + 1)
	case 2:
		n += g.N(3)
	case 3:
		n = g.N(16)
	}
	for i := 0; i < n; i++ {
		var p string
		switch {
		case i < len(hints) && g.P(80):
			p = Pick(g, hints[i])
		case up && i == 0 && len(cmd) == 3 && g.P(80):
			p = "mynick"
		case g.P(2):
			p = strings.Repeat(Pick(g, []string{"a", "#", "@", ",", "bob,", "\xff"}), 1+g.N(1200))
		default:
			p = Pick(g, c14Tokens)
		}
		sb.WriteString(" ")
		if i == n-1 && (p == "" || strings.Contains(p, " ") || g.P(30)) {
			sb.WriteString(":")
		}
		sb.WriteString(p)
	}
	return unlatin(sb.String())
}

// c14Scenarios are typical dialogues (sender and line), which are run with
// omissions, repetitions, swaps and mutations.
var c14Scenarios = [][]string{
	{"q AUTHENTICATE PLAIN", "u AUTHENTICATE +", "q AUTHENTICATE AGEAYg==", "q AUTHENTICATE *", "q AUTHENTICATE PLAIN", "u :srv.test 900 mynick mynick!u@h acct :ok", "u :srv.test 903 mynick :ok", "u :srv.test 904 mynick :fail", "u :srv.test 906 mynick :aborted"},
	{"c AUTHENTICATE ANONYMOUS", "c AUTHENTICATE +", "u :srv.test 903 mynick :ok", "c AUTHENTICATE PLAIN", "c AUTHENTICATE AGEAYg==", "x", "u :srv.test 903 mynick :ok", "u AUTHENTICATE +"},
	{"q REGISTER * mail pw", "q VERIFY acct code", "u :srv.test REGISTER SUCCESS acct :done", "u :srv.test VERIFY SUCCESS acct :done", "u :srv.test FAIL REGISTER X acct :no", "u :srv.test REGISTER"},
	{"q WHO #a", "u :srv.test 352 mynick #a u h srv bob H@ :0 real", "u :srv.test 354 mynick 42 u h s bob H acct :real", "u :srv.test 315 mynick #a :end", "u :srv.test 315 mynick #a :end"},
	{"q WHO #a %tuhnfar,42", "q WHO bob", "u :srv.test 354 mynick 42 u h bob H acct :real", "u :srv.test 354 mynick 1 u h s bob H acct 0 x y :real", "u :srv.test 315 mynick #a :end", "q WHO #a", "q WHO mynick"},
	{"q WHOIS bob", "u :srv.test 311 mynick bob u h * :real", "u :srv.test 319 mynick bob :#a @#b", "u :srv.test 319 mynick bob", "u :srv.test 318 mynick bob :end", "u :srv.test 401 mynick bob :no"},
	{"q LIST", "u :srv.test 321 mynick x :y", "u :srv.test 322 mynick #a 3 :t", "u :srv.test 323 mynick :end", "q LIST", "t", "q LIST", "q LIST", "t", "u :srv.test 323 mynick :end"},
	{"u :mynick!u@h JOIN #b", "u :srv.test 332 mynick #b :t", "u :srv.test 333 mynick #b bob!u@h 1600000000", "u :srv.test 353 mynick = #b :@bob +carl mynick", "q NAMES #b", "c JOIN #b", "u :srv.test 366 mynick #b :end", "u :mynick!u@h PART #b", "u :srv.test 366 mynick #b :end"},
	{"u :srv.test CAP mynick NEW :sasl=PLAIN labeled-response", "u :srv.test CAP mynick ACK :sasl", "u :srv.test CAP mynick NAK :sasl", "u :srv.test CAP mynick DEL :message-tags sasl", "u :srv.test CAP * LS * :a b", "u :srv.test CAP * LS :c", "u :srv.test CAP mynick LIST :x", "u :srv.test CAP mynick", "u :srv.test CAP mynick NEW"},
	{"u BATCH +r1 netjoin", "u @batch=r1 :bob!u@h PRIVMSG mynick :x", "u @batch=r1 BATCH +r2 chathistory #a", "u @batch=r2 :bob!u@h PRIVMSG #a :y", "u BATCH -r1", "u BATCH -r2", "u BATCH -r2"},
	{"u :srv.test 005 mynick PREFIX=(q)~ :x", "u :srv.test MODE #a +q bob", "u :srv.test 005 mynick -PREFIX CHANMODES= :x", "u :srv.test MODE #a +ov bob carl", "q NAMES #a", "c NAMES #a", "u :srv.test 324 mynick #a +b", "q MODE #a"},
	{"u :srv.test 005 mynick PREFIX=(ov) :x", "u :srv.test 005 mynick CHANMODES=b,k,l :x", "u :srv.test 005 mynick PREFIX=(ohv)@ :x", "u :srv.test 005 mynick CHANMODES=b :x"},
	{"u :srv.test 005 mynick CASEMAPPING=ascii :x", "u :MYNICK!u@h PRIVMSG #A :x", "u :srv.test 005 mynick CASEMAPPING=rfc1459 :x", "u :bob!u@h JOIN #A", "q NAMES #a"},
	{"u :bob!u@h JOIN #a", "u :bob!u@h NICK #a", "q WHO #a", "u :#a!u@h PART #a", "u :#a!u@h NICK bob", "q WHO bob"},
	{"u :bob!u@h NICK mynick", "u :mynick!u@h QUIT :x", "q PRIVMSG #a :x", "u :mynick!u@h NICK bob", "u :bob!u@h PRIVMSG #a :x", "q NICK mynick"},
	{"u :srv.test 005 mynick MONITOR=2 :x", "q MONITOR + bob,carl,dan", "u :srv.test 730 mynick :bob!u@h", "u :srv.test 731 mynick :carl", "u :srv.test 734 mynick 2 dan :full", "q MONITOR S", "q MONITOR C", "u :srv.test 005 mynick -MONITOR :x", "q MONITOR + eve"},
	{"u :srv.test 433 mynick new :used", "q NICK new", "u :srv.test 433 mynick new :used", "u :mynick!u@h NICK new", "u :srv.test 432 mynick", "u :srv.test 433"},
	{"u ERROR :bye", "u ERROR", "u :srv.test 465 mynick :banned", "u :srv.test 001 other :again", "q PRIVMSG #a :x"},
	{"c CAP LS 302", "c CAP REQ :draft/chathistory batch", "c NICK x", "c PASS pw-mallory", "c USER mallory/net0 0 * :r", "c BOUNCER BIND 1", "c AUTHENTICATE PLAIN", "c AUTHENTICATE AG1hbGxvcnkAcHctbWFsbG9yeQ==", "c AUTHENTICATE *", "c CAP END", "c USER x 0 * r", "c JOIN #a"},
	{"c PASS pw-zed", "c CAP LS 302", "c NICK x", "c USER zed 0 * r", "c CAP END", "c PING x", "c JOIN #a", "c NICK y", "c QUIT"},
	{"c CAP REQ sasl", "c AUTHENTICATE PLAIN", "c AUTHENTICATE AHplZABwdy16ZWQ=", "c NICK x", "c USER y 0 * z", "c CAP END", "c PING x", "c CAP REQ batch", "c LIST"},
	{"c PASS pw-mallory", "c NICK BouncerServ", "c USER mallory/127.0.0.1:1 0 * r", "c PING x", "c BOUNCER BIND 99", "c JOIN #a"},
	{"c CAP REQ sasl", "q AUTHENTICATE OAUTHBEARER", "q AUTHENTICATE +", "q AUTHENTICATE +", "q AUTHENTICATE OAUTHBEARER", "q AUTHENTICATE biwsAWF1dGg9QmVhcmVyIHgBAQ==", "q AUTHENTICATE AQ==", "q AUTHENTICATE *"},
	{"c CAP REQ sasl", "c AUTHENTICATE OAUTHBEARER", "c AUTHENTICATE +", "c AUTHENTICATE +", "c NICK x", "c CAP END"},
	{"c CAP REQ sasl", "c AUTHENTICATE PLAIN", "c AUTHENTICATE " + strings.Repeat("A", 400), "c AUTHENTICATE +", "c AUTHENTICATE AG1hbGxvcnkAcHctbWFsbG9yeQ==", "c NICK x", "c USER y 0 * z", "c CAP END"},
	{"c PRIVMSG BouncerServ :channel create #zz -detached true", "c PART #zz", "u :mynick!u@h JOIN #zz", "u :bob!u@h PRIVMSG #zz :mynick", "c JOIN #zz", "c PRIVMSG BouncerServ :channel delete #zz", "u :srv.test 366 mynick #zz :x"},
	{"c PRIVMSG BouncerServ :certfp generate -network net0 -key-type ed25519", "c PRIVMSG BouncerServ :certfp fingerprint -network net0", "c PRIVMSG BouncerServ :sasl reset -network net0", "c PRIVMSG BouncerServ :sasl set-plain -network net0 a b", "c PRIVMSG BouncerServ :sasl status"},
	{"c PRIVMSG BouncerServ :network create -addr irc+insecure://10.9.9.9:2 -name n3 -nick q", "c PRIVMSG BouncerServ :network quote n3 \"X y\"", "c PRIVMSG BouncerServ :channel create #x/n3", "c PRIVMSG BouncerServ :network update n3 -enabled false", "c BOUNCER LISTNETWORKS", "c BOUNCER DELNETWORK 4", "c BOUNCER DELNETWORK 5", "c PRIVMSG BouncerServ :network delete n3"},
	{"c PRIVMSG NickServ :IDENTIFY pw", "c PRIVMSG NickServ :SET x y", "c PRIVMSG NickServ :REGISTER pw mail", "c PRIVMSG NickServ :IDENTIFY", "c PRIVMSG NickServ :SET PASSWORD", "c PRIVMSG NickServ :SET PASSWORD z", "c PRIVMSG NickServ :"},
	{"u :mynick!u@h KICK #a mynick :x", "u :bob!u@h KICK #a mynick :x", "u :bob!u@h INVITE mynick #a", "u :bob!u@h INVITE mynick #zz", "u :mynick!u@h JOIN #a", "q NAMES #a", "u :bob!u@h MODE #a +o bob", "u :srv.test 353 mynick = #a :@bob mynick bob", "u :srv.test 366 mynick #a :x"},
	{"q CHATHISTORY TARGETS timestamp=1999-01-01T00:00:00.000Z timestamp=2030-01-01T00:00:00.000Z 10", "u :bob!u@h PRIVMSG #a :\x01ACTION x\x01", "u @time=1000-01-01T00:00:00.000Z :bob!u@h PRIVMSG #a :old", "u @time=9999-12-31T23:59:59.999Z :bob!u@h PRIVMSG #a :new", "q CHATHISTORY LATEST #a * 10", "q CHATHISTORY BEFORE #a timestamp=9999-12-31T23:59:59.999Z 10", "q MARKREAD #a timestamp=9999-12-31T23:59:59.999Z", "x"},
}

func c14Scenario(g *G) []c14Step {
	sc := Pick(g, c14Scenarios)
	var out []c14Step
	for _, l := range sc {
		if g.P(12) {
			continue
		}
		k, line, _ := strings.Cut(l, " ")
		if k != "q" && g.P(12) { // replace a word
			f := strings.Split(line, " ")
			f[g.N(len(f))] = Pick(g, c14Tokens)
			line = strings.Join(f, " ")
		}
		out = append(out, c14Step{K: k, L: unlatin(line), N: g.N(100)})
		if g.P(6) {
			out = append(out, out[len(out)-1])
		}
		if n := len(out); n > 1 && g.P(12) {
			out[n-1], out[n-2] = out[n-2], out[n-1]
		}
	}
	return out
}

func genC14(g *G) c14Case {
	c := c14Case{Caps: g.N(1 << len(c14Caps)), UpCaps: genUpCaps(g), Store: genStore(g), Mute: g.P(50), Reg: g.P(25), Admin: g.P(30)}
	if g.P(40) {
		c.UpCaps = []string{"sasl=PLAIN", "message-tags", "batch", "labeled-response", "extended-join", "draft/account-registration", "away-notify", "extended-monitor", "cap-notify", "server-time", "account-tag"}
	}
	c.Login = Pick(g, []string{"", "mallory/net0", "mallory/net0", "mallory"})
	mode := g.W(4, 5, 2)
	for i, n := 0, g.Size(6, 60); i < n; i++ {
		up := mode == 1 || mode == 2 && g.Bool()
		st := c14Step{N: g.N(100)}
		if g.P(15) {
			c.Steps = append(c.Steps, c14Scenario(g)...)
			continue
		}
		switch {
		case g.P(4):
			st.K = "t"
		case g.P(2):
			st.K = "x"
		case up && g.P(15):
			st.K = "q"
			st.L = Pick(g, []string{"WHO bob", "WHO #a", "WHO #a %tuhnfar,42", "WHOIS bob", "LIST", "MODE #a", "MODE mynick", "MONITOR + bob,carl", "NAMES #a", "TOPIC #a", "JOIN #b", "PRIVMSG bob :hi", "PRIVMSG #a :hi", "AUTHENTICATE PLAIN", "AUTHENTICATE AGEAYg==", "AUTHENTICATE *", "REGISTER a b c", "AWAY :x", "AWAY", "PART #b", "NICK new", "INVITE bob #a", "WHOWAS bob", "STATS u", "CHATHISTORY LATEST #a * 10", "WHO BouncerServ", "NAMES", "SETNAME x", "PART #a :detach", "JOIN #a", "WHO carl", "WHOIS carl bob", "MONITOR C", "MONITOR S"})
		case g.P(3):
			st.K = "adm"
			st.L = Pick(g, []string{"BOUNCERSERV", "BOUNCERSERV :", "BOUNCERSERV :help", "BOUNCERSERV :network status", "BOUNCERSERV :channel status", "BOUNCERSERV :channel create #x", "BOUNCERSERV :certfp generate", "BOUNCERSERV :user run nobody help", "BOUNCERSERV :user run alice network status", "BOUNCERSERV :user run alice channel create #zz", "BOUNCERSERV :sasl status", "BOUNCERSERV :user create", "BOUNCERSERV :server status", "BOUNCERSERV :network quote X", "BOUNCERSERV :server notice hello", "BOUNCERSERV :server debug true", "BOUNCERSERV :user update -nick x", "BOUNCERSERV :user delete nobody", c14Line(g, false)})
		case up:
			st.K = "u"
			st.L = c14Line(g, true)
		default:
			st.K = "c"
			st.L = c14Line(g, false)
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func runC14(r *R, c c14Case) error {
	return bubble(r, func() error {
		w := NewWorld(r)
		defer w.Finish()
		w.setStore(c.Store)
		s0 := w.AddServer(srvAddr0)
		s0.Ghost = true
		s0.CM, s0.Caps = "rfc1459", c.UpCaps
		s1 := w.AddServer(srvAddr1)
		s1.Ghost = true
		s1.CM = "rfc1459"
		s2 := w.AddServer("10.9.0.7:6697")
		s2.Ghost = true
		s2.CM = "rfc1459"
		mal := w.AddUser("mallory", func(u *database.User) { u.Nick = "mynick"; u.Admin = c.Admin })
		n0 := w.AddNetwork(mal, "net0", netAddr0, nil)
		w.AddNetwork(mal, "net1", netAddr1, nil)
		w.AddNetwork(mal, "net2", "irc+insecure://10.9.9.9:1", func(n *database.Network) { n.Enabled = false })
		w.AddUser("zed", func(u *database.User) { u.Enabled = false })
		ali := w.AddUser("alice", func(u *database.User) { u.Nick = "ally" })
		w.AddNetwork(ali, "net0", "irc+insecure://10.9.0.7:6697", nil)
		w.must(w.DB.StoreChannel(ctxBg, n0.ID, &database.Channel{Name: "#a"}))
		for _, nk := range []string{"bob", "carl"} {
			s0.AddUser(nk)
			s1.AddUser(nk)
			s2.AddUser(nk)
		}
		if c.Reg {
			s0.RegHook = func(*UpConn, *irc.Message) bool { return true }
		}
		w.Start()
		w.Sleep(time.Second)
		if c.Mute {
			s0.Hook = func(*UpConn, *irc.Message) bool { return true }
		}
		var caps []string
		for i, k := range c14Caps {
			if c.Caps&(1<<i) != 0 {
				caps = append(caps, k)
			}
		}
		login := func(o LoginOpts) *Client {
			// capabilities which aren't available spoil their group only
			caps := o.Caps
			o.Caps = nil
			cl, _ := w.MustLogin(o)
			for _, k := range caps {
				cl.Send("CAP REQ " + k)
			}
			w.Wait()
			return cl
		}
		wit0 := login(LoginOpts{User: "mallory", Network: "net0", Client: "w0", Caps: caps})
		wit1 := login(LoginOpts{User: "mallory", Network: "net1", Client: "w1"})
		other := login(LoginOpts{User: "alice", Network: "net0", Client: "o"})
		dropWit := false // the hostile client may legitimately end its user's sessions
		renamed, dropW0 := false, false
		var att *Client
		attach := func() {
			if c.Login == "" {
				att = w.Connect()
				return
			}
			user, net, _ := strings.Cut(c.Login, "/")
			att, _ = w.Login(LoginOpts{User: user, Network: net, Client: "att"})
			for _, k := range caps {
				att.Send("CAP REQ " + k)
			}
			w.Wait()
		}
		witness := func(desc string) error {
			if err := w.CheckPanics(); err != nil {
				return fmt.Errorf("%s: %w", desc, err)
			}
			type wt struct {
				name string
				cl   *Client
				srv  *IRCd
			}
			list := []wt{{"the other user's session", other, s2}}
			if !dropWit {
				list = append(list, wt{"the user's session on the other network", wit1, s1})
			}
			if !dropWit && !dropW0 {
				list = append(list, wt{"the user's other session on the network", wit0, nil})
			}
			for _, x := range list {
				if x.cl.Closed() {
					return vio("session-ended", "%s: %s was disconnected: %v", desc, x.name, fmtMsgs(x.cl.Take()))
				}
				x.cl.Take()
				tok := fmt.Sprint("tok", r.counters["pings"])
				r.Count("pings")
				ok := false
				for _, m := range x.cl.Do("PING " + tok) {
					ok = ok || m.Command == "PONG" && param(m, len(m.Params)-1) == tok
				}
				if !ok {
					return vio("session-stuck", "%s: %s gets no answer", desc, x.name)
				}
				if x.srv == nil || x.srv == s1 && renamed {
					continue
				}
				uc := x.srv.Conn()
				if uc == nil || uc.IsClosed() || !uc.IsRegistered() {
					return vio("network-lost", "%s: the connection of %s to its network is gone", desc, x.name)
				}
				uc.Raw(":bob!u@h PRIVMSG " + uc.CurNick() + " :" + tok)
				w.Wait()
				ok = false
				for _, m := range x.cl.Take() {
					ok = ok || m.Command == "PRIVMSG" && param(m, 1) == tok
				}
				if !ok {
					return vio("session-stuck", "%s: %s isn't relayed messages", desc, x.name)
				}
			}
			return nil
		}
		var admLn *memListener
		for i, st := range c.Steps {
			desc := fmt.Sprintf("step %d (%s %q)", i, st.K, st.L)
			r.Tracef("--- %s", desc)
			line := strings.ReplaceAll(latin(st.L), "\n", "")
			switch st.K {
			case "c":
				if att == nil || att.Closed() {
					attach()
				}
				low := strings.ToLower(line)
				// legitimate ways to end or change the user's own networks
				if strings.Contains(low, "network ") || strings.Contains(low, "user ") || strings.Contains(low, "bouncer") {
					renamed = true
				}
				if strings.Contains(low, "user ") || strings.Contains(low, "del") {
					dropWit = true
				}
				att.Send(line)
			case "u":
				uc := s0.Conn()
				if uc == nil {
					break
				}
				uc.Raw(line)
			case "q":
				if strings.HasPrefix(line, "AUTHENTICATE") {
					dropW0 = true // may be refused by closing the connection
				}
				if !wit0.Closed() {
					wit0.Send(line)
				}
			case "t":
				w.Sleep([]time.Duration{time.Second, 31 * time.Second, 5 * time.Minute}[st.N%3])
			case "x":
				if st.N%2 == 0 {
					if att != nil {
						att.Close()
					}
				} else if uc := s0.Conn(); uc != nil {
					uc.Close()
					w.Sleep(70 * time.Second)
				}
			case "adm":
				// the administration socket
				if admLn == nil {
					admLn = newMemListener()
					go w.Srv.Serve(admLn, w.Srv.HandleAdmin)
				}
				cl := w.connectTo(admLn)
				cl.Send(line)
				w.Wait()
				cl.Send("BOUNCERSERV :user status")
				w.Wait()
				cl.Close()
			default:
				return errInvalid{}
			}
			w.Wait()
			if st.K != "t" {
				r.NonTrivial()
			}
			if i%4 == 3 || i == len(c.Steps)-1 {
				if err := witness(desc); err != nil {
					return err
				}
			} else if err := w.CheckPanics(); err != nil {
				return fmt.Errorf("%s: %w", desc, err)
			}
		}
		w.Sleep(10 * time.Minute)
		if err := witness("ten minutes later"); err != nil {
			return err
		}
		if cl, m := w.Login(LoginOpts{User: "alice", Network: "net0", Client: "new"}); m == nil {
			return vio("login-refused", "the other user cannot log in any more: %v", fmtMsgs(cl.Take()))
		}
		if !w.Stop() {
			return vio("shutdown", "the shutdown does not complete")
		}
		return w.CheckPanics()
	})
}

func init() {
	p := prop("C14", "a hostile line was sent to the bouncer", 9000, 300000,
		"lines contain no line feed (it is the line separator) and are shorter than 20 KB",
		"a hostile client may end its own user's sessions by the management commands meant for that; it does not manage other users")
	add(p, "hostile", 16, genC14, runC14)
}
