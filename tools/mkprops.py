#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, level="exploration", tech="", note="", claimed=True, na=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, hook=hook, level=level, tech=tech, note=note, claimed=claimed, na=na))
DIAL = "dial.go/dial_verif.go: the upstream dialer can be replaced (build tag verif) so that the simulated IRC servers live in memory, on a virtual clock"

p("C01", "Only valid credentials open a session; disabled users are kept out",
  "A connection is welcomed, and is shown or can change anything belonging to a user, only after it has presented credentials which are valid for exactly that user and that user is enabled; whatever commands are sent, in whatever order, before that, they have no effect on any user or upstream server. Every valid way of logging in (connection password, SASL PLAIN, with any network or client suffix) leads to the user and network it names. Changing a password makes the old one useless for new logins at once, and disabling or deleting a user ends their sessions.",
  ["inputs", "histories"], "all pre-registration command sequences over PASS, USER, NICK, CAP, AUTHENTICATE (split, aborted, malformed), BOUNCER BIND and post-registration commands; all user sets, password/enabled updates interleaved with logins",
  "The tests log in once with the right password; they never try sequences of failed, aborted, repeated or interleaved attempts, other users' passwords, or credentials which change while sessions exist.",
  ["downstream.go", "server.go", "user.go", "auth/internal.go", "auth/auth.go", "database/database.go"],
  [("registration state machine", "downstream.go: handleMessageUnregistered, register, authenticate"), ("password verification", "auth/internal.go, database.User.CheckPassword"), ("session teardown on user updates", "user.go: updateUser/stop")],
  ["lines sent to the client", "lines sent to the upstream server", "database rows"], DIAL,
  tech="model-based random command sequences against an authentication model")

p("C02", "Users and networks are isolated from each other",
  "Nothing that belongs to one user (networks, channels, messages, history, read markers, monitors, metadata) is ever shown to, or changed by, a session of another user who is not using an administrator command, and a session bound to one network never sees or affects another network of the same user, except through the documented bouncer-networks view. This holds for any interleaving of the sessions' commands and upstream traffic, even if names of users' channels, nicks and networks coincide.",
  ["inputs", "histories", "schedules"], "all sets of users/networks with coinciding names, and all interleavings of client commands and upstream traffic",
  "The tests run with a single user, mostly with a single network; isolation failures need two or more of them with the same names.",
  ["user.go", "downstream.go", "upstream.go", "server.go", "service.go", "msgstore/db.go", "msgstore/fs.go", "msgstore/memory.go", "database/sqlite.go"],
  [("per-user goroutine and network list", "user.go"), ("network-scoped iteration over sessions", "user.go: forEachDownstream"), ("per-user/per-network SQL predicates", "database/sqlite.go"), ("per-user log directories", "msgstore/fs.go")],
  ["lines sent to each client", "lines sent to each upstream server"], DIAL,
  tech="taint tracking: generated multi-user histories with unique tokens, non-interference oracle")

p("C03", "Upstream messages reach every interested client once, intact, in order",
  "Every PRIVMSG, NOTICE, TAGMSG, JOIN, PART, KICK, QUIT, NICK, TOPIC, MODE, INVITE, SETNAME, AWAY, ACCOUNT or CHGHOST the upstream server sends while a channel is attached is delivered exactly once to each registered session of that network whose negotiated capabilities cover it, in the order sent and with the same source, targets and text, and to no session that did not negotiate the capability. Message tags are delivered according to each session's capabilities (time, account, message id, client-only tags), and server-time values sent by the server are preserved. Messages of an upstream user who carries the name of the bouncer's service (BouncerServ, in any case) are never relayed.",
  ["inputs", "histories", "configurations"], "all sequences of upstream messages x capability sets of several concurrent sessions x upstream capability sets",
  "The single relay test sends one PRIVMSG to one client without capabilities.",
  ["upstream.go", "downstream.go", "user.go"],
  [("per-command forwarding", "upstream.go: handleMessage"), ("capability filtering", "downstream.go: SendMessage"), ("fan-out", "user.go: forEachDownstream")],
  ["lines sent to each client"], DIAL,
  tech="model-based random upstream traffic, per-session expected-stream oracle")

p("C04", "What a client sends reaches the right upstream target, echoed correctly",
  "A PRIVMSG, NOTICE or TAGMSG a registered session sends to one or several targets is sent once per target to that session's upstream server with the same text and client-only tags, and no message goes anywhere else. The other sessions of that network see it exactly once as coming from the user, the sending session sees it only if it negotiated echo-message, and this holds whether or not the upstream server echoes messages. JOIN, PART, TOPIC, MODE, KICK, INVITE, NICK and other commands are passed on with their arguments unchanged.",
  ["inputs", "histories", "configurations"], "all message/target/tag combinations x upstream echo support x sets of sessions and capabilities",
  "No test sends a message from a client to the upstream server.",
  ["downstream.go", "upstream.go", "user.go"],
  [("outgoing messages", "downstream.go: handleMessageRegistered PRIVMSG/NOTICE/TAGMSG"), ("echo bookkeeping", "upstream.go: handleMessage PRIVMSG"), ("labels", "upstream.go: SendMessageLabeled")],
  ["lines received by the upstream server", "lines sent to each client"], DIAL,
  tech="model-based random client commands, differential oracle over upstream echo support")

p("C05", "A client that comes back gets exactly the messages it missed",
  "After a named client disconnects (at any point) and reconnects, the bouncer replays to it exactly the messages of its network that it had not received (acknowledged), in order, each once, with their original time where the client asked for it, provided history is stored, the client did not opt into fetching history itself, and it had been connected before (a client name that is new is not sent a backlog). Each client name has its own position, which survives nick and network updates, detaching, and other clients' activity; a session without a name shares the nameless position.",
  ["histories", "schedules", "crash_points"], "all interleavings of connects, disconnects, upstream messages and outgoing messages of several client names, for each message store kind",
  "The tests never disconnect and reconnect a client.",
  ["user.go", "downstream.go", "upstream.go", "msgstore/memory.go", "msgstore/fs.go", "msgstore/db.go", "database/sqlite.go"],
  [("delivery receipts", "user.go: deliveredStore"), ("backlog", "downstream.go: sendNetworkBacklog/sendTargetBacklog"), ("persisted receipts", "database: ClientDeliveryReceipts")],
  ["lines sent to each client"], DIAL,
  tech="stateful connect/disconnect/message histories against a delivery-position model")

p("C06", "CHATHISTORY and SEARCH answer exactly what was said",
  "For every CHATHISTORY subcommand (BEFORE, AFTER, LATEST, BETWEEN in both directions, TARGETS), selector and limit, the reply is the batch of messages that the documented selection yields over the messages that really were exchanged with that target, in ascending time order, each at most once, never more than the limit, with the times at which they happened. SEARCH returns exactly the messages which match all given criteria, within its limit. Private messages sent in the context of a shared channel belong to that channel; conversations with NickServ are not recorded. Malformed requests get a FAIL or error reply and nothing else.",
  ["inputs", "histories"], "all message histories x all subcommands, selectors (including ones equal to a message's time), limits, and stores",
  "One test makes one query on an empty-ish history.",
  ["downstream.go", "msgstore/msgstore.go", "msgstore/fs.go", "msgstore/db.go", "database/sqlite.go"],
  [("CHATHISTORY", "downstream.go"), ("range queries", "msgstore/*.go, database/sqlite.go: ListMessages")],
  ["lines sent to the client"], DIAL,
  tech="random histories and queries against a list model")

p("C07", "Message stores return every stored message, whichever store is used",
  "A message that was accepted by a message store is returned by every later query whose range, target, network and text criteria it satisfies, with its time (to the store's documented precision), sender, command and text unchanged; nothing else is returned, in ascending order, never more than the limit, the limit keeping the messages nearest to the documented end of the range. The database store and the file-system store agree with each other and with a plain list under any sequence of appends and queries, and queries that start after a returned message identifier yield exactly the messages appended later.",
  ["inputs", "histories"], "all sequences of appends (several users, networks, targets, days) and queries",
  "No test covers the database store, and none compares query results with a model.",
  ["msgstore/fs.go", "msgstore/db.go", "msgstore/memory.go", "msgstore/msgstore.go", "database/sqlite.go"],
  [("log file scanning", "msgstore/fs.go"), ("SQL queries", "database/sqlite.go: ListMessages"), ("message identifiers", "msgstore/msgstore.go")],
  ["msgstore API results", "log files", "database rows"],
  tech="stateful differential testing of the three stores and a list model")

p("C08", "Stored files never leave, or mix up, their own directory",
  "Whatever the names of users, networks, channels, nicks and files, the message log and file upload stores only ever create, read or rename files below their configured directory, below the part that belongs to that user (and network). Two different targets whose names are valid and differ never share a log file, and renaming a network keeps its history readable.",
  ["inputs", "histories"], "all user, network, target and file names, including path metacharacters",
  "No test uses hostile names.",
  ["msgstore/fs.go", "fileupload/fs.go", "fileupload/http.go", "user.go", "service.go"],
  [("name escaping", "msgstore/fs.go: EscapeFilename"), ("network rename", "msgstore/fs.go: RenameNetwork"), ("upload paths", "fileupload/fs.go")],
  ["directory tree below a scratch directory which holds decoy files"],
  tech="hostile name generation, filesystem snapshot oracle in a scratch directory")

p("C09", "Read markers only move forward and are shared by all of a user's clients",
  "The read marker of a target never goes back in time: after any sequence of updates from any clients, every client that asks is told the latest timestamp that was ever set for that target (under the network's case mapping), and every change is announced to all of the user's sessions on that network that support markers. The marker survives reconnects and bouncer restarts, and is kept per user, network and target.",
  ["inputs", "histories", "crash_points"], "all interleavings of marker updates and queries by several sessions, names in any case, restarts at any point",
  "No test uses markers.",
  ["downstream.go", "user.go", "database/sqlite.go"],
  [("MARKREAD", "downstream.go"), ("persistence", "database: ReadReceipt")],
  ["lines sent to each client", "database rows"], DIAL,
  tech="stateful marker histories with restarts against a max-register model")

p("C10", "A client that attaches is shown the channel state the server has",
  "At any moment, a session that connects or re-attaches is told exactly the channels its network's user is in and is attached to, each with the current topic and its author, and members with the current membership prefixes as implied by everything the server has sent; NAMES, TOPIC and MODE queries and WHO answers served by the bouncer itself agree with the same state. Joins, parts, kicks, quits, nick changes and mode changes, in any order and letter case, keep it so.",
  ["inputs", "histories", "configurations"], "all well-formed upstream histories of channel events x case mappings x PREFIX/CHANMODES declarations x points at which a session attaches",
  "No test checks the state shown to a client attaching later.",
  ["upstream.go", "downstream.go", "user.go", "irc.go", "xirc/casemapping.go"],
  [("channel state tracking", "upstream.go"), ("state replay", "downstream.go: forwardChannel, sendNames, sendTopic"), ("WHO cache", "user.go/upstream.go: cacheUserInfo")],
  ["lines sent to the attaching client"], DIAL,
  tech="simulated IRC network as the reference model, random channel event histories")

p("C11", "Joined channels are remembered, with their keys, and rejoined",
  "The set of saved channels follows what the user asks to JOIN and PART while the network is connected (and the channel management commands), including keys (a JOIN without a key keeps the saved one); kicks, joins the server refuses or forces, and other people's joins and parts do not change it. After every reconnection to the network or restart of the bouncer, exactly the saved channels are joined again, with their keys, in messages that respect the protocol's line limits. Channel names that differ only by letter case under the network's case mapping denote one channel.",
  ["histories", "crash_points", "fault_sequences"], "all sequences of join/part/kick/update operations, disconnects and restarts at any point, long channel lists",
  "No test reconnects or restarts.",
  ["user.go", "upstream.go", "downstream.go", "xirc/genmsg.go", "database/sqlite.go"],
  [("channel records", "user.go: network.channels"), ("rejoin", "upstream.go: RPL_ENDOFMOTD handling, xirc.GenerateJoin")],
  ["lines received by the upstream server", "database rows"], DIAL,
  tech="stateful join/part/kick/reconnect/restart histories against a set model")

p("C12", "Detached channels stay joined, stay quiet, and relay what was asked for",
  "Detaching a channel makes the sessions see a PART while the bouncer stays in the channel upstream; from then on messages of that channel reach the sessions only as the notices that the channel's relay setting asks for (all, highlights, none). A channel is re-attached by joining it or by the events its setting names, after which sessions see its full state again and the messages missed; automatic detaching happens when the configured time passes without the configured kind of activity, and not before. All settings survive restarts.",
  ["inputs", "histories", "schedules", "configurations"], "all sequences of detach/attach/messages/time passing x relay, reattach-on, detach-on, detach-after settings",
  "No test detaches a channel.",
  ["user.go", "upstream.go", "downstream.go", "service.go", "irc.go"],
  [("detach/attach", "user.go"), ("auto-detach timer", "upstream.go: updateAutoDetach"), ("relay of detached channels", "upstream.go: handleDetachedMessage")],
  ["lines sent to each client", "channel membership at the simulated server"], DIAL,
  tech="stateful detach histories on a virtual clock against a state-machine model")

p("C13", "Replies go to the client that asked, and every query is terminated",
  "Replies and errors that an upstream server sends to a query are delivered to the session that issued it, complete and in order, also when several sessions have queries of the same kind outstanding, and to no other session: for every command when the server supports labeled responses, and for WHO, WHOIS, LIST and account registration (REGISTER, VERIFY) without them (other replies of such servers cannot be attributed and may also be shown to the user's other sessions on that network). WHO, WHOIS, LIST, REGISTER and VERIFY get exactly one terminating reply or error, also when the upstream connection is lost, and a query the server never answers doesn't hold up later ones for more than 30 seconds.",
  ["inputs", "histories", "schedules"], "all interleavings of queries of several sessions and of upstream replies, with and without labeled responses",
  "No test has two sessions with outstanding queries.",
  ["downstream.go", "upstream.go", "user.go"],
  [("pending command queue", "upstream.go: enqueueCommand/dequeueCommand"), ("labels", "upstream.go: SendMessageLabeled, downstream.go label handling")],
  ["lines sent to each client"], DIAL,
  tech="random concurrent query histories, request/response matching oracle")

p("C14", "No input from clients or servers can take the bouncer down",
  "Whatever bytes a client or an upstream server sends, in any state, the bouncer process keeps running, no session of the user other than the offending connection is disturbed, and the user's other sessions and networks keep working; malformed messages are answered by an error, ignored, or at worst end the connection they came from, and one message never turns into several on its way through the bouncer, whatever transport it arrives on. A line without an end does not make the bouncer buffer without limit, requests sent in one go are handled like requests sent one by one, and no sequence of them makes sessions wait for each other for ever. Shutting down always completes.",
  ["inputs", "histories"], "all byte sequences and all grammar-level mutations of protocol messages, in all connection states and over all transports",
  "The tests only send well-formed messages.",
  ["upstream.go", "downstream.go", "conn.go", "user.go", "irc.go", "xirc/whox.go", "service.go"],
  [("message validation", "upstream.go, downstream.go: parseMessageParams"), ("panic containment", "server.go: Handle, user.go: run")],
  ["process exit", "worker panic counter", "liveness of a witness session"], DIAL,
  tech="grammar-based and mutational fuzzing of both protocol sides with a liveness oracle")

p("C15", "Administrator powers and limits bind every way of using the service",
  "The commands and options reserved to administrators have no effect when a non-administrator uses them, through the service nick or any session, and they produce an error. The per-user limit on enabled networks is never exceeded by any sequence of create and delete requests through any interface. A rejected command changes nothing, and every command gets an answer. A notice an administrator broadcasts reaches every session of every user once, as written.",
  ["inputs", "histories", "configurations"], "all service command lines (including abbreviations, quoting, option order) by all kinds of users",
  "A handful of command lines are tested for parsing only.",
  ["service.go", "downstream.go", "user.go", "server.go"],
  [("admin flag on commands", "service.go: serviceCommandSet"), ("limit", "user.go: createNetwork / checkNetwork")],
  ["service replies", "database rows"], DIAL,
  tech="random service command lines, before/after state comparison against a permission model")

p("C16", "Network management is all-or-nothing and every view of it agrees",
  "After any sequence of network create, update and delete requests from the service or from the bouncer-networks commands, the list each session is shown, the service's status, the notifications sent to sessions that asked for them, the stored configuration, and the upstream connections that exist all agree with each other. A request that is refused (invalid address, duplicate name, unknown network, read-only or unknown attribute) leaves all of them unchanged. An enabled network is connected to with its current settings, and a disabled or deleted one is not; an enabled network which is not connected is shown with the reason, also to sessions which log in later. A raw command sent with the service reaches the server of the network it names, and no other.",
  ["inputs", "histories", "configurations"], "all sequences of requests with generated attribute sets from several sessions",
  "One test creates one network and connects to it.",
  ["user.go", "downstream.go", "service.go", "database/sqlite.go"],
  [("network updates", "user.go: createNetwork/updateNetwork/deleteNetwork/checkNetwork"), ("notifications", "downstream.go: BOUNCER, user.go: notifyBouncerNetworkState"), ("attribute encoding", "irc.go / downstream.go: getNetworkAttrs")],
  ["lines sent to each client", "database rows", "connections at the simulated servers"], DIAL,
  tech="stateful management histories against a configuration model, cross-view agreement")

p("C17", "User management does what it says, and nothing on failure",
  "User create, update and delete requests by authorised sessions take effect on the stored users and on what logins are possible exactly as requested, and refused ones change nothing. Deleting a user removes everything that belonged to them and disconnects them from every server and client; a running and a restarted bouncer agree on the users, their flags and their networks. A password changed by somebody else ends the user's sessions. Users are disabled for inactivity exactly when that is configured, they have no session, and their last one ended (or they were created) longer ago than the configured delay.",
  ["inputs", "histories", "crash_points"], "all sequences of user management commands, logins and restarts",
  "The tests never manage users.",
  ["service.go", "user.go", "server.go", "database/sqlite.go"],
  [("user commands", "service.go: handleUserCreate/Update/Delete"), ("user lifecycle", "server.go: createUser/addUserLocked, user.go: stop")],
  ["service replies", "login outcomes", "database rows"], DIAL,
  tech="stateful user management histories against a user-table model")

p("C18", "The database returns what was stored, for the right owner only",
  "For every sequence of database operations (SQLite backend), each read returns exactly the records last stored and not deleted, with every field unchanged, belonging to the user or network asked for; updates and deletions affect only their own record and what it owns, uniqueness rules are enforced without side effects, and the same holds after closing and reopening the database. Deleting a user or network leaves no record of theirs.",
  ["inputs", "histories", "crash_points"], "all sequences of store/update/delete/list calls with generated field values, with reopening at any point",
  "The database tests only cover schema migration.",
  ["database/sqlite.go", "database/database.go", "database/sqlite_schema.sql"],
  [("SQL statements", "database/sqlite.go"), ("cascades", "database/sqlite_schema.sql")],
  ["database API results"],
  tech="stateful model-based testing of the database interface")

p("C19", "Log lines parse back to the messages they were written from",
  "Every message that the log format can represent parses back, from the line written for it, to the same command, sender, target and text at the same time of day; messages that are not logged produce no line. No message text, nick or target can inject additional lines, nor make a line parse as a message of another kind or from another sender.",
  ["inputs"], "all messages with generated senders, targets and texts (including control characters, brackets, stars and colons), all line strings",
  "The existing tests use a fixed list of lines.",
  ["msgstore/znclog/znclog.go", "msgstore/fs.go"],
  [("formatting", "znclog.go: MarshalLine"), ("parsing", "znclog.go: UnmarshalLine")],
  ["marshalled lines and parsed messages"],
  tech="round-trip property over generated messages and fuzzed lines")

p("C20", "Protocol encoders respect line limits and lose nothing",
  "Lists of channel members, monitored nicks, channels to join (with keys), ISUPPORT tokens, MOTD lines and SASL responses of any size are encoded (xirc.Generate*) to messages that, taken together, carry every element exactly once and unchanged, in order (channels to join in any order); JOIN, MONITOR, AUTHENTICATE and NAMES messages fit in 512 bytes with their line break (not counting a prefix or nick added later), and no message has more than 15 parameters. Case mappings are idempotent, identify exactly the names the protocol says are equal, and maps keyed by them behave as maps over those classes. WHO/WHOX replies for any field selection, and timestamps, survive a round trip through their encoder and parser, CTCP messages are recognised as specified, and a member's ranks stay sorted and duplicate-free under any additions and removals.",
  ["inputs"], "all element lists, names and field selections",
  "Tests for these use one or two fixed examples.",
  ["xirc/genmsg.go", "xirc/casemapping.go", "xirc/whox.go", "xirc/xirc.go"],
  [("generators", "xirc/genmsg.go"), ("case mappings", "xirc/casemapping.go"), ("WHOX", "xirc/whox.go")],
  ["encoded lines"],
  tech="round-trip and metamorphic properties over generated values")

p("C21", "Capability negotiation and server tokens shown to clients are truthful",
  "Capabilities can be requested and dropped at any time; every request is acknowledged or rejected as a whole and has exactly the acknowledged effect, listings show exactly what is available and enabled, and a session is told (if it asked to be) whenever capabilities which depend on the upstream server appear or vanish. Tokens (ISUPPORT) shown to a session agree with what its upstream server declared on the current connection, including removals (a token which only an earlier connection declared may linger), and never advertise features the bouncer does not pass through.",
  ["inputs", "histories", "configurations"], "all capability request sequences x upstream capability sets x upstream connects/disconnects x token declarations",
  "The tests negotiate no or one fixed set of capabilities.",
  ["downstream.go", "upstream.go", "xirc/caps.go", "xirc/genmsg.go"],
  [("CAP handling", "downstream.go: handleCap, updateSupportedCaps"), ("ISUPPORT", "upstream.go: RPL_ISUPPORT, downstream.go: sendISupport / welcome")],
  ["lines sent to the client"], DIAL,
  tech="stateful negotiation histories against a capability model")

p("C22", "Upstream registration follows the network's configuration",
  "Whenever the bouncer connects to an enabled network it registers with that network's configured (or inherited) nick, user name, real name and password, negotiates no capability that the server did not offer, authenticates with the configured SASL mechanism before completing registration and never discloses credentials to a server to which they do not belong, then runs the configured connect commands once, in order. It falls back to other nicks when the nick is taken and regains it when it becomes free, keeps retrying failed connections, with delays, and sends nothing to a server whose certificate is neither valid for its name nor matches the pinned fingerprint.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all network settings x server behaviours (capability listings, refusals, disconnects, nick collisions)",
  "The test server accepts everything and offers no capability.",
  ["upstream.go", "user.go", "certfp.go", "database/database.go"],
  [("registration", "upstream.go: register, handleMessage CAP/AUTHENTICATE, runUntilRegistered"), ("reconnection", "user.go: network.run"), ("TLS pinning", "upstream.go: connectToUpstream")],
  ["lines received by the simulated server"], DIAL,
  tech="random network configurations against random server behaviours, transcript oracle")

p("C23", "Presence is aggregated correctly over all of a user's clients",
  "On a network with automatic away enabled, the user is marked away upstream exactly when every session of theirs bound to that network has marked itself away, or there is none; otherwise they never are. This holds after every AWAY command (an empty message meaning not away), session arrival or departure, and reconnection. The set of nicks monitored upstream is the union of what the sessions on that network monitor (plus the configured nick while someone else uses it), each session being told about exactly the nicks it monitors, with their current status, as long as it monitors them, and over reconnections.",
  ["inputs", "histories"], "all interleavings of sessions connecting, disconnecting, AWAY and MONITOR commands, nick status changes and upstream reconnects",
  "No test uses AWAY or MONITOR.",
  ["downstream.go", "upstream.go", "user.go"],
  [("away", "upstream.go: updateAway"), ("monitor", "upstream.go: updateMonitor, downstream.go: MONITOR")],
  ["lines received by the simulated server", "lines sent to each client"], DIAL,
  tech="stateful presence histories against an aggregation model")

p("C24", "Uploaded files are authenticated, intact, and served safely",
  "An upload is accepted only from a user presenting valid credentials, the file fetched from the returned location has exactly the uploaded bytes, and no later upload changes it. A file is served with a type and disposition that cannot make a browser run it as a page of the bouncer's origin, requests for any other path return an error, and uploads that are too large, cut short, or come from a web origin that is not allowed are refused and leave nothing behind. With the HTTP backend, body, type, name and user are passed on unchanged and the backend's answer decides.",
  ["inputs", "histories"], "all bodies, file names, content types, header combinations and request paths",
  "There are no tests for uploads.",
  ["fileupload/http.go", "fileupload/fs.go", "fileupload/fileupload.go"],
  [("authorization", "fileupload/http.go"), ("storage", "fileupload/fs.go")],
  ["HTTP responses", "scratch directory content"],
  tech="stateful HTTP request generation against a content map, in a scratch directory")

p("C25", "Configuration, ident and proxy headers are interpreted as documented",
  "Every configuration file is either rejected with an error that names the problem or takes effect exactly as documented, with documented defaults, when soju starts and when it reloads its configuration (an invalid new file changes nothing), and no combination of directives crashes. Listeners serve what their URI says, and only where plain text is allowed. The ident server answers for exactly the live upstream connections, to the hosts they are connected to, with an identifier that is stable per user and differs between users. The address of a client forwarded by a proxy (PROXY header, or last element of Forwarded / X-Forwarded-For) is believed only when it comes from a network configured as trusted, and WebSocket connections are accepted only from the same host or allowed origins. Local addresses picked for users lie in the configured range and differ between users.",
  ["inputs", "histories", "configurations"], "all configuration texts, ident queries and registration histories, forwarded headers and peers, address ranges",
  "There are no tests for them.",
  ["config/config.go", "identd/identd.go", "cmd/soju/main.go", "server.go", "upstream.go"],
  [("configuration loading", "config/config.go"), ("ident", "identd/identd.go"), ("forwarded addresses", "server.go")],
  ["parsed configuration", "ident responses", "addresses shown and dialled"], DIAL,
  tech="generated configurations / queries against reference interpretations")

p("C26", "Web push notifies exactly of what concerns the user, encrypted for them",
  "A registered push subscription receives, encrypted so that only its holder can read them and signed with the advertised VAPID key, exactly one notification for each highlight in a channel, each private message and each invitation from someone else on that network (even when the message carries large tags), plus the read markers of targets it was notified about, and nothing when a message does not qualify (other messages, one's own, server messages, highlights in detached channels which relay nothing). Subscriptions are kept per user and network across restarts, the VAPID key does not change, registering again replaces keys, unregistering, an endpoint reporting an expired subscription, or failures of a month-old one stop deliveries, and endpoints that are not public HTTPS services are refused and never contacted, not even through a redirection. A WEBPUSH command is acknowledged exactly if it took effect.",
  ["inputs", "histories"], "all sequences of subscription changes and upstream messages, endpoints and keys",
  "There are no tests for it.",
  ["server.go", "user.go", "downstream.go", "upstream.go", "database/sqlite.go"],
  [("WEBPUSH command", "downstream.go"), ("delivery", "user.go: broadcastWebPush, server.go: sendWebPush")],
  ["HTTP requests made by the bouncer", "lines sent to the client"], DIAL,
  tech="stateful subscription and message histories, decrypting push endpoint as oracle")

p("C27", "A client always knows its own identity",
  "After any sequence of nick, user name, host, account and real name changes by the client, by other sessions, by the server or by reconnections, what each session has been told its own nick, host, account and real name are (the latter two as far as it enabled the capabilities for them) agrees with what the upstream server has told the bouncer for the user on the current connection. While disconnected, a session is told about every requested change of the nick or real name that will be used, and a new session is told those. A session which isn't bound to a network is told the user-wide ones. Messages addressed to a session always use the nick it was told, and a session never receives a message prefixed by itself under a nick it does not know.",
  ["histories", "inputs"], "all sequences of identity changes from all sides, sessions connecting at any point, upstream disconnects",
  "The tests never change a nick.",
  ["downstream.go", "upstream.go", "user.go"],
  [("nick tracking", "downstream.go: updateNick, updateHost, updateAccount, updateRealname"), ("prefix translation", "downstream.go: marshal…")],
  ["lines sent to each client"], DIAL,
  tech="stateful identity histories, per-session client-side tracker compared with the server model")

p("C28", "State survives restarts and database faults never corrupt it",
  "Stopping the bouncer (or losing it: nothing more is written) between requests and starting it again restores users, networks with their credentials, channels with their settings and keys, and read markers, exactly as sessions saw them and as servers were told: what is in use is what is stored. If a database operation needed by a service, BOUNCER, NICK, SETNAME or MARKREAD request fails, the request is answered with an error and changes neither what is stored nor what is in use (deleting a user may still stop it until its next login; channels joined, parted or detached by a client stay so only until the restart). The session stays open, messages are still relayed, history requests fail or are complete, and a client which was away gets what it missed, also after a restart. Users which cannot be loaded at startup leave nothing half running: no second connection to a server, nothing that shutdown doesn't stop.",
  ["crash_points", "fault_sequences", "histories"], "all histories of requests, messages and restarts x all sets of database calls of a request which fail",
  "No test restarts the bouncer or injects a fault.",
  ["user.go", "server.go", "service.go", "downstream.go", "database/sqlite.go"],
  [("persist before acknowledge", "user.go, service.go"), ("startup", "server.go: Start, user.go: newUser")],
  ["database rows", "lines sent to each client", "lines received by the simulated server"], DIAL,
  level="fault_enumeration",
  tech="fault injection at generated database calls and restart points, before/after comparison")

p("C29", "Upstream credentials are learned, kept and forgotten as documented",
  "Each network has at most one set of stored upstream credentials. Registering or identifying with NickServ (IDENTIFY, REGISTER and SET PASSWORD in private messages to it, in any letter case), a successful SASL PLAIN authentication of a client with the upstream network, a successful account registration, and the service's sasl set-plain command store exactly the account and password used (the current nick if no account is named), for that network only; sasl reset and SASL ANONYMOUS remove them. Nothing else changes them: no other NickServ command, no failed, aborted or unfinished authentication or registration, no message to somebody else; and a configured certificate is never replaced by learned credentials. The bouncer authenticates with exactly the stored credentials on every later connection to a server which offers the mechanism, also after a restart, with none otherwise, and sasl status names the account but never the password. Each authentication or registration request gets exactly one outcome.",
  ["inputs", "histories", "configurations"], "all sequences of NickServ messages, SASL exchanges, account registrations, service commands, reconnections and restarts of two sessions x server capabilities",
  "A unit test checks the parsing of single NickServ messages at most; nothing covers storing or using the result.",
  ["downstream.go", "upstream.go", "user.go", "service.go"],
  [("NickServ parsing", "downstream.go: parseNickServCredentials"), ("saving", "user.go: autoSaveSASLPlain"), ("outcome of AUTHENTICATE, REGISTER, VERIFY", "upstream.go: handleMessage"), ("service", "service.go: handleServiceSASL*")],
  ["database rows", "AUTHENTICATE lines received by the simulated server", "lines sent to each client"], DIAL,
  tech="model of the stored credentials over generated histories, compared with the database and with what the server receives")

na = json.load(open(V + "/tools/unclaimed.json")) if os.path.exists(V + "/tools/unclaimed.json") else {}
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                         observe_at=x["observe"], hook_needed=x["hook"]))) + "\n")
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
NOTE = ("Random search over generated cases with a fixed seed; evidence that the property held on the cases explored, not a proof. "
        "Trusts the harness's simulated IRC server/clients, its model, Go's testing/synctest virtual clock and SQLite.")
m = dict(version=1, setup_cmd="bash /verif/run.sh setup",
    hooks=dict(guard="verif", enable="go test -tags verif (see run.sh)", source_commits=commits),
    checks=[dict(property=x["id"], quick_cmd=f"bash /verif/run.sh {x['id']} quick", thorough_cmd=f"bash /verif/run.sh {x['id']} thorough",
                 evidence_file=f"evidence/{x['id']}.json", technique="property-based testing: " + x["tech"], level=x["level"],
                 level_note=x["note"] or NOTE) for x in P if x["id"] not in na],
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
    notes="All checks share one harness binary built from /verif/harness against /repo's working tree (build tag verif). Replay: bash /verif/run.sh replay <file>.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
