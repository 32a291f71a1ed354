From b34f3246a0a2bfec17dee23e7375acef938d4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 01/98] verif: add guarded hook to replace the upstream dialer

---
 dial.go       | 12 ++++++++++++
 dial_verif.go | 19 +++++++++++++++++++
 upstream.go   |  4 ++--
 3 files changed, 33 insertions(+), 2 deletions(-)
 create mode 100644 dial.go
 create mode 100644 dial_verif.go

diff --git a/dial.go b/dial.go
new file mode 100644
index 0000000..a400df9
--- /dev/null
+++ b/dial.go
@@ -0,0 +1,12 @@
+//go:build !verif
+
+package soju
+
+import (
+	"context"
+	"net"
+)
+
+func dialContext(ctx context.Context, dialer *net.Dialer, network, addr string) (net.Conn, error) {
+	return dialer.DialContext(ctx, network, addr)
+}
diff --git a/dial_verif.go b/dial_verif.go
new file mode 100644
index 0000000..7183ef1
--- /dev/null
+++ b/dial_verif.go
@@ -0,0 +1,19 @@
+//go:build verif
+
+package soju
+
+import (
+	"context"
+	"net"
+)
+
+// VerifDialContext, if non-nil, replaces the dialer used to connect to
+// upstream servers. It only exists in builds with the "verif" tag.
+var VerifDialContext func(ctx context.Context, dialer *net.Dialer, network, addr string) (net.Conn, error)
+
+func dialContext(ctx context.Context, dialer *net.Dialer, network, addr string) (net.Conn, error) {
+	if f := VerifDialContext; f != nil {
+		return f(ctx, dialer, network, addr)
+	}
+	return dialer.DialContext(ctx, network, addr)
+}
diff --git a/upstream.go b/upstream.go
index f1e02ed..a201ab4 100644
--- a/upstream.go
+++ b/upstream.go
@@ -337,7 +337,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 	case "irc+unix", "unix":
 		var dialer net.Dialer
 		logger.Printf("connecting to Unix socket at path %q", u.Path)
-		netConn, err = dialer.DialContext(ctx, "unix", u.Path)
+		netConn, err = dialContext(ctx, &dialer, "unix", u.Path)
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to Unix socket %q: %v", u.Path, err)
 		}
@@ -396,7 +396,7 @@ func dialTCP(ctx context.Context, user *user, addr string) (net.Conn, error) {
 		dialer.LocalAddr = localAddr
 	}
 
-	return dialer.DialContext(ctx, "tcp", addr)
+	return dialContext(ctx, &dialer, "tcp", addr)
 }
 
 func (uc *upstreamConn) forEachDownstream(f func(*downstreamConn)) {
-- 
2.43.0


From 9c45f7ac10343a70a2ccfcc5ea0da88d640f8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:09 +0000
Subject: [PATCH 02/98] fix: don't share message tags between the targets of a
 message

The message is sent asynchronously, and a label is added to its tags. With
several targets, the same label was sent for all of them (and the map was
accessed concurrently). Without upstream echo-message support, the label
ended up in the copy sent to downstream connections.
---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index d3c3723..1f5aea6 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2484,7 +2484,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
-				Tags:    tags,
+				Tags:    tags.Copy(),
 				Command: msg.Command,
 				Params:  upstreamParams,
 			})
-- 
2.43.0


From 8f18326b368c2cf0d8deb568e7026752e855caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:09 +0000
Subject: [PATCH 03/98] fix: don't request echo-message when the server doesn't
 offer it

The whole capability request is rejected by the server in that case.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index a201ab4..736c64c 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1929,7 +1929,7 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 		}
 	}
 
-	echoMessage := uc.caps.IsAvailable("labeled-response")
+	echoMessage := uc.caps.IsAvailable("labeled-response") && uc.caps.IsAvailable("echo-message")
 	if !uc.caps.IsEnabled("echo-message") && echoMessage {
 		requestCaps = append(requestCaps, "echo-message")
 	} else if uc.caps.IsEnabled("echo-message") && !echoMessage {
-- 
2.43.0


From 61285d64587fffa9b481508a74cbaaf2f739854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:09 +0000
Subject: [PATCH 04/98] fix: don't echo messages sent to a server mask back to
 clients without echo-message

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 736c64c..79e1b3c 100644
--- a/upstream.go
+++ b/upstream.go
@@ -657,7 +657,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		if !uc.registered || uc.network.equalCasemap(msg.Prefix.Name, uc.serverPrefix.Name) || target == "*" || strings.HasPrefix(target, "$") {
 			// This is a server message
-			uc.produce("", msg, 0)
+			uc.produce("", msg, downstreamID)
 			break
 		}
 
-- 
2.43.0


From 9043ba43b5ff2583bfa131f1070c7a06bcc5ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:56 +0000
Subject: [PATCH 05/98] fix: upgrade old SQLite databases which have channels

Migrations which re-create the Network table failed as soon as a channel
referred to it, because foreign keys are enforced.
---
 database/sqlite.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/database/sqlite.go b/database/sqlite.go
index 753bbaf..f713c40 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -294,7 +294,19 @@ func (db *SqliteDB) upgrade() error {
 		return fmt.Errorf("soju (version %d) older than schema (version %d)", len(sqliteMigrations), version)
 	}
 
-	tx, err := db.db.Begin()
+	// Some migrations re-create tables referenced by others: SQLite requires
+	// foreign keys to be disabled outside of the transaction in this case
+	ctx := context.Background()
+	conn, err := db.db.Conn(ctx)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+	if _, err := conn.ExecContext(ctx, "PRAGMA foreign_keys = OFF"); err != nil {
+		return fmt.Errorf("failed to disable foreign keys: %v", err)
+	}
+
+	tx, err := conn.BeginTx(ctx, nil)
 	if err != nil {
 		return err
 	}
@@ -318,7 +330,14 @@ func (db *SqliteDB) upgrade() error {
 		return fmt.Errorf("failed to bump schema version: %v", err)
 	}
 
-	return tx.Commit()
+	if err := tx.Commit(); err != nil {
+		return err
+	}
+
+	if _, err := conn.ExecContext(ctx, "PRAGMA foreign_keys = ON"); err != nil {
+		return fmt.Errorf("failed to enable foreign keys: %v", err)
+	}
+	return nil
 }
 
 func (db *SqliteDB) RegisterMetrics(r prometheus.Registerer) error {
-- 
2.43.0


From ae001070aaa0f5180e59f5a9cca14eb46a430d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:25 +0000
Subject: [PATCH 06/98] fix: attribute logged private messages from mixed-case
 nicks correctly

The file-system store compared the case-mapped entity with the sender's nick
as logged, so a private message from a nick with upper-case letters was
replayed with the sender as its target.
---
 msgstore/znclog/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgstore/znclog/reader.go b/msgstore/znclog/reader.go
index 92196a3..c702ba6 100644
--- a/msgstore/znclog/reader.go
+++ b/msgstore/znclog/reader.go
@@ -137,7 +137,8 @@ func UnmarshalLine(line string, user *database.User, network *database.Network,
 		}
 
 		prefix = &irc.Prefix{Name: sender}
-		if entity == sender {
+		// The entity has been case-mapped, the sender hasn't.
+		if xirc.CaseMappingRFC1459(entity) == xirc.CaseMappingRFC1459(sender) {
 			// This is a direct message from a user to us. We don't store own
 			// our nickname in the logs, so grab it from the network settings.
 			// Not very accurate since this may not match our nick at the time
-- 
2.43.0


From 31dd4734ff85928a627bee5ffa2d33143e68a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 07/98] fix: return messages logged at midnight from the
 file-system store

When loading the messages after a given time, the bound was moved to midnight
of each of the following days, so messages logged at 00:00:00 were skipped.
---
 msgstore/fs.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 8198fbc..bbd9034 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -280,7 +280,9 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 	}
 }
 
-func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
+// parseMessagesAfter loads messages between start and end, both excluded, from
+// the log file of the day of ref.
+func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, start time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
 	path := ms.logPath(options.Network, options.Entity, ref)
 	f, err := os.Open(path)
 	if err != nil {
@@ -297,7 +299,7 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, optio
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(ref) {
+		} else if msg == nil || !t.After(start) {
 			continue
 		} else if !t.Before(end) {
 			break
@@ -364,10 +366,11 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 	var messages []*irc.Message
 	remaining := options.Limit
 	tries := 0
-	for remaining > 0 && tries < fsMessageStoreMaxTries && start.Before(end) {
+	day := start
+	for remaining > 0 && tries < fsMessageStoreMaxTries && day.Before(end) {
 		parseOptions := *options
 		parseOptions.Limit = remaining
-		buf, err := ms.parseMessagesAfter(start, end, &parseOptions, selector)
+		buf, err := ms.parseMessagesAfter(day, start, end, &parseOptions, selector)
 		if err != nil {
 			return nil, err
 		}
@@ -378,8 +381,8 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 		}
 		messages = append(messages, buf...)
 		remaining -= len(buf)
-		year, month, day := start.Date()
-		start = time.Date(year, month, day+1, 0, 0, 0, 0, start.Location())
+		y, m, d := day.Date()
+		day = time.Date(y, m, d+1, 0, 0, 0, 0, day.Location())
 
 		if err := ctx.Err(); err != nil {
 			return nil, err
-- 
2.43.0


From 6cce0fa15181193ff121257fc44af541c5972357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 08/98] fix: return the ID of the last message from the memory
 store

LastMsgID returned the ID of the next message instead, and since history
queries exclude the message they are given, that message was never returned.
---
 msgstore/memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgstore/memory.go b/msgstore/memory.go
index b37b074..08a7cc3 100644
--- a/msgstore/memory.go
+++ b/msgstore/memory.go
@@ -76,7 +76,7 @@ func (ms *memoryMessageStore) LastMsgID(network *database.Network, entity string
 	var seq uint64
 	k := ringBufferKey{networkID: network.ID, entity: entity}
 	if rb, ok := ms.buffers[k]; ok {
-		seq = rb.cur
+		seq = rb.cur - 1
 	}
 	return formatMemoryMsgID(network.ID, entity, seq), nil
 }
-- 
2.43.0


From b656c9e62f8b9673af8812a84aa1062736237764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:27 +0000
Subject: [PATCH 09/98] fix: search messages from the after bound in the
 database store

As documented in doc/ext/search.md, and as implemented by the file-system
store: when the after attribute is specified, messages are searched from that
time. The database store returned the last matching ones instead.
---
 msgstore/db.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgstore/db.go b/msgstore/db.go
index 30ff349..3ff2c93 100644
--- a/msgstore/db.go
+++ b/msgstore/db.go
@@ -154,7 +154,7 @@ func (ms *dbMessageStore) Search(ctx context.Context, network *database.Network,
 		Limit:      options.Limit,
 		Sender:     options.From,
 		Text:       options.Text,
-		TakeLast:   true,
+		TakeLast:   options.Start.IsZero(),
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8b9018e313c38eaeaf57b4c0619fc0514ddb569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:53 +0000
Subject: [PATCH 10/98] fix: return the last stored message ID from
 GetMessageLastID

Message times come from upstream servers and may be out of order, while
history queries after an ID return the messages which were stored later.
---
 database/sqlite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/sqlite.go b/database/sqlite.go
index f713c40..e4fce9d 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -1080,7 +1080,7 @@ func (db *SqliteDB) GetMessageLastID(ctx context.Context, networkID int64, name
 	row := db.db.QueryRowContext(ctx, `
 		SELECT m.id FROM Message AS m, MessageTarget AS t
 		WHERE t.network = :network AND t.target = :target AND m.target = t.id
-		ORDER BY m.time DESC LIMIT 1`,
+		ORDER BY m.id DESC LIMIT 1`,
 		sql.Named("network", networkID),
 		sql.Named("target", name),
 	)
-- 
2.43.0


From d9a1cd9bea4e9d9a714787c353e2c442eb0a8251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:44 +0000
Subject: [PATCH 11/98] fix: return the last stored message ID from
 GetMessageLastID with PostgreSQL

---
 database/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres.go b/database/postgres.go
index 57100e7..5b02cf4 100644
--- a/database/postgres.go
+++ b/database/postgres.go
@@ -809,7 +809,7 @@ func (db *PostgresDB) GetMessageLastID(ctx context.Context, networkID int64, nam
 			SELECT id FROM "MessageTarget"
 			WHERE network = $1 AND target = $2
 		)
-		ORDER BY time DESC LIMIT 1`,
+		ORDER BY id DESC LIMIT 1`,
 		networkID,
 		name,
 	)
-- 
2.43.0


From 3577d16807f2efd59809d6bae1840bf671c7474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:05 +0000
Subject: [PATCH 12/98] fix: close log files when a network is renamed

Otherwise a network which gets the old name afterwards writes its messages to
the renamed network's logs.
---
 msgstore/fs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index bbd9034..8416ead 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -554,6 +554,12 @@ func (ms *fsMessageStore) RenameNetwork(oldNet, newNet *database.Network) error
 	if _, err := os.Stat(newDir); err == nil {
 		return fmt.Errorf("destination %q already exists", newDir)
 	}
+	// Open files refer to the old path: another network may be given the old
+	// name and must not write there
+	for entity, f := range ms.files {
+		f.Close()
+		delete(ms.files, entity)
+	}
 	return os.Rename(oldDir, newDir)
 }
 
-- 
2.43.0


From c59ef59a0c93b923afc7a71b1bb76326b13c45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:11 +0000
Subject: [PATCH 13/98] fix: take CR LF into account in the maximum message
 length

The 512 bytes a message may take include the trailing CR LF. JOIN and MONITOR
messages could exceed the limit by two bytes, in which case servers cut off
the end of the last channel key or nick.
---
 xirc/xirc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xirc/xirc.go b/xirc/xirc.go
index 7c809e3..70714ec 100644
--- a/xirc/xirc.go
+++ b/xirc/xirc.go
@@ -10,7 +10,7 @@ import (
 )
 
 const (
-	maxMessageLength = 512
+	maxMessageLength = 512 - 2 // without the trailing CR LF
 	maxMessageParams = 15
 )
 
-- 
2.43.0


From fb0a4c7baeb16cf00536e8616166371529eeb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:33 +0000
Subject: [PATCH 14/98] fix: include the bounds of the after and before
 attributes of SEARCH

doc/ext/search.md says that a message matches when it was sent at or after
(resp. at or before) the given time.
---
 downstream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 1f5aea6..08c77e3 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3016,9 +3016,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				}
 				switch name {
 				case "after":
-					opts.Start = timestamp
+					// The store excludes the bounds, while the attributes
+					// include them
+					opts.Start = timestamp.Add(-time.Millisecond)
 				case "before":
-					opts.End = timestamp
+					opts.End = timestamp.Add(time.Millisecond)
 				}
 			case "from":
 				opts.From = value
-- 
2.43.0


From e33806b74c3c98d0b590c1365c7b90dad98f1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:37 +0000
Subject: [PATCH 15/98] fix: log own STATUSMSG messages in the buffer of the
 channel

When the upstream server doesn't support echo-message, a message sent to e.g.
"@#channel" was logged under that name instead of "#channel", so it was
missing from the channel's history.
---
 downstream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 08c77e3..430b9c8 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2489,6 +2489,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				Params:  upstreamParams,
 			})
 
+			// remove statusmsg sigils from target
+			bufferName := strings.TrimLeft(name, uc.availableStatusMsg)
+
 			// If the upstream supports echo message, we'll produce the message
 			// when it is echoed from the upstream.
 			// Otherwise, produce/log it here because it's the last time we'll see it.
@@ -2513,10 +2516,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Command: msg.Command,
 					Params:  echoParams,
 				}
-				uc.produce(name, echoMsg, dc.id)
+				uc.produce(bufferName, echoMsg, dc.id)
 			}
 
-			uc.updateChannelAutoDetach(name)
+			uc.updateChannelAutoDetach(bufferName)
 		}
 	case "INVITE":
 		uc, err := dc.upstreamForCommand(msg.Command)
-- 
2.43.0


From 9d6b97d7d5d54dd090998e5eeac217461958c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 16/98] fix: keep uploads of users with odd names inside the
 uploads directory

Usernames may hold slashes, so files uploaded by e.g. "../foo" were stored
outside of the configured directory.
---
 fileupload/fs.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index c0c401d..9e30cc7 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -55,7 +55,8 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		}
 	}
 
-	dir := filepath.Join(fs.dir, username)
+	userDir := escapeUsername(username)
+	dir := filepath.Join(fs.dir, userDir)
 	if err := os.MkdirAll(dir, 0700); err != nil {
 		return "", fmt.Errorf("failed to create user upload directory: %w", err)
 	}
@@ -96,5 +97,14 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		return "", fmt.Errorf("failed to close file: %w", err)
 	}
 
-	return url.PathEscape(username) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
+	return url.PathEscape(userDir) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
+}
+
+// escapeUsername returns a directory name for the user. Usernames are arbitrary
+// strings: make sure that we don't leave the uploads directory.
+func escapeUsername(username string) string {
+	if username == "." || username == ".." {
+		return strings.ReplaceAll(username, ".", "%2E")
+	}
+	return url.PathEscape(username)
 }
-- 
2.43.0


From 58d6c24d5ea97bac74f4ac27aa1c5e4f2d07459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:33 +0000
Subject: [PATCH 17/98] fix: remove the partial file when an upload fails

---
 fileupload/fs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index 9e30cc7..174e370 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -89,6 +89,11 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		return "", fmt.Errorf("failed to pick filename")
 	}
 	defer f.Close()
+	defer func() {
+		if err != nil {
+			os.Remove(f.Name()) // don't keep truncated files
+		}
+	}()
 
 	if _, err := io.Copy(f, r); err != nil {
 		return "", fmt.Errorf("failed to write file: %w", err)
-- 
2.43.0


From 8e020f83bb5b4aee46cd5853cd0e8ba7e7f92814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:50 +0000
Subject: [PATCH 18/98] fix: track delivered messages of new clients for all
 known targets

A target which was already known when a client connected for the first
time was ignored for that client until it acknowledged a message: messages
received while the client was offline were never replayed.
---
 downstream.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/downstream.go b/downstream.go
index 430b9c8..d6b4854 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1625,12 +1625,11 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 		if firstClient {
 			net.delivered.ForEachTarget(func(target string) {
 				lastDelivered := net.delivered.LoadID(target, dc.clientName)
-				if lastDelivered == "" {
-					return
+				// There is no backlog for a new client
+				if lastDelivered != "" {
+					dc.sendTargetBacklog(ctx, net, target, lastDelivered)
 				}
 
-				dc.sendTargetBacklog(ctx, net, target, lastDelivered)
-
 				// Fast-forward history to last message
 				targetCM := net.casemap(target)
 				lastID, err := dc.user.msgStore.LastMsgID(&net.Network, targetCM, time.Now())
-- 
2.43.0


From ff87b434b9c09696fbde79c93a79be02ffcbeb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:51 +0000
Subject: [PATCH 19/98] fix: keep delivery receipts when a network is updated

Updating a network forgot which messages had been delivered to which
client, so that messages received before a client came back weren't
replayed.
---
 user.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/user.go b/user.go
index 44a16f8..77bce72 100644
--- a/user.go
+++ b/user.go
@@ -1125,6 +1125,10 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	})
 
 	updatedNetwork := newNetwork(u, record, channels)
+	updatedNetwork.delivered = network.delivered
+	updatedNetwork.delivered.m.SetCaseMapping(updatedNetwork.casemap)
+	updatedNetwork.pushTargets = network.pushTargets
+	updatedNetwork.pushTargets.SetCaseMapping(updatedNetwork.casemap)
 
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
-- 
2.43.0


From c9adc4b5b85206a20e7de3979e4963af2a5c7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 20/98] fix: don't modify messages of the in-memory store when
 replaying them

The batch tag of the last client was sent to all of them, racing with
the goroutines writing to the other connections.
---
 downstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/downstream.go b/downstream.go
index d6b4854..c15f7bc 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1687,6 +1687,9 @@ func (dc *downstreamConn) sendTargetBacklog(ctx context.Context, net *network, t
 					dc.relayDetachedMessage(net, msg)
 				}
 			} else {
+				// The message may be shared with the message store and
+				// other connections
+				msg = msg.Copy()
 				msg.Tags["batch"] = batchRef
 				dc.SendMessage(ctx, msg)
 			}
-- 
2.43.0


From c269f48ed672c46a81e55383a6bcd0cc4eb0b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:30 +0000
Subject: [PATCH 21/98] fix: announce channels whose member list isn't complete
 yet

A client connecting between the upstream JOIN and the end of its NAMES
reply never got a JOIN message for the channel. Re-attaching a channel in
the same situation panicked.
---
 downstream.go | 9 +++++----
 user.go       | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index c15f7bc..8678f7b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1582,9 +1582,6 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 
 	dc.forEachUpstream(func(uc *upstreamConn) {
 		uc.channels.ForEach(func(_ string, ch *upstreamChannel) {
-			if !ch.complete {
-				return
-			}
 			record := uc.network.channels.Get(ch.Name)
 			if record != nil && record.Detached {
 				return
@@ -1605,7 +1602,11 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 				Params:  params,
 			})
 
-			forwardChannel(ctx, dc, ch)
+			// If we haven't received the list of members yet, the channel
+			// will be forwarded on RPL_ENDOFNAMES
+			if ch.complete {
+				forwardChannel(ctx, dc, ch)
+			}
 		})
 	})
 
diff --git a/user.go b/user.go
index 77bce72..88834aa 100644
--- a/user.go
+++ b/user.go
@@ -376,7 +376,9 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 			Params:  []string{ch.Name},
 		})
 
-		if uch != nil {
+		// If we haven't received the list of members yet, the channel will be
+		// forwarded on RPL_ENDOFNAMES
+		if uch != nil && uch.complete {
 			forwardChannel(ctx, dc, uch)
 		}
 
-- 
2.43.0


From 5dd317958d93ceca776e8c8e37b4c1ee12fd529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:02 +0000
Subject: [PATCH 22/98] fix: part clients when detaching a channel which isn't
 saved

A channel the server made us join isn't saved. Detaching it didn't send
PART messages to the clients, and lost the position in its history.
---
 downstream.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/downstream.go b/downstream.go
index 8678f7b..82602ff 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2004,15 +2004,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		for _, name := range strings.Split(namesStr, ",") {
 			if strings.EqualFold(reason, "detach") {
 				ch := uc.network.channels.Get(name)
-				if ch != nil {
-					uc.network.detach(ch)
-				} else {
-					ch = &database.Channel{
-						Name:     name,
-						Detached: true,
-					}
+				if ch == nil {
+					ch = &database.Channel{Name: name}
 					uc.network.channels.Set(ch.Name, ch)
 				}
+				uc.network.detach(ch)
 				if err := dc.srv.db.StoreChannel(ctx, uc.network.ID, ch); err != nil {
 					dc.logger.Printf("failed to create or update channel %q: %v", name, err)
 				}
-- 
2.43.0


From a71ce4a01a44e6cfb0a50cfd689fefad90fa12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:06 +0000
Subject: [PATCH 23/98] fix: keep our own away status up-to-date in cached WHO
 replies

---
 upstream.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/upstream.go b/upstream.go
index 79e1b3c..c17b805 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1179,7 +1179,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			Username: msg.Prefix.User,
 			Hostname: msg.Prefix.Host,
 		}
-		if uc.caps.IsEnabled("away-notify") {
+		if uc.caps.IsEnabled("away-notify") && !uc.isOurNick(msg.Prefix.Name) {
 			// we have enough info to build the user flags in a best-effort manner:
 			// - the H/G flag is set to Here first, will be replaced by Gone later if the user is AWAY
 			uu.Flags = "H"
@@ -1714,19 +1714,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case irc.RPL_AWAY:
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "AWAY":
-		// Update user flags, if we already have the flags cached
-		uu := uc.users.Get(msg.Prefix.Name)
-		if uu != nil && uu.Flags != "" {
-			flags := uu.Flags
-			if isAway := len(msg.Params) > 0; isAway {
-				flags = strings.ReplaceAll(flags, "H", "G")
-			} else {
-				flags = strings.ReplaceAll(flags, "G", "H")
-			}
-			uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
-				Flags: flags,
-			})
-		}
+		uc.updateCachedAway(msg.Prefix.Name, len(msg.Params) > 0)
 
 		uc.forwardMessage(ctx, msg)
 	case "ACCOUNT":
@@ -1792,7 +1780,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case "ACK":
 		// Ignore
 	case irc.RPL_NOWAWAY, irc.RPL_UNAWAY:
-		// Ignore
+		// Servers don't send AWAY messages for our own user
+		uc.updateCachedAway(uc.nick, msg.Command == irc.RPL_NOWAWAY)
 	case irc.RPL_YOURHOST, irc.RPL_CREATED:
 		// Ignore
 	case irc.RPL_LUSERCLIENT, irc.RPL_LUSEROP, irc.RPL_LUSERUNKNOWN, irc.RPL_LUSERCHANNELS, irc.RPL_LUSERME:
@@ -2449,6 +2438,21 @@ func (uc *upstreamConn) cacheUserInfo(nick string, info *upstreamUser) {
 	}
 }
 
+// updateCachedAway updates the flags of a user, if we already have the flags
+// cached.
+func (uc *upstreamConn) updateCachedAway(nick string, away bool) {
+	uu := uc.users.Get(nick)
+	if uu == nil || uu.Flags == "" {
+		return
+	}
+
+	if away {
+		uu.Flags = strings.ReplaceAll(uu.Flags, "H", "G")
+	} else {
+		uu.Flags = strings.ReplaceAll(uu.Flags, "G", "H")
+	}
+}
+
 func (uc *upstreamConn) shouldCacheUserInfo(nick string) bool {
 	if uc.isOurNick(nick) {
 		return true
-- 
2.43.0


From 0b101ac7175a6096099a5d118a6aed807d7516bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:30 +0000
Subject: [PATCH 24/98] fix: update cached user info on CHGHOST

---
 upstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/upstream.go b/upstream.go
index c17b805..642bed7 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1151,6 +1151,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
+		uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
+			Username: newUsername,
+			Hostname: newHostname,
+		})
+
 		newPrefix := &irc.Prefix{
 			Name: uc.nick,
 			User: newUsername,
-- 
2.43.0


From aa92046cf03d61b6ccf8435649145f8d87b021b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:30 +0000
Subject: [PATCH 25/98] fix: don't keep stale WHO information about monitored
 users

The information cached about a monitored user was kept after they went
offline, and wasn't kept up-to-date when the server doesn't support
extended-monitor.
---
 upstream.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index 642bed7..0d93e86 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1666,6 +1666,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		for _, target := range targets {
 			prefix := irc.ParsePrefix(target)
 			uc.monitored.Set(prefix.Name, online)
+			if !online && !uc.shouldCacheUserInfo(prefix.Name) {
+				uc.users.Del(prefix.Name)
+			}
 		}
 
 		// Check if the nick we want is now free
@@ -2462,8 +2465,10 @@ func (uc *upstreamConn) shouldCacheUserInfo(nick string) bool {
 	if uc.isOurNick(nick) {
 		return true
 	}
-	// keep the cached user info only if we MONITOR it, or we share a channel with them
-	if uc.monitored.Has(nick) {
+	// keep the cached user info only if we MONITOR it (and are notified about
+	// changes), or we share a channel with them
+	extendedMonitor := uc.caps.IsEnabled("extended-monitor") || uc.caps.IsEnabled("draft/extended-monitor")
+	if extendedMonitor && uc.monitored.Get(nick) {
 		return true
 	}
 	found := false
-- 
2.43.0


From 58cf6216fd57f752a7fa0e99c6105c4cb39efcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 26/98] fix: don't claim a re-attached channel is joined when
 it isn't

---
 user.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/user.go b/user.go
index 88834aa..c76404e 100644
--- a/user.go
+++ b/user.go
@@ -370,16 +370,19 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 	}
 
 	net.forEachDownstream(func(dc *downstreamConn) {
-		dc.SendMessage(ctx, &irc.Message{
-			Prefix:  dc.prefix(),
-			Command: "JOIN",
-			Params:  []string{ch.Name},
-		})
+		// If we aren't in the channel, the JOIN will be forwarded once we are
+		if uch != nil {
+			dc.SendMessage(ctx, &irc.Message{
+				Prefix:  dc.prefix(),
+				Command: "JOIN",
+				Params:  []string{ch.Name},
+			})
 
-		// If we haven't received the list of members yet, the channel will be
-		// forwarded on RPL_ENDOFNAMES
-		if uch != nil && uch.complete {
-			forwardChannel(ctx, dc, uch)
+			// If we haven't received the list of members yet, the channel will
+			// be forwarded on RPL_ENDOFNAMES
+			if uch.complete {
+				forwardChannel(ctx, dc, uch)
+			}
 		}
 
 		if detachedMsgID != "" {
-- 
2.43.0


From e62c771e4eae2e4f77d047c8fe7386ce8d7d4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:16 +0000
Subject: [PATCH 27/98] fix: send extended-join parameters when re-attaching a
 channel

---
 downstream.go | 33 +++++++++++++++++++--------------
 user.go       |  6 +-----
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/downstream.go b/downstream.go
index 82602ff..335f6df 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1587,20 +1587,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 				return
 			}
 
-			params := []string{ch.Name}
-			if dc.caps.IsEnabled("extended-join") {
-				account := uc.account
-				if account == "" {
-					account = "*"
-				}
-				params = append(params, account, uc.realname)
-			}
-
-			dc.SendMessage(ctx, &irc.Message{
-				Prefix:  dc.prefix(),
-				Command: "JOIN",
-				Params:  params,
-			})
+			sendOwnJoin(ctx, dc, ch)
 
 			// If we haven't received the list of members yet, the channel
 			// will be forwarded on RPL_ENDOFNAMES
@@ -3427,6 +3414,24 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 	return username, password, true
 }
 
+// sendOwnJoin tells a downstream connection that the user is in a channel.
+func sendOwnJoin(ctx context.Context, dc *downstreamConn, ch *upstreamChannel) {
+	params := []string{ch.Name}
+	if dc.caps.IsEnabled("extended-join") {
+		account := ch.conn.account
+		if account == "" {
+			account = "*"
+		}
+		params = append(params, account, ch.conn.realname)
+	}
+
+	dc.SendMessage(ctx, &irc.Message{
+		Prefix:  dc.prefix(),
+		Command: "JOIN",
+		Params:  params,
+	})
+}
+
 func forwardChannel(ctx context.Context, dc *downstreamConn, ch *upstreamChannel) {
 	if !ch.complete {
 		panic("Tried to forward a partial channel")
diff --git a/user.go b/user.go
index c76404e..fb2eb73 100644
--- a/user.go
+++ b/user.go
@@ -372,11 +372,7 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 	net.forEachDownstream(func(dc *downstreamConn) {
 		// If we aren't in the channel, the JOIN will be forwarded once we are
 		if uch != nil {
-			dc.SendMessage(ctx, &irc.Message{
-				Prefix:  dc.prefix(),
-				Command: "JOIN",
-				Params:  []string{ch.Name},
-			})
+			sendOwnJoin(ctx, dc, uch)
 
 			// If we haven't received the list of members yet, the channel will
 			// be forwarded on RPL_ENDOFNAMES
-- 
2.43.0


From eed6b7942c48d134cdaa509a053edbb4fbdf4ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 28/98] fix: honour -detached in channel create

---
 service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/service.go b/service.go
index 0b8b0cd..a918aab 100644
--- a/service.go
+++ b/service.go
@@ -1476,6 +1476,10 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 
 	network.channels.Set(ch.Name, &ch)
 
+	if fs.Detached != nil && *fs.Detached {
+		network.detach(&ch)
+	}
+
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
 		return fmt.Errorf("failed to create channel: %v", err)
 	}
-- 
2.43.0


From 163486226d84bda4e543517ade262bcb3a9d23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:22 +0000
Subject: [PATCH 29/98] fix: don't apply part of an invalid channel update

---
 service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/service.go b/service.go
index a918aab..7463d0e 100644
--- a/service.go
+++ b/service.go
@@ -1519,9 +1519,11 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("unknown channel %q", name)
 	}
 
-	if err := fs.update(ch); err != nil {
+	updated := *ch
+	if err := fs.update(&updated); err != nil {
 		return err
 	}
+	*ch = updated
 
 	if fs.Detached != nil && *fs.Detached != ch.Detached {
 		if *fs.Detached {
-- 
2.43.0


From a5cd17d7ef433f86182d7203c6b39aec7cf480a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 30/98] fix: stop the auto-detach timer when kicked

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index 0d93e86..a1b411b 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1274,6 +1274,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.logger.Printf("kicked from channel %q by %s", channel, msg.Prefix.Name)
 			if uch := uc.channels.Get(channel); uch != nil {
 				uc.channels.Del(channel)
+				uch.updateAutoDetach(0)
 				uch.Members.ForEach(func(nick string, memberships *xirc.MembershipSet) {
 					if !uc.shouldCacheUserInfo(nick) {
 						uc.users.Del(nick)
-- 
2.43.0


From 02a02b8b0d84e17831377d8203babd51c5946e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:47 +0000
Subject: [PATCH 31/98] fix: start the auto-detach timer when saving a channel
 already joined

---
 service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/service.go b/service.go
index 7463d0e..010d411 100644
--- a/service.go
+++ b/service.go
@@ -1485,6 +1485,9 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 	}
 
 	if network.conn != nil {
+		// The server may have made us join the channel already
+		network.conn.updateChannelAutoDetach(ch.Name)
+
 		network.conn.SendMessage(ctx, &irc.Message{
 			Command: "JOIN",
 			Params:  []string{ch.Name},
-- 
2.43.0


From 6701af2413b0092c7d7830ebb1fbf487747bfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:51 +0000
Subject: [PATCH 32/98] fix: treat upstream messages without a source as sent
 by the server

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index a1b411b..f373e7d 100644
--- a/upstream.go
+++ b/upstream.go
@@ -612,7 +612,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 	}
 
-	if msg.Prefix == nil {
+	if msg.Prefix == nil || msg.Prefix.Name == "" {
 		msg.Prefix = uc.serverPrefix
 	}
 
-- 
2.43.0


From c3d81a3826c253eaa28d5d5518efb372b2f1d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:11 +0000
Subject: [PATCH 33/98] fix: don't panic on messages with nothing after the
 tags

---
 conn.go | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index b6dabfa..06598af 100644
--- a/conn.go
+++ b/conn.go
@@ -1,6 +1,7 @@
 package soju
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"io"
@@ -27,12 +28,44 @@ type ircConn interface {
 	LocalAddr() net.Addr
 }
 
+// parseIRCMessage is like irc.ParseMessage, but doesn't panic when there is
+// nothing after the message tags.
+func parseIRCMessage(line string) (*irc.Message, error) {
+	line = strings.TrimRight(line, "\r\n")
+	if strings.HasPrefix(line, "@") {
+		if _, rest, ok := strings.Cut(line, " "); ok && rest == "" {
+			return nil, irc.ErrMissingDataAfterTags
+		}
+	}
+	return irc.ParseMessage(line)
+}
+
+type netIRCConn struct {
+	net.Conn
+	r *bufio.Reader
+	w *irc.Writer
+}
+
 func newNetIRCConn(c net.Conn) ircConn {
-	type netConn net.Conn
-	return struct {
-		*irc.Conn
-		netConn
-	}{irc.NewConn(c), c}
+	return &netIRCConn{Conn: c, r: bufio.NewReader(c), w: irc.NewWriter(c)}
+}
+
+func (nic *netIRCConn) ReadMessage() (*irc.Message, error) {
+	for {
+		line, err := nic.r.ReadString('\n')
+		if err != nil {
+			return nil, err
+		}
+		msg, err := parseIRCMessage(line)
+		if errors.Is(err, irc.ErrZeroLengthMessage) {
+			continue // empty messages are ignored
+		}
+		return msg, err
+	}
+}
+
+func (nic *netIRCConn) WriteMessage(msg *irc.Message) error {
+	return nic.w.WriteMessage(msg)
 }
 
 type websocketIRCConn struct {
@@ -61,7 +94,7 @@ func (wic *websocketIRCConn) ReadMessage() (*irc.Message, error) {
 			return nil, err
 		}
 	}
-	return irc.ParseMessage(string(b))
+	return parseIRCMessage(string(b))
 }
 
 func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
-- 
2.43.0


From 9343a05f42b79e478ec3556a058a2e0d17af5a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:49 +0000
Subject: [PATCH 34/98] fix: reject empty nicknames sent by the server

---
 upstream.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index f373e7d..3e22106 100644
--- a/upstream.go
+++ b/upstream.go
@@ -921,10 +921,14 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			dc.SendMessage(ctx, msg)
 		}
 	case irc.RPL_WELCOME:
-		if err := parseMessageParams(msg, &uc.nick); err != nil {
+		var nick string
+		if err := parseMessageParams(msg, &nick); err != nil {
 			return err
+		} else if nick == "" {
+			return fmt.Errorf("invalid empty nickname in RPL_WELCOME")
 		}
 
+		uc.nick = nick
 		uc.registered = true
 		uc.serverPrefix = msg.Prefix
 		uc.logger.Printf("connection registered with nick %q", uc.nick)
@@ -1084,6 +1088,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		var newNick string
 		if err := parseMessageParams(msg, &newNick); err != nil {
 			return err
+		} else if newNick == "" {
+			return fmt.Errorf("invalid empty nickname in NICK")
 		}
 
 		me := false
-- 
2.43.0


From f9ee12a8dd72333a89bd7f86db128461f341d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:01 +0000
Subject: [PATCH 35/98] fix: don't answer WHO for a channel from a user's
 cached info

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 3e22106..e27ffe7 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2404,7 +2404,7 @@ func (uc *upstreamConn) getCachedWHO(mask, fields string) (l []*upstreamUser, ok
 		return nil, false
 	}
 
-	if uu := uc.users.Get(mask); uu != nil {
+	if uu := uc.users.Get(mask); uu != nil && !uc.isChannel(mask) {
 		if uu.hasWHOXFields(fields) {
 			return []*upstreamUser{uu}, true
 		}
-- 
2.43.0


From 723c8df14a53522ae76043f63ad92b51e2135f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:55 +0000
Subject: [PATCH 36/98] fix: don't crash when a client restarts an upstream
 SASL exchange

---
 upstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index e27ffe7..7b29c00 100644
--- a/upstream.go
+++ b/upstream.go
@@ -891,7 +891,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslClient = nil
 		uc.saslStarted = false
 
-		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
+		// The client may have aborted and started another exchange meanwhile
+		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil && dc.sasl.plain != nil {
 			if msg.Command == irc.RPL_SASLSUCCESS {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
-- 
2.43.0


From 84a3edda35c1964b8ea65a43018a47a3a45cf94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:31 +0000
Subject: [PATCH 37/98] fix: close connections rejected by the user goroutine

Clients of disabled users and clients which couldn't be bound to a network
were left open, and their messages were handled as if they were registered,
which crashes when the connection has no user.
---
 user.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/user.go b/user.go
index fb2eb73..d14fefe 100644
--- a/user.go
+++ b/user.go
@@ -563,6 +563,15 @@ func newUser(srv *Server, record *database.User) *user {
 	}
 }
 
+func (u *user) hasDownstream(dc *downstreamConn) bool {
+	for _, other := range u.downstreamConns {
+		if other == dc {
+			return true
+		}
+	}
+	return false
+}
+
 func (u *user) forEachUpstream(f func(uc *upstreamConn)) {
 	for _, network := range u.networks {
 		if network.conn == nil {
@@ -741,7 +750,7 @@ func (u *user) run() {
 					Command: "ERROR",
 					Params:  []string{"This bouncer account is disabled"},
 				})
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -757,7 +766,7 @@ func (u *user) run() {
 					})
 				}
 				dc.logger.Printf("failed to handle new registered connection: %v", err)
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -804,7 +813,9 @@ func (u *user) run() {
 			}
 		case eventDownstreamMessage:
 			msg, dc := e.msg, e.dc
-			if dc.isClosed() {
+			// Connections which have been rejected by the user goroutine may
+			// still send messages until they're shut down
+			if dc.isClosed() || !u.hasDownstream(dc) {
 				dc.logger.Printf("ignoring message on closed connection: %v", msg)
 				break
 			}
-- 
2.43.0


From 19f21d67d49c1f6b7ed8cc2f0693c61d7a985497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:30 +0000
Subject: [PATCH 38/98] fix: don't panic on empty OAUTHBEARER responses

---
 downstream.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/downstream.go b/downstream.go
index 335f6df..5172df0 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1012,6 +1012,14 @@ func (dc *downstreamConn) handleAuthenticate(ctx context.Context, msg *irc.Messa
 		}
 
 		dc.sasl.pendingResp.Reset()
+
+		// go-sasl's OAUTHBEARER server panics on empty responses
+		if dc.sasl.mechanism == "OAUTHBEARER" && len(resp) == 0 {
+			return nil, ircError{&irc.Message{
+				Command: irc.ERR_SASLFAIL,
+				Params:  []string{dc.nick, "Empty response"},
+			}}
+		}
 	}
 
 	challenge, done, err := dc.sasl.server.Next(resp)
-- 
2.43.0


From 8c5d2e7dcb121da10e9b0122ad4349b31621b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:14 +0000
Subject: [PATCH 39/98] fix: accept IPv6 literals as the host of a bouncer
 network

---
 downstream.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index 5172df0..dac2860 100644
--- a/downstream.go
+++ b/downstream.go
@@ -104,11 +104,11 @@ func fillNetworkAddrAttrs(attrs irc.Tags, network *database.Network) {
 	default: // e.g. unix://
 		hasHostPort = false
 	}
-	if host, port, err := net.SplitHostPort(u.Host); err == nil && hasHostPort {
-		attrs["host"] = host
-		attrs["port"] = port
-	} else if hasHostPort {
-		attrs["host"] = u.Host
+	if hasHostPort {
+		attrs["host"] = u.Hostname()
+		if port := u.Port(); port != "" {
+			attrs["port"] = port
+		}
 	}
 }
 
@@ -147,6 +147,9 @@ func networkAddrFromAttrs(attrs irc.Tags) string {
 	}
 
 	addr := host
+	if strings.Contains(host, ":") && !strings.HasPrefix(host, "[") {
+		addr = "[" + host + "]" // IPv6 literal
+	}
 	if port := string(attrs["port"]); port != "" {
 		addr += ":" + port
 	}
-- 
2.43.0


From 747c1a1a7a93a00d37f24f3071a333391402218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:18 +0000
Subject: [PATCH 40/98] fix: don't ignore a bouncer network nickname equal to
 the username

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index dac2860..248b3f7 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3108,7 +3108,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
@@ -3152,7 +3152,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
-- 
2.43.0


From ca5a5e487ab509af52a6cf84ae83c3864593b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:22 +0000
Subject: [PATCH 41/98] fix: reject the reserved network name in
 bouncer-networks requests

---
 service.go | 3 ---
 user.go    | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/service.go b/service.go
index 010d411..25e64bb 100644
--- a/service.go
+++ b/service.go
@@ -543,9 +543,6 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 		network.Addr = *fs.Addr
 	}
 	if fs.Name != nil {
-		if *fs.Name == "*" {
-			return fmt.Errorf("the network name %q is reserved", *fs.Name)
-		}
 		network.Name = *fs.Name
 	}
 	if fs.Nick != nil {
diff --git a/user.go b/user.go
index d14fefe..3c7b7a1 100644
--- a/user.go
+++ b/user.go
@@ -1053,6 +1053,9 @@ func (u *user) checkNetwork(record *database.Network) error {
 	if record.GetName() == "" {
 		return fmt.Errorf("network name cannot be empty")
 	}
+	if record.GetName() == "*" {
+		return fmt.Errorf("the network name %q is reserved", record.GetName())
+	}
 	if strings.HasPrefix(record.GetName(), "-") {
 		// Can be mixed up with flags when sending commands to the service
 		return fmt.Errorf("network name cannot start with a dash character")
-- 
2.43.0


From 42227077cdc33fcf2d7108569b4ecbad910222d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:25 +0000
Subject: [PATCH 42/98] fix: delete the current network when no name is given

---
 service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index 25e64bb..f13719f 100644
--- a/service.go
+++ b/service.go
@@ -709,8 +709,8 @@ func handleServiceNetworkUpdate(ctx *serviceContext, params []string) error {
 }
 
 func handleServiceNetworkDelete(ctx *serviceContext, params []string) error {
-	if len(params) != 1 {
-		return fmt.Errorf("expected exactly one argument")
+	if len(params) > 1 {
+		return fmt.Errorf("expected at most one argument")
 	}
 	net, params, err := getNetworkFromArg(ctx, params)
 	if err != nil {
-- 
2.43.0


From 04f85fdf12445a10337743f9182c270bee10029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:29 +0000
Subject: [PATCH 43/98] fix: accept irc+unix addresses as documented

---
 service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index f13719f..fa9acda 100644
--- a/service.go
+++ b/service.go
@@ -535,9 +535,9 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 		if addrParts := strings.SplitN(*fs.Addr, "://", 2); len(addrParts) == 2 {
 			scheme := addrParts[0]
 			switch scheme {
-			case "ircs", "irc+insecure", "unix":
+			case "ircs", "irc+insecure", "irc+unix", "unix":
 			default:
-				return fmt.Errorf("unknown scheme %q (supported schemes: ircs, irc+insecure, unix)", scheme)
+				return fmt.Errorf("unknown scheme %q (supported schemes: ircs, irc+insecure, irc+unix)", scheme)
 			}
 		}
 		network.Addr = *fs.Addr
-- 
2.43.0


From 610b56f5b58f2e518c08dd1f4d86e64999f250e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:32 +0000
Subject: [PATCH 44/98] fix: announce removed attributes when a network is
 updated

---
 user.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/user.go b/user.go
index 3c7b7a1..9fd2859 100644
--- a/user.go
+++ b/user.go
@@ -1139,6 +1139,8 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 		channels = append(channels, *ch)
 	})
 
+	prevAttrs := getNetworkAttrs(network)
+
 	updatedNetwork := newNetwork(u, record, channels)
 	updatedNetwork.delivered = network.delivered
 	updatedNetwork.delivered.m.SetCaseMapping(updatedNetwork.casemap)
@@ -1178,6 +1180,11 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 
 	// TODO: only broadcast attributes that have changed
 	attrs := getNetworkAttrs(updatedNetwork)
+	for k := range prevAttrs {
+		if _, ok := attrs[k]; !ok {
+			attrs[k] = "" // attribute removed
+		}
+	}
 	u.notifyBouncerNetworkState(updatedNetwork.ID, attrs)
 
 	return updatedNetwork, nil
-- 
2.43.0


From ecaba9c28f246d2e530d12235f5fff06aa5fe597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:35 +0000
Subject: [PATCH 45/98] fix: keep bouncer networks up-to-date on NICK and
 SETNAME

---
 downstream.go | 10 ++++++++++
 user.go       |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/downstream.go b/downstream.go
index 248b3f7..b24510e 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1838,6 +1838,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 
 		if dc.network != nil {
 			dc.network.Network.Nick = nick
+			dc.user.notifyBouncerNetworkState(dc.network.ID, irc.Tags{
+				"nickname": nick,
+				"realname": database.GetRealname(&dc.user.User, &dc.network.Network),
+			})
 			if uc := dc.upstream(); uc != nil {
 				uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
 					Command: "NICK",
@@ -1886,6 +1890,12 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				})
 
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
+				if err == nil {
+					dc.network.Network.Realname = record.Realname
+					dc.user.notifyBouncerNetworkState(dc.network.ID, irc.Tags{
+						"realname": database.GetRealname(&dc.user.User, &dc.network.Network),
+					})
+				}
 			} else {
 				// This will disconnect then re-connect the upstream connection
 				_, err = dc.user.updateNetwork(ctx, &record, false)
diff --git a/user.go b/user.go
index 9fd2859..1e86e60 100644
--- a/user.go
+++ b/user.go
@@ -1241,6 +1241,11 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 					Params:  []string{database.GetNick(&u.User, &net.Network)},
 				})
 			}
+
+			u.notifyBouncerNetworkState(net.ID, irc.Tags{
+				"nickname": database.GetNick(&u.User, &net.Network),
+				"realname": database.GetRealname(&u.User, &net.Network),
+			})
 		}
 	}
 
@@ -1264,6 +1269,9 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 						Command: "SETNAME",
 						Params:  []string{database.GetRealname(&u.User, &net.Network)},
 					})
+					u.notifyBouncerNetworkState(net.ID, irc.Tags{
+						"realname": database.GetRealname(&u.User, &net.Network),
+					})
 					continue
 				}
 			}
-- 
2.43.0


From d5f5623293c24a3dfa117d72629d6326c6efee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:43 +0000
Subject: [PATCH 46/98] fix: use the configured nick for new sessions without a
 network

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index b24510e..a5bdc28 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1479,7 +1479,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 	} else if dc.network != nil {
 		dc.nick = database.GetNick(&dc.user.User, &dc.network.Network)
 	} else {
-		dc.nick = dc.user.Username
+		dc.nick = database.GetNick(&dc.user.User, nil)
 	}
 	dc.nickCM = dc.casemap(dc.nick)
 
-- 
2.43.0


From 1fd1b3c33a632919cc2e42b5a2f49ee3ced69035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:47 +0000
Subject: [PATCH 47/98] fix: ignore connection events of networks which have
 been stopped

---
 user.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/user.go b/user.go
index 1e86e60..0461a55 100644
--- a/user.go
+++ b/user.go
@@ -653,6 +653,12 @@ func (u *user) run() {
 		case eventUpstreamConnected:
 			uc := e.uc
 
+			if uc.network.isStopped() {
+				// The network has been updated or removed in the meantime
+				uc.Close()
+				break
+			}
+
 			uc.network.conn = uc
 
 			uc.updateAway()
@@ -682,14 +688,12 @@ func (u *user) run() {
 		case eventUpstreamConnectionError:
 			net := e.net
 
-			stopped := false
-			select {
-			case <-net.stopped:
-				stopped = true
-			default:
+			if net.isStopped() {
+				// The network has been updated or removed in the meantime
+				break
 			}
 
-			if !stopped && (net.lastError == nil || net.lastError.Error() != e.err.Error()) {
+			if net.lastError == nil || net.lastError.Error() != e.err.Error() {
 				net.forEachDownstream(func(dc *downstreamConn) {
 					sendServiceNOTICE(dc, fmt.Sprintf("failed connecting/registering to %s: %v", net.GetName(), e.err))
 				})
-- 
2.43.0


From 28a9055b63f576a14ddbbde0e45067fab918980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:52 +0000
Subject: [PATCH 48/98] fix: tell all sessions about nick and realname changes
 when disconnected

---
 downstream.go | 18 ++++++------------
 user.go       | 11 +++++++++++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/downstream.go b/downstream.go
index a5bdc28..a4f949f 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1848,13 +1848,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  []string{nick},
 				})
 			} else {
-				dc.updateNick(ctx)
-			}
-		} else {
-			for _, c := range dc.user.downstreamConns {
-				if c.network == nil {
+				dc.network.forEachDownstream(func(c *downstreamConn) {
 					c.updateNick(ctx)
-				}
+				})
 			}
 		}
 	case "SETNAME":
@@ -1915,12 +1911,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}}
 		}
 
-		if dc.network == nil {
-			for _, c := range dc.user.downstreamConns {
-				if c.network == nil {
-					c.updateRealname(ctx)
-				}
-			}
+		if dc.network != nil && dc.upstream() == nil {
+			dc.network.forEachDownstream(func(c *downstreamConn) {
+				c.updateRealname(ctx)
+			})
 		}
 	case "JOIN":
 		uc, err := dc.upstreamForCommand(msg.Command)
diff --git a/user.go b/user.go
index 0461a55..d0b40ae 100644
--- a/user.go
+++ b/user.go
@@ -1253,6 +1253,17 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 		}
 	}
 
+	if nickUpdated || realnameUpdated {
+		for _, dc := range u.downstreamConns {
+			// Sessions connected to an upstream server are updated by
+			// messages sent by the server
+			if dc.upstream() == nil {
+				dc.updateNick(ctx)
+				dc.updateRealname(ctx)
+			}
+		}
+	}
+
 	if realnameUpdated || enabledUpdated {
 		// Re-connect to networks which use the default realname
 		var needUpdate []database.Network
-- 
2.43.0


From 1ab5648d3c8ef53a85d05051c7924ab9d0a842c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:42 +0000
Subject: [PATCH 49/98] fix: prefer network names over addresses when looking
 up a network

---
 user.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index d0b40ae..ab131f7 100644
--- a/user.go
+++ b/user.go
@@ -583,10 +583,12 @@ func (u *user) forEachUpstream(f func(uc *upstreamConn)) {
 
 func (u *user) getNetwork(name string) *network {
 	for _, network := range u.networks {
-		if network.Addr == name {
+		if network.GetName() == name {
 			return network
 		}
-		if network.Name != "" && network.Name == name {
+	}
+	for _, network := range u.networks {
+		if network.Addr == name {
 			return network
 		}
 	}
-- 
2.43.0


From b02a3e251a11be3159eed373098ab6582cbab67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:44 +0000
Subject: [PATCH 50/98] fix: don't drop messages to other connections when a
 client disconnects

---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 06598af..27e14ca 100644
--- a/conn.go
+++ b/conn.go
@@ -251,6 +251,14 @@ func (c *conn) SendMessage(ctx context.Context, msg *irc.Message) {
 		return
 	}
 
+	// Don't drop messages when there's room for them: the context may belong to
+	// another connection which has just been closed
+	select {
+	case c.outgoingCh <- msg:
+		return
+	default:
+	}
+
 	select {
 	case c.outgoingCh <- msg:
 		// Success
-- 
2.43.0


From 92a918471fbbde54c57db1dc72930f3b4ecc2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:15 +0000
Subject: [PATCH 51/98] fix: tell sessions about the new nick and realname when
 a network is updated

---
 downstream.go | 6 ------
 user.go       | 5 +++++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/downstream.go b/downstream.go
index a4f949f..96eb8dd 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1910,12 +1910,6 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				Params:  []string{"SETNAME", "CANNOT_CHANGE_REALNAME", "Failed to update realname"},
 			}}
 		}
-
-		if dc.network != nil && dc.upstream() == nil {
-			dc.network.forEachDownstream(func(c *downstreamConn) {
-				c.updateRealname(ctx)
-			})
-		}
 	case "JOIN":
 		uc, err := dc.upstreamForCommand(msg.Command)
 		if err != nil {
diff --git a/user.go b/user.go
index ab131f7..0e69b22 100644
--- a/user.go
+++ b/user.go
@@ -1181,6 +1181,11 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 		}
 	}
 
+	updatedNetwork.forEachDownstream(func(dc *downstreamConn) {
+		dc.updateNick(ctx)
+		dc.updateRealname(ctx)
+	})
+
 	// This will re-connect to the upstream server
 	u.addNetwork(updatedNetwork)
 
-- 
2.43.0


From 2b2801e9375b07228168507a950c01dc7ea0e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:54 +0000
Subject: [PATCH 52/98] verif: make the server sanity check's dialer
 replaceable

---
 dial.go       |  5 +++++
 dial_verif.go | 12 ++++++++++++
 downstream.go |  3 +--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/dial.go b/dial.go
index a400df9..250dbe8 100644
--- a/dial.go
+++ b/dial.go
@@ -4,9 +4,14 @@ package soju
 
 import (
 	"context"
+	"crypto/tls"
 	"net"
 )
 
 func dialContext(ctx context.Context, dialer *net.Dialer, network, addr string) (net.Conn, error) {
 	return dialer.DialContext(ctx, network, addr)
 }
+
+func dialTLSContext(ctx context.Context, network, addr string) (net.Conn, error) {
+	return new(tls.Dialer).DialContext(ctx, network, addr)
+}
diff --git a/dial_verif.go b/dial_verif.go
index 7183ef1..5527936 100644
--- a/dial_verif.go
+++ b/dial_verif.go
@@ -4,6 +4,7 @@ package soju
 
 import (
 	"context"
+	"crypto/tls"
 	"net"
 )
 
@@ -17,3 +18,14 @@ func dialContext(ctx context.Context, dialer *net.Dialer, network, addr string)
 	}
 	return dialer.DialContext(ctx, network, addr)
 }
+
+// VerifDialTLSContext, if non-nil, replaces the dialer used to check that an
+// upstream server exists. It only exists in builds with the "verif" tag.
+var VerifDialTLSContext func(ctx context.Context, network, addr string) (net.Conn, error)
+
+func dialTLSContext(ctx context.Context, network, addr string) (net.Conn, error) {
+	if f := VerifDialTLSContext; f != nil {
+		return f(ctx, network, addr)
+	}
+	return new(tls.Dialer).DialContext(ctx, network, addr)
+}
diff --git a/downstream.go b/downstream.go
index 96eb8dd..469ddab 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3,7 +3,6 @@ package soju
 import (
 	"bytes"
 	"context"
-	"crypto/tls"
 	"encoding/base64"
 	"errors"
 	"fmt"
@@ -1264,7 +1263,7 @@ func sanityCheckServer(ctx context.Context, addr string) error {
 	ctx, cancel := context.WithTimeout(ctx, 15*time.Second)
 	defer cancel()
 
-	conn, err := new(tls.Dialer).DialContext(ctx, "tcp", addr)
+	conn, err := dialTLSContext(ctx, "tcp", addr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1363803bc089ab08944d3a158e22c1e2580daef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:57 +0000
Subject: [PATCH 53/98] fix: answer the "server debug" service command

---
 service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/service.go b/service.go
index fa9acda..22742a1 100644
--- a/service.go
+++ b/service.go
@@ -1641,5 +1641,11 @@ func handleServiceServerDebug(ctx *serviceContext, params []string) error {
 			ctx.srv.Logger.Printf("disabling debug logging")
 		}
 	}
+
+	if enabled {
+		ctx.print("debug logging enabled")
+	} else {
+		ctx.print("debug logging disabled")
+	}
 	return nil
 }
-- 
2.43.0


From 9adb2173cdc52efa941371bad4b5a2fd563d76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 54/98] fix: don't deadlock when a user deletes their own
 account

---
 service.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/service.go b/service.go
index 22742a1..e54ac83 100644
--- a/service.go
+++ b/service.go
@@ -1198,26 +1198,42 @@ func handleUserDelete(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("provided confirmation token doesn't match user")
 	}
 
-	var deleteCtx context.Context = ctx
 	if self {
 		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
-		// We can't use ctx here, because it'll be cancelled once we close the
-		// downstream connection
-		deleteCtx = context.TODO()
 	}
 
-	if err := u.stop(deleteCtx); err != nil {
-		return fmt.Errorf("failed to stop user: %v", err)
-	}
+	// The user cannot be stopped from its own goroutine. We can't use ctx
+	// either, because it'll be cancelled if the downstream connection is closed
+	// in the meantime.
+	done := make(chan error, 1)
+	go func() {
+		deleteCtx := context.TODO()
+		if err := u.stop(deleteCtx); err != nil {
+			done <- fmt.Errorf("failed to stop user: %v", err)
+			return
+		}
+		if err := ctx.srv.db.DeleteUser(deleteCtx, u.ID); err != nil {
+			u.logger.Printf("failed to delete user: %v", err)
+			done <- fmt.Errorf("failed to delete user: %v", err)
+			return
+		}
+		done <- nil
+	}()
 
-	if err := ctx.srv.db.DeleteUser(deleteCtx, u.ID); err != nil {
-		return fmt.Errorf("failed to delete user: %v", err)
+	if self {
+		return nil
 	}
 
-	if !self {
-		ctx.print(fmt.Sprintf("deleted user %q", username))
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case err := <-done:
+		if err != nil {
+			return err
+		}
 	}
 
+	ctx.print(fmt.Sprintf("deleted user %q", username))
 	return nil
 }
 
-- 
2.43.0


From 669c9fff78ec9799f1b26b03534f516b44e606c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:05 +0000
Subject: [PATCH 55/98] fix: stop running a command as another user when the
 requester is gone

---
 service.go |  1 +
 user.go    | 17 +++++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/service.go b/service.go
index e54ac83..339b765 100644
--- a/service.go
+++ b/service.go
@@ -1260,6 +1260,7 @@ func handleUserRun(ctx *serviceContext, params []string) error {
 
 	msgCh := make(chan userRunMsg, 1)
 	ev := eventUserRun{
+		ctx:    ctx,
 		params: params,
 		ch:     msgCh,
 	}
diff --git a/user.go b/user.go
index 0e69b22..5ec10c4 100644
--- a/user.go
+++ b/user.go
@@ -88,6 +88,7 @@ type eventTryRegainNick struct {
 }
 
 type eventUserRun struct {
+	ctx    context.Context
 	params []string
 	ch     chan userRunMsg
 }
@@ -865,7 +866,12 @@ func (u *user) run() {
 		case eventTryRegainNick:
 			e.uc.tryRegainNick(e.nick)
 		case eventUserRun:
-			ctx := context.TODO()
+			if e.ctx.Err() != nil {
+				// The sender has already given up
+				break
+			}
+
+			ctx, cancel := context.WithTimeout(e.ctx, handleDownstreamMessageTimeout)
 			err := handleServiceCommand(&serviceContext{
 				Context: ctx,
 				user:    u,
@@ -879,17 +885,16 @@ func (u *user) run() {
 				// so this cannot be used to escalate privileges.
 				admin: true,
 				print: func(text string) {
-					// Avoid blocking on e.print in case our context is canceled.
-					// This is a no-op right now because we use context.TODO(),
-					// but might be useful later when we add timeouts.
+					// Avoid blocking on e.ch in case the sender has given up.
 					select {
-					case <-ctx.Done():
+					case <-e.ctx.Done():
 					case e.ch <- userRunMsg{message: text}:
 					}
 				},
 			}, e.params)
+			cancel()
 			select {
-			case <-ctx.Done():
+			case <-e.ctx.Done():
 			case e.ch <- userRunMsg{err: err}:
 			}
 		case eventStop:
-- 
2.43.0


From 8c350afe4bf5c8d0ca6cc68eb2075b49662e103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:09 +0000
Subject: [PATCH 56/98] fix: don't deadlock when two users update each other

---
 server.go  |  1 +
 service.go | 16 ++++++++++++++--
 user.go    |  9 +++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 1df3dc6..55bdb46 100644
--- a/server.go
+++ b/server.go
@@ -781,6 +781,7 @@ func (s *Server) disableInactiveUsers(ctx context.Context) error {
 		event := eventUserUpdate{
 			enabled: &enabled,
 			done:    done,
+			claimed: new(atomic.Bool),
 		}
 		select {
 		case <-ctx.Done():
diff --git a/service.go b/service.go
index 339b765..0c06af1 100644
--- a/service.go
+++ b/service.go
@@ -12,6 +12,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 	"unicode"
 
@@ -1116,14 +1117,25 @@ func handleUserUpdate(ctx *serviceContext, params []string) error {
 			enabled:     enabled,
 			maxNetworks: maxNetworks,
 			done:        done,
+			claimed:     new(atomic.Bool),
 		}
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
 		case u.events <- event:
 		}
-		// TODO: send context to the other side
-		if err := <-done; err != nil {
+
+		var err error
+		select {
+		case <-ctx.Done():
+			if event.claimed.CompareAndSwap(false, true) {
+				return ctx.Err()
+			}
+			// Already being processed
+			err = <-done
+		case err = <-done:
+		}
+		if err != nil {
 			return err
 		}
 
diff --git a/user.go b/user.go
index 5ec10c4..37a9c2a 100644
--- a/user.go
+++ b/user.go
@@ -80,6 +80,10 @@ type eventUserUpdate struct {
 	enabled     *bool
 	maxNetworks *int
 	done        chan error
+
+	// Set when the user goroutine starts processing the event, or when the
+	// sender gives up
+	claimed *atomic.Bool
 }
 
 type eventTryRegainNick struct {
@@ -840,6 +844,11 @@ func (u *user) run() {
 				dc.SendMessage(context.TODO(), msg)
 			}
 		case eventUserUpdate:
+			if !e.claimed.CompareAndSwap(false, true) {
+				// The sender has already given up
+				break
+			}
+
 			e.done <- u.updateUser(context.TODO(), func(record *database.User) error {
 				if e.password != nil {
 					record.Password = *e.password
-- 
2.43.0


From 675facd89b3cebca699bf1e134de1f692cece3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:57 +0000
Subject: [PATCH 57/98] fix: give up properly on pending commands when the
 server does not reply

---
 upstream.go | 99 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/upstream.go b/upstream.go
index 7b29c00..351b794 100644
--- a/upstream.go
+++ b/upstream.go
@@ -450,54 +450,59 @@ func (uc *upstreamConn) forwardMsgByID(ctx context.Context, id uint64, msg *irc.
 }
 
 func (uc *upstreamConn) abortPendingCommands() {
-	ctx := context.TODO()
 	for _, l := range uc.pendingCmds {
-		for _, pendingCmd := range l {
-			dc := uc.downstreamByID(pendingCmd.downstreamID)
-			if dc == nil {
-				continue
-			}
-
-			switch pendingCmd.msg.Command {
-			case "LIST":
-				dc.SendMessage(ctx, &irc.Message{
-					Command: irc.RPL_LISTEND,
-					Params:  []string{dc.nick, "Command aborted"},
-				})
-			case "WHO":
-				mask := "*"
-				if len(pendingCmd.msg.Params) > 0 {
-					mask = pendingCmd.msg.Params[0]
-				}
-				dc.SendMessage(ctx, &irc.Message{
-					Command: irc.RPL_ENDOFWHO,
-					Params:  []string{dc.nick, mask, "Command aborted"},
-				})
-			case "WHOIS":
-				nick := pendingCmd.msg.Params[len(pendingCmd.msg.Params)-1]
-				dc.SendMessage(ctx, &irc.Message{
-					Command: irc.RPL_ENDOFWHOIS,
-					Params:  []string{dc.nick, nick, "Command aborted"},
-				})
-			case "AUTHENTICATE":
-				dc.endSASL(ctx, &irc.Message{
-					Command: irc.ERR_SASLABORTED,
-					Params:  []string{dc.nick, "SASL authentication aborted"},
-				})
-			case "REGISTER", "VERIFY":
-				dc.SendMessage(ctx, &irc.Message{
-					Command: "FAIL",
-					Params:  []string{pendingCmd.msg.Command, "TEMPORARILY_UNAVAILABLE", pendingCmd.msg.Params[0], "Command aborted"},
-				})
-			default:
-				panic(fmt.Errorf("Unsupported pending command %q", pendingCmd.msg.Command))
-			}
+		for i := range l {
+			uc.abortPendingCommand(&l[i])
 		}
 	}
 
 	uc.pendingCmds = make(map[string][]pendingUpstreamCommand)
 }
 
+func (uc *upstreamConn) abortPendingCommand(pendingCmd *pendingUpstreamCommand) {
+	ctx := context.TODO()
+
+	dc := uc.downstreamByID(pendingCmd.downstreamID)
+	if dc == nil {
+		return
+	}
+
+	switch pendingCmd.msg.Command {
+	case "LIST":
+		dc.SendMessage(ctx, &irc.Message{
+			Command: irc.RPL_LISTEND,
+			Params:  []string{dc.nick, "Command aborted"},
+		})
+	case "WHO":
+		mask := "*"
+		if len(pendingCmd.msg.Params) > 0 {
+			mask = pendingCmd.msg.Params[0]
+		}
+		dc.SendMessage(ctx, &irc.Message{
+			Command: irc.RPL_ENDOFWHO,
+			Params:  []string{dc.nick, mask, "Command aborted"},
+		})
+	case "WHOIS":
+		nick := pendingCmd.msg.Params[len(pendingCmd.msg.Params)-1]
+		dc.SendMessage(ctx, &irc.Message{
+			Command: irc.RPL_ENDOFWHOIS,
+			Params:  []string{dc.nick, nick, "Command aborted"},
+		})
+	case "AUTHENTICATE":
+		dc.endSASL(ctx, &irc.Message{
+			Command: irc.ERR_SASLABORTED,
+			Params:  []string{dc.nick, "SASL authentication aborted"},
+		})
+	case "REGISTER", "VERIFY":
+		dc.SendMessage(ctx, &irc.Message{
+			Command: "FAIL",
+			Params:  []string{pendingCmd.msg.Command, "TEMPORARILY_UNAVAILABLE", pendingCmd.msg.Params[0], "Command aborted"},
+		})
+	default:
+		panic(fmt.Errorf("Unsupported pending command %q", pendingCmd.msg.Command))
+	}
+}
+
 func (uc *upstreamConn) sendNextPendingCommand(cmd string) {
 	if len(uc.pendingCmds[cmd]) == 0 {
 		return
@@ -515,17 +520,17 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 		panic(fmt.Errorf("Unsupported pending command %q", msg.Command))
 	}
 
+	// If we didn't get a reply after a while, just give up
+	if l := uc.pendingCmds[msg.Command]; len(l) > 0 && time.Since(l[0].sentAt) > 30*time.Second {
+		uc.abortPendingCommand(&l[0])
+		uc.dequeueCommand(msg.Command)
+	}
+
 	uc.pendingCmds[msg.Command] = append(uc.pendingCmds[msg.Command], pendingUpstreamCommand{
 		downstreamID: dc.id,
 		msg:          msg,
 	})
 
-	// If we didn't get a reply after a while, just give up
-	// TODO: consider sending an abort reply to downstream
-	if t := uc.pendingCmds[msg.Command][0].sentAt; !t.IsZero() && time.Since(t) > 30*time.Second {
-		copy(uc.pendingCmds[msg.Command], uc.pendingCmds[msg.Command][1:])
-	}
-
 	if len(uc.pendingCmds[msg.Command]) == 1 {
 		uc.sendNextPendingCommand(msg.Command)
 	}
-- 
2.43.0


From 948707e1ff4c0c1236c995f07679e964039aa24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:01 +0000
Subject: [PATCH 58/98] fix: end a pending WHOIS when its server is unknown

---
 upstream.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 351b794..09f58a0 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1759,7 +1759,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		cm := uc.network.casemap
 		dc, cmd := uc.currentPendingCommand("WHOIS")
-		if cmd != nil && cm(cmd.Params[len(cmd.Params)-1]) == cm(nick) {
+		var target string
+		if cmd != nil && msg.Command == irc.ERR_NOSUCHSERVER {
+			target = cmd.Params[0]
+		} else if cmd != nil {
+			target = cmd.Params[len(cmd.Params)-1]
+		}
+		if cmd != nil && cm(target) == cm(nick) {
 			uc.dequeueCommand("WHOIS")
 			if dc != nil {
 				dc.SendMessage(ctx, msg)
-- 
2.43.0


From e296b732be813710997ca8fce8b635c100a202a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:32 +0000
Subject: [PATCH 59/98] fix: forward all replies to WHOWAS

---
 upstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 09f58a0..20e6e96 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1616,7 +1616,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case xirc.RPL_WHOISCERTFP, xirc.RPL_WHOISREGNICK, irc.RPL_WHOISUSER, irc.RPL_WHOISSERVER, irc.RPL_WHOISCHANNELS, irc.RPL_WHOISOPERATOR, irc.RPL_WHOISIDLE, xirc.RPL_WHOISSPECIAL, xirc.RPL_WHOISACCOUNT, xirc.RPL_WHOISACTUALLY, xirc.RPL_WHOISHOST, xirc.RPL_WHOISMODES, xirc.RPL_WHOISSECURE:
 		dc, cmd := uc.currentPendingCommand("WHOIS")
 		if cmd == nil {
-			return fmt.Errorf("unexpected WHOIS reply %q: no matching pending WHOIS", msg.Command)
+			// Some of these are sent in reply to WHOWAS as well
+			uc.forwardMsgByID(ctx, downstreamID, msg)
+			return nil
 		} else if dc == nil {
 			return nil
 		}
-- 
2.43.0


From 18dd9ca6d3df677ccd3a803f37cac18af739d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:36 +0000
Subject: [PATCH 60/98] fix: use labels to tell which pending command a reply
 belongs to

---
 upstream.go | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/upstream.go b/upstream.go
index 20e6e96..dea5091 100644
--- a/upstream.go
+++ b/upstream.go
@@ -523,7 +523,7 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 	// If we didn't get a reply after a while, just give up
 	if l := uc.pendingCmds[msg.Command]; len(l) > 0 && time.Since(l[0].sentAt) > 30*time.Second {
 		uc.abortPendingCommand(&l[0])
-		uc.dequeueCommand(msg.Command)
+		uc.dequeueCommand(msg.Command, "")
 	}
 
 	uc.pendingCmds[msg.Command] = append(uc.pendingCmds[msg.Command], pendingUpstreamCommand{
@@ -536,23 +536,30 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 	}
 }
 
-func (uc *upstreamConn) currentPendingCommand(cmd string) (*downstreamConn, *irc.Message) {
+// currentPendingCommand returns the command a reply from the server belongs to.
+func (uc *upstreamConn) currentPendingCommand(cmd, label string) (*downstreamConn, *irc.Message) {
 	if len(uc.pendingCmds[cmd]) == 0 {
 		return nil, nil
 	}
 
 	pendingCmd := uc.pendingCmds[cmd][0]
+	if label != "" && label != pendingCmd.msg.Tags["label"] {
+		// This is a reply to another command
+		return nil, nil
+	}
+
 	return uc.downstreamByID(pendingCmd.downstreamID), pendingCmd.msg
 }
 
-func (uc *upstreamConn) dequeueCommand(cmd string) (*downstreamConn, *irc.Message) {
-	dc, msg := uc.currentPendingCommand(cmd)
-
-	if len(uc.pendingCmds[cmd]) > 0 {
-		copy(uc.pendingCmds[cmd], uc.pendingCmds[cmd][1:])
-		uc.pendingCmds[cmd] = uc.pendingCmds[cmd][:len(uc.pendingCmds[cmd])-1]
+func (uc *upstreamConn) dequeueCommand(cmd, label string) (*downstreamConn, *irc.Message) {
+	dc, msg := uc.currentPendingCommand(cmd, label)
+	if msg == nil {
+		return nil, nil
 	}
 
+	copy(uc.pendingCmds[cmd], uc.pendingCmds[cmd][1:])
+	uc.pendingCmds[cmd] = uc.pendingCmds[cmd][:len(uc.pendingCmds[cmd])-1]
+
 	uc.sendNextPendingCommand(cmd)
 
 	return dc, msg
@@ -897,7 +904,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslStarted = false
 
 		// The client may have aborted and started another exchange meanwhile
-		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil && dc.sasl.plain != nil {
+		if dc, _ := uc.dequeueCommand("AUTHENTICATE", label); dc != nil && dc.sasl != nil && dc.sasl.plain != nil {
 			if msg.Command == irc.RPL_SASLSUCCESS {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
@@ -912,7 +919,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			})
 		}
 	case "REGISTER", "VERIFY":
-		if dc, cmd := uc.dequeueCommand(msg.Command); dc != nil {
+		if dc, cmd := uc.dequeueCommand(msg.Command, label); dc != nil {
 			if msg.Command == "REGISTER" {
 				var account, password string
 				if err := parseMessageParams(msg, nil, &account); err != nil {
@@ -1475,7 +1482,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.forwardMessage(ctx, msg)
 		}
 	case irc.RPL_LISTSTART, irc.RPL_LIST:
-		dc, cmd := uc.currentPendingCommand("LIST")
+		dc, cmd := uc.currentPendingCommand("LIST", label)
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_LIST: no matching pending LIST")
 		} else if dc == nil {
@@ -1484,7 +1491,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case irc.RPL_LISTEND:
-		dc, cmd := uc.dequeueCommand("LIST")
+		dc, cmd := uc.dequeueCommand("LIST", label)
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_LISTEND: no matching pending LIST")
 		} else if dc == nil {
@@ -1545,7 +1552,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		dc, cmd := uc.currentPendingCommand("WHO")
+		dc, cmd := uc.currentPendingCommand("WHO", label)
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_WHOREPLY: no matching pending WHO")
 		} else if dc == nil {
@@ -1571,7 +1578,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			})
 		}
 	case xirc.RPL_WHOSPCRPL:
-		dc, cmd := uc.currentPendingCommand("WHO")
+		dc, cmd := uc.currentPendingCommand("WHO", label)
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_WHOSPCRPL: no matching pending WHO")
 		} else if dc == nil {
@@ -1603,7 +1610,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 		}
 	case irc.RPL_ENDOFWHO:
-		dc, cmd := uc.dequeueCommand("WHO")
+		dc, cmd := uc.dequeueCommand("WHO", label)
 		if cmd == nil {
 			// Some servers send RPL_TRYAGAIN followed by RPL_ENDOFWHO
 			return nil
@@ -1614,7 +1621,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case xirc.RPL_WHOISCERTFP, xirc.RPL_WHOISREGNICK, irc.RPL_WHOISUSER, irc.RPL_WHOISSERVER, irc.RPL_WHOISCHANNELS, irc.RPL_WHOISOPERATOR, irc.RPL_WHOISIDLE, xirc.RPL_WHOISSPECIAL, xirc.RPL_WHOISACCOUNT, xirc.RPL_WHOISACTUALLY, xirc.RPL_WHOISHOST, xirc.RPL_WHOISMODES, xirc.RPL_WHOISSECURE:
-		dc, cmd := uc.currentPendingCommand("WHOIS")
+		dc, cmd := uc.currentPendingCommand("WHOIS", label)
 		if cmd == nil {
 			// Some of these are sent in reply to WHOWAS as well
 			uc.forwardMsgByID(ctx, downstreamID, msg)
@@ -1625,7 +1632,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case irc.RPL_ENDOFWHOIS:
-		dc, cmd := uc.dequeueCommand("WHOIS")
+		dc, cmd := uc.dequeueCommand("WHOIS", label)
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_ENDOFWHOIS: no matching pending WHOIS")
 		} else if dc == nil {
@@ -1760,7 +1767,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 
 		cm := uc.network.casemap
-		dc, cmd := uc.currentPendingCommand("WHOIS")
+		dc, cmd := uc.currentPendingCommand("WHOIS", label)
 		var target string
 		if cmd != nil && msg.Command == irc.ERR_NOSUCHSERVER {
 			target = cmd.Params[0]
@@ -1768,7 +1775,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			target = cmd.Params[len(cmd.Params)-1]
 		}
 		if cmd != nil && cm(target) == cm(nick) {
-			uc.dequeueCommand("WHOIS")
+			uc.dequeueCommand("WHOIS", label)
 			if dc != nil {
 				dc.SendMessage(ctx, msg)
 			}
@@ -1781,7 +1788,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		if dc, _ := uc.dequeueCommand(command, label); dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
 
@@ -1801,7 +1808,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return registrationError{msg}
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		if dc, _ := uc.dequeueCommand(command, label); dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
 
-- 
2.43.0


From 47f5ff11251ebdefdca95b086372bddf10d2696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:15 +0000
Subject: [PATCH 61/98] fix: ignore end-of-list replies to WHO and WHOIS
 commands already ended by an error

---
 upstream.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index dea5091..4aaa41e 100644
--- a/upstream.go
+++ b/upstream.go
@@ -227,6 +227,9 @@ type upstreamConn struct {
 	// sent to the server and is awaiting reply. The following entries have not
 	// been sent yet.
 	pendingCmds map[string][]pendingUpstreamCommand
+	// Target of the last WHO and WHOIS command ended by an error: servers may
+	// send an end-of-list reply nonetheless
+	failedWHO, failedWHOIS string
 
 	pendingRegainNick string
 	regainNickTimer   *time.Timer
@@ -1610,6 +1613,16 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 		}
 	case irc.RPL_ENDOFWHO:
+		var mask string
+		if err := parseMessageParams(msg, nil, &mask); err != nil {
+			return err
+		}
+
+		if _, cmd := uc.currentPendingCommand("WHO", label); cmd != nil && mask == uc.failedWHO && mask != cmd.Params[0] {
+			uc.failedWHO = ""
+			return nil
+		}
+
 		dc, cmd := uc.dequeueCommand("WHO", label)
 		if cmd == nil {
 			// Some servers send RPL_TRYAGAIN followed by RPL_ENDOFWHO
@@ -1626,12 +1639,25 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			// Some of these are sent in reply to WHOWAS as well
 			uc.forwardMsgByID(ctx, downstreamID, msg)
 			return nil
-		} else if dc == nil {
+		}
+
+		uc.failedWHOIS = ""
+		if dc == nil {
 			return nil
 		}
 
 		dc.SendMessage(ctx, msg)
 	case irc.RPL_ENDOFWHOIS:
+		var nick string
+		if err := parseMessageParams(msg, nil, &nick); err != nil {
+			return err
+		}
+
+		if uc.failedWHOIS != "" && uc.network.equalCasemap(nick, uc.failedWHOIS) {
+			uc.failedWHOIS = ""
+			return nil
+		}
+
 		dc, cmd := uc.dequeueCommand("WHOIS", label)
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_ENDOFWHOIS: no matching pending WHOIS")
@@ -1775,6 +1801,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			target = cmd.Params[len(cmd.Params)-1]
 		}
 		if cmd != nil && cm(target) == cm(nick) {
+			uc.failedWHOIS = cmd.Params[len(cmd.Params)-1]
 			uc.dequeueCommand("WHOIS", label)
 			if dc != nil {
 				dc.SendMessage(ctx, msg)
@@ -1788,9 +1815,18 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.dequeueCommand(command, label); dc != nil && downstreamID == 0 {
+		dc, cmd := uc.dequeueCommand(command, label)
+		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
+		if cmd != nil {
+			switch command {
+			case "WHO":
+				uc.failedWHO = cmd.Params[0]
+			case "WHOIS":
+				uc.failedWHOIS = cmd.Params[len(cmd.Params)-1]
+			}
+		}
 
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
-- 
2.43.0


From 64e3b9202cc6dfbf840e74bbe4dc6b86fe436535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:50 +0000
Subject: [PATCH 62/98] fix: do not show errors of commands sent by closed
 connections to others

---
 upstream.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 4aaa41e..e9f700d 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1833,6 +1833,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.saslStarted = false
 		}
 
+		if cmd != nil && dc == nil {
+			// Downstream connection is gone
+			return nil
+		}
+
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "FAIL":
 		var command, code string
@@ -1844,7 +1849,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return registrationError{msg}
 		}
 
-		if dc, _ := uc.dequeueCommand(command, label); dc != nil && downstreamID == 0 {
+		dc, cmd := uc.dequeueCommand(command, label)
+		if cmd != nil && dc == nil {
+			// Downstream connection is gone
+			return nil
+		} else if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
 
-- 
2.43.0


From fa00f3c8b8004c82557d6bbda4f0c47c008d8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:09 +0000
Subject: [PATCH 63/98] fix: keep monitoring the desired nick when updating the
 MONITOR list

---
 upstream.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/upstream.go b/upstream.go
index e9f700d..259c261 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2346,9 +2346,13 @@ func (uc *upstreamConn) updateMonitor() {
 
 	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
 	wantNickCM := uc.network.casemap(wantNick)
-	if _, ok := add[wantNickCM]; !ok && !uc.monitored.Has(wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
-		addList = append(addList, wantNickCM)
-		add[wantNickCM] = struct{}{}
+	if !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
+		if uc.monitored.Has(wantNick) {
+			seen[wantNickCM] = struct{}{}
+		} else if _, ok := add[wantNickCM]; !ok {
+			addList = append(addList, wantNickCM)
+			add[wantNickCM] = struct{}{}
+		}
 	}
 
 	removeAll := true
-- 
2.43.0


From b0d02807f67f7fff772aeff1481dc02090fe7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:14 +0000
Subject: [PATCH 64/98] fix: handle an empty AWAY message as no longer being
 away

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 469ddab..aa7c959 100644
--- a/downstream.go
+++ b/downstream.go
@@ -780,7 +780,7 @@ func (dc *downstreamConn) handleMessageUnregistered(ctx context.Context, msg *ir
 			}}
 		}
 	case "AWAY":
-		if len(msg.Params) > 0 {
+		if len(msg.Params) > 0 && msg.Params[0] != "" {
 			dc.away = &msg.Params[0]
 		} else {
 			dc.away = nil
@@ -2606,7 +2606,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		uc.logger.Printf("starting %v with account name %v", msg.Command, msg.Params[0])
 		uc.enqueueCommand(dc, msg)
 	case "AWAY":
-		if len(msg.Params) > 0 {
+		if len(msg.Params) > 0 && msg.Params[0] != "" {
 			dc.away = &msg.Params[0]
 		} else {
 			dc.away = nil
-- 
2.43.0


From 72abed6e8054d0b7d3ea16a4faf4d356b0fc38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:06 +0000
Subject: [PATCH 65/98] fix: drop MONITOR targets nobody wants anymore when the
 server replies

---
 upstream.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/upstream.go b/upstream.go
index 259c261..51c7fa2 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1739,10 +1739,12 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 		}
 
+		wanted := make(map[string]bool)
 		uc.forEachDownstream(func(dc *downstreamConn) {
 			for _, target := range targets {
 				prefix := irc.ParsePrefix(target)
 				if dc.monitored.Has(prefix.Name) {
+					wanted[prefix.Name] = true
 					dc.SendMessage(ctx, &irc.Message{
 						Command: msg.Command,
 						Params:  []string{dc.nick, target},
@@ -1750,6 +1752,15 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				}
 			}
 		})
+
+		// The last downstream interested in a target may have gone before the
+		// server has replied
+		for _, target := range targets {
+			if !wanted[irc.ParsePrefix(target).Name] {
+				uc.updateMonitor()
+				break
+			}
+		}
 	case irc.ERR_MONLISTFULL:
 		var limit, targetsStr string
 		if err := parseMessageParams(msg, nil, &limit, &targetsStr); err != nil {
-- 
2.43.0


From a4dee9739e42fa95ca161520c4278e03b9aaf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:07 +0000
Subject: [PATCH 66/98] fix: keep the case-mapping of a network which is
 updated

---
 user.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/user.go b/user.go
index 37a9c2a..9186982 100644
--- a/user.go
+++ b/user.go
@@ -1162,6 +1162,7 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	prevAttrs := getNetworkAttrs(network)
 
 	updatedNetwork := newNetwork(u, record, channels)
+	updatedNetwork.casemap = network.casemap
 	updatedNetwork.delivered = network.delivered
 	updatedNetwork.delivered.m.SetCaseMapping(updatedNetwork.casemap)
 	updatedNetwork.pushTargets = network.pushTargets
-- 
2.43.0


From b560f2719890b256f324c1a160d393cd1f5fc080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:39 +0000
Subject: [PATCH 67/98] fix: wait for all lines of CAP LS when the server
 includes our nick

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 51c7fa2..d04ab16 100644
--- a/upstream.go
+++ b/upstream.go
@@ -730,7 +730,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				return newNeedMoreParamsError(msg.Command)
 			}
 			caps := subParams[len(subParams)-1]
-			more := len(subParams) >= 2 && msg.Params[len(subParams)-2] == "*"
+			more := len(subParams) >= 2 && subParams[len(subParams)-2] == "*"
 
 			uc.handleSupportedCaps(caps)
 
-- 
2.43.0


From 32c8593b57d8394957226c61c177ac6c7c895efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 68/98] fix: complete registration when the server refuses the
 SASL capability

---
 upstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/upstream.go b/upstream.go
index d04ab16..d5de67f 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2063,6 +2063,12 @@ func (uc *upstreamConn) handleCapAck(ctx context.Context, name string, ok bool)
 		}
 		if !ok {
 			uc.logger.Printf("server refused to acknowledge the SASL capability")
+			if !uc.registered {
+				uc.SendMessage(ctx, &irc.Message{
+					Command: "CAP",
+					Params:  []string{"END"},
+				})
+			}
 			return nil
 		}
 
-- 
2.43.0


From 66fcbd68dc1bd83ccd111969418f1017eea7aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 69/98] fix: handle ERR_SASLALREADY from upstream servers

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index d5de67f..81e5932 100644
--- a/upstream.go
+++ b/upstream.go
@@ -889,7 +889,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.forEachDownstream(func(dc *downstreamConn) {
 			dc.updateHost(ctx)
 		})
-	case irc.ERR_NICKLOCKED, irc.RPL_SASLSUCCESS, irc.ERR_SASLFAIL, irc.ERR_SASLTOOLONG, irc.ERR_SASLABORTED:
+	case irc.ERR_NICKLOCKED, irc.RPL_SASLSUCCESS, irc.ERR_SASLFAIL, irc.ERR_SASLTOOLONG, irc.ERR_SASLABORTED, irc.ERR_SASLALREADY:
 		var info string
 		if err := parseMessageParams(msg, nil, &info); err != nil {
 			return err
-- 
2.43.0


From 4975a277637eed1cce9fca92b352dace535312b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:21 +0000
Subject: [PATCH 70/98] fix: keep trying to regain the desired nick while it is
 unavailable

---
 upstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 81e5932..740eec8 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1911,6 +1911,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return nil
 		}
 
+		fallthrough
+	case irc.ERR_NICKCOLLISION, irc.ERR_UNAVAILRESOURCE:
 		var failedNick string
 		if err := parseMessageParams(msg, nil, &failedNick); err != nil {
 			return err
@@ -1923,7 +1925,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 
 		fallthrough
-	case irc.ERR_PASSWDMISMATCH, irc.ERR_ERRONEUSNICKNAME, irc.ERR_NICKCOLLISION, irc.ERR_UNAVAILRESOURCE, irc.ERR_NOPERMFORHOST, irc.ERR_YOUREBANNEDCREEP:
+	case irc.ERR_PASSWDMISMATCH, irc.ERR_ERRONEUSNICKNAME, irc.ERR_NOPERMFORHOST, irc.ERR_YOUREBANNEDCREEP:
 		if !uc.registered {
 			return registrationError{msg}
 		}
-- 
2.43.0


From 0830eac1dfe065e9b473af958364720c4561f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:25 +0000
Subject: [PATCH 71/98] fix: don't panic on raw commands with nothing after the
 tags

---
 service.go  | 4 ++--
 upstream.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/service.go b/service.go
index 0c06af1..1252fc0 100644
--- a/service.go
+++ b/service.go
@@ -587,7 +587,7 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 				return fmt.Errorf("too many -connect-command flags supplied")
 			}
 			for _, command := range fs.ConnectCommands {
-				_, err := irc.ParseMessage(command)
+				_, err := parseIRCMessage(command)
 				if err != nil {
 					return fmt.Errorf("flag -connect-command must be a valid raw irc command string: %q: %v", command, err)
 				}
@@ -744,7 +744,7 @@ func handleServiceNetworkQuote(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("network %q is not currently connected", net.GetName())
 	}
 
-	m, err := irc.ParseMessage(raw)
+	m, err := parseIRCMessage(raw)
 	if err != nil {
 		return fmt.Errorf("failed to parse command %q: %v", raw, err)
 	}
diff --git a/upstream.go b/upstream.go
index 740eec8..e3be564 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2160,7 +2160,7 @@ func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
 	}
 
 	for _, command := range uc.network.ConnectCommands {
-		m, err := irc.ParseMessage(command)
+		m, err := parseIRCMessage(command)
 		if err != nil {
 			uc.logger.Printf("failed to parse connect command %q: %v", command, err)
 		} else {
-- 
2.43.0


From 4dc80e68b3ffc030e29b5c9e817210e132c410c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:11 +0000
Subject: [PATCH 72/98] fix: handle negated ISUPPORT tokens

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index e3be564..6c15f76 100644
--- a/upstream.go
+++ b/upstream.go
@@ -976,7 +976,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			var value string
 			if strings.HasPrefix(token, "-") {
 				negate = true
-				token = token[1:]
+				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
 				value = token[i+1:]
-- 
2.43.0


From 512130dc6b7fcb23090e1f953a5fee5a8fbabceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:14 +0000
Subject: [PATCH 73/98] fix: don't escape ISUPPORT values from the server twice

---
 upstream.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 6c15f76..a5e270f 100644
--- a/upstream.go
+++ b/upstream.go
@@ -47,6 +47,9 @@ var permanentUpstreamCaps = map[string]bool{
 	"draft/extended-monitor":     true,
 }
 
+// isupportDecoder decodes the value of an ISUPPORT token.
+var isupportDecoder = strings.NewReplacer("\\x20", " ", "\\x5C", "\\", "\\x3D", "=")
+
 // storableMessageTags is the static list of message tags that will cause
 // a TAGMSG to be stored.
 var storableMessageTags = map[string]bool{
@@ -979,7 +982,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
-				value = token[i+1:]
+				value = isupportDecoder.Replace(token[i+1:])
+				token = parameter + "=" + value
 				hasValue = true
 			}
 			parameter = strings.ToUpper(parameter)
-- 
2.43.0


From 372ef26211ad6e17150117756504ba6f241ac722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:54 +0000
Subject: [PATCH 74/98] fix: tell clients about capability values changed by
 the server

---
 upstream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/upstream.go b/upstream.go
index a5e270f..441df2d 100644
--- a/upstream.go
+++ b/upstream.go
@@ -779,6 +779,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 			uc.handleSupportedCaps(subParams[0])
 			uc.updateCaps(ctx)
+
+			if uc.registered {
+				// The value of a capability may have changed
+				uc.forEachDownstream(func(dc *downstreamConn) {
+					dc.updateSupportedCaps(ctx)
+				})
+			}
 		case "DEL":
 			if len(subParams) < 1 {
 				return newNeedMoreParamsError(msg.Command)
-- 
2.43.0


From bccf8c43fa4ff4d72ed7d9a14f7dcb84b47d3ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:58 +0000
Subject: [PATCH 75/98] fix: update default real name of clients on nick change
 while disconnected

The real name defaults to the nick. When a client changes the nick of a
network while disconnected from it, tell clients about their new real name.
---
 downstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/downstream.go b/downstream.go
index aa7c959..6240599 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1849,6 +1849,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			} else {
 				dc.network.forEachDownstream(func(c *downstreamConn) {
 					c.updateNick(ctx)
+					c.updateRealname(ctx) // defaults to the nick
 				})
 			}
 		}
-- 
2.43.0


From f45ff1d79fea69d0f2c188eff869b8b6a561badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:55 +0000
Subject: [PATCH 76/98] fix: don't ignore SETNAME when the client's known real
 name is outdated

A client which disables setname isn't told about real name changes
anymore. When it later requested the real name it was last told, the
request was acknowledged without being applied.
---
 downstream.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/downstream.go b/downstream.go
index 6240599..969bb79 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1195,21 +1195,24 @@ func (dc *downstreamConn) updateHost(ctx context.Context) {
 	dc.username = uc.username
 }
 
-func (dc *downstreamConn) updateRealname(ctx context.Context) {
-	if !dc.caps.IsEnabled("setname") {
-		return
-	}
-
-	var realname string
+// currentRealname returns the real name currently in use. It can be different
+// from dc.realname if the client hasn't been notified about a change.
+func (dc *downstreamConn) currentRealname() string {
 	if uc := dc.upstream(); uc != nil {
-		realname = uc.realname
+		return uc.realname
 	} else if dc.network != nil {
-		realname = database.GetRealname(&dc.user.User, &dc.network.Network)
+		return database.GetRealname(&dc.user.User, &dc.network.Network)
 	} else {
-		realname = database.GetRealname(&dc.user.User, nil)
+		return database.GetRealname(&dc.user.User, nil)
+	}
+}
+
+func (dc *downstreamConn) updateRealname(ctx context.Context) {
+	if !dc.caps.IsEnabled("setname") {
+		return
 	}
 
-	if realname != dc.realname {
+	if realname := dc.currentRealname(); realname != dc.realname {
 		dc.SendMessage(ctx, &irc.Message{
 			Prefix:  dc.prefix(),
 			Command: "SETNAME",
@@ -1859,7 +1862,8 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			return err
 		}
 
-		if dc.realname == realname {
+		if dc.currentRealname() == realname {
+			dc.realname = realname
 			dc.SendMessage(ctx, &irc.Message{
 				Prefix:  dc.prefix(),
 				Command: "SETNAME",
-- 
2.43.0


From 55c0fa8c73a12a4c105b8c446650940fb657ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:42 +0000
Subject: [PATCH 77/98] fix: support upstream-user-ip ranges starting with zero
 bytes

big.Int.Bytes strips leading zeros, making ranges such as 64:ff9b:1::/48
unusable.
---
 user.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 9186982..f200a86 100644
--- a/user.go
+++ b/user.go
@@ -1394,7 +1394,11 @@ func (u *user) localTCPAddr(remoteIP net.IP) (*net.TCPAddr, error) {
 	var ipInt big.Int
 	ipInt.SetBytes(ipNet.IP)
 	ipInt.Add(&ipInt, big.NewInt(u.ID+1))
-	ip := net.IP(ipInt.Bytes())
+	if ipInt.BitLen() > 8*len(ipNet.IP) {
+		return nil, fmt.Errorf("IP network %v too small", ipNet)
+	}
+	ip := make(net.IP, len(ipNet.IP))
+	ipInt.FillBytes(ip)
 	if !ipNet.Contains(ip) {
 		return nil, fmt.Errorf("IP network %v too small", ipNet)
 	}
-- 
2.43.0


From 2c5e889f6835be670f02cfd1d38e7c04bd38a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:50 +0000
Subject: [PATCH 78/98] fix: use the last element of Forwarded and
 X-Forwarded-For headers

These header fields are lists to which each proxy appends an element. The
whole X-Forwarded-For list was used as the hostname of the client, resulting
in malformed IRC message prefixes, and Forwarded lists were ignored.
---
 server.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 55bdb46..972039d 100644
--- a/server.go
+++ b/server.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/http"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -689,13 +690,35 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	s.Handle(newWebsocketIRCConn(conn, remoteAddr))
 }
 
+// lastHeaderElement returns the last element of a header field containing a
+// comma-separated list. Each proxy appends an element to the list: the last one
+// has been added by the proxy which is directly connected to us.
+func lastHeaderElement(h http.Header, k string) string {
+	list := strings.Join(h.Values(k), ",")
+	start := 0
+	quoted, escaped := false, false
+	for i := 0; i < len(list); i++ {
+		switch ch := list[i]; {
+		case escaped:
+			escaped = false
+		case quoted && ch == '\\':
+			escaped = true
+		case ch == '"':
+			quoted = !quoted
+		case ch == ',' && !quoted:
+			start = i + 1
+		}
+	}
+	return strings.TrimSpace(list[start:])
+}
+
 func parseForwarded(h http.Header) map[string]string {
-	forwarded := h.Get("Forwarded")
+	forwarded := lastHeaderElement(h, "Forwarded")
 	if forwarded == "" {
 		return map[string]string{
-			"for":   h.Get("X-Forwarded-For"),
-			"proto": h.Get("X-Forwarded-Proto"),
-			"host":  h.Get("X-Forwarded-Host"),
+			"for":   lastHeaderElement(h, "X-Forwarded-For"),
+			"proto": lastHeaderElement(h, "X-Forwarded-Proto"),
+			"host":  lastHeaderElement(h, "X-Forwarded-Host"),
 		}
 	}
 	// Hack to easily parse header parameters
-- 
2.43.0


From dcdd8ade4c28f530471a4450b9a2e355ab3d3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:03 +0000
Subject: [PATCH 79/98] fix: refuse line breaks in WebSocket messages

A WebSocket message contains a single IRC message. A line break inside
made upstream servers and other clients see several messages.
---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 27e14ca..e3d4e7a 100644
--- a/conn.go
+++ b/conn.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 	"net"
 	"strings"
@@ -94,7 +95,11 @@ func (wic *websocketIRCConn) ReadMessage() (*irc.Message, error) {
 			return nil, err
 		}
 	}
-	return parseIRCMessage(string(b))
+	line := strings.TrimRight(string(b), "\r\n")
+	if strings.ContainsAny(line, "\r\n") {
+		return nil, fmt.Errorf("unexpected line break in WebSocket message")
+	}
+	return parseIRCMessage(line)
 }
 
 func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
-- 
2.43.0


From 76ad5c9099d4acbcbc575415c70e05225a23bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 80/98] fix: refuse link-local and unspecified Web Push
 endpoints

Connecting to the unspecified address reaches the local host, and
link-local addresses are used by e.g. cloud metadata services.
---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 969bb79..c7005c4 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3533,7 +3533,7 @@ func sanityCheckWebPushEndpoint(ctx context.Context, endpoint string) error {
 	}
 
 	for _, ip := range ips {
-		if ip.IsLoopback() || ip.IsMulticast() || ip.IsPrivate() {
+		if ip.IsLoopback() || ip.IsMulticast() || ip.IsPrivate() || ip.IsLinkLocalUnicast() || ip.IsUnspecified() {
 			return fmt.Errorf("invalid IP %v", ip)
 		}
 	}
-- 
2.43.0


From 173485f123cc31bda62201d3dd7cad9e48c873e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:36 +0000
Subject: [PATCH 81/98] fix: accept Web Push endpoints with a port or an IPv6
 address

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index c7005c4..ec4e1f9 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3527,7 +3527,7 @@ func sanityCheckWebPushEndpoint(ctx context.Context, endpoint string) error {
 		return fmt.Errorf("scheme must be HTTPS")
 	}
 
-	ips, err := net.DefaultResolver.LookupIP(ctx, "ip", u.Host)
+	ips, err := net.DefaultResolver.LookupIP(ctx, "ip", u.Hostname())
 	if err != nil {
 		return fmt.Errorf("DNS lookup failed: %v", err)
 	}
-- 
2.43.0


From baba98f349fb6807be1f12812f9f1779bebb8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:40 +0000
Subject: [PATCH 82/98] fix: ignore case of WEBPUSH subcommands

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index ec4e1f9..f2b17d7 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3215,7 +3215,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			return err
 		}
 
-		switch subcommand {
+		switch strings.ToUpper(subcommand) {
 		case "REGISTER":
 			var endpoint, keysStr string
 			if err := parseMessageParams(msg, nil, &endpoint, &keysStr); err != nil {
-- 
2.43.0


From 851beebed233bde9a010eada4de3b88fe4558f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 83/98] fix: send Web Push notifications for messages with
 large tags

The payload of these exceeds the size of a record.
---
 server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 972039d..a71a88a 100644
--- a/server.go
+++ b/server.go
@@ -45,6 +45,12 @@ var (
 	backlogLimit                   = 4000
 )
 
+const (
+	webpushRecordSize = 2048
+	// Excludes the header, the padding delimiter and the authentication tag
+	webpushMaxPayloadSize = webpushRecordSize - 86 - 1 - 16
+)
+
 var errWebPushSubscriptionExpired = fmt.Errorf("Web Push subscription expired")
 
 type Logger interface {
@@ -353,7 +359,7 @@ func (s *Server) sendWebPush(ctx context.Context, sub *webpush.Subscription, vap
 		Subscriber: "webpush@soju.im",
 		TTL:        7 * 24 * 60 * 60, // seconds
 		Urgency:    urgency,
-		RecordSize: 2048,
+		RecordSize: webpushRecordSize,
 	}
 
 	if vapidPubKey != options.VAPIDPublicKey {
@@ -361,6 +367,16 @@ func (s *Server) sendWebPush(ctx context.Context, sub *webpush.Subscription, vap
 	}
 
 	payload := []byte(msg.String())
+	if len(payload) > webpushMaxPayloadSize {
+		// Drop message tags we aren't required to send
+		stripped := msg.Copy()
+		for name := range stripped.Tags {
+			if name != "msgid" && name != "time" {
+				delete(stripped.Tags, name)
+			}
+		}
+		payload = []byte(stripped.String())
+	}
 	resp, err := webpush.SendNotificationWithContext(ctx, payload, sub, &options)
 	if err != nil {
 		return err
-- 
2.43.0


From 0b06f2f7bec66a5ad0c30e762d193095ff69ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:31 +0000
Subject: [PATCH 84/98] fix: check redirections of Web Push endpoints

These could be used to send requests to private services, which isn't
possible by registering an endpoint.
---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index a71a88a..14cf7dd 100644
--- a/server.go
+++ b/server.go
@@ -351,6 +351,12 @@ func (s *Server) sendWebPush(ctx context.Context, sub *webpush.Subscription, vap
 	options := webpush.Options{
 		HTTPClient: &http.Client{
 			Transport: userAgentHTTPTransport("soju"),
+			CheckRedirect: func(req *http.Request, via []*http.Request) error {
+				if len(via) >= 10 {
+					return fmt.Errorf("too many redirects")
+				}
+				return sanityCheckWebPushEndpoint(req.Context(), req.URL.String())
+			},
 		},
 		VAPIDPublicKey:  s.webPush.VAPIDKeys.Public,
 		VAPIDPrivateKey: s.webPush.VAPIDKeys.Private,
-- 
2.43.0


From fdcee9f8263f25effa0c13289bd342f8c8410f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 85/98] fix: don't use SASL credentials which could not be
 stored

---
 service.go | 34 ++++++++++++++++++++--------------
 user.go    | 11 +++++++----
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/service.go b/service.go
index 1252fc0..bce3a0b 100644
--- a/service.go
+++ b/service.go
@@ -805,13 +805,15 @@ func handleServiceCertFPGenerate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.External.CertBlob = cert
-	net.SASL.External.PrivKeyBlob = privKey
-	net.SASL.Mechanism = "EXTERNAL"
+	record := net.Network // copy
+	record.SASL.External.CertBlob = cert
+	record.SASL.External.PrivKeyBlob = privKey
+	record.SASL.Mechanism = "EXTERNAL"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("certificate generated")
 	sendCertfpFingerprints(ctx, cert)
@@ -897,13 +899,15 @@ func handleServiceSASLSetPlain(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = fs.Arg(0)
-	net.SASL.Plain.Password = fs.Arg(1)
-	net.SASL.Mechanism = "PLAIN"
+	record := net.Network // copy
+	record.SASL.Plain.Username = fs.Arg(0)
+	record.SASL.Plain.Password = fs.Arg(1)
+	record.SASL.Mechanism = "PLAIN"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials saved")
 	return nil
@@ -925,15 +929,17 @@ func handleServiceSASLReset(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = ""
-	net.SASL.Plain.Password = ""
-	net.SASL.External.CertBlob = nil
-	net.SASL.External.PrivKeyBlob = nil
-	net.SASL.Mechanism = ""
+	record := net.Network // copy
+	record.SASL.Plain.Username = ""
+	record.SASL.Plain.Password = ""
+	record.SASL.External.CertBlob = nil
+	record.SASL.External.PrivKeyBlob = nil
+	record.SASL.Mechanism = ""
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials reset")
 	return nil
diff --git a/user.go b/user.go
index f200a86..805fdcb 100644
--- a/user.go
+++ b/user.go
@@ -480,12 +480,15 @@ func (net *network) autoSaveSASLPlain(ctx context.Context, username, password st
 	}
 
 	net.logger.Printf("auto-saving SASL PLAIN credentials with username %q", username)
-	net.SASL.Mechanism = "PLAIN"
-	net.SASL.Plain.Username = username
-	net.SASL.Plain.Password = password
-	if err := net.user.srv.db.StoreNetwork(ctx, net.user.ID, &net.Network); err != nil {
+	record := net.Network // copy
+	record.SASL.Mechanism = "PLAIN"
+	record.SASL.Plain.Username = username
+	record.SASL.Plain.Password = password
+	if err := net.user.srv.db.StoreNetwork(ctx, net.user.ID, &record); err != nil {
 		net.logger.Printf("failed to save SASL PLAIN credentials: %v", err)
+		return
 	}
+	net.SASL = record.SASL
 }
 
 // broadcastWebPush broadcasts a Web Push message for the given IRC message.
-- 
2.43.0


From eca7fb344a2494a387bd2c72bee2bdec72da3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 86/98] fix: don't send SETNAME upstream if the real name could
 not be stored

---
 downstream.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/downstream.go b/downstream.go
index f2b17d7..fb76a15 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1883,14 +1883,14 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			if uc := dc.upstream(); uc != nil && uc.caps.IsEnabled("setname") {
-				// Upstream will reply with a SETNAME message on success
-				uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
-					Command: "SETNAME",
-					Params:  []string{realname},
-				})
-
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
 				if err == nil {
+					// Upstream will reply with a SETNAME message on success
+					uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
+						Command: "SETNAME",
+						Params:  []string{realname},
+					})
+
 					dc.network.Network.Realname = record.Realname
 					dc.user.notifyBouncerNetworkState(dc.network.ID, irc.Tags{
 						"realname": database.GetRealname(&dc.user.User, &dc.network.Network),
-- 
2.43.0


From 88b0daccc7549beaeeabc4ef0bcb41aaa58c3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 87/98] fix: answer BOUNCER DELNETWORK with FAIL if the network
 cannot be deleted

---
 downstream.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index fb76a15..47207b7 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3192,7 +3192,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			if err := dc.user.deleteNetwork(ctx, net.ID); err != nil {
-				return err
+				dc.logger.Printf("failed to delete network: %v", err)
+				return ircError{&irc.Message{
+					Command: "FAIL",
+					Params:  []string{"BOUNCER", "UNKNOWN_ERROR", subcommand, "Failed to delete network"},
+				}}
 			}
 
 			dc.SendMessage(ctx, &irc.Message{
-- 
2.43.0


From 51a159b0091edc9a9db9e454f634e410f9abc7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:33 +0000
Subject: [PATCH 88/98] fix: leave channels unchanged if an update could not be
 stored

---
 service.go | 36 +++++++++++++++++++++++++-----------
 user.go    | 21 +++++++++++++++++----
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/service.go b/service.go
index bce3a0b..2311a45 100644
--- a/service.go
+++ b/service.go
@@ -1506,16 +1506,19 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	network.channels.Set(ch.Name, &ch)
-
 	if fs.Detached != nil && *fs.Detached {
-		network.detach(&ch)
+		network.markDetached(&ch)
 	}
 
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
 		return fmt.Errorf("failed to create channel: %v", err)
 	}
 
+	network.channels.Set(ch.Name, &ch)
+	if ch.Detached {
+		network.announceDetached(&ch)
+	}
+
 	if network.conn != nil {
 		// The server may have made us join the channel already
 		network.conn.updateChannelAutoDetach(ch.Name)
@@ -1558,22 +1561,33 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 	if err := fs.update(&updated); err != nil {
 		return err
 	}
-	*ch = updated
 
-	if fs.Detached != nil && *fs.Detached != ch.Detached {
+	detachedMsgID := ch.DetachedInternalMsgID
+	detachedUpdated := fs.Detached != nil && *fs.Detached != ch.Detached
+	if detachedUpdated {
 		if *fs.Detached {
-			network.detach(ch)
+			network.markDetached(&updated)
 		} else {
-			network.attach(ctx, ch)
+			updated.Detached = false
+			updated.DetachedInternalMsgID = ""
 		}
 	}
 
-	if network.conn != nil {
-		network.conn.updateChannelAutoDetach(name)
+	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &updated); err != nil {
+		return fmt.Errorf("failed to update channel: %v", err)
 	}
+	*ch = updated
 
-	if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
-		return fmt.Errorf("failed to update channel: %v", err)
+	if detachedUpdated {
+		if ch.Detached {
+			network.announceDetached(ch)
+		} else {
+			network.announceAttached(ctx, ch, detachedMsgID)
+		}
+	}
+
+	if network.conn != nil {
+		network.conn.updateChannelAutoDetach(name)
 	}
 
 	ctx.print(fmt.Sprintf("updated channel %q", name))
diff --git a/user.go b/user.go
index 805fdcb..9b07f14 100644
--- a/user.go
+++ b/user.go
@@ -329,6 +329,12 @@ func (net *network) detach(ch *database.Channel) {
 
 	net.logger.Printf("detaching channel %q", ch.Name)
 
+	net.markDetached(ch)
+	net.announceDetached(ch)
+}
+
+// markDetached updates a channel record, without any other effect.
+func (net *network) markDetached(ch *database.Channel) {
 	ch.Detached = true
 
 	if net.user.msgStore != nil {
@@ -339,7 +345,9 @@ func (net *network) detach(ch *database.Channel) {
 		}
 		ch.DetachedInternalMsgID = lastID
 	}
+}
 
+func (net *network) announceDetached(ch *database.Channel) {
 	if net.conn != nil {
 		uch := net.conn.channels.Get(ch.Name)
 		if uch != nil {
@@ -367,6 +375,10 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 	ch.Detached = false
 	ch.DetachedInternalMsgID = ""
 
+	net.announceAttached(ctx, ch, detachedMsgID)
+}
+
+func (net *network) announceAttached(ctx context.Context, ch *database.Channel, detachedMsgID string) {
 	var uch *upstreamChannel
 	if net.conn != nil {
 		uch = net.conn.channels.Get(ch.Name)
@@ -397,16 +409,17 @@ func (net *network) deleteChannel(ctx context.Context, name string) error {
 	if ch == nil {
 		return fmt.Errorf("unknown channel %q", name)
 	}
+
+	if err := net.user.srv.db.DeleteChannel(ctx, ch.ID); err != nil {
+		return err
+	}
+
 	if net.conn != nil {
 		uch := net.conn.channels.Get(ch.Name)
 		if uch != nil {
 			uch.updateAutoDetach(0)
 		}
 	}
-
-	if err := net.user.srv.db.DeleteChannel(ctx, ch.ID); err != nil {
-		return err
-	}
 	net.channels.Del(name)
 	return nil
 }
-- 
2.43.0


From c890fafe663a43191e990bb18036865e3a14d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:02 +0000
Subject: [PATCH 89/98] fix: don't store networks again when updating a user

The update failed half-way if one of them could not be stored, e.g. leaving
the sessions of a disabled user open.
---
 user.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/user.go b/user.go
index 9b07f14..7346205 100644
--- a/user.go
+++ b/user.go
@@ -1168,6 +1168,12 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 		return nil, err
 	}
 
+	return u.applyNetworkUpdate(ctx, network, record), nil
+}
+
+// applyNetworkUpdate replaces a network with an updated one, which must have
+// been stored already.
+func (u *user) applyNetworkUpdate(ctx context.Context, network *network, record *database.Network) *network {
 	// Most network changes require us to re-connect to the upstream server
 
 	channels := make([]database.Channel, 0, network.channels.Len())
@@ -1229,7 +1235,7 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	}
 	u.notifyBouncerNetworkState(updatedNetwork.ID, attrs)
 
-	return updatedNetwork, nil
+	return updatedNetwork
 }
 
 func (u *user) deleteNetwork(ctx context.Context, id int64) error {
@@ -1304,7 +1310,7 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 
 	if realnameUpdated || enabledUpdated {
 		// Re-connect to networks which use the default realname
-		var needUpdate []database.Network
+		var needUpdate []*network
 		for _, net := range u.networks {
 			// If only the realname was updated, maybe we can skip the
 			// re-connect
@@ -1329,17 +1335,12 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 				}
 			}
 
-			needUpdate = append(needUpdate, net.Network)
+			needUpdate = append(needUpdate, net)
 		}
 
-		var netErr error
 		for _, net := range needUpdate {
-			if _, err := u.updateNetwork(ctx, &net, false); err != nil {
-				netErr = err
-			}
-		}
-		if netErr != nil {
-			return netErr
+			record := net.Network // copy
+			u.applyNetworkUpdate(ctx, net, &record)
 		}
 	}
 
-- 
2.43.0


From da4dfd24af55c04941118faddf01477902c227b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 90/98] fix: don't leave networks running if a user cannot be
 started

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 7346205..c421693 100644
--- a/user.go
+++ b/user.go
@@ -667,7 +667,10 @@ func (u *user) run() {
 				network.delivered.StoreID(rcpt.Target, rcpt.Client, rcpt.InternalMsgID)
 			}
 		}
+	}
 
+	// Nobody would handle the events of these networks if we've failed above
+	for _, network := range u.networks {
 		go network.run()
 	}
 
-- 
2.43.0


From d7f494240d2cfaec912a3b714394b218bca6c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 91/98] fix: don't wipe SASL credentials on unrelated NickServ
 SET commands

Any NickServ SET command which isn't SET PASSWORD was taken for an
authentication with empty credentials: the stored SASL PLAIN credentials
were overwritten, and the network's next connection tried to log in with
an empty username and password.
---
 downstream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/downstream.go b/downstream.go
index 47207b7..acadefd 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3424,6 +3424,8 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 		if len(params) == 2 && strings.EqualFold(params[0], "PASSWORD") {
 			username = nick
 			password = params[1]
+		} else {
+			return "", "", false
 		}
 	default:
 		return "", "", false
-- 
2.43.0


From bdd7fc5f523f99dc815a17be1852a0c2abf76f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:41 +0000
Subject: [PATCH 92/98] fix: bound the length of incoming lines

A client or server which never sends a line break made the bouncer buffer
everything it sends, without limit. This includes clients which are not
authenticated.
---
 conn.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index e3d4e7a..71f720a 100644
--- a/conn.go
+++ b/conn.go
@@ -41,6 +41,27 @@ func parseIRCMessage(line string) (*irc.Message, error) {
 	return irc.ParseMessage(line)
 }
 
+// maxLineLength is the maximum number of bytes accepted in an incoming line.
+// It's larger than what the IRC specifications allow.
+const maxLineLength = 64 * 1024
+
+// readLine reads a line, without growing its buffer indefinitely when the peer
+// never sends a line break.
+func readLine(r *bufio.Reader) (string, error) {
+	var line []byte
+	for {
+		b, err := r.ReadSlice('\n')
+		line = append(line, b...)
+		if len(line) > maxLineLength {
+			return "", fmt.Errorf("line too long")
+		} else if err == nil {
+			return string(line), nil
+		} else if err != bufio.ErrBufferFull {
+			return "", err
+		}
+	}
+}
+
 type netIRCConn struct {
 	net.Conn
 	r *bufio.Reader
@@ -53,7 +74,7 @@ func newNetIRCConn(c net.Conn) ircConn {
 
 func (nic *netIRCConn) ReadMessage() (*irc.Message, error) {
 	for {
-		line, err := nic.r.ReadString('\n')
+		line, err := readLine(nic.r)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 923bed0731a04b5577060c61d889c87f56d92f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 93/98] fix: don't deadlock when broadcasting a message

An administrator broadcasting a message while more commands of theirs are
queued made the goroutine of their user wait for itself, forever, holding
the server lock. Two users waiting for each other were stuck the same way.
---
 downstream.go |  6 +++---
 server.go     | 30 ++++++++++++++++++++++++++++--
 service.go    | 13 +------------
 user.go       | 11 +++++++----
 4 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/downstream.go b/downstream.go
index acadefd..c6d0a6b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2423,9 +2423,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Command: msg.Command,
 					Params:  params,
 				}
-				dc.srv.forEachUser(func(u *user) {
-					u.events <- eventBroadcast{broadcastMsg}
-				})
+				if _, _, err := dc.srv.broadcast(ctx, dc.user, broadcastMsg); err != nil {
+					dc.logger.Printf("failed to broadcast bouncer-wide %v: %v", msg.Command, err)
+				}
 				continue
 			}
 
diff --git a/server.go b/server.go
index 14cf7dd..f1c98a7 100644
--- a/server.go
+++ b/server.go
@@ -440,12 +440,38 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 	return s.addUserLocked(user), nil
 }
 
-func (s *Server) forEachUser(f func(*user)) {
+// broadcast sends a message to all connections of all users.
+//
+// The caller can be running in the goroutine of a user, in which case it must
+// be passed as from: this goroutine is the only one to handle the events of
+// this user, so it can't wait for them to be handled.
+func (s *Server) broadcast(ctx context.Context, from *user, msg *irc.Message) (sent, total int, err error) {
+	// Don't hold the lock while waiting for users, they may need it to proceed
 	s.lock.Lock()
+	users := make([]*user, 0, len(s.users))
 	for _, u := range s.users {
-		f(u)
+		users = append(users, u)
 	}
 	s.lock.Unlock()
+
+	for _, u := range users {
+		if u == from {
+			u.handleBroadcast(msg)
+			sent++
+			continue
+		}
+
+		select {
+		case <-ctx.Done():
+			err = ctx.Err()
+		case <-u.done:
+			// The user has been stopped in the meantime
+		case u.events <- eventBroadcast{msg}:
+			sent++
+		}
+	}
+
+	return sent, len(users), err
 }
 
 func (s *Server) getUser(name string) *user {
diff --git a/service.go b/service.go
index 2311a45..b2d2b0a 100644
--- a/service.go
+++ b/service.go
@@ -1653,18 +1653,7 @@ func handleServiceServerNotice(ctx *serviceContext, params []string) error {
 		Command: "NOTICE",
 		Params:  []string{"$" + ctx.srv.Config().Hostname, text},
 	}
-	var err error
-	sent := 0
-	total := 0
-	ctx.srv.forEachUser(func(u *user) {
-		total++
-		select {
-		case <-ctx.Done():
-			err = ctx.Err()
-		case u.events <- eventBroadcast{broadcastMsg}:
-			sent++
-		}
-	})
+	sent, total, err := ctx.srv.broadcast(ctx, ctx.user, broadcastMsg)
 
 	logger.Printf("broadcast bouncer-wide NOTICE to %v/%v downstreams", sent, total)
 	ctx.print(fmt.Sprintf("sent to %v/%v downstream connections", sent, total))
diff --git a/user.go b/user.go
index c421693..6fcd1a1 100644
--- a/user.go
+++ b/user.go
@@ -858,10 +858,7 @@ func (u *user) run() {
 				dc.Close()
 			}
 		case eventBroadcast:
-			msg := e.msg
-			for _, dc := range u.downstreamConns {
-				dc.SendMessage(context.TODO(), msg)
-			}
+			u.handleBroadcast(e.msg)
 		case eventUserUpdate:
 			if !e.claimed.CompareAndSwap(false, true) {
 				// The sender has already given up
@@ -943,6 +940,12 @@ func (u *user) run() {
 	}
 }
 
+func (u *user) handleBroadcast(msg *irc.Message) {
+	for _, dc := range u.downstreamConns {
+		dc.SendMessage(context.TODO(), msg)
+	}
+}
+
 func (u *user) handleUpstreamDisconnected(uc *upstreamConn) {
 	uc.network.conn = nil
 
-- 
2.43.0


From 38e32afd2134dd223564cda51daf6d23babc62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 94/98] fix: don't deadlock when shutting down

Shutdown held the server lock while queueing an event for each user. When
the queue of a user was full, and its goroutine was waiting for the lock,
neither could proceed.
---
 server.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index f1c98a7..7f72cba 100644
--- a/server.go
+++ b/server.go
@@ -411,11 +411,21 @@ func (s *Server) Shutdown() {
 			s.Logger.Printf("failed to stop listener: %v", err)
 		}
 	}
+	users := make([]*user, 0, len(s.users))
 	for _, u := range s.users {
-		u.events <- eventStop{}
+		users = append(users, u)
 	}
 	s.lock.Unlock()
 
+	// Don't hold the lock while waiting for users, they may need it to proceed
+	for _, u := range users {
+		select {
+		case <-u.done:
+			// The user has been stopped in the meantime
+		case u.events <- eventStop{}:
+		}
+	}
+
 	s.Logger.Printf("waiting for users to finish")
 	s.stopWG.Wait()
 
@@ -428,6 +438,11 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
+	if s.shutdown {
+		// Nobody would stop this user
+		return nil, fmt.Errorf("server is shutting down")
+	}
+
 	if _, ok := s.users[user.Username]; ok {
 		return nil, fmt.Errorf("user %q already exists", user.Username)
 	}
-- 
2.43.0


From 63ab23246a79f5b36f866774bf177f8674e66dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 95/98] fix: close the connections of stopped users

A connection which authenticates while its user is deleted was left open
without any answer. Goroutines with more events than the queue can hold
were leaked.
---
 downstream.go |  6 ++++--
 server.go     | 17 ++++++++++++++---
 upstream.go   |  6 ++++--
 user.go       | 19 +++++++++++++++----
 4 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/downstream.go b/downstream.go
index c6d0a6b..5a0dfc4 100644
--- a/downstream.go
+++ b/downstream.go
@@ -468,7 +468,7 @@ func (dc *downstreamConn) ReadMessage() (*irc.Message, error) {
 	return msg, nil
 }
 
-func (dc *downstreamConn) readMessages(ch chan<- event) error {
+func (dc *downstreamConn) readMessages(u *user) error {
 	for {
 		msg, err := dc.ReadMessage()
 		if errors.Is(err, io.EOF) {
@@ -477,7 +477,9 @@ func (dc *downstreamConn) readMessages(ch chan<- event) error {
 			return fmt.Errorf("failed to read IRC command: %v", err)
 		}
 
-		ch <- eventDownstreamMessage{msg, dc}
+		if !u.sendEvent(eventDownstreamMessage{msg, dc}) {
+			break
+		}
 	}
 
 	return nil
diff --git a/server.go b/server.go
index 7f72cba..b7ba02e 100644
--- a/server.go
+++ b/server.go
@@ -568,11 +568,22 @@ func (s *Server) Handle(ic ircConn) {
 		return
 	}
 
-	user.events <- eventDownstreamConnected{dc}
-	if err := dc.readMessages(user.events); err != nil {
+	// Nobody handles our events anymore once the user has been stopped
+	handled := make(chan struct{})
+	defer close(handled)
+	go func() {
+		select {
+		case <-user.done:
+			dc.Close()
+		case <-handled:
+		}
+	}()
+
+	user.sendEvent(eventDownstreamConnected{dc})
+	if err := dc.readMessages(user); err != nil {
 		dc.logger.Printf("%v", err)
 	}
-	user.events <- eventDownstreamDisconnected{dc}
+	user.sendEvent(eventDownstreamDisconnected{dc})
 }
 
 func (s *Server) getOrCreateUser(ctx context.Context, username string) (*user, error) {
diff --git a/upstream.go b/upstream.go
index 441df2d..e02f330 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2182,7 +2182,7 @@ func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
 	return nil
 }
 
-func (uc *upstreamConn) readMessages(ch chan<- event) error {
+func (uc *upstreamConn) readMessages(u *user) error {
 	for {
 		msg, err := uc.ReadMessage()
 		if errors.Is(err, io.EOF) {
@@ -2191,7 +2191,9 @@ func (uc *upstreamConn) readMessages(ch chan<- event) error {
 			return fmt.Errorf("failed to read IRC command: %v", err)
 		}
 
-		ch <- eventUpstreamMessage{msg, uc}
+		if !u.sendEvent(eventUpstreamMessage{msg, uc}) {
+			break
+		}
 	}
 
 	return nil
diff --git a/user.go b/user.go
index 6fcd1a1..9032806 100644
--- a/user.go
+++ b/user.go
@@ -257,12 +257,12 @@ func (net *network) runConn(ctx context.Context) error {
 		return fmt.Errorf("failed to register: %w", err)
 	}
 
-	net.user.events <- eventUpstreamConnected{uc}
+	net.user.sendEvent(eventUpstreamConnected{uc})
 	defer func() {
-		net.user.events <- eventUpstreamDisconnected{uc}
+		net.user.sendEvent(eventUpstreamDisconnected{uc})
 	}()
 
-	if err := uc.readMessages(net.user.events); err != nil {
+	if err := uc.readMessages(net.user); err != nil {
 		return fmt.Errorf("failed to handle messages: %w", err)
 	}
 
@@ -304,7 +304,7 @@ func (net *network) run() {
 			}
 
 			net.logger.Printf("connection error to %q: %v", net.Addr, text)
-			net.user.events <- eventUpstreamConnectionError{net, fmt.Errorf("connection error: %v", err)}
+			net.user.sendEvent(eventUpstreamConnectionError{net, fmt.Errorf("connection error: %v", err)})
 			net.user.srv.metrics.upstreamConnectErrorsTotal.Inc()
 
 			if !temp {
@@ -584,6 +584,17 @@ func newUser(srv *Server, record *database.User) *user {
 	}
 }
 
+// sendEvent queues an event for the user goroutine. It returns false if the
+// user has been stopped.
+func (u *user) sendEvent(e event) bool {
+	select {
+	case u.events <- e:
+		return true
+	case <-u.done:
+		return false
+	}
+}
+
 func (u *user) hasDownstream(dc *downstreamConn) bool {
 	for _, other := range u.downstreamConns {
 		if other == dc {
-- 
2.43.0


From 74a0f9fe5db0d6918a09468dd4f198f4763a2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:17 +0000
Subject: [PATCH 96/98] fix: consider the whole text when looking for
 highlights

When a first occurrence of the nick was not a highlight, the text up to it
was ignored: nicks repeated in a word ("bobbob") or in an URI
("https://bob.example/bob") were highlights.
---
 irc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irc.go b/irc.go
index b0f70e8..19ce563 100644
--- a/irc.go
+++ b/irc.go
@@ -265,11 +265,12 @@ func isHighlight(text, nick string) bool {
 		panic("isHighlight called with empty nick")
 	}
 
-	for {
-		i := strings.Index(text, nick)
+	for start := 0; ; {
+		i := strings.Index(text[start:], nick)
 		if i < 0 {
 			return false
 		}
+		i += start
 
 		left, _ := utf8.DecodeLastRuneInString(text[:i])
 		right, _ := utf8.DecodeRuneInString(text[i+len(nick):])
@@ -277,7 +278,7 @@ func isHighlight(text, nick string) bool {
 			return true
 		}
 
-		text = text[i+len(nick):]
+		start = i + len(nick)
 	}
 }
 
-- 
2.43.0


From f3f74aa980deb21072fdc0021c830f6793d76657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 97/98] fix: remove partially written log lines

When writing a message to the log file fails midway, for instance because
the disk is full, the next message ended up on the same line.
---
 msgstore/fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 8416ead..459ea84 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -199,8 +199,13 @@ func (ms *fsMessageStore) Append(network *database.Network, entity string, msg *
 		return "", fmt.Errorf("failed to generate message ID: %v", err)
 	}
 
-	_, err = fmt.Fprintf(f, "%s\n", s)
+	n, err := fmt.Fprintf(f, "%s\n", s)
 	if err != nil {
+		// Don't leave a partial line behind, the next message would be
+		// appended to it
+		if end, seekErr := f.Seek(0, io.SeekCurrent); seekErr == nil && n > 0 {
+			f.Truncate(end - int64(n))
+		}
 		return "", fmt.Errorf("failed to log message to %q: %v", f.Name(), err)
 	}
 
-- 
2.43.0


From e03b57b34f08ed23209e159dd60921b9eb8a0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 98/98] fix: support long lines when reading log files

A message logged as a line longer than bufio.MaxScanTokenSize made all of
the messages logged that day unavailable.
---
 msgstore/fs.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 459ea84..cd72288 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -22,6 +22,9 @@ import (
 const (
 	fsMessageStoreMaxFiles = 20
 	fsMessageStoreMaxTries = 100
+
+	// Must be large enough for the longest message Append may have written
+	fsMessageStoreMaxLine = 1024 * 1024
 )
 
 func EscapeFilename(unsafe string) (safe string) {
@@ -222,6 +225,12 @@ func (ms *fsMessageStore) Close() error {
 	return closeErr
 }
 
+func newFSScanner(r io.Reader) *bufio.Scanner {
+	sc := bufio.NewScanner(r)
+	sc.Buffer(nil, fsMessageStoreMaxLine)
+	return sc
+}
+
 func (ms *fsMessageStore) parseMessage(line string, network *database.Network, entity string, ref time.Time, events bool) (*irc.Message, time.Time, error) {
 	return znclog.UnmarshalLine(line, ms.user, network, entity, ref, events)
 }
@@ -240,7 +249,7 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 	historyRing := make([]*irc.Message, options.Limit)
 	cur := 0
 
-	sc := bufio.NewScanner(f)
+	sc := newFSScanner(f)
 
 	if afterOffset >= 0 {
 		if _, err := f.Seek(afterOffset, io.SeekStart); err != nil {
@@ -299,7 +308,7 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, start time.Time, end
 	defer f.Close()
 
 	var history []*irc.Message
-	sc := bufio.NewScanner(f)
+	sc := newFSScanner(f)
 	for sc.Scan() && len(history) < options.Limit {
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
-- 
2.43.0

