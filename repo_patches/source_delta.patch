From e56d51dfca39fbaeae8f60d934b44c081cad32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 01/54] fix: ratchet: deliver delayed empty messages

A message that arrives out of order is decrypted with its saved key. When
such a message was empty, trySavedKeys returned a nil slice, which Decrypt
took for "no saved key"; the key was already deleted, so the message was
refused and lost.
---
 ratchet/ratchet.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 833d87c..c494faa 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -313,7 +313,9 @@ func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
 
 		sealedMessage := ciphertext[sealedHeaderSize:]
 		copy(nonce[:], header[nonceInHeaderOffset:])
-		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &msgKey.key)
+		// Open into a non-nil slice so that an empty message is not mistaken
+		// for a missing key by the caller.
+		msg, ok := secretbox.Open([]byte{}, sealedMessage, &nonce, &msgKey.key)
 		if !ok {
 			return nil, errors.New("ratchet: corrupt message")
 		}
-- 
2.43.0


From 28f82132993bb9b43c2dd16822a7165398b75592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 02/54] fix: session: refuse oversized messages before
 consuming a sequence number

---
 session/kx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/session/kx.go b/session/kx.go
index 633d269..0296bfd 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -416,11 +416,13 @@ func (kx *KX) Read() ([]byte, error) {
 }
 
 func (kx *KX) writeWithKey(data []byte, k *[32]byte) error {
-	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
-	incSeq(&kx.writeSeq)
-	if uint(len(payload)) > kx.MaxMessageSize {
+	// Refuse before a sequence number is consumed: the peer never sees the
+	// refused message and would otherwise reject every one that follows.
+	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
 		return ErrOverflow
 	}
+	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
+	incSeq(&kx.writeSeq)
 	_, err := xdr.Marshal(kx.Conn, payload)
 	if err != nil {
 		return ErrMarshal
-- 
2.43.0


From 000c110611249530acb3143a262bf9584feead8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 03/54] fix: inidb: never leave the database missing or partial

---
 inidb/inidb.go | 73 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 16 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 392df5e..4913627 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -88,8 +88,9 @@ func New(filename string, create bool, depth int) (*INIDB, error) {
 // follows:
 //	1. Check if the database is dirty and abort process if it isn't
 //	2. Create temporary file that contains all memory tables and records
-//	3. Backup original file
-//	4. Rename temporary file to the original file name
+//	3. Copy original file to a backup
+//	4. Atomically rename temporary file to the original file name
+// If any step fails the original file remains in place.
 // This creates a running log of flushes.
 //
 // NOTE: currently there is no file count limiter.
@@ -107,33 +108,36 @@ func (i *INIDB) Save() error {
 	}
 
 	// save all records
-	fmt.Fprintf(f, "%v\n", auto)
-	for tk, tv := range i.tables {
-		if tk != "" {
-			fmt.Fprintf(f, "[%v]\n", tk)
-		}
-		for rk, rv := range tv {
-			fmt.Fprintf(f, "%v = %v\n", rk, rv)
-		}
-		fmt.Fprintf(f, "\n")
+	err = i.write(f)
+	if err != nil {
+		f.Close()
+		os.Remove(f.Name())
+		return fmt.Errorf("could not write temporary file: %v", err)
+	}
+	err = f.Close()
+	if err != nil {
+		os.Remove(f.Name())
+		return fmt.Errorf("could not close temporary file: %v", err)
 	}
-	f.Close()
 
-	// backup original
+	// backup original, it remains in place until it is replaced
 	if !i.created {
 		backup := fmt.Sprintf("%v.%v",
 			i.filename,
 			time.Now().Format("20060102.150405.000000000"))
-		err = os.Rename(i.filename, backup)
+		err = copyFile(i.filename, backup)
 		if err != nil {
-			return fmt.Errorf("could not rename original file: %v",
+			os.Remove(backup)
+			os.Remove(f.Name())
+			return fmt.Errorf("could not backup original file: %v",
 				err)
 		}
 	}
 
-	// rename new one
+	// atomically replace original
 	err = os.Rename(f.Name(), i.filename)
 	if err != nil {
+		os.Remove(f.Name())
 		return fmt.Errorf("could not rename new file: %v", err)
 	}
 
@@ -142,6 +146,43 @@ func (i *INIDB) Save() error {
 	return i.prune()
 }
 
+// write writes all tables and records to f.
+func (i *INIDB) write(f *os.File) error {
+	_, err := fmt.Fprintf(f, "%v\n", auto)
+	if err != nil {
+		return err
+	}
+	for tk, tv := range i.tables {
+		if tk != "" {
+			_, err = fmt.Fprintf(f, "[%v]\n", tk)
+			if err != nil {
+				return err
+			}
+		}
+		for rk, rv := range tv {
+			_, err = fmt.Fprintf(f, "%v = %v\n", rk, rv)
+			if err != nil {
+				return err
+			}
+		}
+		_, err = fmt.Fprintf(f, "\n")
+		if err != nil {
+			return err
+		}
+	}
+
+	return f.Sync()
+}
+
+// copyFile copies the content of src to dst.
+func copyFile(src, dst string) error {
+	data, err := ioutil.ReadFile(src)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(dst, data, 0600)
+}
+
 func (i *INIDB) prune() error {
 	if i.depth < 0 {
 		return nil
-- 
2.43.0


From dd8e39bae5edfffaad46b7c5b478c226767cda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 04/54] fix: inidb: save the default table ahead of all others

---
 inidb/inidb.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 4913627..021e616 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -152,20 +152,22 @@ func (i *INIDB) write(f *os.File) error {
 	if err != nil {
 		return err
 	}
+
+	// records of the default table have no header and must precede all
+	// other tables
+	err = writeSection(f, i.tables[""])
+	if err != nil {
+		return err
+	}
 	for tk, tv := range i.tables {
-		if tk != "" {
-			_, err = fmt.Fprintf(f, "[%v]\n", tk)
-			if err != nil {
-				return err
-			}
+		if tk == "" {
+			continue
 		}
-		for rk, rv := range tv {
-			_, err = fmt.Fprintf(f, "%v = %v\n", rk, rv)
-			if err != nil {
-				return err
-			}
+		_, err = fmt.Fprintf(f, "[%v]\n", tk)
+		if err != nil {
+			return err
 		}
-		_, err = fmt.Fprintf(f, "\n")
+		err = writeSection(f, tv)
 		if err != nil {
 			return err
 		}
@@ -174,6 +176,18 @@ func (i *INIDB) write(f *os.File) error {
 	return f.Sync()
 }
 
+// writeSection writes all records of a single table to f.
+func writeSection(f *os.File, records ini.Section) error {
+	for rk, rv := range records {
+		_, err := fmt.Fprintf(f, "%v = %v\n", rk, rv)
+		if err != nil {
+			return err
+		}
+	}
+	_, err := fmt.Fprintf(f, "\n")
+	return err
+}
+
 // copyFile copies the content of src to dst.
 func copyFile(src, dst string) error {
 	data, err := ioutil.ReadFile(src)
-- 
2.43.0


From 33ba974f0ac7327ada418931fd0e5cf6370a2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 05/54] fix: inidb: save newly created tables

---
 inidb/inidb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 021e616..89b3653 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -281,7 +281,10 @@ func (i *INIDB) NewTable(table string) {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
 
-	i.tables.Section(table)
+	if _, ok := i.tables[table]; !ok {
+		i.tables.Section(table)
+		i.dirty = true
+	}
 }
 
 // DelTable deletes an entire table including all records.
-- 
2.43.0


From 4785d8b5435c1ca2ce47dff8c5ecafada8fa9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 06/54] fix: addressbook: a known identity retains its nick
 when added again

---
 zkclient/addressbook/addressbook.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/zkclient/addressbook/addressbook.go b/zkclient/addressbook/addressbook.go
index 4dab2c4..74fbdd2 100644
--- a/zkclient/addressbook/addressbook.go
+++ b/zkclient/addressbook/addressbook.go
@@ -47,17 +47,25 @@ func (a *AddressBook) Add(identity zkidentity.PublicIdentity) (string, error) {
 
 	var (
 		found bool
-		i     zkidentity.PublicIdentity
 		err   error
 	)
 
+	// if identity is already known it retains its lookup nick
+	for k, v := range a.identities {
+		if !bytes.Equal(v.Identity[:], identity.Identity[:]) {
+			continue
+		}
+		if k != identity.Nick {
+			identity.Nick = k
+			err = ErrDuplicateNick
+		}
+		a.identities[k] = identity
+		return k, err
+	}
+
 	for {
-		i, found = a.identities[identity.Nick]
+		_, found = a.identities[identity.Nick]
 		if found {
-			// if identity is identical do not alter nick
-			if bytes.Equal(identity.Identity[:], i.Identity[:]) {
-				break
-			}
 			identity.Nick += "_"
 			err = ErrDuplicateNick // mark nick as seen
 			continue
-- 
2.43.0


From 9957327707690d85f8be69c50a3401b9caced53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 07/54] fix: blobshare: refuse truncated blobs instead of
 crashing

---
 blobshare/blobshare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index c0d4251..1219098 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -6,6 +6,7 @@ package blobshare
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 
@@ -17,6 +18,8 @@ var (
 	n = 16384
 	r = 8
 	p = 1
+
+	errShort = errors.New("packed data too short")
 )
 
 func SetNrp(nn, rr, pp int) {
@@ -78,6 +81,10 @@ func UnpackSaltNonce(packed []byte) (salt *[32]byte, nonce *[24]byte,
 		saltR  [32]byte
 		nonceR [24]byte
 	)
+	if len(packed) < len(saltR)+len(nonceR) {
+		err = errShort
+		return
+	}
 	copy(saltR[:], packed[0:32])
 	copy(nonceR[:], packed[32:32+24])
 	salt = &saltR
@@ -99,6 +106,10 @@ func PackNonce(nonce *[24]byte, data []byte) []byte {
 
 func UnpackNonce(packed []byte) (nonce *[24]byte, data []byte, err error) {
 	var nonceR [24]byte
+	if len(packed) < len(nonceR) {
+		err = errShort
+		return
+	}
 	copy(nonceR[:], packed[0:24])
 	nonce = &nonceR
 
-- 
2.43.0


From 67a144fd3e2982b6c850e91ce9009505a112712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 08/54] fix: zkidentity: refuse a handle that does not belong
 to the key

---
 zkidentity/zkidentity.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index 40e8468..8d48c3f 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -146,6 +146,10 @@ func (p PublicIdentity) Fingerprint() string {
 }
 
 func (p *PublicIdentity) Verify() bool {
+	// the handle must be the one that belongs to the key
+	if p.Identity != sha256.Sum256(p.Key[:]) {
+		return false
+	}
 	d := sha256.New()
 	d.Write([]byte(p.Name))
 	d.Write([]byte(p.Nick))
-- 
2.43.0


From 845ca3a32f029b4849e92b9ca60e60962709cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 09/54] fix: zkserver: refuse tag 32 instead of crashing

---
 zkserver/zkserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1c8ff17..b9a4c19 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -447,7 +447,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 			return fmt.Errorf("unmarshal header failed")
 		}
 
-		if message.Tag > tagDepth {
+		if message.Tag >= tagDepth {
 			return fmt.Errorf("invalid tag received %v", message.Tag)
 		}
 
-- 
2.43.0


From 2582a9e78e5c087ccb0743734c3acd96c9918b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 10/54] fix: zkserver: ignore acks without an outstanding push

They put the tag on the tag stack a second time, which blocks the session
for good or hands out the same tag twice.
---
 zkserver/zkserver.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index b9a4c19..48c3574 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -521,8 +521,18 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 				rids,
 				message.Tag)
 
+			// An ack for a tag without an outstanding push frees
+			// nothing.
+			if m == nil {
+				z.Error(idS, "handleSession: %v ack without "+
+					"push tag %v",
+					rids,
+					message.Tag)
+				break
+			}
+
 			// sanity
-			if m != nil && m.Message.Tag != message.Tag {
+			if m.Message.Tag != message.Tag {
 				return fmt.Errorf("acknowledge tag doesn't "+
 					"match: %v %v %v",
 					m.Message.Tag,
@@ -530,7 +540,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 					rids)
 			}
 			// see if we have work to do
-			if m != nil && m.Message.Command == rpc.TaggedCmdPush {
+			if m.Message.Command == rpc.TaggedCmdPush {
 				from := kx.TheirIdentity().([32]byte)
 				// err is reporting only
 				err = z.account.Delete(from, m.Identifier)
-- 
2.43.0


From fb3f0194fdff062caf807faa650c7eaa88a0d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 11/54] fix: zkserver: end sessions whose writer failed

With the writer gone handleSession blocked on a full writer channel and the
account remained online, and could not log in, until the server restarted.
---
 zkserver/zkserver.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 48c3574..1ed5062 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -220,6 +220,17 @@ func (z *ZKS) sessionWriter(sc *sessionContext) {
 
 		// close underlying connection in order to fail read
 		sc.kx.Close()
+
+		// nobody else reads the writer channel, drain it so that
+		// handleSession does not block on it and notices the closed
+		// connection
+		for {
+			select {
+			case <-sc.quit:
+				return
+			case <-sc.writer:
+			}
+		}
 	}()
 
 	for {
@@ -326,7 +337,11 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 				r.Message.Command,
 				r.Message.Tag)
 
-			sc.writer <- &r
+			select {
+			case <-sc.quit:
+				return
+			case sc.writer <- &r:
+			}
 		}
 	}
 }
-- 
2.43.0


From 82d88d50379a2dc31d4a0bebf06fa4e6f3e68bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 12/54] fix: zkserver: take the account offline when listing it
 failed

The account remained online without a session and could not log in again.
---
 zkserver/zkserver.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1ed5062..21e6675 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -403,6 +403,21 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 	z.sessions[rids] = &sc
 	z.Unlock()
 
+	// whatever happens from here on, mark session offline when done
+	defer func() {
+		// stop it all
+		close(sc.quit)
+
+		z.account.Offline(rid)
+
+		// mark session offline
+		z.Lock()
+		delete(z.sessions, rids)
+		z.Unlock()
+
+		z.Dbg(idS, "handleSession exit: %v", rids)
+	}()
+
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
 	// populate identity in directory
@@ -418,21 +433,6 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 	go z.sessionWriter(&sc)
 	go z.sessionNtfn(&sc)
 
-	// wait for sessionWriter to exit
-	defer func() {
-		// stop it all
-		close(sc.quit)
-
-		z.account.Offline(rid)
-
-		// mark session offline
-		z.Lock()
-		delete(z.sessions, rids)
-		z.Unlock()
-
-		z.Dbg(idS, "handleSession exit: %v", rids)
-	}()
-
 	for {
 		var message rpc.Message
 
-- 
2.43.0


From 9ecac0983a202e0f140cb333ec4317612744ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 13/54] fix: zkserver: an ending session must not unregister
 its successor

A user that logged in between Offline and the removal from the sessions map
was online without a session: it could not be disabled or forced offline.
---
 zkserver/zkserver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 21e6675..73c8d63 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -410,9 +410,11 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 		z.account.Offline(rid)
 
-		// mark session offline
+		// mark session offline unless a newer one took over
 		z.Lock()
-		delete(z.sessions, rids)
+		if z.sessions[rids] == &sc {
+			delete(z.sessions, rids)
+		}
 		z.Unlock()
 
 		z.Dbg(idS, "handleSession exit: %v", rids)
-- 
2.43.0


From 637fa8d90a824fcaf40595f8702a13a6f30aa32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 14/54] fix: zkserver: do not let a user that is being disabled
 log in

When the user was disabled between the check and the registration of its
session the session remained online.
---
 zkserver/zkserver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 73c8d63..c73009b 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -420,6 +420,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// the account may have been disabled before its session could be
+	// found in order to close it
+	if !z.account.Enabled(rid) {
+		return fmt.Errorf("handleSession: account disabled %v", rids)
+	}
+
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
 	// populate identity in directory
-- 
2.43.0


From 0067ee789c4425bc68c5b34d9ef007314103cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 15/54] fix: zkserver: disconnect a disabled user given in
 upper case

---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index c73009b..0c0e4d2 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -21,6 +21,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strconv"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -794,7 +795,7 @@ func (z *ZKS) socketHandler(c net.Conn) {
 
 			// knock user offline
 			z.Lock()
-			if sc, ok := z.sessions[jud.Identity]; ok {
+			if sc, ok := z.sessions[strings.ToLower(jud.Identity)]; ok {
 				z.Dbg(idSock, "user disconnected %s",
 					jud.Identity)
 				sc.kx.Close()
-- 
2.43.0


From eda4fb6c67e237c0c1414a57a79d7a33f960d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 16/54] fix: zkserver: do not crash on admin requests with a
 short identity

---
 zkserver/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 585e527..1ee1b60 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -109,7 +109,7 @@ func (z *ZKS) handleIdentityDisable(ud socketapi.SocketCommandUserDisable) (udr
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		udr.Error = err.Error()
+		udr.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
@@ -132,7 +132,7 @@ func (z *ZKS) handleIdentityEnable(ue socketapi.SocketCommandUserEnable) (uer *s
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		uer.Error = err.Error()
+		uer.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
-- 
2.43.0


From 4beafb879af0b45176780d734278f7d8deb2e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 17/54] fix: account: do not block delivery for good when going
 online

When Deliver signalled work before the delivery routine did it blocked on
its own channel and no message was delivered in that session.
---
 zkserver/account/account.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 1acde37..c993796 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -421,13 +421,12 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 		quit:      make(chan struct{}),
 		processed: make(map[string]struct{}),
 	}
+	// first time around start delivering
+	dn.work <- struct{}{}
 	a.online[who] = dn
 	a.Unlock()
 
 	go func() {
-		// first time around start delivering
-		dn.work <- struct{}{}
-
 		for {
 			select {
 			case <-dn.quit:
-- 
2.43.0


From 40028bd9b762df0919eeecc4d4b3e46564c1db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 18/54] fix: account: name messages in the order they are
 delivered

Names were chosen before taking the mutex: two senders could pick the same
name, and one message replaced the other, or messages changed their order
from one session to the next.
---
 zkserver/account/account.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index c993796..7cd8717 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -314,7 +314,11 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 	// get directory
 	cache := a.accountFile(to, CacheDir)
 
-	// calculate next filename
+	a.Lock()
+	defer a.Unlock()
+
+	// calculate next filename, with the mutex held so that names are
+	// in order of delivery
 	filename := time.Now().Format("20060102150405.000000000")
 
 	// convert to on disk format
@@ -337,9 +341,6 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("duplicate filename %v", filename)
 	}
 
-	a.Lock()
-	defer a.Unlock()
-
 	// and dump it
 	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
 	if err != nil {
-- 
2.43.0


From 77e27ee05cd5c495aeadc6578ba8140718c51994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 19/54] fix: account: never leave a partial message in the
 cache

A crash or a full disk during Deliver left a truncated message behind that
was pushed as an empty message or failed every later session of the user.
---
 zkserver/account/account.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 7cd8717..defe2fe 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -25,6 +25,7 @@ import (
 const (
 	CacheDir             = "cache"
 	UserIdentityFilename = "user.ini"
+	deliverFilename      = "deliver.tmp" // message being delivered
 )
 
 type ErrAlreadyOnline struct {
@@ -341,9 +342,14 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("duplicate filename %v", filename)
 	}
 
-	// and dump it
-	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
+	// and dump it, a partial message must never show up in the cache
+	tmp := a.accountFile(to, deliverFilename)
+	err = ioutil.WriteFile(tmp, b.Bytes(), 0600)
+	if err == nil {
+		err = os.Rename(tmp, fullPath)
+	}
 	if err != nil {
+		_ = os.Remove(tmp)
 		return "", fmt.Errorf("could not write to %v: %v", cache, err)
 	}
 
-- 
2.43.0


From 316401d9b23e0ea81825091790394ae41b6d984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 20/54] fix: account: do not create an account that is disabled
 or being created

A disabled user could create the account anew, which also made it impossible
to enable it again, and concurrent creates of an account both succeeded.
---
 zkserver/account/account.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index defe2fe..98c53db 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -126,7 +126,14 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	if err == nil {
 		return fmt.Errorf("nickname already in use")
 	}
+
+	a.Lock()
+	defer a.Unlock()
+
 	// make sure account doesn't exist
+	if a.Disabled(pid.Identity) {
+		return fmt.Errorf("account disabled: %x", pid.Identity)
+	}
 	accountName := a.accountDir(pid.Identity)
 	_, err = os.Stat(accountName)
 	if err == nil {
-- 
2.43.0


From f712ee27678b97683fb4fe28e42652f5e3583452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 21/54] fix: account: find users next to entries that are not
 users

One unreadable account directory failed every lookup and every check for a
nick being in use.
---
 zkserver/account/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 98c53db..355c0c8 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -209,8 +209,8 @@ func (a *Account) Find(nick string) (*zkidentity.PublicIdentity, error) {
 		dirname := path.Join(a.root, v.Name())
 		user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
 		if err != nil {
-			a.Unlock()
-			return nil, fmt.Errorf("could not find user: %v", err)
+			// not a user, or no longer
+			continue
 		}
 		a.Unlock()
 
-- 
2.43.0


From 6d5dbbcea821a04a53ac5dc8d90f6006403dcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 22/54] fix: account: create accounts atomically

A crash while an account was created left it without identity or cache: it
could not be used and it could not be created again.
---
 zkserver/account/account.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 355c0c8..87eaf64 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -26,6 +26,7 @@ const (
 	CacheDir             = "cache"
 	UserIdentityFilename = "user.ini"
 	deliverFilename      = "deliver.tmp" // message being delivered
+	createDir            = ".create"     // account being created
 )
 
 type ErrAlreadyOnline struct {
@@ -135,17 +136,25 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 		return fmt.Errorf("account disabled: %x", pid.Identity)
 	}
 	accountName := a.accountDir(pid.Identity)
+	dir := accountName
 	_, err = os.Stat(accountName)
 	if err == nil {
 		if !force {
 			return fmt.Errorf("account already exists: %v",
 				accountName)
 		}
+	} else {
+		// a new account shows up once it is complete
+		dir = path.Join(a.root, createDir)
+		err = os.RemoveAll(dir)
+		if err != nil {
+			return fmt.Errorf("could not remove incomplete "+
+				"account: %v", err)
+		}
 	}
 
 	// open user db
-	user, err := inidb.New(a.accountFile(pid.Identity,
-		UserIdentityFilename), true, 10)
+	user, err := inidb.New(path.Join(dir, UserIdentityFilename), true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open userdb: %v", err)
 	}
@@ -167,11 +176,18 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	}
 
 	// make additional directories
-	err = os.Mkdir(a.accountFile(pid.Identity, CacheDir), 0700)
+	err = os.Mkdir(path.Join(dir, CacheDir), 0700)
 	if err != nil && !os.IsExist(err) {
 		return fmt.Errorf("could not create cache directory: %v", err)
 	}
 
+	if dir != accountName {
+		err = os.Rename(dir, accountName)
+		if err != nil {
+			return fmt.Errorf("could not create account: %v", err)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 665a59e64ddca235d7f12c92a931bfe915937283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 23/54] fix: zkserver: accept a token once

Concurrent requests could use the same token, as could later requests when
the database of tokens could not be saved.
---
 zkserver/pending.go  | 17 ++++++++++++++---
 zkserver/zkserver.go |  2 ++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 4d9a28b..a085ffa 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -13,7 +13,7 @@ import (
 	"github.com/companyzero/zkc/inidb"
 )
 
-func (z *ZKS) prunePending(pending *inidb.INIDB) {
+func (z *ZKS) prunePending(pending *inidb.INIDB) error {
 	r := pending.Records("")
 	for k, v := range r {
 		t, err := strconv.ParseInt(v, 10, 64)
@@ -36,9 +36,14 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 	if err != nil {
 		z.Error(idApp, "could not save pending db: %v", err)
 	}
+	return err
 }
 
-func (z *ZKS) validToken(token string, conn net.Conn) bool {
+func (z *ZKS) validToken(token string, conn net.Conn) (valid bool) {
+	// a token may be used once
+	z.pendingMtx.Lock()
+	defer z.pendingMtx.Unlock()
+
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
@@ -46,7 +51,13 @@ func (z *ZKS) validToken(token string, conn net.Conn) bool {
 		z.Error(idApp, "could not open pending db: %v", err)
 		return false
 	}
-	defer z.prunePending(pending) // kill all expired records
+	defer func() {
+		// kill all expired records, the token remains usable and must
+		// not be accepted if that fails
+		if z.prunePending(pending) != nil {
+			valid = false
+		}
+	}()
 
 	// get token
 	v, err := pending.Get("", token)
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 0c0e4d2..707ad17 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -86,6 +86,8 @@ type ZKS struct {
 
 	socket net.Listener // socket for zkserverctl
 
+	pendingMtx sync.Mutex // serializes use of the pending db
+
 	// Not mutex entries
 	*debug.Debug
 	account  *account.Account
-- 
2.43.0


From 36560f4860bb8f83a541bbea4cbee554cb1a1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 24/54] fix: zkserver: do not lose rendezvous blobs

Concurrent uploads overwrote one another, and a PIN was handed out before
the blob was saved, or although it could not be saved.
---
 zkserver/rendezvous.go | 20 +++++++++++++-------
 zkserver/zkserver.go   |  3 ++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 56c4f0d..2a722f0 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -71,9 +71,11 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 	}
 
 	// open db
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.rendezvousMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v", err)
 	}
 
@@ -111,6 +113,7 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 	payload.Token = r.Token
 	payload.Blob = rzRecord.Blob
 bad:
+	z.rendezvousMtx.Unlock()
 	reply.Payload = payload
 	writer <- &reply
 	return nil
@@ -141,20 +144,15 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	retry := 25
 
 	// open db
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.rendezvousMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v",
 			err)
 	}
 	//defer z.pruneRendezvous(rz) // kill all expired records
-	defer func() {
-		// save db back
-		err := rz.Save()
-		if err != nil {
-			z.Error(idApp, "could not save rendezvous db: %v", err)
-		}
-	}()
 
 	// sanitize inputs
 	if len(r.Blob) > 4096 {
@@ -204,6 +202,13 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 			continue
 		}
 
+		// save db back
+		err = rz.Save()
+		if err != nil {
+			z.Error(idApp, "could not save rendezvous db: %v", err)
+			goto bad
+		}
+
 		// success
 		payload.Error = ""
 		payload.Token = tokenS
@@ -211,6 +216,7 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	}
 
 bad:
+	z.rendezvousMtx.Unlock()
 	reply.Payload = payload
 	writer <- &reply
 	return nil
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 707ad17..a4f0dc7 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -86,7 +86,8 @@ type ZKS struct {
 
 	socket net.Listener // socket for zkserverctl
 
-	pendingMtx sync.Mutex // serializes use of the pending db
+	pendingMtx    sync.Mutex // serializes use of the pending db
+	rendezvousMtx sync.Mutex // serializes use of the rendezvous db
 
 	// Not mutex entries
 	*debug.Debug
-- 
2.43.0


From c2bb1139d369c813bc154f4cbd2e4fb7b90cef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 25/54] fix: zkserver: do not disclose users without a
 directory

Users listed while the directory was enabled could still be looked up after
it was disabled.
---
 zkserver/account.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 1ee1b60..c66290b 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -6,6 +6,7 @@ package main
 
 import (
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"net"
 
@@ -89,7 +90,11 @@ func (z *ZKS) handleIdentityFind(writer chan *RPCWrapper, msg rpc.Message, nick
 	payload := rpc.IdentityFindReply{
 		Nick: nick,
 	}
-	id, err := z.account.Find(nick)
+	var id *zkidentity.PublicIdentity
+	err := errors.New("directory disabled")
+	if z.settings.Directory {
+		id, err = z.account.Find(nick)
+	}
 	if err != nil {
 		payload.Error = fmt.Sprintf("nick not found: %v", nick)
 	} else {
-- 
2.43.0


From 77dd4623436a7e3676d03de12bb097f710f85b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 26/54] fix: zkserver: refuse accounts with an identity that
 does not verify

Anybody could register the handle of somebody else, or list an identity that
nobody can verify.
---
 zkserver/account.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/account.go b/zkserver/account.go
index c66290b..5789876 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -38,6 +38,12 @@ func (z *ZKS) handleAccountCreate(conn net.Conn, ca rpc.CreateAccount) error {
 	z.T(idApp, "handleAccountCreate: %v %v",
 		conn.RemoteAddr(),
 		ca.PublicIdentity.Fingerprint())
+	// the identity is handed to other users, refuse what they can't verify
+	if !ca.PublicIdentity.Verify() {
+		z.accountReplyFailure("invalid identity", conn, ca)
+		return fmt.Errorf("invalid identity")
+	}
+
 	// check policy
 	switch z.settings.CreatePolicy {
 	default:
-- 
2.43.0


From 07824f34c4a6946a93ef94faa495e384a59b452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 27/54] fix: zkserver: do not share welcome properties between
 sessions

Concurrent logins wrote the same global slice while others marshalled it.
---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index a4f0dc7..3f8da0a 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -169,7 +169,8 @@ func (z *ZKS) welcome(kx *session.KX) error {
 		motd = []byte{}
 	}
 
-	properties := rpc.SupportedServerProperties
+	properties := append([]rpc.ServerProperty(nil),
+		rpc.SupportedServerProperties...)
 	for k, v := range properties {
 		switch v.Key {
 		case rpc.PropTagDepth:
-- 
2.43.0


From b9aa2185e18783a42d223c3594fedd625ac7605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 28/54] fix: zkserver: refuse messages that are too large to be
 pushed

A push has a larger header than the command that delivers it. Messages that
only just fit were accepted and then failed every session of the recipient.
---
 zkserver/cache.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/zkserver/cache.go b/zkserver/cache.go
index fde549c..e4c71de 100644
--- a/zkserver/cache.go
+++ b/zkserver/cache.go
@@ -7,13 +7,34 @@ package main
 import (
 	"encoding/hex"
 	"fmt"
+	"io/ioutil"
 	"path"
 
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/session"
 	"github.com/companyzero/zkc/zkidentity"
+	xdr "github.com/davecgh/go-xdr/xdr2"
+	"golang.org/x/crypto/nacl/secretbox"
 )
 
+// deliver delivers payload unless it is too large to be pushed to the recipient.
+func (z *ZKS) deliver(to, from [zkidentity.IdentitySize]byte, payload []byte, cleartext bool) (string, error) {
+	hdr, err := xdr.Marshal(ioutil.Discard, rpc.Message{
+		Command: rpc.TaggedCmdPush,
+	})
+	if err != nil {
+		return "", err
+	}
+	push, err := xdr.Marshal(ioutil.Discard, rpc.Push{Payload: payload})
+	if err != nil {
+		return "", err
+	}
+	if uint64(hdr+push+secretbox.Overhead) > z.settings.MaxMsgSize {
+		return "", fmt.Errorf("payload too large: %v", len(payload))
+	}
+	return z.account.Deliver(to, from, payload, cleartext)
+}
+
 // think about establishing whitelist or just blind deliver
 func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Message, cache rpc.Cache) error {
 	// sanity
@@ -30,7 +51,7 @@ func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)
+	filename, err := z.deliver(cache.To, from, cache.Payload, false)
 	if err != nil {
 		replyError := "internal error"
 		replyErrorCode := rpc.ErrorCodeInvalid
@@ -99,7 +120,7 @@ func (z *ZKS) handleProxy(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(proxy.To, from, proxy.Payload, true)
+	filename, err := z.deliver(proxy.To, from, proxy.Payload, true)
 	if err != nil {
 		payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
 			proxy.To)
-- 
2.43.0


From 3d7932a1619e70f6a08ec79bcdd5b6f96dabc100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 29/54] fix: account: do not fail on messages that were
 acknowledged meanwhile

---
 zkserver/account/account.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 87eaf64..e3c1357 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -486,6 +486,11 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 
 				filename := path.Join(cache, v.Name())
 				f, err := os.Open(filename)
+				if os.IsNotExist(err) {
+					// acknowledged since the directory
+					// was read
+					continue
+				}
 				if err != nil {
 					dn.send(&Notification{
 						Error: fmt.Errorf("%v: %v",
-- 
2.43.0


From 8042d82340461b18507148b3aad6773f38227613 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:56:01 +0000
Subject: [PATCH 30/54] fix: zkimport: import clients the server does not know
 yet

The user's directory had to exist already, which made every import of a
client record fail.  account.Create refuses an account that exists.
---
 tools/zkimport/zkimport.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/tools/zkimport/zkimport.go b/tools/zkimport/zkimport.go
index b85dffc..08c35b5 100644
--- a/tools/zkimport/zkimport.go
+++ b/tools/zkimport/zkimport.go
@@ -7,7 +7,6 @@ package main
 import (
 	"bufio"
 	"encoding/base64"
-	"encoding/hex"
 	"errors"
 	"flag"
 	"fmt"
@@ -99,13 +98,6 @@ func importClientRecord(root string, force bool, cr tools.ClientRecord) error {
 		return fmt.Errorf("invalid zkserver directory")
 	}
 
-	// see if user already exists
-	i := hex.EncodeToString(cr.PublicIdentity.Identity[:])
-	user := path.Join(dir, tools.ZKSHome, i)
-	_, err = os.Stat(user)
-	if err != nil {
-		return err
-	}
 	a, err := account.New(home)
 	if err != nil {
 		return err
-- 
2.43.0


From cd2cdbecdd2e5c87c9b6336d746e85b4eec460cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 31/54] fix: zkimport: refuse damaged records

The identity was not verified, and a truncated server record was taken
for a client record.
---
 tools/zkimport/zkimport.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tools/zkimport/zkimport.go b/tools/zkimport/zkimport.go
index 08c35b5..c02f59c 100644
--- a/tools/zkimport/zkimport.go
+++ b/tools/zkimport/zkimport.go
@@ -10,6 +10,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"io"
 	"os"
 	"os/user"
 	"path"
@@ -51,9 +52,21 @@ func readBlob(filename string) (interface{}, error) {
 			return nil, fmt.Errorf("not a zkserver/zkclient " +
 				"key blob")
 		}
+
+		// a server record starts with a client record
+		if n, _ := io.ReadFull(d, make([]byte, 1)); n != 0 {
+			return nil, fmt.Errorf("incomplete zkserver key blob")
+		}
+
+		if !cr.PublicIdentity.Verify() {
+			return nil, fmt.Errorf("identity does not verify")
+		}
 		return cr, nil
 	}
 
+	if !pr.PublicIdentity.Verify() {
+		return nil, fmt.Errorf("identity does not verify")
+	}
 	return pr, nil
 }
 
-- 
2.43.0


From f4083470cc54356bb203d32dd2c40bda138dbadc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 32/54] fix: zkclient: never encrypt two messages with the same
 key

The ratchet was saved after the message had been written to the server. A
client that was killed in between used the same message key again after a
restart, for another message, which the recipient can not decrypt.
---
 zkclient/msg.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ddd06cf..ef6ca1b 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -468,6 +468,16 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
+	// Save the ratchet before we send. If we die in between a key goes
+	// unused, which the other side can deal with; using the same key for
+	// the next message too is what it can not deal with.
+	err = z.updateRatchet(r, false)
+	if err != nil {
+		_ = z.tagStack.Push(tag)
+		return fmt.Errorf("critical error: could not update ratchet: %v",
+			err)
+	}
+
 	z.Lock()
 	z.tagCallback[tag] = &cb{
 		callback: f,
@@ -508,12 +518,5 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return err
 	}
 
-	// save ratchet only if we sent
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		return fmt.Errorf("critical error: could not update ratchet: %v",
-			err)
-	}
-
 	return nil
 }
-- 
2.43.0


From 6a02ef8d3feed4ddb963278dbb03c6e9dc3b0063 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 33/54] fix: zkclient: do not use tags of an earlier session

---
 zkclient/msg.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ef6ca1b..2558e8f 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -15,6 +15,7 @@ import (
 
 	"github.com/companyzero/zkc/ratchet"
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/session"
 	"github.com/companyzero/zkc/zkidentity"
 	"github.com/davecgh/go-spew/spew"
 	xdr "github.com/davecgh/go-xdr/xdr2"
@@ -36,6 +37,7 @@ type wireMsg struct {
 	id *[zkidentity.IdentitySize]byte
 
 	msg rpc.Message // PRPC
+	kx  *session.KX // session the PRPC tag belongs to
 
 	payload interface{} // always set
 
@@ -170,7 +172,7 @@ func (z *ZKC) scheduler() {
 								spew.Sdump(m.msg),
 								spew.Sdump(m.payload))
 						}
-						err = z.writeMessage(&m.msg, m.payload)
+						err = z.writePRPC(m)
 						if err != nil {
 							z.PrintfT(-1, REDBOLD+
 								"PRPC (rescheduled): %v"+
@@ -236,8 +238,13 @@ func (z *ZKC) scheduleCRPC(hi bool, id *[zkidentity.IdentitySize]byte, payload i
 }
 
 func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+
 	m := wireMsg{
 		msg:     msg,
+		kx:      kx,
 		payload: payload,
 	}
 	if hi {
@@ -250,6 +257,32 @@ func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
 	//z.Dbg(idSnd, "sending PRPC done")
 }
 
+// writePRPC writes a PRPC message. Tags are only meaningful in the session that
+// handed them out, therefore a message that outlived its session is sent with a
+// tag of the current one or, if it answers something that happened in the old
+// session, not at all.
+func (z *ZKC) writePRPC(m wireMsg) error {
+	z.RLock()
+	online := z.online
+	stale := m.kx != z.kx
+	z.RUnlock()
+
+	if online && stale {
+		switch m.msg.Command {
+		case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
+			return nil
+		}
+
+		tag, err := z.tagStack.Pop()
+		if err != nil {
+			return fmt.Errorf("could not obtain tag: %v", err)
+		}
+		m.msg.Tag = tag
+	}
+
+	return z.writeMessage(&m.msg, m.payload)
+}
+
 func (z *ZKC) compress(payload interface{}) ([]byte, string, error) {
 	var (
 		bb  bytes.Buffer
-- 
2.43.0


From dc7867c7ded3cbf7054a9ce606313aef70537db7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 34/54] fix: zkclient: do not crash on an acknowledgement with
 tag 32

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58fc5fc..0ee887a 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1439,7 +1439,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			z.Lock()
-			if message.Tag > uint32(len(z.tagCallback)) {
+			if message.Tag >= uint32(len(z.tagCallback)) {
 				exitError = fmt.Errorf("Acknowledge "+
 					"invalid tag: %v", message.Tag)
 				z.Unlock()
-- 
2.43.0


From 3db9d6216ee212f13012d409d1fbec905f7c2c05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 35/54] fix: zkclient: do not crash on a message that can not
 be decompressed

---
 zkclient/push.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 2307750..e5c074a 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -489,7 +489,10 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	case rpc.CRPCCompNone:
 		rd = br
 	case rpc.CRPCCompZLIB:
-		rd, _ = zlib.NewReader(br)
+		rd, err = zlib.NewReader(br)
+		if err != nil {
+			return fmt.Errorf("decompress crpc: %v", err)
+		}
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
-- 
2.43.0


From d862a3d59e6210cbf51bd2f53c6aa0380b4bc912 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 36/54] fix: zkclient: do not ping with a tag that is in use

---
 zkclient/zkclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 0ee887a..e7ebe91 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1263,6 +1263,7 @@ func (z *ZKC) handleRPC() {
 						z.kx.Close()
 						return
 					}
+					continue
 				}
 				//z.PrintfT(0, "ping %v", tag)
 				z.write.Lock()
-- 
2.43.0


From 344eee303db99e50783e7d11eeadc5053b0792f2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 37/54] fix: zkclient: do not crash when the connection goes
 away during a write

---
 zkclient/zkclient.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index e7ebe91..1eb0676 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1842,7 +1842,11 @@ func (z *ZKC) reset(nick string) error {
 
 // writeMessage marshals and sends encrypted message to server.
 func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	if !z.isOnline() {
+	z.RLock()
+	online := z.online
+	kx := z.kx
+	z.RUnlock()
+	if !online {
 		return fmt.Errorf("not online")
 	}
 
@@ -1864,7 +1868,7 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("could not marshal payload %v", msg.Command)
 	}
 
-	err = z.kx.Write(bb.Bytes())
+	err = kx.Write(bb.Bytes())
 	if err != nil {
 		return fmt.Errorf("could not write %v: %v",
 			msg.Command, err)
-- 
2.43.0


From 0781d0eb00aa4f4dc55715ff9e5281bc08c9d924 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 38/54] fix: zkclient: save the ratchet after the message was
 dealt with

---
 zkclient/push.go | 51 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index e5c074a..8304659 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -17,6 +17,7 @@ import (
 	"time"
 
 	"github.com/companyzero/sntrup4591761"
+	"github.com/companyzero/ttk"
 	"github.com/companyzero/zkc/blobshare"
 	"github.com/companyzero/zkc/inidb"
 	"github.com/companyzero/zkc/ratchet"
@@ -450,35 +451,63 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// we are in full comm mode with the other side
 	//
 
+	decrypted, err := z.openPush(p, false)
+	if err != nil {
+		return err
+	}
+
+	// The ratchet is saved after the message was dealt with, otherwise a
+	// message that we received but did not deal with would be
+	// undecipherable when the server sends it once more.
+	handleErr := z.handleCRPC(msg, p, decrypted)
+	done := make(chan struct{})
+	ttk.Queue(func() {
+		close(done)
+	})
+	<-done // everything that was printed is logged
+
+	_, err = z.openPush(p, true)
+	if handleErr != nil {
+		return handleErr
+	}
+	return err
+}
+
+// openPush decrypts the payload of a message and, if save is set, updates the
+// ratchet on disk.
+func (z *ZKC) openPush(p rpc.Push, save bool) ([]byte, error) {
 	z.ratchetMtx.Lock()
+	defer z.ratchetMtx.Unlock()
 
 	// get ratchet
 	r, err := z.loadRatchet(p.From, false)
 	if err != nil {
-		z.ratchetMtx.Unlock()
-		return fmt.Errorf("could not load ratchet: %v", err)
+		return nil, fmt.Errorf("could not load ratchet: %v", err)
 	}
 
 	decrypted, err := r.Decrypt(p.Payload)
 	if err != nil {
-		z.ratchetMtx.Unlock()
-		return &ratchetError{
+		return nil, &ratchetError{
 			err: fmt.Sprintf("could not decrypt: %v", err),
 		}
 	}
 
-	// update ratchet on disk
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		z.ratchetMtx.Unlock()
-		return err
+	if save {
+		err = z.updateRatchet(r, false)
+		if err != nil {
+			return nil, err
+		}
 	}
-	z.ratchetMtx.Unlock()
 
+	return decrypted, nil
+}
+
+// handleCRPC handles a decrypted client to client message.
+func (z *ZKC) handleCRPC(msg rpc.Message, p rpc.Push, decrypted []byte) error {
 	// decode CRPC
 	var crpc rpc.CRPC
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &crpc)
+	_, err := xdr.Unmarshal(br, &crpc)
 	if err != nil {
 		return fmt.Errorf("unmarshal crpc failed")
 	}
-- 
2.43.0


From 6b9f9a5a8c181919489d2e36f7507216393c49aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 39/54] fix: zkclient: send unacknowledged messages again in
 the next session

---
 zkclient/msg.go      | 95 +++++++++++++++++++++++++++++---------------
 zkclient/zkclient.go | 60 +++++++++++++++++++++++++---
 2 files changed, 117 insertions(+), 38 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 2558e8f..8b2567b 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -263,24 +263,67 @@ func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
 // session, not at all.
 func (z *ZKC) writePRPC(m wireMsg) error {
 	z.RLock()
-	online := z.online
-	stale := m.kx != z.kx
+	kx := z.kx
+	tags := z.tagStack
 	z.RUnlock()
 
-	if online && stale {
+	if kx != nil && m.kx != kx {
 		switch m.msg.Command {
 		case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
 			return nil
 		}
 
-		tag, err := z.tagStack.Pop()
+		tag, err := tags.Pop()
 		if err != nil {
 			return fmt.Errorf("could not obtain tag: %v", err)
 		}
 		m.msg.Tag = tag
 	}
 
-	return z.writeMessage(&m.msg, m.payload)
+	c, ok := m.payload.(rpc.Cache)
+	if ok {
+		return z.writeCache(kx, m.msg.Tag, &cb{
+			to:      c.To,
+			payload: c.Payload,
+		})
+	}
+
+	return z.writeMessage(kx, &m.msg, m.payload)
+}
+
+// writeCache sends a message that the server must pass on and remembers it
+// until the server acknowledges it.
+func (z *ZKC) writeCache(kx *session.KX, tag uint32, c *cb) error {
+	z.Lock()
+	if kx == nil || z.kx != kx {
+		z.Unlock()
+		return fmt.Errorf("not online")
+	}
+	z.cacheSeq++
+	c.seq = z.cacheSeq
+	z.tagCallback[tag] = c
+	z.Unlock()
+
+	err := z.writeMessage(kx, &rpc.Message{
+		Command: rpc.TaggedCmdCache,
+		Tag:     tag,
+	}, rpc.Cache{
+		To:      c.to,
+		Payload: c.payload,
+	})
+	if err == nil {
+		return nil
+	}
+
+	z.Lock()
+	defer z.Unlock()
+	if z.kx != nil && z.kx != kx {
+		// the next session already sent it
+		return nil
+	}
+	z.tagCallback[tag] = nil
+
+	return err
 }
 
 func (z *ZKC) compress(payload interface{}) ([]byte, string, error) {
@@ -469,7 +512,11 @@ func (z *ZKC) isOnline() bool {
 
 func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f func()) error {
 	// best effort to detect if we are offline
-	if !z.isOnline() {
+	z.RLock()
+	kx := z.kx
+	tags := z.tagStack
+	z.RUnlock()
+	if kx == nil {
 		return fmt.Errorf("not online")
 	}
 
@@ -496,7 +543,7 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 	}
 
 	// message
-	tag, err := z.tagStack.Pop()
+	tag, err := tags.Pop()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
@@ -506,42 +553,26 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 	// the next message too is what it can not deal with.
 	err = z.updateRatchet(r, false)
 	if err != nil {
-		_ = z.tagStack.Push(tag)
+		_ = tags.Push(tag)
 		return fmt.Errorf("critical error: could not update ratchet: %v",
 			err)
 	}
 
-	z.Lock()
-	z.tagCallback[tag] = &cb{
-		callback: f,
-		to:       *r.TheirIdentityPublic,
-	}
-	z.Unlock()
-
-	msg := &rpc.Message{
-		Command: rpc.TaggedCmdCache,
-		Tag:     tag,
-	}
-
-	if z.settings.Debug &&
-		msg.Command != rpc.TaggedCmdPing {
+	if z.settings.Debug {
 		z.Dbg(idZKC, "write CRPC: %v%v%v",
-			spew.Sdump(msg),
+			tag,
 			spew.Sdump(r.TheirIdentityPublic),
 			spew.Sdump(payload))
 	}
 
-	err = z.writeMessage(msg,
-		rpc.Cache{
-			To:      *r.TheirIdentityPublic,
-			Payload: m,
-		})
+	err = z.writeCache(kx, tag, &cb{
+		callback: f,
+		to:       *r.TheirIdentityPublic,
+		payload:  m,
+	})
 	if err != nil {
-		z.Lock()
-		z.tagCallback[tag] = nil
-		z.Unlock()
 		// return tag
-		err2 := z.tagStack.Push(tag)
+		err2 := tags.Push(tag)
 		if err2 != nil {
 			// we really are in deep shit now
 			return fmt.Errorf("could not push tag, internal "+
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 1eb0676..1073a6c 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -19,6 +19,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -595,6 +596,8 @@ func (z *ZKC) list(args []string) {
 type cb struct {
 	callback func()
 	to       [zkidentity.IdentitySize]byte
+	payload  []byte // what was sent
+	seq      uint64 // order in which it was sent
 }
 
 type ZKC struct {
@@ -632,6 +635,7 @@ type ZKC struct {
 	provisionalCert []byte // used when cert changed
 	tagStack        *tagstack.TagStack
 	tagCallback     []*cb  // what to do when tag is acknowledged
+	cacheSeq        uint64 // number of messages sent
 	chunkSize       uint64 // max chunk size, provided by server
 	msgSize         uint   // max message size, provided by server
 	attachmentSize  uint64 // max attachment size, provided by server
@@ -937,6 +941,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// at this point we are going to use tags
+	unacked := z.tagCallback
 	z.tagStack = tagstack.New(int(td))
 	z.tagCallback = make([]*cb, int(td))
 	z.kx = kx
@@ -946,9 +951,56 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	z.attachmentSize = as
 	z.directory = dir
 
+	z.resend(unacked)
+
 	return &wmsg, nil
 }
 
+// resend sends the messages that were not acknowledged in the previous session
+// once more. We can't know if the server has them; if it does the recipient
+// ignores the second copy because a ciphertext can only be decrypted once.
+func (z *ZKC) resend(unacked []*cb) {
+	msgs := make([]*cb, 0, len(unacked))
+	for _, c := range unacked {
+		if c != nil {
+			msgs = append(msgs, c)
+		}
+	}
+	sort.Slice(msgs, func(i, j int) bool {
+		return msgs[i].seq < msgs[j].seq
+	})
+
+	for _, c := range msgs {
+		tag, err := z.tagStack.Pop()
+		if err != nil {
+			z.PrintfT(0, REDBOLD+"Message lost: could not obtain "+
+				"tag: %v"+RESET, err)
+			continue
+		}
+		z.tagCallback[tag] = c
+
+		var bb bytes.Buffer
+		_, err = xdr.Marshal(&bb, rpc.Message{
+			Command:   rpc.TaggedCmdCache,
+			TimeStamp: time.Now().Unix(),
+			Tag:       tag,
+		})
+		if err == nil {
+			_, err = xdr.Marshal(&bb, rpc.Cache{
+				To:      c.to,
+				Payload: c.payload,
+			})
+		}
+		if err == nil {
+			err = z.kx.Write(bb.Bytes())
+		}
+		if err != nil {
+			// connection is gone, next session will try again
+			z.Dbg(idZKC, "could not resend: %v", err)
+		}
+	}
+}
+
 // goOnline goes through all phases of a connection with a server.
 // If successful z.kx can be used to send commands back and forth.
 func (z *ZKC) goOnline() (*rpc.Welcome, error) {
@@ -1841,12 +1893,8 @@ func (z *ZKC) reset(nick string) error {
 }
 
 // writeMessage marshals and sends encrypted message to server.
-func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	z.RLock()
-	online := z.online
-	kx := z.kx
-	z.RUnlock()
-	if !online {
+func (z *ZKC) writeMessage(kx *session.KX, msg *rpc.Message, payload interface{}) error {
+	if kx == nil {
 		return fmt.Errorf("not online")
 	}
 
-- 
2.43.0


From 63506ee44446f0ae280673802574d7f2e88ed1b8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 40/54] fix: zkclient: keep received files inside the download
 directory

---
 zkclient/chunk.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 02043ab..1348422 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -12,12 +12,34 @@ import (
 	"path"
 
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/zkidentity"
 	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/marcopeereboom/goutil"
 )
 
 const descriptor = "descriptor.xdr"
 
+// downloadName returns a name for a received file that is not in use in the
+// provided directory.  The name the sender picked is not trusted.
+func downloadName(dir, name string) string {
+	name = path.Base(name)
+	switch name {
+	case ".", "..", "/":
+		name = "unnamed"
+	}
+	for {
+		// the spool directories of our contacts reside here as well
+		id, err := hex.DecodeString(name)
+		if err != nil || len(id) != zkidentity.IdentitySize {
+			_, err = os.Lstat(path.Join(dir, name))
+			if err != nil {
+				return name
+			}
+		}
+		name = "1" + name
+	}
+}
+
 func (z *ZKC) handleChunkNew(msg rpc.Message, p rpc.Push,
 	cn rpc.ChunkNew) error {
 
@@ -156,17 +178,8 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 				pid.Nick, cn.Filename)
 		}
 
-		var fullpath, filename string
-		filename = cn.Filename
-		for {
-			fullpath = path.Join(z.settings.Root, spoolDir,
-				filename)
-			_, err = os.Stat(fullpath)
-			if err != nil {
-				break
-			}
-			filename = "1" + filename
-		}
+		fullpath := path.Join(z.settings.Root, spoolDir)
+		fullpath = path.Join(fullpath, downloadName(fullpath, cn.Filename))
 
 		err = os.Rename(spool, fullpath)
 		if err != nil {
-- 
2.43.0


From ba509d59ef56bcda84c530b2f964a527dfb81227 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 41/54] fix: zkclient: keep a descriptor per file that is being
 received

---
 zkclient/chunk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 1348422..9fc2f0e 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -17,7 +17,7 @@ import (
 	"github.com/marcopeereboom/goutil"
 )
 
-const descriptor = "descriptor.xdr"
+const descriptor = ".descriptor.xdr"
 
 // downloadName returns a name for a received file that is not in use in the
 // provided directory.  The name the sender picked is not trusted.
@@ -58,7 +58,7 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + descriptor
 	os.MkdirAll(dir, 0700)
 
 	// write out encoded chunk information
@@ -111,7 +111,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + descriptor
 
 	// open spool
 	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
-- 
2.43.0


From 6b5d1390afa09eeea214b815883969696a5505ee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 42/54] fix: zkclient: accept a chunk once more after dying
 while it was written

---
 zkclient/chunk.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 9fc2f0e..2b7330e 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -125,11 +125,17 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 		fs.Close()
 		return err
 	}
-	if fi.Size() != int64(c.Offset) {
+	if fi.Size() < int64(c.Offset) {
 		fs.Close()
 		return fmt.Errorf("unexpected offset got %v wanted %v",
 			fi.Size(), c.Offset)
 	}
+	// we may have died while writing this very chunk
+	err = fs.Truncate(int64(c.Offset))
+	if err != nil {
+		fs.Close()
+		return err
+	}
 
 	// write payload
 	_, err = fs.Write(c.Payload)
-- 
2.43.0


From e6aa79144848c243a960d6ef3ae53cd61f0b8c24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 43/54] fix: zkclient: make contact only with the identity that
 sent the key exchange

---
 zkclient/push.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index 8304659..adf2c73 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -160,6 +160,11 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 	return fmt.Errorf("kx step 3 not complete with: %v", nick)
 }
 
+// authentic returns true if id is valid and belongs to from.
+func authentic(id *zkidentity.PublicIdentity, from [zkidentity.IdentitySize]byte) bool {
+	return bytes.Equal(id.Identity[:], from[:]) && id.Verify()
+}
+
 func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 	if p.Payload == nil {
 		return fmt.Errorf("server sent a message without a payload")
@@ -208,6 +213,9 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 		if bytes.Equal(idkx.Identity.Identity[:], z.id.Public.Identity[:]) {
 			return fmt.Errorf("can't kx with self")
 		}
+		if !authentic(&idkx.Identity, p.From) {
+			return fmt.Errorf("identity is not authentic")
+		}
 
 		// create a new ratchet from idkx
 		r := ratchet.New(rand.Reader)
@@ -328,6 +336,9 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 	if bytes.Equal(idkx.Identity.Identity[:], z.id.Public.Identity[:]) {
 		return fmt.Errorf("can't kx with self")
 	}
+	if !authentic(&idkx.Identity, p.From) {
+		return fmt.Errorf("identity is not authentic")
+	}
 
 	// create a new ratchet from idkx
 	r := ratchet.New(rand.Reader)
-- 
2.43.0


From a9d2e051e05bb682ad31727d3d79e5071d679c64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 44/54] fix: zkclient: begin a key exchange only with a valid
 identity

---
 zkclient/kxacceptwindow.go | 5 +++++
 zkclient/zkclient.go       | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index d6fc373..6e35f4a 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -140,6 +140,11 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
+		if !identity.Verify() {
+			ka.Status(w, true, "identity is not valid")
+			return
+		}
+
 		// make sure we don't add ourselves
 		if bytes.Equal(ka.zkc.id.Public.Identity[:], identity.Identity[:]) {
 			ka.Status(w, true, "can't add self to address book")
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 1073a6c..13d728d 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1103,6 +1103,10 @@ func (z *ZKC) PrintIdentity(id zkidentity.PublicIdentity) {
 }
 
 func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
+	if !id.Verify() {
+		return fmt.Errorf("identity is not valid: %v", id.Nick)
+	}
+
 	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &id.Key)
 	if err != nil {
 		return fmt.Errorf("could not encapsulate key: %v", err)
-- 
2.43.0


From 577524f39d72bb276b9a5f91ae373505ee959901 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 45/54] fix: zkclient: save what the answer to a key exchange
 needs before beginning it

---
 zkclient/acceptclientfingerprint.go | 26 +++++++++++++++-----------
 zkclient/zkclient.go                | 16 ++++++++++------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/zkclient/acceptclientfingerprint.go b/zkclient/acceptclientfingerprint.go
index c7ebecc..72e498c 100644
--- a/zkclient/acceptclientfingerprint.go
+++ b/zkclient/acceptclientfingerprint.go
@@ -161,18 +161,9 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
-		aw.zkc.Dbg(idZKC, "step 2 (cache) idkx")
-
-		// send cache command, step 2 of idkx
-		err = aw.zkc.cache(aw.pid.Identity,
-			blobshare.PackNonce(nonce, encrypted))
-		if err != nil {
-			aw.Status(w, true, "could not send IdentityKX %v", err)
-			return
-		}
-
 		//
-		// if we get here save off identity, half ratchet and derived key
+		// save off identity, half ratchet and derived key, the reply
+		// needs them
 		//
 
 		// store public identity if this is a new identity
@@ -202,6 +193,19 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		}
 		aw.zkc.ratchetMtx.Unlock()
 
+		aw.zkc.Dbg(idZKC, "step 2 (cache) idkx")
+
+		// send cache command, step 2 of idkx
+		err = aw.zkc.cache(aw.pid.Identity,
+			blobshare.PackNonce(nonce, encrypted))
+		if err != nil {
+			aw.zkc.ratchetMtx.Lock()
+			_ = aw.zkc.removeRatchet(aw.pid.Identity, true)
+			aw.zkc.ratchetMtx.Unlock()
+			aw.Status(w, true, "could not send IdentityKX %v", err)
+			return
+		}
+
 		aw.zkc.PrintfT(0, "Accepted user %v nick %v "+
 			"fingerprint %v", aw.pid.Name, aw.pid.Nick,
 			aw.pid.Fingerprint())
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 13d728d..d834fd7 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1145,11 +1145,7 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	z.Dbg(0, "[InitiateKX]: nk = %v", nk)
 	z.Dbg(0, "[InitiateKX]: nc = %v", nc)
 
-	err = z.cache(id.Identity, payload)
-	if err != nil {
-		return fmt.Errorf("could not send IdentityKX: %v", err)
-	}
-
+	// save everything that the reply needs before asking for it
 	err = z.saveIdentity(id)
 	if err != nil {
 		return fmt.Errorf("could not save identity: %v", err)
@@ -1161,12 +1157,20 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	}
 
 	z.ratchetMtx.Lock()
-	defer z.ratchetMtx.Unlock()
 	err = z.updateRatchet(r, true)
+	z.ratchetMtx.Unlock()
 	if err != nil {
 		return fmt.Errorf("could not save half ratchet: %v", err)
 	}
 
+	err = z.cache(id.Identity, payload)
+	if err != nil {
+		z.ratchetMtx.Lock()
+		_ = z.removeRatchet(id.Identity, true)
+		z.ratchetMtx.Unlock()
+		return fmt.Errorf("could not send IdentityKX: %v", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 51c482fb37fcff1c598b237fe0efc838b0af4212 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 46/54] fix: zkclient: send the answer to a key exchange again
 after dying in the middle of it

---
 zkclient/identity.go | 42 ++++++++++++++++++++
 zkclient/push.go     | 93 +++++++++++++++++++++++++++++---------------
 2 files changed, 103 insertions(+), 32 deletions(-)

diff --git a/zkclient/identity.go b/zkclient/identity.go
index 6131467..4f1c608 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -7,6 +7,7 @@ package main
 import (
 	"bytes"
 	"crypto/rand"
+	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
 	"io/ioutil"
@@ -24,6 +25,7 @@ const (
 	ratchetFilename     = "ratchet.xdr"
 	halfRatchetFilename = "halfratchet.xdr"
 	identityFilename    = "publicidentity.xdr"
+	kxReplyFilename     = "kxreply"
 )
 
 // identityExists checks to see if identityFilename exists in the id directory.
@@ -216,3 +218,43 @@ func (z *ZKC) saveIdentity(id zkidentity.PublicIdentity) error {
 
 	return nil
 }
+
+// saveKXReply stores the reply to the message that began a key exchange.  It
+// is needed once more if the message is.
+func (z *ZKC) saveKXReply(id [zkidentity.IdentitySize]byte, payload, reply []byte) error {
+	fullPath := path.Join(z.settings.Root, inboundDir,
+		hex.EncodeToString(id[:]))
+	f, err := ioutil.TempFile(fullPath, kxReplyFilename)
+	if err != nil {
+		return err
+	}
+	digest := sha256.Sum256(payload)
+	_, err = f.Write(append(digest[:], reply...))
+	f.Sync()
+	f.Close()
+	if err != nil {
+		os.Remove(f.Name())
+		return err
+	}
+
+	return os.Rename(f.Name(), path.Join(fullPath, kxReplyFilename))
+}
+
+// loadKXReply returns the reply to payload if that is the message that began
+// the key exchange with id, or nil.
+func (z *ZKC) loadKXReply(id [zkidentity.IdentitySize]byte, payload []byte) []byte {
+	b, err := ioutil.ReadFile(path.Join(z.settings.Root, inboundDir,
+		hex.EncodeToString(id[:]), kxReplyFilename))
+	digest := sha256.Sum256(payload)
+	if err != nil || !bytes.HasPrefix(b, digest[:]) {
+		return nil
+	}
+
+	return b[len(digest):]
+}
+
+// removeKXReply removes the reply to a completed key exchange.
+func (z *ZKC) removeKXReply(id [zkidentity.IdentitySize]byte) {
+	os.Remove(path.Join(z.settings.Root, inboundDir,
+		hex.EncodeToString(id[:]), kxReplyFilename))
+}
diff --git a/zkclient/push.go b/zkclient/push.go
index adf2c73..ecf132d 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -245,15 +245,7 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("could not save identity %v", err)
 		}
 
-		z.ratchetMtx.Lock()
-		err = z.updateRatchet(r, false)
-		if err != nil {
-			z.ratchetMtx.Unlock()
-			return fmt.Errorf("could not save ratchet kx %v", err)
-		}
-		z.ratchetMtx.Unlock()
-
-		// send kxRatchet to the other end
+		// kxRatchet goes to the other end
 		kx := rpc.KX{
 			KX: *kxRatchet,
 		}
@@ -269,20 +261,24 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("could not encrypt KX %v", err)
 		}
 
-		// send cache command, step 3 of idkx
-		err = z.cache(idkx.Identity.Identity,
-			blobshare.PackNonce(nonce, encrypted))
+		reply := blobshare.PackNonce(nonce, encrypted)
+		err = z.saveKXReply(p.From, p.Payload, reply)
 		if err != nil {
-			return fmt.Errorf("could not send KX %v", err)
+			return fmt.Errorf("could not save KX %v", err)
 		}
 
-		err = z.addressBookAdd(idkx.Identity)
+		z.ratchetMtx.Lock()
+		err = z.updateRatchet(r, false)
 		if err != nil {
-			return fmt.Errorf("could not add to address book: %v",
-				err)
+			z.ratchetMtx.Unlock()
+			return fmt.Errorf("could not save ratchet kx %v", err)
 		}
+		z.ratchetMtx.Unlock()
 
-		z.printKX(&idkx.Identity)
+		err = z.finishKX(idkx.Identity, reply)
+		if err != nil {
+			return err
+		}
 
 		z.Dbg(idZKC, "step 2 (push) idkx complete %v",
 			hex.EncodeToString(idkx.Identity.Identity[:]))
@@ -366,15 +362,7 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("could not save identity %v", err)
 	}
 
-	z.ratchetMtx.Lock()
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		z.ratchetMtx.Unlock()
-		return fmt.Errorf("could not save ratchet kx %v", err)
-	}
-	z.ratchetMtx.Unlock()
-
-	// send kxRatchet to the other end
+	// kxRatchet goes to the other end
 	kx := rpc.KX{
 		KX: *kxRatchet,
 	}
@@ -390,24 +378,52 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("could not encrypt KX %v", err)
 	}
 
-	// send cache command, step 3 of idkx
-	err = z.cache(idkx.Identity.Identity, blobshare.PackNonce(nonce, encrypted))
+	reply := blobshare.PackNonce(nonce, encrypted)
+	err = z.saveKXReply(p.From, p.Payload, reply)
 	if err != nil {
-		return fmt.Errorf("could not send KX %v", err)
+		return fmt.Errorf("could not save KX %v", err)
 	}
 
-	err = z.addressBookAdd(idkx.Identity)
+	z.ratchetMtx.Lock()
+	err = z.updateRatchet(r, false)
 	if err != nil {
-		return fmt.Errorf("could not add to address book: %v", err)
+		z.ratchetMtx.Unlock()
+		return fmt.Errorf("could not save ratchet kx %v", err)
 	}
+	z.ratchetMtx.Unlock()
 
-	z.printKX(&idkx.Identity)
+	err = z.finishKX(idkx.Identity, reply)
+	if err != nil {
+		return err
+	}
 
 	z.Dbg(idZKC, "step 2 (push) idkx complete %v", hex.EncodeToString(idkx.Identity.Identity[:]))
 
 	return nil
 }
 
+// finishKX sends the reply to the message that began a key exchange.
+func (z *ZKC) finishKX(id zkidentity.PublicIdentity, reply []byte) error {
+	// send cache command, step 3 of idkx
+	err := z.cache(id.Identity, reply)
+	if err != nil {
+		return fmt.Errorf("could not send KX %v", err)
+	}
+
+	_, err = z.ab.FindIdentity(id.Identity)
+	if err != nil {
+		err = z.addressBookAdd(id)
+		if err != nil {
+			return fmt.Errorf("could not add to address book: %v",
+				err)
+		}
+	}
+
+	z.printKX(&id)
+
+	return nil
+}
+
 func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// see if identity is valid
 	empty := make([]byte, 32)
@@ -462,6 +478,18 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// we are in full comm mode with the other side
 	//
 
+	// The reply did not get there if the server sends the message that
+	// began the key exchange once more.
+	reply := z.loadKXReply(p.From, p.Payload)
+	if reply != nil {
+		id, err := z.loadIdentity(p.From)
+		if err != nil {
+			return fmt.Errorf("could not obtain identity "+
+				"record: %v", err)
+		}
+		return z.finishKX(*id, reply)
+	}
+
 	decrypted, err := z.openPush(p, false)
 	if err != nil {
 		return err
@@ -478,6 +506,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	<-done // everything that was printed is logged
 
 	_, err = z.openPush(p, true)
+	z.removeKXReply(p.From) // they have it
 	if handleErr != nil {
 		return handleErr
 	}
-- 
2.43.0


From 9eb9ba8915228098996194882c6d7408643c4a30 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:31 +0000
Subject: [PATCH 47/54] fix: zkclient: refuse group lists that do not begin
 with their administrator

---
 zkclient/push.go     |  9 +++++++++
 zkclient/zkclient.go | 25 +++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index ecf132d..13b3d91 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1044,6 +1044,11 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 		return z._deleteGroup(gk.NewGroupList.Name)
 	}
 
+	err := validGroupList(p.From, gk.NewGroupList)
+	if err != nil {
+		return err
+	}
+
 	nick := hex.EncodeToString(gk.Member[:])
 	id, err := z.ab.FindIdentity(gk.Member)
 	if err == nil {
@@ -1094,6 +1099,10 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("group chat not found: %v", gk.Name)
 	}
 
+	if len(group.Members) == 0 {
+		return fmt.Errorf("handleGroupKill: group chat corrupt")
+	}
+
 	if !bytes.Equal(group.Members[0][:], p.From[:]) {
 		return fmt.Errorf("spoofed group chat kill command")
 	}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index d834fd7..b50fa82 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1963,6 +1963,10 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 	if !bytes.Equal(group.Members[0][:], id[:]) {
 		return errNotAdmin
 	}
+	err := validGroupList(id, gl)
+	if err != nil {
+		return err
+	}
 
 	// Warn if generation is no moving forward
 	if gl.Generation <= group.Generation {
@@ -1976,6 +1980,27 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 	return z._gcSaveDisk(gl.Name)
 }
 
+// validGroupList makes sure that a list that was sent by a group administrator
+// starts with that administrator and names everyone once.
+func validGroupList(admin [zkidentity.IdentitySize]byte,
+	gl rpc.GroupList) error {
+
+	if len(gl.Members) == 0 || gl.Members[0] != admin {
+		return fmt.Errorf("group list without its administrator: %v",
+			gl.Name)
+	}
+	seen := make(map[[zkidentity.IdentitySize]byte]struct{})
+	for _, m := range gl.Members {
+		if _, found := seen[m]; found {
+			return fmt.Errorf("duplicate member in group list: %v",
+				gl.Name)
+		}
+		seen[m] = struct{}{}
+	}
+
+	return nil
+}
+
 func (z *ZKC) _addIdGroupchat(gcName string,
 	id zkidentity.PublicIdentity) (rpc.GroupList, error) {
 
-- 
2.43.0


From 6abeb5016a28cae01f441c48207aceaca93ff738 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:32 +0000
Subject: [PATCH 48/54] fix: zkclient: check who sent a group list before
 showing it

---
 zkclient/push.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 13b3d91..f11d9aa 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1245,9 +1245,32 @@ func (z *ZKC) warnGroupListMissingKeys(print bool, gl rpc.GroupList) error {
 	return err
 }
 
+// checkGroupList makes sure that a group list is one to act on.
+func (z *ZKC) checkGroupList(from [zkidentity.IdentitySize]byte,
+	gl rpc.GroupList) error {
+
+	z.RLock()
+	defer z.RUnlock()
+
+	group, found := z.groups[gl.Name]
+	if !found {
+		return fmt.Errorf("group chat not found: %v", gl.Name)
+	}
+	if len(group.Members) == 0 || group.Members[0] != from {
+		return errNotAdmin
+	}
+
+	return validGroupList(from, gl)
+}
+
 func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 	gl rpc.GroupList) error {
 
+	err := z.checkGroupList(p.From, gl)
+	if err != nil {
+		return err
+	}
+
 	z.PrintfT(0, "Received new group chat list (%v): %v",
 		gl.Generation,
 		z.settings.GcColor+gl.Name+RESET)
@@ -1255,7 +1278,7 @@ func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 	z.diffGroupListPrint(gl)
 
 	// warn about missing keys
-	err := z.warnGroupListMissingKeys(true, gl)
+	err = z.warnGroupListMissingKeys(true, gl)
 	if err != nil {
 		z.PrintfT(0, "could not warn about missing keys: %v", err)
 	}
@@ -1274,6 +1297,11 @@ func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	gu rpc.GroupUpdate) error {
 
+	err := z.checkGroupList(p.From, gu.NewGroupList)
+	if err != nil {
+		return err
+	}
+
 	z.PrintfT(0, "Received group chat update (%v): %v",
 		gu.NewGroupList.Generation,
 		z.settings.GcColor+gu.NewGroupList.Name+RESET)
@@ -1281,7 +1309,7 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	z.diffGroupListPrint(gu.NewGroupList)
 
 	// warn about missing keys
-	err := z.warnGroupListMissingKeys(true, gu.NewGroupList)
+	err = z.warnGroupListMissingKeys(true, gu.NewGroupList)
 	if err != nil {
 		z.PrintfT(0, "could not warn about missing keys: %v", err)
 	}
-- 
2.43.0


From 359e25e1c1f0209da5d48f8ee25271bb493ca4c8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 49/54] fix: zkclient: do not show group chats in the
 conversation of a contact of the same name

---
 zkclient/groupchat.go |  4 ++--
 zkclient/push.go      | 16 ++++++++++------
 zkclient/zkclient.go  |  2 +-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index beb6514..24c588b 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -319,7 +319,7 @@ func (z *ZKC) gcKick(args []string) error {
 			v *conversation
 		)
 		for k, v = range z.conversation {
-			if v.id.Nick == args[2] {
+			if v.group && v.id.Nick == args[2] {
 				break
 			}
 		}
@@ -484,7 +484,7 @@ func (z *ZKC) gcKill(args []string) error {
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == args[2] {
+		if v.group && v.id.Nick == args[2] {
 			z.PrintfT(k, REDBOLD+"group chat killed"+RESET)
 			break
 		}
diff --git a/zkclient/push.go b/zkclient/push.go
index f11d9aa..ce22bad 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -894,7 +894,7 @@ func (z *ZKC) handleGroupJoin(msg rpc.Message, p rpc.Push,
 		z.settings.GcColor+gj.Name+RESET)
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gj.Name {
+		if v.group && v.id.Nick == gj.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				"%v joined group chat",
 				id.Nick)
@@ -973,7 +973,7 @@ func (z *ZKC) handleGroupPart(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gp.Name {
+			if v.group && v.id.Nick == gp.Name {
 				z.PrintfT(k, "%v left group chat: %v",
 					z.settings.PmColor+nick+RESET,
 					gp.Reason)
@@ -1026,7 +1026,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gk.NewGroupList.Name {
+			if v.group && v.id.Nick == gk.NewGroupList.Name {
 				if gk.Parted {
 					z.PrintfTS(k, time.Unix(p.Received, 0),
 						"left group chat: %v",
@@ -1070,7 +1070,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.NewGroupList.Name {
+		if v.group && v.id.Nick == gk.NewGroupList.Name {
 			if gk.Parted {
 				z.PrintfTS(k, time.Unix(p.Received, 0),
 					"%v left group chat %v",
@@ -1117,7 +1117,7 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.Name {
+		if v.group && v.id.Nick == gk.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				REDBOLD+"group chat killed"+RESET)
 			break
@@ -1172,7 +1172,11 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 		return
 	}
 
-	z.query(ng.Name)
+	_, win, err := z.groupConversation(ng.Name)
+	if err != nil {
+		return
+	}
+	z.focus(win)
 
 	for _, v := range min {
 		if bytes.Equal(v[:], z.id.Public.Identity[:]) {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b50fa82..be30de4 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -376,7 +376,7 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	defer z.Unlock()
 	x := -1
 	for k, v := range z.conversation {
-		if v.id.Nick == group {
+		if v.group && v.id.Nick == group {
 			return v, k, nil
 		}
 		// next free slot
-- 
2.43.0


From 4f9fdbcf92dfe4d67062bf42a0c4eba948538e09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:35 +0000
Subject: [PATCH 50/54] fix: zkclient: remove a kicked member from the group at
 once

---
 zkclient/groupchat.go | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 24c588b..f347ce4 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -324,32 +324,6 @@ func (z *ZKC) gcKick(args []string) error {
 			}
 		}
 
-		// make sure group has not vanished
-		_, found := z.groups[args[2]]
-		if !found {
-			z.PrintfT(0, REDBOLD+
-				"group no longer exists: %v"+
-				RESET, args[2], err)
-			return
-		}
-
-		// set new group in memory
-		z.groups[args[2]] = ngc
-
-		// save to disk
-		err = z._gcSaveDisk(args[2])
-		if err != nil {
-			em := fmt.Sprintf(REDBOLD+
-				"could not save group to disk %v: %v"+
-				RESET, args[2], err)
-			z.PrintfT(0, "%v", em)
-			// echo on conversation window
-			if k > 0 {
-				z.PrintfT(k, "%v", em)
-			}
-			return
-		}
-
 		km := fmt.Sprintf("%v was kicked of group chat %v: %v",
 			z.settings.PmColor+args[3]+RESET,
 			z.settings.GcColor+args[2]+RESET,
@@ -361,6 +335,16 @@ func (z *ZKC) gcKick(args []string) error {
 		}
 	}
 
+	// From now on the member is gone; waiting until everyone knows would
+	// undo what happens to the group in the meantime.
+	z.groups[args[2]] = ngc
+	err = z._gcSaveDisk(args[2])
+	if err != nil {
+		z.groups[args[2]] = gc // unwind
+		return fmt.Errorf("could not save group to disk %v: %v",
+			args[2], err)
+	}
+
 	// send new list to everyone including kickee if still part of the list
 	for j := 1; j < len(gc.Members); j++ {
 		z.Dbg(idZKC, "sending kick %v to: %x", args[2], gc.Members[j])
-- 
2.43.0


From 74698d138c93ee693f3e582e3f9ff63f0c9b57cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:36 +0000
Subject: [PATCH 51/54] fix: zkclient: use up an invitation when there is
 another one to a group of that name

---
 zkclient/groupinvites.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 98f7b0e..b2edb19 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -287,9 +287,6 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 	}
 
 	records := jdb.Records(group)
-	if len(records) != 1 {
-		return fmt.Errorf("invalid join table")
-	}
 	for id, r := range records {
 		// we search for record to make sure everything is cool
 		invite, err := unmarshalInvite(r)
@@ -303,8 +300,12 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 			continue
 		}
 
-		// delete table
-		err = jdb.DelTable(group)
+		// delete record, and the table if it was the only one
+		if len(records) == 1 {
+			err = jdb.DelTable(group)
+		} else {
+			err = jdb.Del(group, id)
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0eff45f3bb8ca60aed273a270f9e1359bfc41da9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 52/54] fix: zkclient: refuse invitations and commands with
 names no group can have

---
 zkclient/groupchat.go | 12 ++++++++++++
 zkclient/push.go      |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index f347ce4..04b697c 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -28,6 +28,9 @@ const validLetters = "abcdefghijklmnopqrstuvwyz" +
 
 func validName(name string) error {
 	var found bool
+	if name == "" || name == "." || name == ".." {
+		return fmt.Errorf("invalid name")
+	}
 	for _, c := range []byte(name) {
 		found = false
 		for _, v := range []byte(validLetters) {
@@ -88,6 +91,10 @@ func (z *ZKC) gcNew(args []string) error {
 		return fmt.Errorf("usage: /gc new <name>")
 	}
 
+	if err := validName(args[2]); err != nil {
+		return fmt.Errorf("could not create new group: %v", args[2])
+	}
+
 	// see if gc already exists on disk
 	filename := path.Join(z.settings.Root, groupchatDir, args[2])
 	_, err := os.Stat(filename)
@@ -179,6 +186,11 @@ func (z *ZKC) gcJoin(args []string) error {
 		return fmt.Errorf("invalid token: %v", err)
 	}
 
+	err = validName(args[2])
+	if err != nil {
+		return err
+	}
+
 	z.Lock()
 	defer z.Unlock()
 
diff --git a/zkclient/push.go b/zkclient/push.go
index ce22bad..9113884 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -800,6 +800,11 @@ func (z *ZKC) handleGroupInvite(msg rpc.Message, p rpc.Push,
 		return nil
 	}
 
+	err = validName(gi.Name)
+	if err != nil {
+		return fmt.Errorf("invite to group chat: %v", err)
+	}
+
 	// add invite to join database
 	err = z.joinDBAdd(p.From, gi)
 	if err != nil {
-- 
2.43.0


From 73c0605082fd432fe30a42810c781ac35f7e46c8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:38 +0000
Subject: [PATCH 53/54] fix: zkclient: do not crash when a group message
 mentions us after certain letters

---
 zkclient/push.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 9113884..be7811d 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1334,6 +1334,19 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	return nil
 }
 
+// mentioned returns where nick is in s, disregarding case, and -1 if it is not.
+// Letters may take more or fewer bytes in the other case, positions in a string
+// that was folded are not those of the original.
+func mentioned(s, nick string) int {
+	for x := 0; x+len(nick) <= len(s); x++ {
+		if strings.EqualFold(s[x:x+len(nick)], nick) {
+			return x
+		}
+	}
+
+	return -1
+}
+
 func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	gm rpc.GroupMessage) error {
 
@@ -1380,8 +1393,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 
 	// see if we were mentioned
 	s := gm.Message
-	if x := strings.Index(strings.ToUpper(gm.Message),
-		strings.ToUpper(z.id.Public.Nick)); x != -1 &&
+	if x := mentioned(gm.Message, z.id.Public.Nick); x != -1 &&
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
-- 
2.43.0


From 494724a6faa0dd2cec160f791b977ec691a2d0a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 54/54] fix: zkclient: show that a member was kicked in the
 window of the group only

---
 zkclient/groupchat.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 04b697c..75c63ef 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -326,12 +326,10 @@ func (z *ZKC) gcKick(args []string) error {
 		z.Dbg(idZKC, "gcKick: callback")
 
 		// find conversation
-		var (
-			k = -1
-			v *conversation
-		)
-		for k, v = range z.conversation {
+		k := -1
+		for i, v := range z.conversation {
 			if v.group && v.id.Nick == args[2] {
+				k = i
 				break
 			}
 		}
-- 
2.43.0

