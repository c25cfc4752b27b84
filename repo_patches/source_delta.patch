From ecc87641885375347cd8b38a6e390e1059936671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/14] fix: do not write the caller's ID into the groups slice
 passed to Encrypt

append(groups, identity.ID) writes behind the slice passed in by the caller
whenever it has spare capacity. Besides modifying the caller's memory, two
concurrent calls sharing the slice could each put the other caller's ID in
the access list they create.
---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From 07019b40b2a2853560112c2fde03eabb19e301ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 02/14] fix: bind stored users and groups to the identifier
 they are looked up by

---
 id/standalone.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..cac6b08 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -374,6 +374,9 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 		return nil, err
 	}
 
+	// The stored record must be the one sealed for this identifier.
+	user.UID = uid
+
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
 	if err != nil {
@@ -420,6 +423,9 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 		return nil, err
 	}
 
+	// The stored record must be the one sealed for this identifier.
+	group.GID = gid
+
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
 	if err != nil {
-- 
2.43.0


From 411347dbbbc56ebf24edf8ed852067efbd333d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 03/14] fix: a user's own identifier is not a group it may add
 users to or remove them from

---
 id/standalone.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index cac6b08..d9d5551 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,7 +219,7 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
+	callerGroups := identity.Groups
 	for _, gid := range gids {
 		if _, ok := callerGroups[gid]; !ok {
 			return ErrNotAuthorized
@@ -255,7 +255,7 @@ func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
+	callerGroups := identity.Groups
 	for _, gid := range gids {
 		if _, ok := callerGroups[gid]; !ok {
 			return ErrNotAuthorized
-- 
2.43.0


From 8cc8d59e152a377d7dc8401a973dcd1b7ea7037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 04/14] fix: do not keep using the key provider's buffer as
 index key

NewSecureIndex stored the slice returned by the key provider. When the owner of
that buffer wipes it after construction, as is good practice for key material,
all later index operations silently ran under the wiped key: earlier entries
could not be found and new ones were sealed under a known key. The other
cryptors already expand their keys on construction.
---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index 098572f..a618ecd 100644
--- a/index/index.go
+++ b/index/index.go
@@ -72,7 +72,7 @@ func NewSecureIndex(ctx context.Context, keyProvider key.Provider, ioProvider io
 	return SecureIndex{
 		ioProvider: ioProvider,
 		idProvider: idProvider,
-		indexKey:   keys.IEK,
+		indexKey:   append([]byte{}, keys.IEK...), // the buffer remains the key provider's
 	}, nil
 }
 
-- 
2.43.0


From 217fecdb73b55fca3285bf13a070c130f57896c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 05/14] fix: entries left behind by a failed index Delete no
 longer reappear

When Delete overwrites an entry with its successor and then fails to delete the
successor (a storage error, or the process stopping), the successor stays behind
at a later label that nothing points to. Once the chain had become shorter, an
Add could create an entry pointing to that label, making the long deleted entry
part of the chain again. Add now skips labels that are still occupied.
---
 index/index.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/index/index.go b/index/index.go
index a618ecd..610e53f 100644
--- a/index/index.go
+++ b/index/index.go
@@ -106,6 +106,19 @@ func (i *SecureIndex) Add(ctx context.Context, token, keyword, identifier string
 
 	newNode := data.Node{Identifier: identifier, NextCounter: last.NextCounter + 1}
 
+	// A failed Delete may have left a deleted Node behind at a later label. The new Node must not
+	// point to it, as that would make it part of the chain again.
+	for {
+		_, err := i.getNextNode(ctx, newNode, tagger, cryptor)
+		if errors.Is(err, ErrNodeNotFound) {
+			break
+		}
+		if err != nil {
+			return err
+		}
+		newNode.NextCounter++
+	}
+
 	sealedNode, err := newNode.Seal(label, cryptor)
 	if err != nil {
 		return err
-- 
2.43.0


From b55a00d12cb4a6a3301384aae109b42b15aeaab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 06/14] fix: make Put, Update and Delete of the in-memory IO
 Provider atomic

---
 io/mem.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..bafe67a 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -24,11 +24,14 @@ import (
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
 	data sync.Map
+
+	// writes makes the existence check and the write of Put and Update a single step.
+	writes sync.Mutex
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,6 +41,8 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.writes.Lock()
+	defer m.writes.Unlock()
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
@@ -57,6 +62,8 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.writes.Lock()
+	defer m.writes.Unlock()
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
@@ -66,6 +73,8 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
+	m.writes.Lock()
+	defer m.writes.Unlock()
 	m.data.Delete(key)
 	return nil
 }
-- 
2.43.0


From b0b864ed4a866dbb46fb39b1fe68434f63bdeb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 07/14] fix: the in-memory IO Provider no longer shares its
 stored data with the caller

---
 io/mem.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index bafe67a..ae34dea 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -46,7 +46,7 @@ func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte(nil), data...))
 	return nil
 }
 
@@ -56,7 +56,8 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 	if !ok {
 		return nil, ErrNotFound
 	}
-	data := out.([]byte)
+	// Stored data is never shared with the caller.
+	data := append([]byte(nil), out.([]byte)...)
 	return data, nil
 }
 
@@ -67,7 +68,7 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte(nil), data...))
 	return nil
 }
 
-- 
2.43.0


From 2099ff9edde9ff54c5bfcdcca4a0d35ad48b8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 08/14] fix: the Bolt IO Provider no longer writes into the
 caller's id buffer

---
 io/bolt.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..7443898 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -52,8 +52,14 @@ func NewBolt(path string) (Bolt, error) {
 	return Bolt{store, objectBucket}, nil
 }
 
+// boltKey allocates the key of an entry, and leaves the caller's id and whatever follows it in memory alone.
+func boltKey(id []byte, dataType DataType) []byte {
+	key := append([]byte(nil), id...)
+	return append(key, dataType.Bytes()...)
+}
+
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +70,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -81,7 +87,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -92,7 +98,7 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
-- 
2.43.0


From 2dbf2370d9d5180c0c590c443f73d23ba5aeac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 09/14] fix: the Bolt IO Provider finds data that is empty

---
 io/bolt.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 7443898..2bb8712 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -74,15 +74,16 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		data := b.Get(key)
+		if data == nil {
+			return ErrNotFound
+		}
+		out = append(out, data...)
 		return nil
 	})
 	if err != nil {
 		return nil, err
 	}
-	if out == nil {
-		return nil, ErrNotFound
-	}
 	return out, nil
 }
 
-- 
2.43.0


From fceeb2d911f4cb4e495e3f1b341f53addac536bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 10/14] fix: no surplus padding block in KMAC when the encoded
 key is already aligned

---
 crypto/kmac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/kmac.go b/crypto/kmac.go
index 18f7988..fd84b43 100644
--- a/crypto/kmac.go
+++ b/crypto/kmac.go
@@ -117,7 +117,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - len(buf)%w) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 17b832f41de646f6b118e7f022bd0e6680aa509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 11/14] fix: serialize maps in a fixed order when encrypting
 and tagging

---
 crypto/cryptor.go | 6 +++++-
 crypto/tagger.go  | 4 ----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/cryptor.go b/crypto/cryptor.go
index a5cb642..ad47e37 100644
--- a/crypto/cryptor.go
+++ b/crypto/cryptor.go
@@ -18,9 +18,13 @@ package crypto
 import (
 	"fmt"
 
-	json "github.com/json-iterator/go"
+	jsoniter "github.com/json-iterator/go"
 )
 
+// Maps are serialized in the order of their keys: associated data and tagged data have to be the same
+// bytes every time.
+var json = jsoniter.ConfigCompatibleWithStandardLibrary
+
 const EncryptionKeyLength = 32
 const WrapperKeyLength = 32
 
diff --git a/crypto/tagger.go b/crypto/tagger.go
index 3d4b07f..d7729b2 100644
--- a/crypto/tagger.go
+++ b/crypto/tagger.go
@@ -15,10 +15,6 @@
 
 package crypto
 
-import (
-	json "github.com/json-iterator/go"
-)
-
 const TagLength = 32
 const TaggerKeyLength = 32
 
-- 
2.43.0


From 626eb95527e44c2597db2b90384ce46918d7ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 12/14] fix: comparing a password with a hash that is too short
 no longer panics

---
 crypto/password.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/password.go b/crypto/password.go
index ad00fa0..e52c401 100644
--- a/crypto/password.go
+++ b/crypto/password.go
@@ -56,6 +56,9 @@ func (p *PasswordHasher) GeneratePassword() (string, []byte, error) {
 }
 
 func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
+	if len(saltAndHash) < saltLength {
+		return false
+	}
 	salt := saltAndHash[:saltLength]
 	hash := saltAndHash[saltLength:]
 	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
-- 
2.43.0


From 5d3828ee38ca20ddd3abd08600b6c371a5741ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:33 +0000
Subject: [PATCH 13/14] fix: copy the fields of the caller's logger instead of
 sharing their buffer

---
 log/log.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 3f3f713..b764973 100644
--- a/log/log.go
+++ b/log/log.go
@@ -24,7 +24,9 @@ import (
 // CopyCtxLogger creates a new context with a copy of any logger found in the context. This is
 // useful when we don't want to pollute the caller's log context.
 func CopyCtxLogger(ctx context.Context) context.Context {
-	l := *zerolog.Ctx(ctx)
+	// NOTE: Dereferencing the logger is not enough, as the copy would share the buffer holding the
+	// fields with the original.
+	l := zerolog.Ctx(ctx).With().Logger()
 	return l.WithContext(ctx)
 }
 
-- 
2.43.0


From df117037e2016b3ab4f54a224bc181884ae554a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:22 +0000
Subject: [PATCH 14/14] fix: do not add fields to a disabled default logger

---
 log/log.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/log/log.go b/log/log.go
index b764973..611d48a 100644
--- a/log/log.go
+++ b/log/log.go
@@ -37,21 +37,27 @@ func Ctx(ctx context.Context) *zerolog.Logger {
 
 // WithMethod adds a method field to the context's logger.
 func WithMethod(ctx context.Context, method string) {
-	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
-		return c.Str("method", method)
-	})
+	withField(ctx, "method", method)
 }
 
 // WithUserID adds a user ID field to the context's logger.
 func WithUserID(ctx context.Context, id string) {
-	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
-		return c.Str("uid", id)
-	})
+	withField(ctx, "uid", id)
 }
 
 // WithObjectID adds an object ID field to the context's logger.
 func WithObjectID(ctx context.Context, id string) {
-	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
-		return c.Str("oid", id)
+	withField(ctx, "oid", id)
+}
+
+func withField(ctx context.Context, key, value string) {
+	l := Ctx(ctx)
+	// A copy of a disabled logger is not necessarily stored in the context, so this could be the
+	// default logger, which is shared by everyone.
+	if l.GetLevel() == zerolog.Disabled {
+		return
+	}
+	l.UpdateContext(func(c zerolog.Context) zerolog.Context {
+		return c.Str(key, value)
 	})
 }
-- 
2.43.0

