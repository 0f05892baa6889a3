From eede57307870d8fd94a17813a4a9a7ac52bad778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 01/27] fix: AppendTrigraphByteByKey refuses a key index beyond
 the key instead of panicking

---
 diana/diana.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diana/diana.go b/diana/diana.go
index 244f5c9..1088184 100644
--- a/diana/diana.go
+++ b/diana/diana.go
@@ -132,7 +132,7 @@ func AppendTrigraphByteByKey(writeTo *[]byte, character *byte, key *[]byte, keyI
 	if *keyIndex < 0 {
 		return ErrNegativeKeyIndex
 	}
-	if *keyIndex > len(*writeTo) {
+	if *keyIndex > len(*writeTo) || *keyIndex >= len(*key) {
 		return ErrKeyIndexOutOfBounds
 	}
 	var b byte
-- 
2.43.0


From ab8820b09271971cf487a2c2d61633a87d6b8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 02/27] fix: encoding a character outside the tables returns an
 error instead of panicking or altering it

---
 cipher.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 124cdc1..4969655 100644
--- a/cipher.go
+++ b/cipher.go
@@ -277,6 +277,15 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// find character in one of the tables
 	c := *input
 	toUpper(&c, &c)
+	if c != *input {
+		// the receiver restores case with toLower, refuse characters it can not
+		// restore (e.g. dotless i or long s)
+		var restored rune
+		toLower(&c, &restored)
+		if restored != *input {
+			return ErrInvalidCoding
+		}
+	}
 	foundIt := false
 	for t := range CharacterTables {
 		for i, tc := range CharacterTables[t] {
@@ -304,8 +313,8 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// zero the copy of rune
 	c = 0
 	if !foundIt {
-		// enter binary mode
-		panic("binary mode not implemented yet")
+		// binary mode is not implemented yet
+		return ErrInvalidCoding
 	}
 
 	return nil
-- 
2.43.0


From 42f94e2781094356d7a40cf6455f9e384da84548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 03/27] fix: FindKey never picks a compromised key

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 4969655..b5ac214 100644
--- a/cipher.go
+++ b/cipher.go
@@ -440,7 +440,7 @@ func (t *Message) Decode() error {
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From a12d321de07ebdf7c2f9e4e74c91238ef7a2f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 04/27] fix: enciphering with a named key marks it as used

---
 cipher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cipher.go b/cipher.go
index b5ac214..214725d 100644
--- a/cipher.go
+++ b/cipher.go
@@ -579,6 +579,8 @@ func (m *Message) Encipher() error {
 		return err
 	}
 	chunk.key = keyPtr
+	// A key named by the caller is not marked by EnrichWithKey.
+	keyPtr.Used = true
 	// If something fails, we need to release all keys we have used.
 	releaseKeys := true
 	defer func() {
-- 
2.43.0


From 6ebfc85a12850a67c555da3ca94b262b031548d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 05/27] fix: message key ID is a copy so that wiping it leaves
 the ID of the key in the store

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 214725d..0d02841 100644
--- a/cipher.go
+++ b/cipher.go
@@ -546,7 +546,7 @@ func (m *Message) EnrichWithKey() error {
 	// Mark key as used.
 	designatedKey.Used = true
 	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From d03dfe6b4e1d22308fa8de117de060f02ab943b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 06/27] fix: a failed Encipher leaves no partial cipher text
 made with released keys

---
 cipher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cipher.go b/cipher.go
index 0d02841..12a4306 100644
--- a/cipher.go
+++ b/cipher.go
@@ -593,6 +593,7 @@ func (m *Message) Encipher() error {
 				chunks[i].Wipe()
 			}
 			chunk.Wipe()
+			Wipe(&m.CipherText)
 		}
 	}()
 	for i := range m.PlainText {
-- 
2.43.0


From 1303e9475cf311747082c81538ceab79127a4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 07/27] fix: change key early enough that a rune coded as
 several letters can not overrun the key

---
 cipher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 12a4306..860ad5a 100644
--- a/cipher.go
+++ b/cipher.go
@@ -68,6 +68,10 @@ const (
 	// How many control runes/characters are required to change key at most?
 	// (change table, then changeKeyChar = 2)
 	ControlCharactersNeededToChangeKey int = 2
+
+	// How many characters does encodeCharacter write at most for one rune? (change
+	// table, toggle case, change table back, then the character = 4)
+	maxCharactersPerRune int = 4
 )
 
 func isUpper(c *rune) bool {
@@ -597,7 +601,8 @@ func (m *Message) Encipher() error {
 		}
 	}()
 	for i := range m.PlainText {
-		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
+		// Change key unless there is room for this rune and a key change after it.
+		if state.charCounter > chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey-maxCharactersPerRune {
 			keyPtr := m.instance.FindKey(m.Recipients...)
 			if keyPtr == nil {
 				return ErrOutOfKeys
-- 
2.43.0


From e2cc7943a10981664b57dd15ca36e1b0e33db777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 08/27] fix: remove every occurrence of a keeper or recipient

---
 keys.go     | 9 +++++----
 messages.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/keys.go b/keys.go
index aab5542..0d97963 100644
--- a/keys.go
+++ b/keys.go
@@ -150,15 +150,16 @@ func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 	return k
 }
 
-// RemoveKeeper removes keeper(s) from the Keepers slice if found. Can be
-// chained.
+// RemoveKeeper removes keeper(s) from the Keepers slice if found, even if they
+// are listed more than once. Can be chained.
 func (k *Key) RemoveKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
-		for i := range k.Keepers {
+		for i := 0; i < len(k.Keepers); {
 			if EqualRunesFold(&keeper, &k.Keepers[i]) {
 				k.Keepers[i] = k.Keepers[len(k.Keepers)-1]
 				k.Keepers = k.Keepers[:len(k.Keepers)-1]
-				break
+			} else {
+				i++
 			}
 		}
 	}
diff --git a/messages.go b/messages.go
index 93237f4..cfbbdea 100644
--- a/messages.go
+++ b/messages.go
@@ -299,15 +299,16 @@ func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 	return m
 }
 
-// RemoveRecipient removes recipient(s) from the Recipients slice if found. Can be
-// chained.
+// RemoveRecipient removes recipient(s) from the Recipients slice if found, even
+// if they are listed more than once. Can be chained.
 func (m *Message) RemoveRecipient(recipients ...[]rune) *Message {
 	for _, recipient := range recipients {
-		for i := range m.Recipients {
+		for i := 0; i < len(m.Recipients); {
 			if EqualRunesFold(&recipient, &m.Recipients[i]) {
 				m.Recipients[i] = m.Recipients[len(m.Recipients)-1]
 				m.Recipients = m.Recipients[:len(m.Recipients)-1]
-				break
+			} else {
+				i++
 			}
 		}
 	}
-- 
2.43.0


From c5439659d295466b3fd3466a0b0e004360f06242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 09/27] fix: do not crop the header of a printed key with many
 keepers

---
 print.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..2bfe48e 100644
--- a/print.go
+++ b/print.go
@@ -75,11 +75,17 @@ func (k *Key) String() string {
 	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
 		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
 
+	// Only the header line is allowed to be wider than the rest of the sheet, it
+	// would otherwise be cropped or overwritten by the ID.
+	canvasCols := HighestInt(cols, len(k.Id)+1+utf8.RuneCountInString(header))
+
 	// Just because you can...
-	return blox.New().SetColumnsAndRows(cols, rows).Trim().
-		DrawSeparator('_').PutTextRightAligned(header).Move(0, 1).
-		PutLine(k.Id).MoveDown().DrawSeparator().MoveDown().PushPos().
-		PutTextRightAligned(diana.ReciprocalTable).PopPos().
+	return blox.New().SetColumnsAndRows(canvasCols, rows).Trim().
+		DrawHorizontalLine(0, cols-1, '_').MoveX(0).MoveDown().
+		PutTextRightAligned(header).Move(0, 1).
+		PutLine(k.Id).MoveDown().DrawHorizontalLine(0, cols-1).MoveX(0).MoveDown().
+		MoveDown().PushPos().MoveX(cols - rtLength).
+		PutText(diana.ReciprocalTable).PopPos().
 		SetLineSpacing(groupsLineSpacing).PutText(groups).SetLineSpacing(1).
 		Move(0, rows-footerLines).PutText(KeyFooter).String()
 }
-- 
2.43.0


From 8c0cfa8ca473fcd3c9f2274a8b62d95d84298f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:51 +0000
Subject: [PATCH 10/27] fix: a wipe whose random source fails zeroes the memory

---
 krypto431.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..ca92151 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -195,10 +195,9 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
+		// zero-wipe rune slice instead...
 		ZeroWipe(b)
+		return err
 	}
 	*b = nil
 	return nil
@@ -242,10 +241,9 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
+		// zero-wipe byte slice instead...
 		ZeroWipeBytes(b)
+		return err
 	}
 	*b = nil
 	return nil
-- 
2.43.0


From 8aaa387c991e657e5baf6a3ca61c7bf73afb68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:01 +0000
Subject: [PATCH 11/27] fix: wiping a message wipes its radiogram and binary
 content

---
 krypto431.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index ca92151..a453440 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -327,8 +327,8 @@ func (k *Key) ZeroWipe() error {
 }
 
 // Wipe overwrites key, plaintext and ciphertext with random runes or zeroes.
-// The order is highest priority first (plaintext), then ciphertext and finally
-// the keyid. Nilling the rune slices should promote it for garbage collection.
+// The order is highest priority first (plaintext), then ciphertext, the keyid
+// and finally the raw radiogram and binary content. Nilling the rune slices should promote it for garbage collection.
 func (m *Message) Wipe() {
 	if useCrandWipe {
 		m.RandomWipe()
@@ -337,8 +337,8 @@ func (m *Message) Wipe() {
 	}
 }
 
-// RandomWipe assigned method for Text wipes PlainText, CipherText
-// and KeyId fields.
+// RandomWipe assigned method for Text wipes PlainText, CipherText, KeyId,
+// Radiogram and Binary fields.
 func (m *Message) RandomWipe() {
 	// wipe PlainText
 	written, err := crand.ReadRunes(m.PlainText)
@@ -364,6 +364,22 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	written, err = crand.ReadRunes(m.Radiogram)
+	if err != nil || written != len(m.Radiogram) {
+		for i := 0; i < len(m.Radiogram); i++ {
+			m.Radiogram[i] = 0
+		}
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	written, err = crand.Read(m.Binary)
+	if err != nil || written != len(m.Binary) {
+		for i := 0; i < len(m.Binary); i++ {
+			m.Binary[i] = 0
+		}
+	}
+	m.Binary = nil
 }
 
 // ZeroWipe assigned method for PlainText writes zeroes to Text and EncodedText
@@ -384,6 +400,16 @@ func (m *Message) ZeroWipe() {
 		m.KeyId[i] = 0
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	for i := 0; i < len(m.Radiogram); i++ {
+		m.Radiogram[i] = 0
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	for i := 0; i < len(m.Binary); i++ {
+		m.Binary[i] = 0
+	}
+	m.Binary = nil
 }
 
 // Wipe overwrites a chunk with either random runes or zeroes.
-- 
2.43.0


From 47b3f6d4fdbd8133700738b12d667afd9ecd717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 12/27] fix: key ID given with a new message is the second
 argument

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index cfbbdea..9f4b5a6 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From 8b8c051a6146a3eaa91fd236c9ab32c6b0181c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:56 +0000
Subject: [PATCH 13/27] fix: save to a temporary file and rename it when
 complete

---
 persistence.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/persistence.go b/persistence.go
index 62564c5..9efea16 100644
--- a/persistence.go
+++ b/persistence.go
@@ -376,13 +376,34 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
-	// Create persistence file if it does not exist or truncate it if it does exist.
-	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	// Write a temporary file in the directory of the persistence file and let it
+	// take the place of the latter when it is complete. A failed or interrupted
+	// save leaves the previous file as it was.
+	target := k.persistence
+	if resolved, err := filepath.EvalSymlinks(target); err == nil {
+		target = resolved
+	}
+	f, err := os.CreateTemp(filepath.Dir(target), filepath.Base(target)+".*.tmp")
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	// Krypto431 persistence files are encrypted, gzipped GOB files.
+	err = k.encryptTo(f)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), target)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return err
+	}
+	return nil
+}
+
+// encryptTo writes the instance to f as an encrypted, gzipped GOB and makes sure
+// all of it reached the disk.
+func (k *Krypto431) encryptTo(f *os.File) error {
 	encrypter, err := stream.NewEncryptedStream(f, &stream.Config{
 		Cipher:          stream.NewXSalsa20Poly1305Cipher((*[32]byte)(*k.persistenceKey)),
 		SequentialNonce: false, // The key is the same and will leak if nonce is sequential.
@@ -391,15 +412,17 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	defer encrypter.Close()
 	fgz := gzip.NewWriter(encrypter)
-	defer fgz.Close()
 	gobEncoder := gob.NewEncoder(fgz)
 	err = gobEncoder.Encode(k)
 	if err != nil {
 		return err
 	}
-	return nil
+	err = fgz.Close()
+	if err != nil {
+		return err
+	}
+	return f.Sync()
 }
 
 // Krypto431_Load() loads a Krypto431 instance from the configured persistence
-- 
2.43.0


From c30222b1ffca4741ce7363ac437a8f4722df5d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:47 +0000
Subject: [PATCH 14/27] fix: loading does not mix the file with what the
 instance held before

---
 persistence.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 9efea16..7dd4423 100644
--- a/persistence.go
+++ b/persistence.go
@@ -484,10 +484,20 @@ func (k *Krypto431) Load() error {
 	}
 	defer fgz.Close()
 	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(k)
+	// GOB does not transmit zero values. Decode into an empty instance or what k
+	// had before would remain in place of them.
+	var loaded Krypto431
+	err = gobDecoder.Decode(&loaded)
 	if err != nil {
 		return err
 	}
+	k.GroupSize = loaded.GroupSize
+	k.KeyLength = loaded.KeyLength
+	k.Columns = loaded.Columns
+	k.KeyColumns = loaded.KeyColumns
+	k.Keys = loaded.Keys
+	k.Messages = loaded.Messages
+	k.CallSign = loaded.CallSign
 	// Fix all non-exported instance fields in keys and messages...
 	for i := range k.Keys {
 		k.Keys[i].instance = k
-- 
2.43.0


From 26523b92ab7bf310d4b812b70db5e5e644cbe393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:28 +0000
Subject: [PATCH 15/27] fix: exported keys do not share memory with the
 exporting instance

---
 persistence.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 7dd4423..e56a358 100644
--- a/persistence.go
+++ b/persistence.go
@@ -520,8 +520,6 @@ func (k *Krypto431) Load() error {
 // override any copied field.
 func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Option) Krypto431 {
 	n := Krypto431{
-		persistenceKey:                BytePtr(ByteCopy(k.persistenceKey)),
-		salt:                          BytePtr(ByteCopy(k.salt)),
 		overwritePersistenceIfExists:  false,
 		interactive:                   k.interactive,
 		overwriteExistingKeysOnImport: false,
@@ -533,6 +531,12 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		Messages:                      make([]Message, 0),
 		CallSign:                      RuneCopy(&k.CallSign),
 	}
+	if k.persistenceKey != nil {
+		n.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if k.salt != nil {
+		n.salt = BytePtr(ByteCopy(k.salt))
+	}
 	for _, opt := range opts {
 		opt(&n)
 	}
@@ -541,7 +545,15 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	}
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
+			// Either instance may be wiped before the other, copy all slices...
 			newKey := k.Keys[i]
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Keepers = make([][]rune, len(k.Keys[i].Keepers))
+			for j := range k.Keys[i].Keepers {
+				newKey.Keepers[j] = RuneCopy(&k.Keys[i].Keepers[j])
+			}
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From 0e5ce58a185c41db83574ad8415174e38fca30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 16/27] fix: saving or loading with a wiped persistence key
 returns an error

---
 krypto431.go   | 2 ++
 persistence.go | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/krypto431.go b/krypto431.go
index a453440..ced4258 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -701,6 +701,8 @@ func (k *Krypto431) Wipe() {
 	k.Messages = nil
 	// wipe persistenceKey
 	WipeBytes(k.persistenceKey)
+	k.persistenceKey = nil
 	// wipe salt
 	WipeBytes(k.salt)
+	k.salt = nil
 }
diff --git a/persistence.go b/persistence.go
index e56a358..49c9903 100644
--- a/persistence.go
+++ b/persistence.go
@@ -376,6 +376,9 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Write a temporary file in the directory of the persistence file and let it
 	// take the place of the latter when it is complete. A failed or interrupted
 	// save leaves the previous file as it was.
@@ -463,6 +466,9 @@ func (k *Krypto431) Load() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Load persisted data...
 	f, err = os.Open(k.persistence)
 	if err != nil {
-- 
2.43.0


From 8bac6d1023db8854a6148420cf8fbf2e83f74f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 17/27] fix: importing keys keeps the own secrets, honours the
 overwrite option and adds no nameless or own keeper

---
 persistence.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/persistence.go b/persistence.go
index 49c9903..6b21cd6 100644
--- a/persistence.go
+++ b/persistence.go
@@ -589,6 +589,15 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// As the incoming instance is wiped, it must not share persistence key or
+	// salt with this instance (as in WithPFK(k.GetPFK())).
+	if incoming.persistenceKey != nil && incoming.persistenceKey == k.persistenceKey {
+		incoming.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if incoming.salt != nil && incoming.salt == k.salt {
+		incoming.salt = BytePtr(ByteCopy(k.salt))
+	}
+	overwriteExistingKeys := k.overwriteExistingKeysOnImport || incoming.overwriteExistingKeysOnImport
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
@@ -603,7 +612,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		}
 		if filterFunction(&incoming.Keys[i]) {
 			if k.ContainsKeyId(&incoming.Keys[i].Id) {
-				if !k.overwriteExistingKeysOnImport && k.interactive && IsTerminal() {
+				if !overwriteExistingKeys && k.interactive && IsTerminal() {
 					overwrite := false
 					prompt := &survey.Confirm{
 						Message: fmt.Sprintf("Key ID %s already exist, replace with imported key?", string(incoming.Keys[i].Id)),
@@ -615,7 +624,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 					if !overwrite {
 						continue
 					}
-				} else if !k.overwriteExistingKeysOnImport {
+				} else if !overwriteExistingKeys {
 					fmt.Fprintf(os.Stderr, "Key ID %s already exist, will not import.", string(incoming.Keys[i].Id))
 					continue
 				}
@@ -652,8 +661,10 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 			newKey.instance = k
 			// Remove my call-sign from keepers, add incoming station's call-sign to
 			// keepers and hand over key to our instance (importedKey.instance = k).
-			newKey.RemoveKeeper(k.CallSign).AddKeeper(incoming.Keys[i].GetCallSign()).
-				SetInstance(k)
+			newKey.RemoveKeeper(k.CallSign).SetInstance(k)
+			if callSign := incoming.Keys[i].GetCallSign(); len(callSign) > 0 && !EqualRunesFold(&callSign, &k.CallSign) {
+				newKey.AddKeeper(RuneCopy(&callSign))
+			}
 			k.Keys = append(k.Keys, newKey)
 			keyCount++
 		}
-- 
2.43.0


From 29dca57a66f23324de012fd2301cf0ea0c55d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 18/27] fix: keys --invalid selects the keys that have expired
 or are compromised

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From cc8ade78643a23586a4143fe091182a27bab1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:17 +0000
Subject: [PATCH 19/27] fix: a printed message is as wide as its recipients and
 sender need

---
 print.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/print.go b/print.go
index 2bfe48e..c40bcbe 100644
--- a/print.go
+++ b/print.go
@@ -116,13 +116,12 @@ func (m *Message) String(width ...int) string {
 	}
 	tDtgKeyLen := blox.MaximumLineLength(templateDtgAndKey)
 	tToFromLen := blox.MaximumLineLength(templateToFrom)
-	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(keyid))
+	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(m.From), len(keyid))
 	if len(width) > 0 {
-		if width[0] < minWidth {
-			w = minWidth
-		} else {
-			w = width[0]
-		}
+		w = width[0]
+	}
+	if w < minWidth {
+		w = minWidth
 	}
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
-- 
2.43.0


From c1bfef1c5de6fa43aa0794446a7f75c653d81b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:37 +0000
Subject: [PATCH 20/27] fix: print-outs are private and failures to write them
 reported

---
 print.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/print.go b/print.go
index c40bcbe..150949a 100644
--- a/print.go
+++ b/print.go
@@ -212,12 +212,11 @@ func (k *Krypto431) KeysTextFile(filter func(key *Key) bool, filename string) er
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfKeys)
-	if err != nil {
-		return err
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
 	}
-	return nil
+	return err
 }
 
 func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename string) error {
@@ -229,12 +228,11 @@ func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename st
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfMessages)
-	if err != nil {
-		return err
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
 	}
-	return nil
+	return err
 }
 
 func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
@@ -277,7 +275,7 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// page...
 	pdf.AddPage()
 	pdf.MultiCell(0, 3, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -320,5 +318,21 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	// than maxRows...
 	pdf.AddPage()
 	pdf.MultiCell(0, 4, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
+}
+
+// writePDF writes the document to a file only the owner can access.
+func writePDF(pdf *gofpdf.Fpdf, filename string) error {
+	if pdf.Err() {
+		return pdf.Error()
+	}
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	err = pdf.Output(f)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
-- 
2.43.0


From 063f1189200f451782f94845c75bcab97c2223fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 21/27] fix: a page pending before an oversized item is printed
 before it

---
 print.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/print.go b/print.go
index 150949a..f934ddb 100644
--- a/print.go
+++ b/print.go
@@ -257,6 +257,11 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 		text := kp[i].String()
 		textLines := blox.LineCount(text) + 5
 		if textLines > maxRows {
+			if page != "" {
+				pdf.AddPage()
+				pdf.MultiCell(0, 3, page, "", "", false)
+				page = ""
+			}
 			pdf.AddPage()
 			pdf.MultiCell(0, 3, text, "", "", false)
 			rowCount = 0
@@ -300,6 +305,11 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 		text := mp[i].String(95)
 		textLines := blox.LineCount(text) + 2
 		if textLines > maxRows {
+			if page != "" {
+				pdf.AddPage()
+				pdf.MultiCell(0, 4, page, "", "", false)
+				page = ""
+			}
 			pdf.AddPage()
 			pdf.MultiCell(0, 4, text, "", "", false)
 			rowCount = 0
-- 
2.43.0


From ad6fc11719a63debe4eb76b247fd092a98c07694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:50 +0000
Subject: [PATCH 22/27] fix: a new message is saved before it is shown

---
 cmd/krypto431/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 1be8a18..e240ba2 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -132,11 +132,12 @@ func messages(c *cli.Context) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(msg.String())
+		// Save before the message is shown, or its keys may be used again.
 		err = k.Save()
 		if err != nil {
 			return err
 		}
+		fmt.Println(msg.String())
 		eprintf("Saved message %s in %s."+LineBreak, msg.IdString(), k.GetPersistence())
 	}
 
-- 
2.43.0


From fec91f10120316ee37ebea38acfcb6ebec0c335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:52 +0000
Subject: [PATCH 23/27] fix: init refuses a call-sign it cannot set

---
 cmd/krypto431/initialize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/initialize.go b/cmd/krypto431/initialize.go
index 2385650..d424ca7 100644
--- a/cmd/krypto431/initialize.go
+++ b/cmd/krypto431/initialize.go
@@ -162,7 +162,12 @@ func initialize(c *cli.Context) error {
 	)
 	defer k.Wipe()
 
-	err := setSaltAndPFK(c, &k)
+	err := k.SetCallSign(o.call)
+	if err != nil {
+		return err
+	}
+
+	err = setSaltAndPFK(c, &k)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e228833c6a8c9ba06dfb37f6ac224442e89ba376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:54 +0000
Subject: [PATCH 24/27] fix: pfk -r does not save with a random key it could
 not show

---
 cmd/krypto431/pfk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/pfk.go b/cmd/krypto431/pfk.go
index 9ede30b..10aa2d8 100644
--- a/cmd/krypto431/pfk.go
+++ b/cmd/krypto431/pfk.go
@@ -71,7 +71,11 @@ func managePFK(c *cli.Context) error {
 			if err != nil {
 				return err
 			}
-			fmt.Printf("New random PFK for %s: %s"+LineBreak, o.change, newPFK)
+			// Do not save with a key the user has not been shown.
+			_, err = fmt.Printf("New random PFK for %s: %s"+LineBreak, o.change, newPFK)
+			if err != nil {
+				return err
+			}
 			err = k.Save()
 			if err != nil {
 				return err
-- 
2.43.0


From 9109b11741ccd353431b6b3c10265b6587b12733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:32 +0000
Subject: [PATCH 25/27] fix: a refused password does not stay in memory

---
 persistence.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/persistence.go b/persistence.go
index 6b21cd6..bb64ab2 100644
--- a/persistence.go
+++ b/persistence.go
@@ -247,6 +247,7 @@ func AskAndConfirmPassword(prompt string, minimumEntropyBits float64) (*[]byte,
 		}
 		pwd2 = AskForPassword(prompt+RepeatPromptSuffix, 0)
 		if pwd2 == nil {
+			WipeBytes(pwd1)
 			return nil, ErrPasswordInput
 		}
 		if bytes.Equal(*pwd1, *pwd2) {
@@ -272,6 +273,7 @@ func OldAskAndConfirmPassword(prompt string, minimumLength int) (*[]byte, error)
 		}
 		pwd2 = AskForPassword(prompt+RepeatPromptSuffix, 0)
 		if pwd2 == nil {
+			WipeBytes(pwd1)
 			return nil, ErrPasswordInput
 		}
 		if bytes.Equal(*pwd1, *pwd2) {
-- 
2.43.0


From b5dd050751241136407254ca0865e668ac508355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:36 +0000
Subject: [PATCH 26/27] fix: operations given in one command are all done

---
 cmd/krypto431/keys.go     | 67 ++++++++++++++++++---------------------
 cmd/krypto431/messages.go | 65 ++++++++++++++++++-------------------
 2 files changed, 61 insertions(+), 71 deletions(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index fef4bda..708ee50 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -92,13 +92,11 @@ func keys(c *cli.Context) error {
 
 	// delete keys
 	if c.IsSet(oDelete) && o.deleteItems {
+		deleted := 0
 		keys := len(k.Keys)
 		if keys == 0 {
 			eprintf("There are no keys in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
-		deleted := 0
-		if !o.yes {
+		} else if !o.yes {
 			_, lines := k.SummaryOfKeys(filterFunction)
 			if len(lines) == 0 {
 				plural := ""
@@ -106,28 +104,28 @@ func keys(c *cli.Context) error {
 					plural = "s"
 				}
 				eprintf("No key out of %d key"+plural+" in %s matched criteria."+LineBreak, keys, k.GetPersistence())
-				return nil
-			}
-			var keyStrings []string
-			for i := range lines {
-				keyStrings = append(keyStrings, string(lines[i]))
-			}
-			var response []string
-			prompt := &survey.MultiSelect{
-				Message:  "Select key(s) to delete",
-				Help:     "Columns are ID, KEEPERS, CREATED, EXPIRES, USED, COMPROMISED and COMMENT",
-				Options:  keyStrings,
-				PageSize: 20,
-			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
-			if err != nil {
-				return err
-			}
-			if len(response) > 0 {
-				deleted, err = k.DeleteKeysBySummaryString(response...)
+			} else {
+				var keyStrings []string
+				for i := range lines {
+					keyStrings = append(keyStrings, string(lines[i]))
+				}
+				var response []string
+				prompt := &survey.MultiSelect{
+					Message:  "Select key(s) to delete",
+					Help:     "Columns are ID, KEEPERS, CREATED, EXPIRES, USED, COMPROMISED and COMMENT",
+					Options:  keyStrings,
+					PageSize: 20,
+				}
+				err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
 				if err != nil {
 					return err
 				}
+				if len(response) > 0 {
+					deleted, err = k.DeleteKeysBySummaryString(response...)
+					if err != nil {
+						return err
+					}
+				}
 			}
 		} else {
 			// Do it, don't ask.
@@ -209,24 +207,21 @@ func keys(c *cli.Context) error {
 		keys := len(k.Keys)
 		if keys == 0 {
 			eprintf("There are no keys in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
-		header, lines := k.SummaryOfKeys(filterFunction)
-		if len(lines) == 0 {
+		} else if header, lines := k.SummaryOfKeys(filterFunction); len(lines) == 0 {
 			plural := ""
 			if keys > 1 {
 				plural = "s"
 			}
 			eprintf("No key out of %d key"+plural+" in %s matched criteria."+LineBreak, keys, k.GetPersistence())
-			return nil
-		}
-		fmt.Printf("FILE=%s"+LineBreak+"KEEPER=%s TOTALKEYS=%d MESSAGES=%d"+LineBreak,
-			k.GetPersistence(), k.CallSignString(),
-			len(k.Keys), len(k.Messages))
-		// Print lines of keys...
-		fmt.Println(strings.TrimRightFunc(string(header), unicode.IsSpace))
-		for i := range lines {
-			fmt.Println(strings.TrimRightFunc(string(lines[i]), unicode.IsSpace))
+		} else {
+			fmt.Printf("FILE=%s"+LineBreak+"KEEPER=%s TOTALKEYS=%d MESSAGES=%d"+LineBreak,
+				k.GetPersistence(), k.CallSignString(),
+				len(k.Keys), len(k.Messages))
+			// Print lines of keys...
+			fmt.Println(strings.TrimRightFunc(string(header), unicode.IsSpace))
+			for i := range lines {
+				fmt.Println(strings.TrimRightFunc(string(lines[i]), unicode.IsSpace))
+			}
 		}
 	}
 
diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index e240ba2..19120fb 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -71,13 +71,11 @@ func messages(c *cli.Context) error {
 
 	// delete messages
 	if c.IsSet(oDelete) && o.deleteItems {
+		deleted := 0
 		messages := len(k.Messages)
 		if messages == 0 {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
-		deleted := 0
-		if !o.yes {
+		} else if !o.yes {
 			_, lines := k.SummaryOfMessages(filterFunction)
 			if len(lines) == 0 {
 				plural := ""
@@ -85,28 +83,28 @@ func messages(c *cli.Context) error {
 					plural = "s"
 				}
 				eprintf("No message out of %d message"+plural+" in %s matched criteria."+LineBreak, messages, k.GetPersistence())
-				return nil
-			}
-			var messageStrings []string
-			for i := range lines {
-				messageStrings = append(messageStrings, string(lines[i]))
-			}
-			var response []string
-			prompt := &survey.MultiSelect{
-				Message:  "Select message(s) to delete",
-				Help:     "Columns are ID, DTG, TO, FROM (DE) and DIGEST",
-				Options:  messageStrings,
-				PageSize: 20,
-			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
-			if err != nil {
-				return err
-			}
-			if len(response) > 0 {
-				deleted, err = k.DeleteMessagesBySummaryString(response...)
+			} else {
+				var messageStrings []string
+				for i := range lines {
+					messageStrings = append(messageStrings, string(lines[i]))
+				}
+				var response []string
+				prompt := &survey.MultiSelect{
+					Message:  "Select message(s) to delete",
+					Help:     "Columns are ID, DTG, TO, FROM (DE) and DIGEST",
+					Options:  messageStrings,
+					PageSize: 20,
+				}
+				err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
 				if err != nil {
 					return err
 				}
+				if len(response) > 0 {
+					deleted, err = k.DeleteMessagesBySummaryString(response...)
+					if err != nil {
+						return err
+					}
+				}
 			}
 		} else {
 			// Do it, don't ask.
@@ -147,23 +145,20 @@ func messages(c *cli.Context) error {
 		messages := len(k.Messages)
 		if messages == 0 {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
-		header, lines := k.SummaryOfMessages(filterFunction)
-		if len(lines) == 0 {
+		} else if header, lines := k.SummaryOfMessages(filterFunction); len(lines) == 0 {
 			plural := ""
 			if messages > 1 {
 				plural = "s"
 			}
 			eprintf("No message out of %d message"+plural+" in %s matched criteria."+LineBreak, messages, k.GetPersistence())
-			return nil
-		}
-		fmt.Printf("FILE=%s"+LineBreak+"KEEPER=%s TOTALKEYS=%d MESSAGES=%d"+LineBreak,
-			k.GetPersistence(), k.CallSignString(), len(k.Keys), len(k.Messages))
-		// Print lines of messages...
-		fmt.Println(strings.TrimRightFunc(string(header), unicode.IsSpace))
-		for i := range lines {
-			fmt.Println(strings.TrimRightFunc(string(lines[i]), unicode.IsSpace))
+		} else {
+			fmt.Printf("FILE=%s"+LineBreak+"KEEPER=%s TOTALKEYS=%d MESSAGES=%d"+LineBreak,
+				k.GetPersistence(), k.CallSignString(), len(k.Keys), len(k.Messages))
+			// Print lines of messages...
+			fmt.Println(strings.TrimRightFunc(string(header), unicode.IsSpace))
+			for i := range lines {
+				fmt.Println(strings.TrimRightFunc(string(lines[i]), unicode.IsSpace))
+			}
 		}
 	}
 
-- 
2.43.0


From 1e83a006a8cf62efb0dbd88e722936b2f02d7877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:22 +0000
Subject: [PATCH 27/27] fix: init does not forget an expiry date given with -x
 when it asks for settings

---
 cmd/krypto431/initialize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/krypto431/initialize.go b/cmd/krypto431/initialize.go
index d424ca7..456b02f 100644
--- a/cmd/krypto431/initialize.go
+++ b/cmd/krypto431/initialize.go
@@ -83,6 +83,7 @@ func initialize(c *cli.Context) error {
 				Prompt: &survey.Input{
 					Message: "Enter expiry date as a Date-Time Group or empty for default:",
 					Help:    "Date-Time Group format is DDHHMMZmmmYY where DD = day of month, HH = hour, MM = minute, Z = mil time zone, mmm = abbrev. month, and YY = year w/o century",
+					Default: o.expire,
 				},
 			},
 			{
-- 
2.43.0

