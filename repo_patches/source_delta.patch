From 9d5cc2412803c47268abd8ab18b8f1e2c936b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 01/42] fix: flush the buffered prefix and header of a new
 RECDB file

---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From 2b2ea0635461b5eebf9598e741cffc8a47eeface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 02/42] fix: rewrite the previous RECDB entry at its own
 offset, not after the read-ahead

---
 internal/infra/recdb/iterator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..6bbcc1b 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -58,7 +58,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -105,7 +105,9 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	// The reader reads ahead, so the position of the file is not the position
+	// of the iterator
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From d38708729ac541d2aca17053f61dba7a4cac9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 03/42] fix: refuse to write an entry larger than its capacity
 over the next entry

---
 internal/infra/recdb/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..daaa130 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -238,7 +238,14 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if size > int(entry.Capacity) {
+		return 0, fmt.Errorf("entry's capacity=%d is less than its size=%d", entry.Capacity, size)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From f6e8984da15081a824f77c9fdf97836682f4825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 04/42] fix: don't let a capacity below the entry header size
 pass the integrity check

---
 internal/infra/recdb/likeprotocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..fa74037 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -63,7 +63,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, fmt.Errorf("cannot predict data size: %w", err)
 	}
-	if size > int(entry.Capacity-entryHeaderSize) {
+	if size > int(entry.Capacity)-entryHeaderSize {
 		return 0, fmt.Errorf("entry's capacity=%d is less than data len=%d",
 			entry.Capacity, size)
 	}
-- 
2.43.0


From 383e2a6364cc223c8ccb40356632039cbc6739b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 05/42] fix: bound the item counts of a RECDB entry before
 allocating memory for them

---
 internal/infra/recdb/likeprotocol.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index fa74037..dac0409 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -36,6 +36,9 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
+	if err = checkItemCount(entry, numLikes); err != nil {
+		return 0, err
+	}
 	likes := make([]uint64, numLikes)
 	err = binary.Read(reader, binary.BigEndian, likes)
 	if err != nil {
@@ -47,6 +50,9 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
+	if err = checkItemCount(entry, numDislikes); err != nil {
+		return 0, err
+	}
 	dislikes := make([]uint64, numDislikes)
 	err = binary.Read(reader, binary.BigEndian, dislikes)
 	if err != nil {
@@ -70,6 +76,16 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	return size, nil
 }
 
+// Checks that the entry is large enough to hold that many items, so that a
+// corrupted count doesn't cause a huge memory allocation.
+func checkItemCount(entry *Entry, count uint32) error {
+	if uint64(count)*8 > uint64(entry.Capacity) {
+		return fmt.Errorf("entry's capacity=%d is less than item count=%d",
+			entry.Capacity, count)
+	}
+	return nil
+}
+
 // Writes entry data from the `Entry.Data` field into the stream.
 // Returns the number of the bytes having read.
 // The data length cannot be greater than `Entry.Capacity`.
-- 
2.43.0


From f68c5020105c0a75d8de5a89e9bc1947ddfb0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 06/42] fix: return an error instead of panicking when an entry
 has no data

---
 internal/infra/recdb/likeprotocol.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index dac0409..c453e95 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"recengine/internal/domain"
-	"reflect"
 )
 
 // Binary ("like") implementation of IConcreteProtocol.
@@ -94,8 +93,8 @@ func (p *likeProtocol) WriteEntryData(entry *Entry, writer io.Writer) (int, erro
 	profile, ok := entry.Data.(*domain.Profile)
 	if !ok {
 		return 0, fmt.Errorf(
-			"entry's data type doesn't represent like profile, got %s",
-			reflect.TypeOf(entry.Data).Name(),
+			"entry's data type doesn't represent like profile, got %T",
+			entry.Data,
 		)
 	}
 	// Write user ID
-- 
2.43.0


From 6b982a60264f2c6cd7b905adb1b6ea791e565188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 07/42] fix: data race between concurrent SkipReading calls

---
 internal/helpers/io.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 6f0cb36..bbb80ca 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -7,9 +7,6 @@ import (
 // Static zero byte buffer that are used for filling free space in files.
 var zeros = [100]byte{}
 
-// /dev/null
-var dump = [100]byte{}
-
 // Effectively writes continuous range of zero-filled bytes into a writer.
 func WriteZeros(size int, writer io.Writer) (int, error) {
 	total := 0
@@ -32,6 +29,8 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
+	// The buffer mustn't be shared: there may be concurrent readers
+	var dump [100]byte
 	skipped := 0
 	for skipped < size {
 		chunk := size - skipped
-- 
2.43.0


From 48747d9722e2b506523006f72059da1ed7ad2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 08/42] fix: look flushed operations up even if the user has
 unflushed ones

---
 internal/infra/delta/storage.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..14d8a63 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -146,13 +146,15 @@ func (s *storage) GetFileSize() uint64 {
 // Returns the last operation associated with the specified user-item pair.
 // This method exists mostly for debugging and testing purposes.
 func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
-	deltas, exists := s.newDelta[user]
-	if !exists {
-		deltas, exists = s.deltaCache[user]
-	}
+	op, exists := findLastOp(s.newDelta[user], item)
 	if !exists {
-		return domain.DeltaOpAdd, false
+		op, exists = findLastOp(s.deltaCache[user], item)
 	}
+	return op, exists
+}
+
+// Returns the last operation in the list associated with the specified item.
+func findLastOp(deltas []itemDelta, item uint64) (domain.DeltaOp, bool) {
 	for i := range deltas {
 		delta := deltas[len(deltas)-i-1]
 		if delta.item == item {
-- 
2.43.0


From 90ad5f379d32f5d8ac9dfd2c4d8034c1734c5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 09/42] fix: don't write delta data at a wrong offset after a
 failed seek

---
 internal/infra/delta/storage.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 14d8a63..3ef70c8 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -57,7 +60,10 @@ func (s *storage) flushHeader() error {
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
 	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	_, err := s.file.Seek(0, io.SeekEnd)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
@@ -80,7 +86,7 @@ func (s *storage) flushEntries() error {
 		}
 	}
 	// Flush the buffer
-	err := writer.Flush()
+	err = writer.Flush()
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
-- 
2.43.0


From 843eeeb4e0e79e62c28dd40c76ef4f6eeb396c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 10/42] fix: make a failed flush of delta entries repeatable

---
 internal/infra/delta/storage.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 3ef70c8..8f8dc73 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -60,7 +60,10 @@ func (s *storage) flushHeader() error {
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
 	// Write to file
-	_, err := s.file.Seek(0, io.SeekEnd)
+	// A previous flush might have failed half way, so the end of the file is not
+	// necessarily the end of the flushed entries
+	offset := s.GetFileSize() - uint64(s.unflushedItemCount)*entrySize
+	_, err := s.file.Seek(int64(offset), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf("failed to seek: %v", err)
 	}
@@ -77,12 +80,6 @@ func (s *storage) flushEntries() error {
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
-			// Add to cache
-			_, exists := s.deltaCache[user]
-			if !exists {
-				s.deltaCache[user] = make([]itemDelta, 0)
-			}
-			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
 	// Flush the buffer
@@ -90,6 +87,10 @@ func (s *storage) flushEntries() error {
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
+	// Add to cache
+	for user, deltas := range s.newDelta {
+		s.deltaCache[user] = append(s.deltaCache[user], deltas...)
+	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From 70937d108e65abe0b51f739c8755f01dea414d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 11/42] fix: close the delta file even if it can't be flushed
 or unlocked

---
 internal/infra/delta/storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 8f8dc73..342565b 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -115,10 +115,12 @@ func (s *storage) Flush() error {
 func (s *storage) Close() error {
 	err := s.Flush()
 	if err != nil {
+		s.file.Close()
 		return fmt.Errorf("failed to flush cache: %v", err)
 	}
 	err = s.proto.WriteLocked(false, s.file)
 	if err != nil {
+		s.file.Close()
 		return fmt.Errorf("failed to lock the file: %v", err)
 	}
 	err = s.file.Close()
-- 
2.43.0


From b2e55cc8c71f51cac1c2cddadc84ec19b883f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 12/42] fix: recover a delta file from its beginning whatever
 its position is

---
 internal/infra/delta/storagefactory.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..088fa49 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -32,8 +32,12 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
+	err = f.proto.RecoverTo(file, tmpFile)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ceea55627debe3ae356537acdb82e3313b7bb0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 13/42] fix: keep a delta file locked until its recovery is
 complete

---
 internal/infra/delta/storagefactory.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 088fa49..d1fa868 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -41,6 +41,11 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	// The file must stay locked until it's completely rewritten
+	err = f.proto.WriteLocked(true, tmpFile)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	if err != nil {
 		return err
@@ -58,6 +63,10 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	err = f.proto.WriteLocked(false, file)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	return err
 }
-- 
2.43.0


From 5d0cf984f6b650f748ced087103ca48d3e03bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 14/42] fix: open empty delta files and recover those with an
 incomplete header

---
 internal/infra/delta/storagefactory.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index d1fa868..3a9d9ce 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -148,10 +148,23 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 	return &storage, nil
 }
 
+// Checks whether the file is either locked or too short to have a header.
+// An empty file doesn't need recovery.
+func (f *storageFactory) needsRecovery(file domain.RandomAccessFile) (bool, error) {
+	size, err := file.Seek(0, io.SeekEnd)
+	if err != nil || size == 0 {
+		return false, err
+	}
+	if size < int64(len(prefix)+headerSize) {
+		return true, nil
+	}
+	return f.proto.IsLocked(file)
+}
+
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	locked, err := f.needsRecovery(file)
 	if err != nil {
 		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
 	}
-- 
2.43.0


From d58d2478abea4690760f67a3f1945a288da8bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 15/42] fix: don't take a failure to read a delta file for its
 corruption

---
 internal/infra/delta/protocol.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..7a5e1a2 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -40,6 +40,8 @@ var prefix = [...]byte{'R', 'E', 'C', 'D', 'E', 'L', 'T', 'A'}
 // The offset of the lock byte of the header from the beginning of the file.
 const lockedOffset = len(prefix) + 1
 
+var errInvalidPrefix = errors.New("not a delta file")
+
 // Provides delta file functions.
 type Protocol interface {
 	// Writes the file prefix, aka "Magic number", which verifies type of the file.
@@ -107,7 +109,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errInvalidPrefix
 	}
 	return nil
 }
@@ -247,6 +249,13 @@ func (p *protocol) IsLocked(file io.ReadSeeker) (bool, error) {
 	return bytes[0] != 0, err
 }
 
+// Tells a reading error caused by the contents of the file from a failure to
+// read it, which says nothing about the data.
+func isCorruption(err error) bool {
+	return errors.Is(err, errInvalidPrefix) || errors.Is(err, io.EOF) ||
+		errors.Is(err, io.ErrUnexpectedEOF)
+}
+
 // Recovers a corrupted file making its data consistent. All inconsistent
 // data is skipped. The file is considered corrupted if it's locked, which
 // means it hasn't been closed properly.
@@ -265,6 +274,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
 	if err != nil {
+		if !isCorruption(err) {
+			return err
+		}
 		return p.WriteHeader(&hdr, writer)
 	}
 
@@ -273,6 +285,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	hdr.Version = Version
 	hdr.Locked = 0
 	if err != nil {
+		if !isCorruption(err) {
+			return err
+		}
 		hdr.NumEntries = 0
 		return p.WriteHeader(&hdr, writer)
 	}
@@ -287,6 +302,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	for {
 		err = p.ReadEntry(&entry, reader)
 		if err != nil {
+			if !isCorruption(err) {
+				return err
+			}
 			break
 		}
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
-- 
2.43.0


From a0cadeceb7fc53f09d9a332864e26162da8cc88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 16/42] fix: skip entries with unknown operations when
 recovering a delta file

---
 internal/infra/delta/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 7a5e1a2..723be17 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -310,6 +310,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
+		if entry.Op != domain.DeltaOpAdd && entry.Op != domain.DeltaOpRemove {
+			continue // e.g. zero-filled
+		}
 		err = p.WriteEntry(&entry, writer)
 		if err != nil {
 			return err
-- 
2.43.0


From a73429511c6e45bb1b3f62f62afde76ba421eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 17/42] fix: unlock the index file after its entries are
 written, not before

---
 internal/infra/index/storage.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..69b6617 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -83,7 +83,7 @@ func (s *storage) load() error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
+	err := s.saveHeader(true)
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
@@ -97,6 +97,14 @@ func (s *storage) Close() error {
 		}
 		return err
 	}
+	// The file must stay locked until it's completely written
+	err = s.proto.WriteLocked(false, s.file)
+	if err != nil {
+		if s.closer != nil {
+			s.closer.Close()
+		}
+		return fmt.Errorf("failed to unlock the file: %v", err)
+	}
 	if s.closer != nil {
 		return s.closer.Close()
 	}
-- 
2.43.0


From 36a26cf24394100286b3f8effd650e2f4171ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 18/42] fix: don't rely on equality of pointers to zero-size
 CorruptedFileError

---
 internal/domain/errors.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/domain/errors.go b/internal/domain/errors.go
index b904f82..8c0549c 100644
--- a/internal/domain/errors.go
+++ b/internal/domain/errors.go
@@ -6,6 +6,12 @@ func (e *CorruptedFileError) Error() string {
 	return "The file hasn't been closed property, it may be corrupted"
 }
 
+// All the errors of this type are equal (pointers to them might be not).
+func (e *CorruptedFileError) Is(target error) bool {
+	_, ok := target.(*CorruptedFileError)
+	return ok
+}
+
 func NewCorruptedFileError() error {
 	return &CorruptedFileError{}
 }
-- 
2.43.0


From 2c2913321b4eac8f9536af5b2b8aa5f857fc4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 19/42] fix: reset the index file after a crash instead of
 failing to start

---
 internal/domain/likenamespace.go       | 4 ++--
 internal/infra/index/storage.go        | 3 +--
 internal/infra/index/storagefactory.go | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..9b63c71 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -119,9 +119,9 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 			file.Close()
 			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The factory has closed the file
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 69b6617..b67426e 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -2,7 +2,6 @@ package index
 
 import (
 	"bufio"
-	"errors"
 	"fmt"
 	"io"
 	"recengine/internal/domain"
@@ -59,7 +58,7 @@ func (s *storage) load() error {
 		return fmt.Errorf("failed to read index header: %v", err)
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
+		return domain.NewCorruptedFileError()
 	}
 	// Lock
 	err = s.proto.WriteLocked(true, s.file)
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..16f75f4 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -63,7 +63,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
-- 
2.43.0


From 719eab61d92efbf34375d0ee9848960fbcc5fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 20/42] fix: treat a truncated index file as corrupted, so that
 it is reset

---
 internal/infra/index/storage.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index b67426e..afbe751 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 	"recengine/internal/domain"
@@ -50,12 +51,12 @@ func (s *storage) load() error {
 	// Load header
 	_, err = s.proto.ReadPrefix(reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index prefix: %v", err)
+		return fmt.Errorf("failed to read index prefix: %w", asCorrupted(err))
 	}
 	header := Header{}
 	_, err = s.proto.ReadHeader(&header, reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index header: %v", err)
+		return fmt.Errorf("failed to read index header: %w", asCorrupted(err))
 	}
 	if header.Locked != 0 {
 		return domain.NewCorruptedFileError()
@@ -73,13 +74,21 @@ func (s *storage) load() error {
 		size, err = s.proto.ReadEntry(&entry, reader)
 		offset += int64(size)
 		if err != nil {
-			return fmt.Errorf("failed to read index entry: %v", err)
+			return fmt.Errorf("failed to read index entry: %w", asCorrupted(err))
 		}
 		s.indices[entry.ID] = entry.Index
 	}
 	return nil
 }
 
+// Turns an unexpected end of the file into a CorruptedFileError.
+func asCorrupted(err error) error {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+		return domain.NewCorruptedFileError()
+	}
+	return err
+}
+
 // Closes the storage file.
 func (s *storage) Close() error {
 	err := s.saveHeader(true)
-- 
2.43.0


From 12977435e41b0c60db5ab4d23a613b4e5c0695fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 21/42] fix: don't block forever on the result of renaming a
 namespace

---
 internal/domain/likenamespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 9b63c71..9fa1c02 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -71,7 +71,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	result := make(chan error, 1)
+	result <- nil
+	return result
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From 6f09370e563da166efd12934c88226c6523861db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 22/42] fix: keep the files of namespaces in the configured
 directory

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..4143b75 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -60,6 +60,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From 1cce964a8e14d8cb56e769e954b0f8f9d6acbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 23/42] fix: apply the default limit of similar profiles to
 updates as well

---
 internal/domain/likenamespace.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 9fa1c02..0598946 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -10,6 +10,9 @@ import (
 	"time"
 )
 
+// The limit of similar profiles used if it isn't specified.
+const defaultMaxSimilarProfiles = 1000
+
 // likeNamespace performs the same function as databases in relational databases.
 type likeNamespace struct {
 	name                    valueobjects.NamespaceName
@@ -41,7 +44,6 @@ type LikeNamespaceDto struct {
 func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	ns := &likeNamespace{
 		name:                    dto.Name,
-		maxSimilarProfiles:      dto.MaxSimilarProfiles,
 		dislikeFactor:           dto.DislikeFactor,
 		deltaStorageFactory:     dto.DeltaStorageFactory,
 		likeStorageFactory:      dto.LikeStorageFactory,
@@ -51,9 +53,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		action:                  make(chan Action, 100),
 	}
 	// Set defaults
-	if ns.maxSimilarProfiles == 0 {
-		ns.maxSimilarProfiles = 1000
-	}
+	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	return ns
 }
 
@@ -77,7 +77,11 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
+// Zero stands for the default limit.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
+	if limit == 0 {
+		limit = defaultMaxSimilarProfiles
+	}
 	ns.maxSimilarProfiles = limit
 }
 
-- 
2.43.0


From 3a6dc0fe08354af7b512c498621b2728b785008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 24/42] fix: report the failure to start a namespace

---
 internal/domain/namespaceservice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 4143b75..339a0cd 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -74,7 +74,9 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
 	for _, ns := range s.namespaces {
-		ns.Start(ctx)
+		if err := ns.Start(ctx); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 0ce30a9b11cb43dea6b0e84e29d0535e6ec8df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 25/42] fix: don't register half-decoded namespaces

---
 internal/domain/namespaceservice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 339a0cd..1d762bf 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -94,10 +94,12 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	var namespaces []Namespace
+	err = json.Unmarshal(data, &namespaces)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	s.namespaces = namespaces
 	return nil
 }
 
-- 
2.43.0


From 684410227caeb8e68dbec8a0da97947197292ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 26/42] fix: replace the saved namespace list atomically

---
 internal/domain/namespaceservice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 1d762bf..6d9832f 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -110,9 +110,15 @@ func (s *NamespaceService) SaveNamespaces() error {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
 	filePath := s.getNamespacesJsonPath()
-	err = os.WriteFile(filePath, data, 0644)
+	// A failure to write must not destroy the list that has been saved before
+	tmpFilePath := filePath + ".tmp"
+	err = os.WriteFile(tmpFilePath, data, 0644)
 	if err != nil {
-		return fmt.Errorf("failed to write to %s: %v", filePath, err)
+		return fmt.Errorf("failed to write to %s: %v", tmpFilePath, err)
+	}
+	err = os.Rename(tmpFilePath, filePath)
+	if err != nil {
+		return fmt.Errorf("failed to replace %s: %v", filePath, err)
 	}
 	return nil
 }
-- 
2.43.0


From 098d59abaee6efdb763914cf90899625e7a407a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 27/42] fix: data race between concurrent requests to the
 namespace service

---
 internal/domain/namespaceservice.go | 38 ++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 6d9832f..c5cb798 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
+	"sync"
 )
 
 // A DTO for creating a Namespace.
@@ -26,6 +27,7 @@ type NamespaceUpdateRequest struct {
 
 // Manages namespaces.
 type NamespaceService struct {
+	mutex               sync.RWMutex // guards namespaces
 	namespaces          []Namespace
 	context             context.Context
 	basePath            string
@@ -73,6 +75,8 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	for _, ns := range s.namespaces {
 		if err := ns.Start(ctx); err != nil {
 			return err
@@ -99,12 +103,22 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.namespaces = namespaces
 	return nil
 }
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
+	// Savings are mutually exclusive as well
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.saveNamespaces()
+}
+
+// Saves namespace list to the file. The mutex must be locked.
+func (s *NamespaceService) saveNamespaces() error {
 	data, err := json.Marshal(s.namespaces)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
@@ -125,10 +139,13 @@ func (s *NamespaceService) SaveNamespaces() error {
 
 // Returns the list of currently loaded namespaces.
 func (s *NamespaceService) GetNamespaces() []Namespace {
-	return s.namespaces
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return append([]Namespace{}, s.namespaces...)
 }
 
 // Returns the index of the namespace in the namespace list.
+// The mutex must be locked.
 func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
 	for i, ns := range s.namespaces {
 		if ns.GetName() == name {
@@ -140,6 +157,8 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 
 // Returns the pointer to the namespace by its name, or nil if not found.
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
@@ -151,6 +170,8 @@ func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) N
 func (s *NamespaceService) CreateNamespace(
 	dto *NamespaceCreateRequest,
 ) (Namespace, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -159,7 +180,7 @@ func (s *NamespaceService) CreateNamespace(
 		return nil, err
 	}
 	s.namespaces = append(s.namespaces, ns)
-	if err = s.SaveNamespaces(); err != nil {
+	if err = s.saveNamespaces(); err != nil {
 		return nil, err
 	}
 	return ns, nil
@@ -170,10 +191,13 @@ func (s *NamespaceService) UpdateNamespace(
 	name valueobjects.NamespaceName,
 	dto *NamespaceUpdateRequest,
 ) (Namespace, error) {
-	ns := s.GetNamespaceByName(name)
-	if ns == nil {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	index := s.getNamespaceIndexByName(name)
+	if index < 0 {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
+	ns := s.namespaces[index]
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -182,7 +206,7 @@ func (s *NamespaceService) UpdateNamespace(
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return nil, err
 	}
 	return ns, nil
@@ -191,13 +215,15 @@ func (s *NamespaceService) UpdateNamespace(
 // Removes namespace registration from the engine and persists the change.
 // The deleted namespace stops running automatically.
 func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
 	s.namespaces[index].Stop()
 	s.namespaces = helpers.Remove(s.namespaces, index)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From c6b44e3667c705514966902409a1d06c1960ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 28/42] fix: data race between updates of a namespace and
 readers of its settings

---
 internal/domain/likenamespace.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 0598946..95d4086 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 	"time"
 )
 
@@ -15,6 +16,7 @@ const defaultMaxSimilarProfiles = 1000
 
 // likeNamespace performs the same function as databases in relational databases.
 type likeNamespace struct {
+	mutex                   sync.RWMutex // guards the 3 fields below
 	name                    valueobjects.NamespaceName
 	maxSimilarProfiles      uint
 	dislikeFactor           float32
@@ -59,6 +61,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 
 // Returns the name of the namespace.
 func (ns *likeNamespace) GetName() valueobjects.NamespaceName {
+	ns.mutex.RLock()
+	defer ns.mutex.RUnlock()
 	return ns.name
 }
 
@@ -69,6 +73,8 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 
 // Renames the namespace.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
+	ns.mutex.Lock()
+	defer ns.mutex.Unlock()
 	ns.name = name
 	// TODO: rename the files
 	result := make(chan error, 1)
@@ -82,11 +88,15 @@ func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
 	if limit == 0 {
 		limit = defaultMaxSimilarProfiles
 	}
+	ns.mutex.Lock()
+	defer ns.mutex.Unlock()
 	ns.maxSimilarProfiles = limit
 }
 
 // Returns maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
+	ns.mutex.RLock()
+	defer ns.mutex.RUnlock()
 	return ns.maxSimilarProfiles
 }
 
@@ -94,12 +104,14 @@ func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
 // The value ranges from 0 to 1. 0.5 means that likes and dislikes has equal
 // effect on similarity.
 func (ns *likeNamespace) SetDislikeFactor(value float32) {
+	ns.mutex.Lock()
+	defer ns.mutex.Unlock()
 	ns.dislikeFactor = value
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".delta"
+	filePath := ns.basePath + ns.GetName().Value() + ".delta"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -107,14 +119,14 @@ func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	storage, err := ns.deltaStorageFactory.OpenMaybeRecover(file)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".index"
+	filePath := ns.basePath + ns.GetName().Value() + ".index"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -123,7 +135,7 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 	if err != nil {
 		if !errors.Is(err, NewCorruptedFileError()) {
 			file.Close()
-			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.GetName().Value(), err)
 		}
 		// The factory has closed the file
 		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_TRUNC, 0644)
@@ -144,7 +156,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".recdb"
+	filePath := ns.basePath + ns.GetName().Value() + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open recdb file %s: %w", filePath, err)
@@ -152,7 +164,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	storage, err := ns.likeStorageFactory.OpenMaybeRecover(file, deltaStorage, indexStorage)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
@@ -178,7 +190,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
-		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer func() { log.Printf("LikeNamespace %s stopped\n", ns.GetName().Value()) }()
 		for {
 			select {
 			case <-ctx.Done():
@@ -212,7 +224,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
-	log.Printf("Stopping namespace %s...\n", ns.name)
+	log.Printf("Stopping namespace %s...\n", ns.GetName().Value())
 	close(ns.action)
 }
 
-- 
2.43.0


From 6f9208d4524c6e4cd95141b175f2ff55cf5150ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 29/42] fix: don't keep a namespace registered if its creation
 fails

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index c5cb798..dfc99f6 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -181,6 +181,7 @@ func (s *NamespaceService) CreateNamespace(
 	}
 	s.namespaces = append(s.namespaces, ns)
 	if err = s.saveNamespaces(); err != nil {
+		s.namespaces = s.namespaces[:len(s.namespaces)-1]
 		return nil, err
 	}
 	return ns, nil
-- 
2.43.0


From dbe8fc464f39a1f358389a97249581ecfaea4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 30/42] fix: don't stop nor forget a namespace if its deletion
 fails

---
 internal/domain/namespaceservice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index dfc99f6..956cd09 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -222,10 +222,12 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
-	s.namespaces[index].Stop()
+	ns := s.namespaces[index]
 	s.namespaces = helpers.Remove(s.namespaces, index)
 	if err := s.saveNamespaces(); err != nil {
+		s.namespaces = append(s.namespaces, ns)
 		return err
 	}
+	ns.Stop()
 	return nil
 }
-- 
2.43.0


From c7f9355afc275ea6024a3ffb3074bd4c6ef23664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 31/42] fix: undo the changes of a namespace if its update
 fails

---
 internal/domain/likenamespace.go    | 7 +++++++
 internal/domain/namespace.go        | 1 +
 internal/domain/namespaceservice.go | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 95d4086..1c001ab 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -109,6 +109,13 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	ns.mutex.RLock()
+	defer ns.mutex.RUnlock()
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	filePath := ns.basePath + ns.GetName().Value() + ".delta"
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 956cd09..b029fb9 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -205,9 +205,14 @@ func (s *NamespaceService) UpdateNamespace(
 	if err := <-ns.Rename(dto.Name); err != nil {
 		return nil, err
 	}
+	dislikeFactor := ns.GetDislikeFactor()
+	maxSimilarProfiles := ns.GetMaxSimilarProfiles()
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	if err := s.saveNamespaces(); err != nil {
+		ns.SetDislikeFactor(dislikeFactor)
+		ns.SetMaxSimilarProfiles(maxSimilarProfiles)
+		<-ns.Rename(name)
 		return nil, err
 	}
 	return ns, nil
-- 
2.43.0


From 7b95d82c871fd50e8538aa5b30fac91dc25fd571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 32/42] fix: similarity of profiles that have nothing to
 compare is 0, not NaN

---
 internal/domain/profile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..a789adb 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -100,6 +100,9 @@ func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
 	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
+	if likesWeight+dislikesWeight == 0 {
+		return 0
+	}
 	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
 		(float32(likesWeight) + float32(dislikesWeight)))
 }
-- 
2.43.0


From 03f77e09974e7e543cb0f6240b669c03dcf6de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 33/42] fix: name the route parameter the way the handlers do

---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..a5973d7 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From 7ef6291b8f44b3f754cbc0405c611dad12f11756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 34/42] fix: accept zero dislikeFactor, which isn't a missing
 one

---
 internal/api/shard/dto/namespacecreaterequest.go | 10 +++++-----
 internal/api/shard/dto/namespaceupdaterequest.go |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/api/shard/dto/namespacecreaterequest.go b/internal/api/shard/dto/namespacecreaterequest.go
index c412fe3..9e90a9b 100644
--- a/internal/api/shard/dto/namespacecreaterequest.go
+++ b/internal/api/shard/dto/namespacecreaterequest.go
@@ -7,10 +7,10 @@ import (
 
 // A DTO for creating a Namespace.
 type NamespaceCreateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	Type               string  `json:"type" binding:"required,oneof=like"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	Type               string   `json:"type" binding:"required,oneof=like"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, error) {
@@ -30,7 +30,7 @@ func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, e
 		Name:               domainName,
 		Type:               domainType,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
diff --git a/internal/api/shard/dto/namespaceupdaterequest.go b/internal/api/shard/dto/namespaceupdaterequest.go
index e774db2..40390d1 100644
--- a/internal/api/shard/dto/namespaceupdaterequest.go
+++ b/internal/api/shard/dto/namespaceupdaterequest.go
@@ -7,9 +7,9 @@ import (
 
 // A DTO for updating a Namespace.
 type NamespaceUpdateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, error) {
@@ -20,7 +20,7 @@ func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, e
 	domainDto := &domain.NamespaceUpdateRequest{
 		Name:               domainName,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
-- 
2.43.0


From c1acfbaa58eb952a7a8f254766affe8ea86e07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 35/42] fix: don't wait for a signal if the server isn't able
 to listen

---
 internal/api/shard/application.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index 97b5a67..a61658c 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,7 +50,7 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
-	listenError := make(chan error)
+	listenError := make(chan error, 1)
 
 	go func() {
 		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
@@ -63,12 +63,16 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	// kill (no param) default send syscanll.SIGTERM
 	// kill -2 is syscall.SIGINT
 	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
 	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
-	<-quit
+	select {
+	case err := <-listenError:
+		return err
+	case <-quit:
+	}
 	log.Println("Shutdown server ...")
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From eaed08d167f8ab32b9d7534723fc081178b53829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 36/42] fix: close the like storage before the storages it
 depends on

---
 internal/domain/likenamespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 1c001ab..6f79ada 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -194,9 +194,9 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		return err
 	}
 	go func() {
-		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
+		defer likeStorage.Close() // uses the other storages
 		defer func() { log.Printf("LikeNamespace %s stopped\n", ns.GetName().Value()) }()
 		for {
 			select {
-- 
2.43.0


From c0845a502ea509ea3b064ea21e713d441f16157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 37/42] fix: don't hang or panic when a namespace stops while
 it's being used

---
 internal/domain/likenamespace.go | 114 ++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 48 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 6f79ada..be74ce8 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -11,6 +11,8 @@ import (
 	"time"
 )
 
+var errNamespaceStopped = errors.New("the namespace stopped")
+
 // The limit of similar profiles used if it isn't specified.
 const defaultMaxSimilarProfiles = 1000
 
@@ -26,6 +28,8 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	quit                    chan struct{}
+	quitOnce                sync.Once
 }
 
 // Compile-time type check
@@ -53,6 +57,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		basePath:                dto.BasePath,
 		actionQueueFillWaitTime: time.Millisecond * 50,
 		action:                  make(chan Action, 100),
+		quit:                    make(chan struct{}),
 	}
 	// Set defaults
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
@@ -194,6 +199,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		return err
 	}
 	go func() {
+		defer ns.closeQuit() // nobody is going to process actions any more
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
 		defer likeStorage.Close() // uses the other storages
@@ -201,13 +207,10 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		for {
 			select {
 			case <-ctx.Done():
-				ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
 				return
-			case action, more := <-ns.action:
-				if !more {
-					ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
-					return
-				}
+			case <-ns.quit:
+				return
+			case action := <-ns.action:
 				// We wan't to process as many actions as possible at a time.
 				// But not too much, though.
 				time.Sleep(ns.actionQueueFillWaitTime)
@@ -215,12 +218,8 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 				actions := make([]Action, 1, len(ns.action)+1)
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
-				for i := 1; i < len(actions); i++ {
-					actions[i], more = <-ns.action
-					if !more || actions[i].ActionType == ActionStop {
-						ns.sendStoppedLikeNamespaceErrorToActionWaiters(&actions)
-						return
-					}
+				for len(actions) < cap(actions) {
+					actions = append(actions, <-ns.action)
 				}
 				likeStorage.ProcessActions(actions)
 			}
@@ -232,104 +231,123 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
 	log.Printf("Stopping namespace %s...\n", ns.GetName().Value())
-	close(ns.action)
+	ns.closeQuit()
 }
 
-func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
-	// Get actions from the buffer and send an error to each one
-	for {
-		action, more := <-ns.action
-		if !more {
-			break
-		}
-		action.Error <- errors.New("the namespace stopped")
+// Makes the worker stop and the callers waiting for it give up. The action
+// channel isn't closed, because there may be callers sending to it.
+func (ns *likeNamespace) closeQuit() {
+	ns.quitOnce.Do(func() { close(ns.quit) })
+}
+
+// Puts the action in the queue of the worker.
+func (ns *likeNamespace) enqueue(action Action) error {
+	select {
+	case ns.action <- action:
+		return nil
+	case <-ns.quit:
+		return errNamespaceStopped
 	}
-	// Send an error to each action that has been taken out from the buffer
-	// and should has been processed
-	if takenActions != nil {
-		for _, action := range *takenActions {
-			action.Error <- errors.New("the namespace stopped")
-		}
+}
+
+// Puts the action in the queue and waits until the worker responds to it.
+func (ns *likeNamespace) perform(actionType ActionType, payload any) error {
+	err := make(chan error, 1)
+	if err := ns.enqueue(Action{actionType, err, payload}); err != nil {
+		return err
+	}
+	select {
+	case err := <-err:
+		return err
+	case <-ns.quit:
+		return errNamespaceStopped
 	}
 }
 
 // Removes the profile by its ID.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) DeleteProfile(user uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}
-	return <-err
+	return ns.perform(ActionDeleteProfile, DeleteProfilePayload{user})
 }
 
 // Returns the profile by its ID or nil if it isn't found.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
-	errChan := make(chan error)
-	profileChan := make(chan *Profile)
-	ns.action <- Action{
+	errChan := make(chan error, 1)
+	profileChan := make(chan *Profile, 1)
+	err := ns.enqueue(Action{
 		ActionGetProfile,
 		errChan,
 		GetProfilePayload{user, profileChan},
+	})
+	if err != nil {
+		return nil, err
 	}
 	select {
 	case err := <-errChan:
 		return nil, err
 	case profile := <-profileChan:
 		return profile, nil
+	case <-ns.quit:
+		return nil, errNamespaceStopped
 	}
 }
 
 // Sets an item of the profile liked.
 func (ns *likeNamespace) Like(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionLike, err, LikePayload{user, item}}
-	return <-err
+	return ns.perform(ActionLike, LikePayload{user, item})
 }
 
 // Sets an item of the profile disliked.
 func (ns *likeNamespace) Dislike(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
-	return <-err
+	return ns.perform(ActionDislike, DislikePayload{user, item})
 }
 
 // Sets an item of the profile undefined (not liked nor disliked).
 func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}
-	return <-err
+	return ns.perform(ActionDeleteItem, DeleteItemPayload{user, item})
 }
 
 // Returns the most similar profiles to the given one.
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
-	errChan := make(chan error)
-	profilesChan := make(chan *[]SimilarProfile)
-	ns.action <- Action{
+	errChan := make(chan error, 1)
+	profilesChan := make(chan *[]SimilarProfile, 1)
+	err := ns.enqueue(Action{
 		ActionGetSimilarProfiles,
 		errChan,
 		GetSimilarProfilesPayload{user, profilesChan},
+	})
+	if err != nil {
+		return nil, err
 	}
 	select {
 	case err := <-errChan:
 		return nil, err
 	case profiles := <-profilesChan:
 		return profiles, nil
+	case <-ns.quit:
+		return nil, errNamespaceStopped
 	}
 }
 
 // Returns the recommended items for the user.
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
-	errChan := make(chan error)
-	recsChan := make(chan *[]RecItem)
-	ns.action <- Action{
+	errChan := make(chan error, 1)
+	recsChan := make(chan *[]RecItem, 1)
+	err := ns.enqueue(Action{
 		ActionRecommendItems,
 		errChan,
 		RecommendItemsPayload{user, recsChan},
+	})
+	if err != nil {
+		return nil, err
 	}
 	select {
 	case err := <-errChan:
 		return nil, err
 	case recs := <-recsChan:
 		return recs, nil
+	case <-ns.quit:
+		return nil, errNamespaceStopped
 	}
 }
-- 
2.43.0


From 1605d972aa6a76cb120de3684db8319857daa93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 38/42] fix: respond to the actions that the like storage fails
 to process

---
 internal/domain/likenamespace.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index be74ce8..9f4c6a8 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -221,7 +221,10 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 				for len(actions) < cap(actions) {
 					actions = append(actions, <-ns.action)
 				}
-				likeStorage.ProcessActions(actions)
+				err := likeStorage.ProcessActions(actions)
+				if err != nil {
+					failActions(actions, err)
+				}
 			}
 		}
 	}()
@@ -240,6 +243,16 @@ func (ns *likeNamespace) closeQuit() {
 	ns.quitOnce.Do(func() { close(ns.quit) })
 }
 
+// Sends the error to everyone who still waits for a response.
+func failActions(actions []Action, err error) {
+	for _, action := range actions {
+		select {
+		case action.Error <- err:
+		default: // already responded
+		}
+	}
+}
+
 // Puts the action in the queue of the worker.
 func (ns *likeNamespace) enqueue(action Action) error {
 	select {
-- 
2.43.0


From 962f5a1d6b26cc4eeaccda712498fbbf36a3fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 39/42] fix: report a failure to rewind a new RECDB file

---
 internal/infra/recdb/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daaa130..4531972 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -174,7 +174,11 @@ func (p *protocol) OpenOrCreateFile(filePath string) (*os.File, error) {
 				file.Close()
 				return nil, err
 			}
-			file.Seek(0, io.SeekStart)
+			_, err = file.Seek(0, io.SeekStart)
+			if err != nil {
+				file.Close()
+				return nil, fmt.Errorf("failed to rewind RECDB file: %v", err)
+			}
 			return file, nil
 		}
 		return nil, fmt.Errorf("failed to open database file: %v", err)
-- 
2.43.0


From 73db326c2309a0e57671c9892204bb8981b50981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 40/42] fix: keep the previous RECDB entry when reading the
 next one fails

A failed Next() left the capacity of the unread entry in the iterator, so that
SetPrevious() could write at a place that isn't the one of the previous entry.
---
 internal/infra/recdb/iterator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index 6bbcc1b..4f95ae3 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -86,14 +86,16 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
-	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
+	// The previous entry must be kept if reading fails
+	entry := Entry{}
+	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.entry = entry
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
-	entryCopy := iter.entry
-	return &entryCopy, nil
+	return &entry, nil
 }
 
 // Rewrites a previously read entry. The capacity must be left unchanged.
-- 
2.43.0


From a70c87572a71e501b56e5feca17a0b271c3aa3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 41/42] fix: keep lists ordered when inserting next to equal
 elements

The element closest to the value isn't necessarily the last one (or the first
one) among equal ones, e.g. 2 was inserted to [1, 1, 5] after the first 1.
---
 internal/helpers/arrays.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b352a02..ca00dbc 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -137,17 +137,25 @@ func Insert[T Numeric](haystack []T, index int, value T) []T {
 	return haystack
 }
 
+// Returns the index of the first element of the sorted array that isn't less
+// than the given value, or the length of the array if there is no such element.
+func lowerBound[T ordered](haystack []T, value T) int {
+	a, b := 0, len(haystack)
+	for a < b {
+		m := (a + b) / 2
+		if haystack[m] < value {
+			a = m + 1
+		} else {
+			b = m
+		}
+	}
+	return a
+}
+
 // Inserts the element to the array keeping it ordered.
 // The function preserves order of the elements.
 func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
-	if len(haystack) == 0 {
-		return append(haystack, value)
-	}
-	index := BinaryIndexOfClosest(haystack, value)
-	if value >= haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
-	return Insert(haystack, index, value)
+	return Insert(haystack, lowerBound(haystack, value), value)
 }
 
 // Inserts the element to the array keeping it ordered if there is no element
-- 
2.43.0


From 94bff2f52c2c99eb1b1a3b66ab1666d3a5a18565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 42/42] fix: keep lists ordered when differences of elements
 overflow

The difference of signed elements may exceed the range of their type, so that
the closest element isn't found, e.g. 101 was inserted to [-128, 50, 100] of
int8 at index 1.
---
 internal/helpers/arrays.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index ca00dbc..e69fbbf 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -162,15 +162,9 @@ func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
 // of this value in the array yet.
 // The function preserves order of the elements.
 func PutSavingOrder[T Numeric](haystack []T, value T) []T {
-	if len(haystack) == 0 {
-		return append(haystack, value)
-	}
-	index := BinaryIndexOfClosest(haystack, value)
-	if value == haystack[index] {
+	index := lowerBound(haystack, value)
+	if index < len(haystack) && haystack[index] == value {
 		return haystack
 	}
-	if value > haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
 	return Insert(haystack, index, value)
 }
-- 
2.43.0

