From ad53b8a23bf3cb9f5888323cda63835f68c20032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:28 +0000
Subject: [PATCH 01/41] fix: quota list counted one snapshot twice when
 refilled after a rollback

When fewer than 75 entries are left after a rollback, build() refills the
list from the ledger, but asked for heights up to and including the lowest
one the list still covers. That snapshot's quota was then counted twice in
GetQuotaUsedList and GetGlobalQuota, so a node that rolled back granted
other quota than one that did not.
---
 ledger/chain/cache/quota_list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 5625588..e78a7c5 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -291,6 +291,12 @@ func (ql *quotaList) build() (returnError error) {
 			ql.list.PushBack(newItem)
 		}
 	} else {
+		// the list already covers endSbHeight, so only the heights below it are lacking
+		endSbHeight--
+		if endSbHeight <= startSbHeight {
+			return nil
+		}
+
 		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight)
 		if err != nil {
 			return err
-- 
2.43.0


From f3ae56c4486784b6bed3daa403bc87e3ffb87d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:31 +0000
Subject: [PATCH 02/41] fix: a failed redo log write left the stores prepared,
 so the next flush panicked

writeRedoLog can fail (disk full, a store's redo log error). flush() then
returned without cancelling the prepare, unlike the sync failure path, and
the next flush died with "prepare repeatedly".
---
 ledger/chain/flusher/flusher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/flusher/flusher.go b/ledger/chain/flusher/flusher.go
index a57d547..11535c4 100644
--- a/ledger/chain/flusher/flusher.go
+++ b/ledger/chain/flusher/flusher.go
@@ -216,7 +216,9 @@ func (flusher *Flusher) flush() {
 
 	// write redo log
 	//flusher.log.Info("start write redo log")
+	// if write redo log failed, stop flushing and cancel prepare
 	if err := flusher.writeRedoLog(); err != nil {
+		flusher.cancelPrepare()
 		return
 	}
 	//flusher.log.Info("finish writing redo log")
@@ -438,6 +440,12 @@ func (flusher *Flusher) syncRedoLog() bool {
 
 	flusher.log.Error(fmt.Sprintf("sync failed. Error: %s", err.Error()), "method", "Flush")
 
+	flusher.cancelPrepare()
+
+	return false
+}
+
+func (flusher *Flusher) cancelPrepare() {
 	// cancel prepare, lock write
 	flusher.mu.Lock()
 
@@ -452,8 +460,6 @@ func (flusher *Flusher) syncRedoLog() bool {
 	if err := flusher.cleanRedoLog(); err != nil {
 		flusher.log.Error(err.Error(), "method", "Flush")
 	}
-
-	return false
 }
 
 func (flusher *Flusher) commit() error {
-- 
2.43.0


From 047d0726450424fa0b85732d091a1a884b2180ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:59 +0000
Subject: [PATCH 03/41] fix: a contract call whose input reaches beyond the
 memory crashed the VM

gasCall reads the request data before quota is charged and memory is resized.
A region that starts inside the memory and ends behind it panicked, and a huge
size allocated the buffer first, which kills the process. Zero pad the copy and
refuse sizes that the remaining quota can not pay for.
---
 vm/gas_table.go | 12 +++++++++++-
 vm/memory.go    |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/vm/gas_table.go b/vm/gas_table.go
index bceddd5..eed9223 100644
--- a/vm/gas_table.go
+++ b/vm/gas_table.go
@@ -443,6 +443,16 @@ func gasCall(vm *VM, c *contract, stack *stack, mem *memory, memorySize uint64)
 	toAddrBig, tokenIDBig, amount, inOffset, inSize := stack.back(0), stack.back(1), stack.back(2), stack.back(3), stack.back(4)
 	toAddress, _ := types.BigToAddress(toAddrBig)
 	tokenID, _ := types.BigToTokenTypeId(tokenIDBig)
+	// request data is read before quota is charged and memory is resized, do not read what can not be paid for
+	offset, size := inOffset.Int64(), inSize.Int64()
+	if memLen := int64(mem.len()); size != 0 && offset < memLen {
+		if offset < 0 || size < 0 {
+			return 0, true, util.ErrGasUintOverflow
+		}
+		if size > memLen-offset && uint64(size) > c.quotaLeft {
+			return 0, true, util.ErrOutOfQuota
+		}
+	}
 	cost, err := gasRequiredForSendBlock(
 		util.MakeRequestBlock(
 			c.block.AccountAddress,
@@ -450,7 +460,7 @@ func gasCall(vm *VM, c *contract, stack *stack, mem *memory, memorySize uint64)
 			ledger.BlockTypeSendCall,
 			amount,
 			tokenID,
-			mem.get(inOffset.Int64(), inSize.Int64())),
+			mem.get(offset, size)),
 		vm.gasTable,
 		vm.latestSnapshotHeight)
 	if err != nil {
diff --git a/vm/memory.go b/vm/memory.go
index 2f79437..0c220e7 100644
--- a/vm/memory.go
+++ b/vm/memory.go
@@ -30,7 +30,7 @@ func (m *memory) len() int {
 	return len(m.store)
 }
 
-// get returns offset + size as a new slice
+// get returns offset + size as a new slice, zero padded beyond the end of the memory
 func (m *memory) get(offset, size int64) (cpy []byte) {
 	if size == 0 {
 		return nil
@@ -38,7 +38,7 @@ func (m *memory) get(offset, size int64) (cpy []byte) {
 
 	if len(m.store) > int(offset) {
 		cpy = make([]byte, size)
-		copy(cpy, m.store[offset:offset+size])
+		copy(cpy, m.store[offset:])
 
 		return cpy
 	}
-- 
2.43.0


From bb0b9600ee571fd3890e791a249dde3b6bf72fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:38 +0000
Subject: [PATCH 04/41] fix: the copy of an account block held its embedded
 send blocks twice

---
 interfaces/core/account_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 93b08a9..35baa08 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -97,6 +97,7 @@ func (ab *AccountBlock) Copy() *AccountBlock {
 		copy(newAb.Signature, ab.Signature)
 	}
 
+	newAb.SendBlockList = nil
 	for _, sendBlock := range ab.SendBlockList {
 		newAb.SendBlockList = append(newAb.SendBlockList, sendBlock.Copy())
 	}
-- 
2.43.0


From e4841c27509037a2f1c9e3084e2096c0b836fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:42 +0000
Subject: [PATCH 05/41] fix: a malformed account block was decoded without an
 error

---
 interfaces/core/account_block.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 35baa08..49e9818 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -317,12 +317,16 @@ func (ab *AccountBlock) DeProto(pb *vitepb.AccountBlock) error {
 	// 1
 	ab.BlockType = byte(pb.BlockType)
 	// 2
-	ab.Hash, _ = types.BytesToHash(pb.Hash)
+	if ab.Hash, err = types.BytesToHash(pb.Hash); err != nil {
+		return err
+	}
 	// 3
 	ab.Height = pb.Height
 	// 4
 	if ab.Height > 1 {
-		ab.PrevHash, _ = types.BytesToHash(pb.PrevHash)
+		if ab.PrevHash, err = types.BytesToHash(pb.PrevHash); err != nil {
+			return err
+		}
 	}
 	// 5
 	if ab.AccountAddress, err = types.BytesToAddress(pb.AccountAddress); err != nil {
@@ -412,8 +416,7 @@ func (ab *AccountBlock) Deserialize(buf []byte) error {
 	if err := proto.Unmarshal(buf, pb); err != nil {
 		return err
 	}
-	ab.DeProto(pb)
-	return nil
+	return ab.DeProto(pb)
 }
 
 func (ab *AccountBlock) IsSendBlock() bool {
-- 
2.43.0


From 88237324dd0d28237af1db948758cf4f20b64d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:08 +0000
Subject: [PATCH 06/41] fix: switching the main branch of the fork tree could
 drop it from the tree

---
 ledger/pool/tree/branch.go    | 7 ++++---
 ledger/pool/tree/tree_impl.go | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ledger/pool/tree/branch.go b/ledger/pool/tree/branch.go
index 8502c0d..69cef42 100644
--- a/ledger/pool/tree/branch.go
+++ b/ledger/pool/tree/branch.go
@@ -77,9 +77,10 @@ func (self *branch) Type() BranchType {
 	return Normal
 }
 
-func (self *branch) prune(t *tree) {
+// prune drops the blocks that the root already has, and the branch with them when none is left, unless it is keep
+func (self *branch) prune(t *tree, keep *branch) {
 	if self.root.Type() == Normal {
-		self.root.(*branch).prune(t)
+		self.root.(*branch).prune(t, keep)
 	}
 	removed := false
 	for i := self.tailHeight + 1; i <= self.headHeight; i++ {
@@ -100,7 +101,7 @@ func (self *branch) prune(t *tree) {
 
 	if removed {
 		self.updateChildrenForRemoveTail(self.root, t)
-		if self.ID() != t.main.ID() && self.Size() == 0 {
+		if self.ID() != t.main.ID() && self != keep && self.Size() == 0 {
 			err := t.removeBranch(self)
 			if err != nil {
 				t.log.Error("remove branch fail.", "id", self.ID())
diff --git a/ledger/pool/tree/tree_impl.go b/ledger/pool/tree/tree_impl.go
index b858659..7ce4919 100644
--- a/ledger/pool/tree/tree_impl.go
+++ b/ledger/pool/tree/tree_impl.go
@@ -188,8 +188,8 @@ func (self *tree) SwitchMainTo(b Branch) error {
 	}
 	target := b.(*branch)
 
-	// first prune
-	target.prune(self)
+	// first prune, the target itself has to stay in the tree
+	target.prune(self, target)
 
 	// second modify
 	err := target.exchangeAllRoot(self)
@@ -314,7 +314,7 @@ func (self *tree) PruneTree() []Branch {
 		if id == self.main.ID() {
 			continue
 		}
-		c.prune(self)
+		c.prune(self, nil)
 	}
 
 	var r []Branch
-- 
2.43.0


From e061da28579754543ecea1afed9370e7e7276972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:17 +0000
Subject: [PATCH 07/41] fix: a contract was not offered a caller's pending
 sends after another contract received from that caller

---
 ledger/onroad/pool/storage.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ledger/onroad/pool/storage.go b/ledger/onroad/pool/storage.go
index 553b189..5928b15 100644
--- a/ledger/onroad/pool/storage.go
+++ b/ledger/onroad/pool/storage.go
@@ -40,7 +40,13 @@ type onroadStorage struct {
 	db *leveldb.DB
 
 	mu      sync.RWMutex
-	callers sync.Map
+	callers sync.Map // map[callerKey]int
+}
+
+// callerKey identifies a caller of a contract
+type callerKey struct {
+	contract types.Address
+	caller   types.Address
 }
 
 func newOnroadStorage(db *leveldb.DB) *onroadStorage {
@@ -50,12 +56,12 @@ func newOnroadStorage(db *leveldb.DB) *onroadStorage {
 	}
 }
 
-func (storage *onroadStorage) addCaller(caller types.Address) error {
-	storage.callers.Store(caller, 0)
+func (storage *onroadStorage) addCaller(contract, caller types.Address) error {
+	storage.callers.Store(callerKey{contract, caller}, 0)
 	return nil
 }
-func (storage *onroadStorage) removeCaller(caller types.Address) {
-	storage.callers.Delete(caller)
+func (storage *onroadStorage) removeCaller(contract, caller types.Address) {
+	storage.callers.Delete(callerKey{contract, caller})
 }
 
 func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
@@ -64,7 +70,7 @@ func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
 
 	// fmt.Println("add on road tx", tx.String())
 
-	storage.addCaller(tx.FromAddr)
+	storage.addCaller(tx.ToAddr, tx.FromAddr)
 	// batch.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue())
 	return storage.db.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue(), nil)
 }
@@ -85,7 +91,7 @@ func (storage *onroadStorage) deleteOnRoadTx(tx OnroadTx) error {
 		return err
 	}
 	if len(txs) == 0 {
-		storage.removeCaller(tx.FromAddr)
+		storage.removeCaller(tx.ToAddr, tx.FromAddr)
 	}
 	return nil
 }
@@ -112,7 +118,10 @@ func (storage *onroadStorage) GetAllFirstOnroadTx(addr types.Address) (map[types
 	var resultErr error
 
 	storage.callers.Range(func(key interface{}, val interface{}) bool {
-		caller := key.(types.Address)
+		if key.(callerKey).contract != addr {
+			return true
+		}
+		caller := key.(callerKey).caller
 		txs, err := storage.getFirstOnroadTx(addr, caller)
 		if err != nil {
 			resultErr = err
-- 
2.43.0


From 030c6288857af53f61d654ee7195424865d96350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:18 +0000
Subject: [PATCH 08/41] fix: rolling the block files back past the cached files
 crashed, also while recovering from the redo log

---
 ledger/chain/file_manager/fd_manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 72bca48..bcc8ed5 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -158,7 +158,13 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			fdSet.writeFd = nil
 		}
 
-		cacheItem := fdSet.fileCache.Back().Value.(*fileCacheItem)
+		// only the latest files are in the cache
+		back := fdSet.fileCache.Back()
+		if back == nil {
+			continue
+		}
+
+		cacheItem := back.Value.(*fileCacheItem)
 		if cacheItem != nil {
 
 			delete(fdSet.fileFdCache, cacheItem.FileId)
@@ -170,7 +176,7 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			cacheItem.BufferLen = 0
 			cacheItem.Mu.Unlock()
 
-			fdSet.fileCache.Remove(fdSet.fileCache.Back())
+			fdSet.fileCache.Remove(back)
 		}
 	}
 
-- 
2.43.0


From 58940ede7adf7ef6f00b5ff0c0378707322834cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:36 +0000
Subject: [PATCH 09/41] fix: opening the sync cache removed the files of all
 cached segments

---
 ledger/chain/sync_cache/sync_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/sync_cache/sync_cache.go b/ledger/chain/sync_cache/sync_cache.go
index 7a3e295..ab2c88c 100644
--- a/ledger/chain/sync_cache/sync_cache.go
+++ b/ledger/chain/sync_cache/sync_cache.go
@@ -98,7 +98,7 @@ func (cache *syncCache) loadCaches() (err error) {
 			cache.caches[i] = nil
 			cache.cleanItem(item)
 		} else {
-			keepFiles[item.filename] = struct{}{}
+			keepFiles[path.Base(item.filename)] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From a1818fd1af4ffff0ac76786c66958fa9b0ccc5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:36 +0000
Subject: [PATCH 10/41] fix: a cut off block in the sync cache was completed
 with bytes of an earlier block

---
 ledger/chain/sync_cache/reader.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ledger/chain/sync_cache/reader.go b/ledger/chain/sync_cache/reader.go
index c5dfbca..0aad5c5 100644
--- a/ledger/chain/sync_cache/reader.go
+++ b/ledger/chain/sync_cache/reader.go
@@ -65,7 +65,7 @@ func (reader *Reader) Read() (ab *ledger.AccountBlock, sb *ledger.SnapshotBlock,
 
 	// 4 bytes for payload length size
 	buf := reader.readBuffer[:4]
-	if _, err = fd.Read(buf); err != nil {
+	if _, err = io.ReadFull(fd, buf); err != nil {
 		return
 	}
 
@@ -79,14 +79,13 @@ func (reader *Reader) Read() (ab *ledger.AccountBlock, sb *ledger.SnapshotBlock,
 	}
 
 	buf = reader.readBuffer[:size]
-	if _, err = fd.Read(buf); err != nil {
+	if _, err = io.ReadFull(fd, buf); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 
-	if len(buf) != int(size) {
-		return nil, nil, errors.New("error size length")
-	}
-
 	// first payload byte is code
 	// rest is data
 	code := buf[0]
-- 
2.43.0


From 0dd1d52a09bbf1816a2415a01d8082bd68cf7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:35 +0000
Subject: [PATCH 11/41] fix: flushing the block files emptied a file that a
 rollback had dropped from the cache

---
 ledger/chain/file_manager/fd.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ledger/chain/file_manager/fd.go b/ledger/chain/file_manager/fd.go
index bd02062..2ec2ff9 100644
--- a/ledger/chain/file_manager/fd.go
+++ b/ledger/chain/file_manager/fd.go
@@ -98,14 +98,21 @@ func (fd *fileDescription) Flush(startOffset int64, buf []byte) (int, error) {
 	}
 
 	if cacheItem.FileWriter == nil {
-		fd, err := fd.fdSet.createNewFile(cacheItem.FileId)
+		// the file may be on disk already, with data before the start offset
+		file, err := fd.fdSet.getFileFd(cacheItem.FileId)
 		if err != nil {
-			return 0, fmt.Errorf("fdSet.createNewFile failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
+			return 0, fmt.Errorf("fdSet.getFileFd failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
 		}
-		if fd == nil {
-			return 0, errors.New("fd is nil")
+		if file == nil {
+			file, err = fd.fdSet.createNewFile(cacheItem.FileId)
+			if err != nil {
+				return 0, fmt.Errorf("fdSet.createNewFile failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
+			}
+			if file == nil {
+				return 0, errors.New("fd is nil")
+			}
 		}
-		cacheItem.FileWriter = fd
+		cacheItem.FileWriter = file
 	}
 
 	file := cacheItem.FileWriter
-- 
2.43.0


From 81bf1347aa93defab6e3364817a3fd2b3f0274f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:40 +0000
Subject: [PATCH 12/41] fix: a new manifest was made current before it was
 synced

---
 common/db/xleveldb/session_util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/db/xleveldb/session_util.go b/common/db/xleveldb/session_util.go
index 48bcfd0..421117f 100644
--- a/common/db/xleveldb/session_util.go
+++ b/common/db/xleveldb/session_util.go
@@ -241,6 +241,12 @@ func (s *session) newManifest(rec *sessionRecord, v *version) (err error) {
 	if err != nil {
 		return
 	}
+	if !s.o.GetNoSync() {
+		err = writer.Sync()
+		if err != nil {
+			return
+		}
+	}
 	err = s.stor.SetMeta(fd)
 	return
 }
-- 
2.43.0


From ed34af85e0b974b521e805a1b37eb0e998de5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:41 +0000
Subject: [PATCH 13/41] fix: packing a negative number changed the caller's
 number

---
 vm/abi/numbers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm/abi/numbers.go b/vm/abi/numbers.go
index 6763459..05f122d 100644
--- a/vm/abi/numbers.go
+++ b/vm/abi/numbers.go
@@ -26,5 +26,5 @@ var (
 
 // U256 converts a big Int into a 256bit VM number.
 func U256(n *big.Int) []byte {
-	return helper.PaddedBigBytes(helper.U256(n), helper.WordSize)
+	return helper.PaddedBigBytes(helper.U256(new(big.Int).Set(n)), helper.WordSize)
 }
-- 
2.43.0


From 5a1c276cf45a0e6b6bbb4dbb9e6f1c7b4d1ec34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:41 +0000
Subject: [PATCH 14/41] fix: a negative signed number of more than 64 bits was
 decoded as unsigned

---
 vm/abi/unpack.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vm/abi/unpack.go b/vm/abi/unpack.go
index d39eb25..0673105 100644
--- a/vm/abi/unpack.go
+++ b/vm/abi/unpack.go
@@ -11,8 +11,8 @@ import (
 )
 
 // reads the integer based on its kind
-func readInteger(kind reflect.Kind, b []byte) interface{} {
-	switch kind {
+func readInteger(t Type, b []byte) interface{} {
+	switch t.Kind {
 	case reflect.Uint8:
 		return b[len(b)-1]
 	case reflect.Uint16:
@@ -30,7 +30,11 @@ func readInteger(kind reflect.Kind, b []byte) interface{} {
 	case reflect.Int64:
 		return int64(binary.BigEndian.Uint64(b[len(b)-8:]))
 	default:
-		return new(big.Int).SetBytes(b)
+		n := new(big.Int).SetBytes(b)
+		if t.T == IntTy {
+			n = helper.S256(n)
+		}
+		return n
 	}
 }
 
@@ -150,7 +154,7 @@ func toGoType(index int, t Type, output []byte) (interface{}, error) {
 	case StringTy: // variable arrays are written at the end of the return bytes
 		return string(output[begin : begin+end]), nil
 	case IntTy, UintTy:
-		return readInteger(t.Kind, returnOutput), nil
+		return readInteger(t, returnOutput), nil
 	case BoolTy:
 		return readBool(returnOutput)
 	case AddressTy:
-- 
2.43.0


From 011c35ae1e6cc2d17924bb5cd3da7cafc323d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:41 +0000
Subject: [PATCH 15/41] fix: malformed argument types crashed or were accepted

---
 vm/abi/type.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vm/abi/type.go b/vm/abi/type.go
index 547e889..975d226 100644
--- a/vm/abi/type.go
+++ b/vm/abi/type.go
@@ -6,6 +6,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/vitelabs/go-vite/v2/common/helper"
 	"github.com/vitelabs/go-vite/v2/common/types"
 )
 
@@ -97,7 +98,11 @@ func NewType(t string) (typ Type, err error) {
 		return typ, err
 	}
 	// parse the type and size of the abi-type.
-	parsedType := typeRegex.FindAllStringSubmatch(t, -1)[0]
+	parsedTypes := typeRegex.FindAllStringSubmatch(t, -1)
+	if len(parsedTypes) == 0 {
+		return Type{}, errUnsupportedArgType(t)
+	}
+	parsedType := parsedTypes[0]
 	// varSize is the size of the variable
 	var varSize int
 	if len(parsedType[2]) > 0 {
@@ -148,6 +153,8 @@ func NewType(t string) (typ Type, err error) {
 			typ.T = BytesTy
 			typ.Kind = reflect.Slice
 			typ.Type = reflect.SliceOf(reflect.TypeOf(byte(0)))
+		} else if varSize > helper.WordSize {
+			return Type{}, errUnsupportedArgType(t)
 		} else {
 			typ.T = FixedBytesTy
 			typ.Kind = reflect.Array
-- 
2.43.0


From 378701710f2cb5ae3c1f0a3bc63d46f0cda2f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:41 +0000
Subject: [PATCH 16/41] fix: decoding an event with missing topics crashed

---
 vm/abi/error.go | 4 ++++
 vm/abi/event.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/vm/abi/error.go b/vm/abi/error.go
index 7bda8a2..32f7ef8 100644
--- a/vm/abi/error.go
+++ b/vm/abi/error.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 
 	"github.com/vitelabs/go-vite/v2/common/helper"
+	"github.com/vitelabs/go-vite/v2/common/types"
 )
 
 var (
@@ -98,6 +99,9 @@ func errTagAlreadyMapped(structFieldName string) error {
 func errTagNotFound(tagName string) error {
 	return fmt.Errorf("struct: abi tag '%s' defined but not found in abi", tagName)
 }
+func errEventTopicsMismatch(topics []types.Hash, indexed Arguments) error {
+	return fmt.Errorf("abi: event topic count mismatch: %d for %d", len(topics), len(indexed)+1)
+}
 func errMultipleVariable(abiFieldName string) error {
 	return fmt.Errorf("abi: multiple variables maps to the same abi field '%s'", abiFieldName)
 }
diff --git a/vm/abi/event.go b/vm/abi/event.go
index a9a808d..316e216 100644
--- a/vm/abi/event.go
+++ b/vm/abi/event.go
@@ -84,6 +84,9 @@ func (e Event) DirectUnPack(topics []types.Hash, data []byte) ([]interface{}, er
 	if err != nil {
 		return nil, err
 	}
+	if len(topics) < len(e.IndexedInputs)+1 {
+		return nil, errEventTopicsMismatch(topics, e.IndexedInputs)
+	}
 	nonIndex := 0
 	index := 1
 	args := make([]interface{}, 0)
-- 
2.43.0


From 1d21b733026bce60c2eef4b61f1327f805ee2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 17/41] fix: removing an entropy store by its relative name
 left it in the wallet

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index fc78e87..5a44285 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -272,7 +272,7 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 	manager, ok := m.entropyStoreManager[absPath]
 	if ok {
 		manager.Lock()
-		delete(m.entropyStoreManager, entropyStore)
+		delete(m.entropyStoreManager, absPath)
 	}
 }
 
-- 
2.43.0


From a99291e8fb7fce07f28389982a3899c241f1214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 18/41] fix: a recovered store ignored the configured search
 range until a restart

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index 5a44285..45fbb51 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -277,7 +277,7 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 }
 
 func (m *Manager) RecoverEntropyStoreFromMnemonic(mnemonic string, passphrase string) (em *entropystore.Manager, err error) {
-	sm, e := entropystore.StoreNewEntropy(m.config.DataDir, mnemonic, passphrase, entropystore.DefaultMaxIndex)
+	sm, e := entropystore.StoreNewEntropy(m.config.DataDir, mnemonic, passphrase, m.config.MaxSearchIndex)
 	if e != nil {
 		return nil, e
 	}
-- 
2.43.0


From 69abc225710090b93b323b911e6982da47c371bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 19/41] fix: searching with a passphrase failed when another
 store has a different one

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index 45fbb51..8504474 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -178,7 +178,7 @@ func (m Manager) GlobalFindAddr(targetAdr types.Address) (path string, key *deri
 func (m Manager) GlobalFindAddrWithPassphrase(targetAdr types.Address, pass string) (path string, key *derivation.Key, index uint32, err error) {
 	for path, em := range m.entropyStoreManager {
 		key, index, err = em.FindAddrWithPassphrase(pass, targetAdr)
-		if err == walleterrors.ErrAddressNotFound {
+		if err == walleterrors.ErrAddressNotFound || err == walleterrors.ErrDecryptEntropy {
 			continue
 		}
 		if err != nil {
-- 
2.43.0


From 23468e62c98b1bfd1bd34919ea552669ada753c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 20/41] fix: a second lock listener replaced the first

---
 wallet/manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index 8504474..bddaba7 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -337,7 +337,7 @@ func (m *Manager) Stop() {
 	m.entropyStoreManager = nil
 }
 
-func (m Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent)) int {
+func (m *Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent)) int {
 	m.mutex.Lock()
 	defer m.mutex.Unlock()
 
@@ -346,7 +346,7 @@ func (m Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent))
 	return m.unlockChangedIndex
 }
 
-func (m Manager) RemoveUnlockChangeChannel(id int) {
+func (m *Manager) RemoveUnlockChangeChannel(id int) {
 	m.mutex.Lock()
 	defer m.mutex.Unlock()
 	delete(m.unlockChangedLis, id)
-- 
2.43.0


From 9d5e0002f54ee930bb4d6e6f91ab3fe0348a8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 21/41] fix: a damaged wallet file crashed the process that
 opened it

---
 crypto/crypto.go                    | 4 ++++
 wallet/entropystore/crypto_store.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 8d08c14..7832f92 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -135,6 +135,10 @@ func AesGCMDecrypt(key, cipherText, nonce []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(nonce) != stream.NonceSize() {
+		return nil, errors.New("incorrect nonce length")
+	}
+
 	outText, err := stream.Open(nil, nonce, cipherText, []byte(gcmAdditionData))
 	if err != nil {
 		return nil, err
diff --git a/wallet/entropystore/crypto_store.go b/wallet/entropystore/crypto_store.go
index 1965c99..8230535 100644
--- a/wallet/entropystore/crypto_store.go
+++ b/wallet/entropystore/crypto_store.go
@@ -131,6 +131,10 @@ func DecryptEntropy(entropyJson []byte, passphrase string) ([]byte, error) {
 	}
 	scryptParams := k.Crypto.ScryptParams
 
+	if scryptParams.R <= 0 || scryptParams.P <= 0 || scryptParams.KeyLen < scryptKeyLen {
+		return nil, walleterrors.ErrDecryptEntropy
+	}
+
 	// begin decrypt
 	derivedKey, err := scrypt.Key([]byte(passphrase), salt, scryptParams.N, scryptParams.R, scryptParams.P, scryptParams.KeyLen)
 	if err != nil {
-- 
2.43.0


From 44e573472cfc7e88d6072c1386004d3bf90d1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:53 +0000
Subject: [PATCH 22/41] fix: a block could carry made-up send blocks, creating
 tokens from nothing

---
 vm/vm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vm/vm.go b/vm/vm.go
index 999e8d0..443a71a 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -202,6 +202,9 @@ func (vm *VM) RunV2(db interfaces.VmDb, block *ledger.AccountBlock, sendBlock *l
 	vm.gasTable = util.QuotaTableByHeight(sb.Height)
 	// In case vm will update some fields of block, make a copy of block.
 	blockCopy := block.Copy()
+	// Logs and send blocks are results of the execution.
+	blockCopy.LogHash = nil
+	blockCopy.SendBlockList = nil
 	if blockCopy.IsSendBlock() {
 		if blockCopy.BlockType == ledger.BlockTypeSendCreate {
 			quotaTotal, quotaAddition, err := quota.GetQuotaForBlock(
-- 
2.43.0


From d29cbd3058f9a43914badfdf9f66b0123c4b9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 23/41] fix: asking for one producer's snapshot headers always
 gave none

---
 ledger/chain/snapshot_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/snapshot_block.go b/ledger/chain/snapshot_block.go
index 8ea8531..e136544 100644
--- a/ledger/chain/snapshot_block.go
+++ b/ledger/chain/snapshot_block.go
@@ -407,7 +407,7 @@ func (c *chain) GetSnapshotHeadersAfterOrEqualTime(endHashHeight *ledger.HashHei
 		var result = make([]*ledger.SnapshotBlock, 0, len(snapshotHeaders)/75+3)
 		for _, snapshotHeader := range snapshotHeaders {
 			if snapshotHeader.Producer() == *producer {
-				result = append(result)
+				result = append(result, snapshotHeader)
 			}
 		}
 		return result, nil
-- 
2.43.0


From 9e95f7adb700d5dab1819a73297043ea7fe28be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 24/41] fix: asking for the snapshot block before a time within
 a second never returned

---
 ledger/chain/snapshot_block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/snapshot_block.go b/ledger/chain/snapshot_block.go
index e136544..152ec8c 100644
--- a/ledger/chain/snapshot_block.go
+++ b/ledger/chain/snapshot_block.go
@@ -360,7 +360,11 @@ func (c *chain) GetSnapshotHeaderBeforeTime(timestamp *time.Time) (*ledger.Snaps
 
 		} else {
 			lowBoundary = blockHeader
-			estimateHeight = blockHeader.Height + uint64(timeSec-blockHeader.Timestamp.Unix())
+			gap := uint64(timeSec - blockHeader.Timestamp.Unix())
+			if gap <= 0 {
+				gap = 1
+			}
+			estimateHeight = blockHeader.Height + gap
 			if estimateHeight > latest.Height {
 				highBoundary = latest
 			}
-- 
2.43.0


From a6180516e4014a47354be85890659cb041624445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 25/41] fix: a contract whose creation was rolled back stayed
 in its group's contract list

---
 ledger/chain/state/delete.go | 9 +++++++++
 ledger/chain/state/write.go  | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 2445ad5..1697d01 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -632,6 +632,15 @@ func (sDB *StateDB) compactHistoryStorage() {
 func (sDB *StateDB) deleteContractMeta(batch interfaces.Batch, key []byte) {
 	batch.Delete(key)
 
+	// remove the contract from the list of its consensus group
+	if value, ok := sDB.cache.Get(contractAddrPrefix + string(key)); ok {
+		gidContractKey := make([]byte, 0, 1+types.GidSize+types.AddressSize)
+		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
+		gidContractKey = append(gidContractKey, value.([]byte)[:types.GidSize]...)
+		gidContractKey = append(gidContractKey, key[1:]...)
+		batch.Delete(gidContractKey)
+	}
+
 	sDB.cache.Delete(contractAddrPrefix + string(key))
 }
 
diff --git a/ledger/chain/state/write.go b/ledger/chain/state/write.go
index 036b0ad..4add047 100644
--- a/ledger/chain/state/write.go
+++ b/ledger/chain/state/write.go
@@ -158,10 +158,10 @@ func (sDB *StateDB) WriteByRedo(blockHash types.Hash, addr types.Address, redoLo
 	for addr, metaBytes := range unsavedContractMeta {
 		contractKey := chain_utils.CreateContractMetaKey(addr)
 
-		gidContractKey := make([]byte, 0, 1+types.AddressSize+types.GidSize)
+		gidContractKey := make([]byte, 0, 1+types.GidSize+types.AddressSize)
 		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
-		gidContractKey = append(gidContractKey, addr.Bytes()...)
 		gidContractKey = append(gidContractKey, metaBytes[:types.GidSize]...)
+		gidContractKey = append(gidContractKey, addr.Bytes()...)
 
 		sDB.writeContractMeta(batch, contractKey.Bytes(), metaBytes)
 
-- 
2.43.0


From 9a8caac8919895169aef54a7f0b69f0e51435eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 26/41] fix: a deep rollback left contract storage first
 written after the target snapshot

---
 ledger/chain/state/delete.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 1697d01..71daa20 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -479,14 +479,18 @@ func (sDB *StateDB) recoverStorageToSnapshot(batch *leveldb.Batch, height uint64
 		iter.Seek(seekTemplateKey.Bytes())
 
 		prevOk := iter.Prev()
-		prevKey := chain_utils.StorageHistoryKey{}.Construct(iter.Key())
-		if prevKey == nil {
-			sDB.log.Error("prevKey is nil.")
-			break
-		}
-		if prevKey.ExtraAddress() != addr {
-			sDB.log.Error("address is different.")
-			break
+		// no previous key means that the key has no value at the snapshot height
+		var prevKey *chain_utils.StorageHistoryKey
+		if prevOk {
+			prevKey = chain_utils.StorageHistoryKey{}.Construct(iter.Key())
+			if prevKey == nil {
+				sDB.log.Error("prevKey is nil.")
+				break
+			}
+			if prevKey.ExtraAddress() != addr {
+				sDB.log.Error("address is different.")
+				break
+			}
 		}
 
 		if prevOk && bytes.Equal(seekTemplateKey.ExtraKeyAndLen(), prevKey.ExtraKeyAndLen()) {
-- 
2.43.0


From aa20fe09166e4204c1b15132cf37aed628b63b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 27/41] fix: after a restart the votes and balances kept for
 elections could be out of date

---
 ledger/chain/state/round_cache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/state/round_cache.go b/ledger/chain/state/round_cache.go
index 0442517..764da2e 100644
--- a/ledger/chain/state/round_cache.go
+++ b/ledger/chain/state/round_cache.go
@@ -3,6 +3,7 @@ package chain_state
 import (
 	"fmt"
 	"math/big"
+	"sort"
 	"sync"
 
 	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
@@ -649,7 +650,12 @@ func (cache *RoundCache) queryRedoLogs(roundIndex uint64) (returnRedoLogs *Round
 
 	roundRedoLogs := NewRoundCacheRedoLogs()
 
-	// assume snapshot blocks is sorted by height asc, query redoLog by snapshot block height
+	// the blocks come from high to low, the redo logs are applied from low to high
+	sort.Slice(snapshotBlocks, func(i, j int) bool {
+		return snapshotBlocks[i].Height < snapshotBlocks[j].Height
+	})
+
+	// query redoLog by snapshot block height
 	for _, snapshotBlock := range snapshotBlocks {
 		redoLog, hasRedoLog, err := cache.stateDB.Redo().QueryLog(snapshotBlock.Height)
 		if err != nil {
-- 
2.43.0


From ea49d9c7f560e2ac5597132aba3177552a0d8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 28/41] fix: an introduction with a key of the wrong length
 crashed the node

---
 net/handshaker.go | 2 +-
 net/sync_conn.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/handshaker.go b/net/handshaker.go
index aab1a03..a422215 100644
--- a/net/handshaker.go
+++ b/net/handshaker.go
@@ -214,7 +214,7 @@ func (h *handshaker) verifyHandshake(their *HandshakeMsg, secret []byte) (err er
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(their.Key) != 0 {
-		if false == ed25519.Verify(their.Key, token, their.Token) {
+		if len(their.Key) != ed25519.PublicKeySize || false == ed25519.Verify(their.Key, token, their.Token) {
 			err = PeerInvalidSignature
 			return
 		}
diff --git a/net/sync_conn.go b/net/sync_conn.go
index cac0284..e20d4ef 100644
--- a/net/sync_conn.go
+++ b/net/sync_conn.go
@@ -271,7 +271,7 @@ func (d *defaultSyncConnectionFactory) receive(conn net2.Conn) (*syncConn, error
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(hk.key) != 0 {
-		if false == ed25519.Verify(hk.key, token, hk.token) {
+		if len(hk.key) != ed25519.PublicKeySize || false == ed25519.Verify(hk.key, token, hk.token) {
 			_ = c.c.WriteMsg(Msg{
 				Code:    CodeDisconnect,
 				Payload: []byte{byte(PeerInvalidSignature)},
-- 
2.43.0


From fca0523fc5416d80fd312c7c3a39decf5aeffbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 29/41] fix: bound the size of a decompressed message, refuse
 to send one that is too large

---
 net/codec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/net/codec.go b/net/codec.go
index 79a6d32..5c36689 100644
--- a/net/codec.go
+++ b/net/codec.go
@@ -238,6 +238,10 @@ func (t *transport) ReadMsg() (msg Msg, err error) {
 			err = fmt.Errorf("failed to decode message length: %v", err)
 			return
 		}
+		if payloadReadLength > maxPayloadSize {
+			err = errMsgPayloadTooLarge
+			return
+		}
 
 		payloadUncompressed := make([]byte, payloadReadLength)
 		payloadUncompressed, err = snappy.Decode(payloadUncompressed, msg.Payload)
@@ -254,6 +258,10 @@ func (t *transport) ReadMsg() (msg Msg, err error) {
 
 // WriteMsg is NOT thread-safe
 func (t *transport) WriteMsg(msg Msg) (err error) {
+	if len(msg.Payload) > maxPayloadSize {
+		return errMsgPayloadTooLarge
+	}
+
 	_ = t.SetWriteDeadline(time.Now().Add(t.writeTimeout))
 
 	head := t.writeHeadBuf[:]
-- 
2.43.0


From 5485e9072cf7d808aa71aeb7ce194dc793c07bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 30/41] fix: hash lists: a step of zero crashed the node, a
 list could start from a block the peer does not have

---
 net/msghandler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/msghandler.go b/net/msghandler.go
index 5c93c67..7806d0a 100644
--- a/net/msghandler.go
+++ b/net/msghandler.go
@@ -219,6 +219,7 @@ func (c *checkHandler) handleGetHashHeightList(get *GetHashHeightList) (code Cod
 		}
 		if block.Hash != hh.Hash {
 			c.log.Warn(fmt.Sprintf("snapshotblock at %d is %s not %s", hh.Height, block.Hash, hh.Hash))
+			block = nil
 			continue
 		}
 
@@ -230,6 +231,9 @@ func (c *checkHandler) handleGetHashHeightList(get *GetHashHeightList) (code Cod
 	}
 
 	step := get.Step
+	if step == 0 {
+		return CodeException, ExpMissing
+	}
 	start := (block.Height + 1) / step * step
 	if start < block.Height+1 {
 		start = block.Height + 1
-- 
2.43.0


From 662c591b813a1232b485a71a73576e4d29c71d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 31/41] fix: a request for very many blocks crashed the node

---
 net/msghandler.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/net/msghandler.go b/net/msghandler.go
index 7806d0a..0b1674c 100644
--- a/net/msghandler.go
+++ b/net/msghandler.go
@@ -2,6 +2,7 @@ package net
 
 import (
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -338,19 +339,20 @@ func (s *getSnapshotBlocksHandler) handle(msg Msg) (err error) {
 	if req.Forward {
 		from = block.Height
 		to = from + req.Count - 1
+		if req.Count > 0 && to < from {
+			to = math.MaxUint64
+		}
 	} else {
 		to = block.Height
 		if to >= req.Count {
 			from = to - req.Count + 1
 		} else {
-			from = 0
+			from = 1
 		}
 	}
 
-	chunks := splitChunk(from, to, syncTaskSize)
-
 	var blocks []*ledger.SnapshotBlock
-	for _, c := range chunks {
+	for c, ok := nextChunk(from, to, syncTaskSize); ok; c, ok = nextChunk(c[1]+1, to, syncTaskSize) {
 		blocks, err = s.chain.GetSnapshotBlocksByHeight(c[0], true, c[1]-c[0]+1)
 		if err != nil || len(blocks) == 0 {
 			netLog.Warn(fmt.Sprintf("handle %s from %s error: %v", req, msg.Sender, err))
@@ -421,19 +423,20 @@ func (a *getAccountBlocksHandler) handle(msg Msg) (err error) {
 	if req.Forward {
 		from = block.Height
 		to = from + req.Count - 1
+		if req.Count > 0 && to < from {
+			to = math.MaxUint64
+		}
 	} else {
 		to = block.Height
 		if to >= req.Count {
 			from = to - req.Count + 1
 		} else {
-			from = 0
+			from = 1
 		}
 	}
 
-	chunks := splitChunk(from, to, syncTaskSize)
-
 	var blocks []*ledger.AccountBlock
-	for _, c := range chunks {
+	for c, ok := nextChunk(from, to, syncTaskSize); ok; c, ok = nextChunk(c[1]+1, to, syncTaskSize) {
 		blocks, err = a.chain.GetAccountBlocksByHeight(address, c[1], c[1]-c[0]+1)
 		if err != nil || len(blocks) == 0 {
 			netLog.Warn(fmt.Sprintf("handle %s from %s error: %v", req, msg.Sender, err))
@@ -545,6 +548,19 @@ func (s stateHandler) handle(msg Msg) (err error) {
 	return
 }
 
+// nextChunk is the first chunk of [from, to], it is not ok if nothing is left.
+func nextChunk(from, to uint64, size uint64) (chunk [2]uint64, ok bool) {
+	if from == 0 || from > to {
+		return
+	}
+
+	if to-from >= size {
+		to = from + size - 1
+	}
+
+	return [2]uint64{from, to}, true
+}
+
 func splitChunk(from, to uint64, size uint64) (chunks [][2]uint64) {
 	// chunks may be only one block, then from == to
 	if from > to || to == 0 {
-- 
2.43.0


From 2a493696edfbfc4fcaf1707fe23aa0422a610ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 32/41] fix: the limit of inbound peers was never applied

---
 net/handshaker.go | 2 +-
 net/net.go        | 2 +-
 net/peer.go       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/handshaker.go b/net/handshaker.go
index a422215..3f4a385 100644
--- a/net/handshaker.go
+++ b/net/handshaker.go
@@ -313,7 +313,7 @@ func (h *handshaker) ReceiveHandshake(conn _net.Conn) (c Codec, their *Handshake
 		return
 	}
 
-	superior, err = h.onHandshaker(c, PeerFlagOutbound, their)
+	superior, err = h.onHandshaker(c, PeerFlagInbound, their)
 	if err != nil {
 		return
 	}
diff --git a/net/net.go b/net/net.go
index b427f06..5ddb32c 100644
--- a/net/net.go
+++ b/net/net.go
@@ -224,7 +224,7 @@ func (n *net) authorize(c Codec, flag PeerFlag, msg *HandshakeMsg) (superior boo
 		return
 	}
 
-	if n.peers.inboundWithoutSBP() >= (n.config.MaxPeers / n.config.MaxInboundRatio) {
+	if flag == PeerFlagInbound && n.peers.inboundWithoutSBP() >= (n.config.MaxPeers / n.config.MaxInboundRatio) {
 		err = PeerTooManyInboundPeers
 		return
 	}
diff --git a/net/peer.go b/net/peer.go
index 15b3522..738915e 100644
--- a/net/peer.go
+++ b/net/peer.go
@@ -775,7 +775,7 @@ func (m *peerSet) inboundWithoutSBP() (n int) {
 		if p.Superior {
 			continue
 		}
-		if p.Flag.is(PeerFlagInbound) {
+		if p.Flag == PeerFlagInbound {
 			n++
 		}
 	}
-- 
2.43.0


From bf4f120b2f78c42605e04b3f577b6cbdd4d0860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:55 +0000
Subject: [PATCH 33/41] fix: unsubscribing from snapshot blocks had no effect,
 or ended a subscription to account blocks

---
 net/block_feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/block_feed.go b/net/block_feed.go
index af4a442..268b005 100644
--- a/net/block_feed.go
+++ b/net/block_feed.go
@@ -60,7 +60,7 @@ func (bf *blockFeed) SubscribeSnapshotBlock(fn SnapshotBlockCallback) (subId int
 }
 
 func (bf *blockFeed) UnsubscribeSnapshotBlock(subId int) {
-	delete(bf.aSubs, subId)
+	delete(bf.bSubs, subId)
 }
 
 func (bf *blockFeed) notifySnapshotBlock(block *ledger.SnapshotBlock, source types.BlockSource) {
-- 
2.43.0


From a2423d61c8a3059cb49fd149839d6a6379a27b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:55 +0000
Subject: [PATCH 34/41] fix: an invalid copy of a broadcast block suppressed
 the valid block

---
 net/broadcaster.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/net/broadcaster.go b/net/broadcaster.go
index e5ec222..afe33cd 100644
--- a/net/broadcaster.go
+++ b/net/broadcaster.go
@@ -468,8 +468,8 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 		// use the compute hash, because computeHash can`t be forged
 		hash := block.ComputeHash()
 
-		// check if has exist or record, return true if has exist
-		if exist := b.filter.TestAndAdd(hash[:]); exist {
+		// record it only after verified, or an invalid copy will suppress the valid block
+		if exist := b.filter.Test(hash[:]); exist {
 			return nil
 		}
 
@@ -478,6 +478,11 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 			return err
 		}
 
+		// check if has exist or record, return true if has exist
+		if exist := b.filter.TestAndAdd(hash[:]); exist {
+			return nil
+		}
+
 		if nb.TTL > 0 {
 			nb.TTL--
 			b.forwardSnapshotBlock(nb, msg.Sender)
@@ -514,8 +519,8 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 		// use the compute hash, because computeHash can`t be forged
 		hash := block.ComputeHash()
 
-		// check if has exist or record, return true if has exist
-		if exist := b.filter.TestAndAdd(hash[:]); exist {
+		// record it only after verified, or an invalid copy will suppress the valid block
+		if exist := b.filter.Test(hash[:]); exist {
 			return nil
 		}
 
@@ -533,6 +538,7 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 			pickItem.pick()
 			if confirmTimes, _ := b.chain.GetConfirmedTimes(hash); confirmTimes > 100 {
 				pickItem.fail()
+				b.filter.Add(hash[:])
 				b.log.Warn(fmt.Sprintf("receive new accountblock %s from %s: confirmed times %d too old", block.Hash, msg.Sender, confirmTimes))
 				return
 			}
@@ -543,6 +549,11 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 			return err
 		}
 
+		// check if has exist or record, return true if has exist
+		if exist := b.filter.TestAndAdd(hash[:]); exist {
+			return nil
+		}
+
 		if nb.TTL > 0 {
 			nb.TTL--
 			b.forwardAccountBlock(nb, msg.Sender)
-- 
2.43.0


From 906597ffdf0ebd431a7e6ad9853b84552494aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:39 +0000
Subject: [PATCH 35/41] fix: blocks kept during a download were lost from the
 second download on

---
 net/broadcaster.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/broadcaster.go b/net/broadcaster.go
index afe33cd..aad1919 100644
--- a/net/broadcaster.go
+++ b/net/broadcaster.go
@@ -63,6 +63,7 @@ func (m *memBlockStore) dequeueAccountBlock() (block *ledger.AccountBlock) {
 
 	if m.aIndex > len(m.ablocks)-1 {
 		m.ablocks = m.ablocks[:0]
+		m.aIndex = 0
 		return
 	}
 
@@ -87,6 +88,7 @@ func (m *memBlockStore) dequeueSnapshotBlock() (block *ledger.SnapshotBlock) {
 
 	if m.sIndex > len(m.sblocks)-1 {
 		m.sblocks = m.sblocks[:0]
+		m.sIndex = 0
 		return
 	}
 
-- 
2.43.0


From 05744365d57403c1f62a8881c847492e25cbb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:17 +0000
Subject: [PATCH 36/41] fix: a peer's report of a lost connection removed
 another neighbour

---
 net/peer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/peer.go b/net/peer.go
index 738915e..16878ad 100644
--- a/net/peer.go
+++ b/net/peer.go
@@ -421,11 +421,11 @@ func (p *Peer) setPeers(ps []peerConn, patch bool) {
 	}
 
 	for _, c := range ps {
+		id, err = vnode.Bytes2NodeID(c.id)
+		if err != nil {
+			continue
+		}
 		if c.add {
-			id, err = vnode.Bytes2NodeID(c.id)
-			if err != nil {
-				continue
-			}
 			p.m[id] = struct{}{}
 		} else {
 			delete(p.m, id)
-- 
2.43.0


From 0909ba2fcfddedb849ff7046688b6ddb1e250df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:54 +0000
Subject: [PATCH 37/41] fix: logs of several addresses carry their own address,
 come in a fixed order and fit the page

---
 rpcapi/api/ledger_v2.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rpcapi/api/ledger_v2.go b/rpcapi/api/ledger_v2.go
index b8b212c..0ebef22 100644
--- a/rpcapi/api/ledger_v2.go
+++ b/rpcapi/api/ledger_v2.go
@@ -1,8 +1,10 @@
 package api
 
 import (
+	"bytes"
 	"fmt"
 	"math/big"
+	"sort"
 
 	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/errors"
 	"github.com/vitelabs/go-vite/v2/common/types"
@@ -457,7 +459,20 @@ func GetLogs(c chain.Chain, rangeMap map[string]*Range, topics [][]types.Hash, p
 
 	var logs []*Logs
 	var maxSizeReached bool
-	for addr, hr := range filterParam.AddrRange {
+	// pages need a fixed order of the addresses
+	addrList := make([]types.Address, 0, len(filterParam.AddrRange))
+	for addr := range filterParam.AddrRange {
+		addrList = append(addrList, addr)
+	}
+	sort.Slice(addrList, func(i, j int) bool {
+		return bytes.Compare(addrList[i].Bytes(), addrList[j].Bytes()) < 0
+	})
+	for i := range addrList {
+		if maxSizeReached {
+			break
+		}
+		addr := addrList[i]
+		hr := filterParam.AddrRange[addr]
 		startHeight := hr.FromHeight
 		endHeight := hr.ToHeight
 		acc, err := c.GetLatestAccountBlock(addr)
-- 
2.43.0


From 2129686b3fc14661b248d732b3ff9d2485a2d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:54 +0000
Subject: [PATCH 38/41] fix: the summary of unreceived funds counts unconfirmed
 sends made by contracts

---
 ledger/chain/plugins/onroad_info.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ledger/chain/plugins/onroad_info.go b/ledger/chain/plugins/onroad_info.go
index 2aee7b5..f1fda76 100644
--- a/ledger/chain/plugins/onroad_info.go
+++ b/ledger/chain/plugins/onroad_info.go
@@ -374,6 +374,9 @@ func (or *OnRoadInfo) addUnconfirmed(blocks []*ledger.AccountBlock) {
 		if v == nil {
 			continue
 		}
+		// the sends a contract receive triggers
+		or.addUnconfirmed(v.SendBlockList)
+
 		var addr types.Address
 		if v.IsSendBlock() {
 			addr = v.ToAddress
@@ -397,6 +400,9 @@ func (or *OnRoadInfo) removeUnconfirmed(blocks []*ledger.AccountBlock) {
 		if v == nil {
 			continue
 		}
+		// the sends a contract receive triggers
+		or.removeUnconfirmed(v.SendBlockList)
+
 		var addr types.Address
 		if v.IsSendBlock() {
 			addr = v.ToAddress
-- 
2.43.0


From cdad4c77d9886f813f9fa48c0aaa5151f123b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:54 +0000
Subject: [PATCH 39/41] fix: the token history can be read from a block listed
 for a send it triggered

---
 ledger/chain/plugins/filter_token.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/plugins/filter_token.go b/ledger/chain/plugins/filter_token.go
index a214ff8..9ba6bbf 100644
--- a/ledger/chain/plugins/filter_token.go
+++ b/ledger/chain/plugins/filter_token.go
@@ -113,7 +113,11 @@ func (ft *FilterToken) GetBlocks(addr types.Address, tokenId types.TokenTypeId,
 			} else {
 				blockTokenId = block.TokenId
 			}
-			if blockTokenId != tokenId {
+			hasToken := blockTokenId == tokenId
+			for _, sendBlock := range block.SendBlockList {
+				hasToken = hasToken || sendBlock.TokenId == tokenId
+			}
+			if !hasToken {
 				return nil, nil
 			}
 		}
-- 
2.43.0


From d433f6deac9723821e45290e8fed59262ef414a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:54 +0000
Subject: [PATCH 40/41] fix: a rollback leaves no stale entries in the token
 history on disk

---
 ledger/chain/plugins/filter_token.go | 4 ++--
 ledger/chain/plugins/plugins.go      | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/ledger/chain/plugins/filter_token.go b/ledger/chain/plugins/filter_token.go
index 9ba6bbf..9304521 100644
--- a/ledger/chain/plugins/filter_token.go
+++ b/ledger/chain/plugins/filter_token.go
@@ -84,8 +84,8 @@ func (ft *FilterToken) DeleteSnapshotBlocks(batch *leveldb.Batch, chunks []*ledg
 	}
 	return nil
 }
-func (ft *FilterToken) RemoveNewUnconfirmed(*leveldb.Batch, []*ledger.AccountBlock) error {
-	return nil
+func (ft *FilterToken) RemoveNewUnconfirmed(rollbackBatch *leveldb.Batch, allUnconfirmedBlocks []*ledger.AccountBlock) error {
+	return ft.DeleteAccountBlocks(rollbackBatch, allUnconfirmedBlocks)
 }
 
 func (ft *FilterToken) GetBlocks(addr types.Address, tokenId types.TokenTypeId, blockHash *types.Hash, count uint64) ([]*ledger.AccountBlock, error) {
diff --git a/ledger/chain/plugins/plugins.go b/ledger/chain/plugins/plugins.go
index 55cfe27..23fac58 100644
--- a/ledger/chain/plugins/plugins.go
+++ b/ledger/chain/plugins/plugins.go
@@ -279,15 +279,14 @@ func (p *Plugins) DeleteSnapshotBlocks(chunks []*ledger.SnapshotChunk) error {
 
 	p.store.RollbackSnapshot(rollbackBatch)
 
-	for _, plugin := range p.plugins {
+	for _, unconfirmedBlock := range allUnconfirmedBlocks {
 		batch := p.store.NewBatch()
-		for _, unconfirmedBlock := range allUnconfirmedBlocks {
-			if err := plugin.InsertAccountBlock(rollbackBatch, unconfirmedBlock); err != nil {
+		for _, plugin := range p.plugins {
+			if err := plugin.InsertAccountBlock(batch, unconfirmedBlock); err != nil {
 				return err
 			}
-			p.store.WriteAccountBlock(batch, unconfirmedBlock)
 		}
-
+		p.store.WriteAccountBlock(batch, unconfirmedBlock)
 	}
 	return nil
 }
-- 
2.43.0


From 84e237bffffef2b914cfcf62eb0c01f2f2612e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:54 +0000
Subject: [PATCH 41/41] fix: a genesis token that changed hands is listed once
 for its owner

---
 rpcapi/api/mintage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rpcapi/api/mintage.go b/rpcapi/api/mintage.go
index e38d219..b2b818c 100644
--- a/rpcapi/api/mintage.go
+++ b/rpcapi/api/mintage.go
@@ -92,8 +92,16 @@ func (m MintageAPI) GetChangeTokenTypeData(tokenId types.TokenTypeId) ([]byte, e
 }
 
 func checkGenesisToken(db interfaces.VmDb, owner types.Address, genesisTokenInfoMap map[string]*config.TokenInfo, tokenList []*RpcTokenInfo) ([]*RpcTokenInfo, error) {
+	listed := make(map[types.TokenTypeId]bool, len(tokenList))
+	for _, token := range tokenList {
+		listed[token.TokenId] = true
+	}
 	for tidStr := range genesisTokenInfoMap {
 		tid, _ := types.HexToTokenTypeId(tidStr)
+		if listed[tid] {
+			// a genesis token the owner got by a transfer is listed already
+			continue
+		}
 		info, err := abi.GetTokenByID(db, tid)
 		if err != nil {
 			return nil, err
-- 
2.43.0

