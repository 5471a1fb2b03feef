From cc25b50cabfa4cbdd5d3b4cdec34e36df20852de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 01/71] fix: a heartbeat accepted as the timer expires restarts
 the full timeout

A tick that fired before the timer was reset stayed in the ticker channel (go 1.22
timer semantics), so an item or lock whose heartbeat had just been accepted timed out at once.
---
 internal/heartbeater/heartbeater.go            | 7 +++++++
 internal/locker/lock_manager/exclusive_lock.go | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 108295d..4329fb8 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -107,6 +107,13 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 		case <-h.heartbeaterChan:
 			// in this case, the client sent a heartbeat so reset the time
 			h.setLastHeartbeat()
+
+			// drop a tick that fired while the heartbeat was being accepted, so the full timeout is available again
+			timer.Stop()
+			select {
+			case <-timer.C:
+			default:
+			}
 			timer.Reset(h.timeout)
 		}
 	}
diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..7028f6b 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -170,7 +170,12 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 						exclusiveLock.lastHeartbeat = time.Now()
 						exclusiveLock.lastHeartbeatLock.Unlock()
 
-						// update the ticker
+						// update the ticker, dropping a tick that fired while the heartbeat was being accepted
+						ticker.Stop()
+						select {
+						case <-ticker.C:
+						default:
+						}
 						ticker.Reset(exclusiveLock.lockTimeout)
 
 						exclusiveLock.heartbeatResponse <- true
-- 
2.43.0


From aa62644a7e4628452b55baf2bab33a58b4b43eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 02/71] fix: comparison queries respect both ends of the type
 restrictions

A less than query visited values above MaxDataType and a greater than query values below
MinDataType when the queried value's own type is outside of the restrictions.
---
 internal/datastructures/btree/threadsafe_find.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..802c5dc 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -291,7 +291,7 @@ func (bn *threadSafeBNode) findLessThan(key datatypes.EncapsulatedValue, typeRes
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -415,7 +415,7 @@ func (bn *threadSafeBNode) findLessThanOrEqual(key datatypes.EncapsulatedValue,
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -533,8 +533,8 @@ func (bn *threadSafeBNode) findGreaterThan(key datatypes.EncapsulatedValue, type
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the restriction or the key we are searching for
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) || keyValue.key.LessMatchType(key) {
 			continue
 		}
 
@@ -637,8 +637,8 @@ func (bn *threadSafeBNode) findGreaterThanOrEqual(key datatypes.EncapsulatedValu
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the restriction or the key we are searching for
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) || keyValue.key.LessMatchType(key) {
 			continue
 		}
 
-- 
2.43.0


From db882e1bb5bd27e36b8424bff942b98684971c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 03/71] fix: a query whose type restrictions exclude its value
 releases the tree lock

Find, FindLessThan and FindLessThanOrEqual kept the read lock of the tree forever, so the
next create or delete never returned.
---
 internal/datastructures/btree/threadsafe_find.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 802c5dc..050a6c5 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -55,6 +55,9 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(key, func(item any) {
 					shouldContinue = onIterate(key, item)
 				})
+			} else if typeRestrictions.MaxDataType < datatypes.T_any {
+				// nothing can match
+				btree.lock.RUnlock()
 			}
 
 			// check for Any
@@ -257,6 +260,9 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			}
 
 			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can match
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -381,6 +387,9 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			}
 
 			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can match
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
-- 
2.43.0


From 4c2079891d90bde0220bfd404582963ee0d8b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 04/71] fix: a declined create does not drop a value of the
 tree

The values of a leaf were shifted before the onCreate callback ran, so when the callback
declined, one value was duplicated and the greatest value of the leaf was lost.
---
 .../datastructures/btree/threadsafe_create.go | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..fce97ea 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -308,16 +308,17 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
+			// found the index for the new value
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift the greater values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +343,17 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
+			// found the index for the new value
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift the greater values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From 0bce15d3aeed68b965d19c17fb8d5ec16a9af3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 05/71] fix: Empty is true for a tree whose only create was
 declined

---
 internal/datastructures/btree/threadsafe_b_tree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..1c20d7d 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -92,7 +92,15 @@ func (bt *threadSafeBTree) Empty() bool {
 	bt.lock.RLock()
 	defer bt.lock.RUnlock()
 
-	return bt.root == nil
+	if bt.root == nil {
+		return true
+	}
+
+	// a declined create can leave a root without any values
+	bt.root.lock.RLock()
+	defer bt.root.lock.RUnlock()
+
+	return bt.root.numberOfValues == 0
 }
 
 // general helper functions
-- 
2.43.0


From ecc8541379f04df56694adca76f05ec1d7f7e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 06/71] fix: stopping an iteration releases the locks that were
 taken

iterate() collects only the children that can match, but released the locks by the index of
all the children. An early stop unlocked nodes that were not locked and left others locked.
---
 internal/datastructures/btree/threadsafe_find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 050a6c5..7b4481b 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -171,7 +171,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
-- 
2.43.0


From 937f12ff2e17e97366380e270bf520ddb07a9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 07/71] fix: a greater than query above its type restrictions
 releases the tree lock

---
 internal/datastructures/btree/threadsafe_find.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 7b4481b..e072670 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -520,6 +520,9 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			// nothing can match
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -624,6 +627,9 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			// nothing can match
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
-- 
2.43.0


From 875fb384503694ddfc2ba6408bd061eaf79b9ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 08/71] fix: DestroyAll does not panic when operations start
 while it waits

A sync.WaitGroup must not be reused before Wait returned: an operation that began (only to be
refused) between the last operation finishing and Wait returning crashed the process.
---
 .../datastructures/btree/threadsafe_b_tree.go | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index 1c20d7d..07739cf 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -23,8 +23,8 @@ type threadSafeBTree struct {
 	destroyingKeys     []datatypes.EncapsulatedValue
 
 	// destroying whole tree operations
-	readWriteWG *sync.WaitGroup // operations to take place before destroy
-	destroying  *atomic.Bool    // destroying the whole tree
+	readWriteWG *operationsGroup // operations to take place before destroy
+	destroying  *atomic.Bool     // destroying the whole tree
 
 	// lock for managing the root of the btree
 	lock *sync.RWMutex
@@ -33,6 +33,40 @@ type threadSafeBTree struct {
 	root *threadSafeBNode
 }
 
+// operationsGroup counts the operations in flight. It is used over a sync.WaitGroup since new operations
+// can start (and be refused) while DestroyAll is waiting for the current ones, which panics for a WaitGroup
+type operationsGroup struct {
+	lock  *sync.Mutex
+	done  *sync.Cond
+	count int
+}
+
+func newOperationsGroup() *operationsGroup {
+	lock := new(sync.Mutex)
+	return &operationsGroup{lock: lock, done: sync.NewCond(lock)}
+}
+
+// Add records that an operation started (1), or finished (-1)
+func (og *operationsGroup) Add(delta int) {
+	og.lock.Lock()
+	defer og.lock.Unlock()
+
+	og.count += delta
+	if og.count == 0 {
+		og.done.Broadcast()
+	}
+}
+
+// Wait until there are no operations in flight
+func (og *operationsGroup) Wait() {
+	og.lock.Lock()
+	defer og.lock.Unlock()
+
+	for og.count != 0 {
+		og.done.Wait()
+	}
+}
+
 // threadSafeBNode is the internal node for a threadSafeBTree
 type threadSafeBNode struct {
 	lock *sync.RWMutex
@@ -76,7 +110,7 @@ func NewThreadSafe(nodeSize int) (*threadSafeBTree, error) {
 		destroyingKeysLock: new(sync.RWMutex),
 		destroyingKeys:     []datatypes.EncapsulatedValue{},
 
-		readWriteWG: new(sync.WaitGroup),
+		readWriteWG: newOperationsGroup(),
 		destroying:  new(atomic.Bool),
 
 		lock: new(sync.RWMutex),
-- 
2.43.0


From 57fd1cc3b10b899308575d28c80835acda359af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 09/71] fix: a declined create leaves nothing of itself in the
 associated tree

The new id stayed visible after the locks were released and the cleanup deleted by key values. Other
callers could find the id of an item that never existed, and the cleanup panicked when the tree was
about to be destroyed.
---
 .../btree_associated/threadsafe_associated.go | 12 ++++++++++
 .../btree_associated/threadsafe_create.go     | 18 ++++++++-------
 .../btree_associated/threadsafe_delete.go     | 22 +++++++++----------
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_associated.go b/internal/datastructures/btree_associated/threadsafe_associated.go
index 493f295..2827ff9 100644
--- a/internal/datastructures/btree_associated/threadsafe_associated.go
+++ b/internal/datastructures/btree_associated/threadsafe_associated.go
@@ -81,3 +81,15 @@ func newIDNode() *threadsafeIDNode {
 		ids:      [][]string{},
 	}
 }
+
+// truncate removes the trailing groups that have no ids to free memory. The lock must be held by the caller
+func (idNode *threadsafeIDNode) truncate() {
+	for i := len(idNode.ids) - 1; i >= 0; i-- {
+		if len(idNode.ids[i]) != 0 {
+			// don't process anymore since we found a value
+			break
+		}
+
+		idNode.ids = idNode.ids[:i]
+	}
+}
diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..f50c098 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -165,16 +165,16 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the new ID before anyone can find it and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+			idNode.truncate()
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
-			panic(err)
-		}
+		// clean any newly created items
+		tsat.removeEmptyIndexes(keyValues)
 
 		// on create failed, so return empty and nil. Caller should know?
 		return "", nil
@@ -332,14 +332,16 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the new ID before anyone can find it and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+			idNode.truncate()
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean any newly created items
+		tsat.removeEmptyIndexes(keyValues)
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..4eba2b3 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -134,14 +134,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 					}
 
 					// truncate the IDNode to free memory
-					for i := len(idNode.ids) - 1; i >= 0; i-- {
-						if len(idNode.ids[i]) == 0 {
-							idNode.ids = idNode.ids[:len(idNode.ids)-1]
-						} else {
-							// don't process anymore since we found a value
-							break
-						}
-					}
+					idNode.truncate()
 				}
 			}
 		}
@@ -153,6 +146,13 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 
 	// remove the KEYs and VALUEs if there are no more saved IDs
+	tsat.removeEmptyIndexes(keyValues)
+
+	return nil
+}
+
+// removeEmptyIndexes removes the KEYs and VALUEs that have no more saved IDs and are not part of a create
+func (tsat *threadsafeAssociatedTree) removeEmptyIndexes(keyValues datatypes.KeyValues) {
 	deleteValue := func(_ datatypes.EncapsulatedValue, item any) bool {
 		// don't need to lock here. BTree has exclusive lock access already
 		idNode := item.(*threadsafeIDNode)
@@ -176,13 +176,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 
 	// cleanup any indexes that are now empty
-	for _, key := range sortedKeys {
+	for _, key := range keyValues.SortedKeys() {
 		if err := tsat.keys.Delete(datatypes.String(key), deleteKey(key)); err != nil {
-			return err
+			panic(err)
 		}
 	}
-
-	return nil
 }
 
 // DeleteByAssociatedID removes an item from the associated tree by the associatedID.
-- 
2.43.0


From 4050150fe847da44dc817db95850d7486348a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 10/71] fix: deleting an item that is being destroyed releases
 the id locks

---
 internal/datastructures/btree_associated/threadsafe_delete.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index 4eba2b3..dcda268 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -111,6 +111,10 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 
 			// try and delte the ID's value from the tree
 			if err := tsat.associatedIDs.Delete(datatypes.String(idToDelete), btreeDelete); err != nil {
+				for _, idNode := range idNodes {
+					idNode.lock.Unlock()
+				}
+
 				switch err {
 				case btree.ErrorKeyDestroying:
 					// this is fine since the key is already being desstroyed.
-- 
2.43.0


From f77d5ab9026592623c3414e581d727bb45f3632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 11/71] fix: a match continues after an item that was removed
 or is destroying

---
 internal/datastructures/btree_associated/threadsafe_match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..7643843 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,8 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			// an item can be removed or destroying by now, those are skipped
+			shouldContinue := true
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From 7e7540d59a8de6893346f9860c25ef75ffa60384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 12/71] fix: DeleteByAssociatedID only removes the item with
 the id

The key values of the item were looked up first and then deleted. An item that was created with the
same key values in between was deleted instead. An item that is being destroyed is reported.
---
 .../btree_associated/threadsafe_delete.go     | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index dcda268..0d64ca4 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -6,7 +6,6 @@ import (
 	"github.com/DanLavine/willow/internal/datastructures/btree"
 	"github.com/DanLavine/willow/internal/datastructures/set"
 	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
-	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
 	"github.com/DanLavine/willow/pkg/models/datatypes"
 )
 
@@ -35,6 +34,12 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	return tsat.deleteItem(keyValues, "", canDelete)
+}
+
+// deleteItem removes the item for the key values. If there is an associatedID, then only that item is removed and not
+// another one which has been created with the same key values since
+func (tsat *threadsafeAssociatedTree) deleteItem(keyValues datatypes.KeyValues, associatedID string, canDelete BTreeAssociatedRemove) error {
 	var idSet set.Set[string]
 	idNodes := []*threadsafeIDNode{}
 
@@ -97,7 +102,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 
 		// if there is only 1 value in the set, then we know that we found the desired object id
-		if idSet != nil && idSet.Size() == 1 {
+		if idSet != nil && idSet.Size() == 1 && (associatedID == "" || associatedID == idSet.Values()[0]) {
 			deleted := true
 			idToDelete := idSet.Values()[0]
 
@@ -213,23 +218,22 @@ func (tsat *threadsafeAssociatedTree) DeleteByAssociatedID(assocaitedID string,
 
 	var keyValues datatypes.KeyValues
 
-	onFind := func(item AssociatedKeyValues) bool {
-		keyValues = item.KeyValues()
+	onFind := func(_ datatypes.EncapsulatedValue, item any) bool {
+		keyValues = item.(AssociatedKeyValues).KeyValues()
 		return false
 	}
 
-	query := queryassociatedaction.AssociatedActionQuery{
-		Selection: &queryassociatedaction.Selection{
-			IDs: []string{assocaitedID},
-		},
-	}
-
-	if err := tsat.QueryAction(&query, onFind); err != nil {
-		return err
+	if err := tsat.associatedIDs.Find(datatypes.String(assocaitedID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
+		switch err {
+		case btree.ErrorKeyDestroying:
+			return ErrorTreeItemDestroying
+		default:
+			panic(err)
+		}
 	}
 
 	if keyValues != nil {
-		return tsat.Delete(keyValues, canDelete)
+		return tsat.deleteItem(keyValues, assocaitedID, canDelete)
 	}
 
 	return nil
-- 
2.43.0


From b5497add50c00ec0ee8e8d048c2f1fb4342c6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 13/71] fix: destroying an item by its id does not deadlock
 with other operations on its key values

The key values were cleaned up while the associated ids were locked, create and delete lock them in
the other order. An item whose key values are not yet removed is reported as destroying.
---
 .../btree_associated/threadsafe_create.go     |  7 ++++
 .../btree_associated/threadsafe_destroy.go    | 38 ++++++++++---------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index f50c098..65e4128 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -270,7 +270,9 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
@@ -297,6 +299,11 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 
+		// the item was just destroyed and only the key values are not yet removed
+		if !found {
+			return "", ErrorTreeItemDestroying
+		}
+
 		return idSet.Values()[0], nil
 	}
 
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..fdb5584 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,6 +24,8 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	var keyValues datatypes.KeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
@@ -35,8 +37,7 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 			}
 		}
 
-		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
+		keyValues = associatedKeyValues.KeyValues()
 
 		return true
 	}
@@ -51,6 +52,11 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// 2. the item was destroyed, need to remove the KeyValues that define the item.
+	// NOTE: This cannot be done as part of the callback. The associated ids are locked there and all other operations
+	// lock the key values before the associated ids
+	tsat.destroyKeyValues(associatedID, keyValues)
+
 	return nil
 }
 
@@ -99,24 +105,20 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 			idNode.lock.Lock()
 			defer idNode.lock.Unlock()
 
-			// remove the id from the id node
-			for index, value := range idNode.ids[keyLength-1] {
-				if value == idToDelete {
-					// swap with last element
-					idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
-					// pop last element
-					idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
+			// remove the id from the id node, unless a delete already did
+			if len(idNode.ids) >= keyLength {
+				for index, value := range idNode.ids[keyLength-1] {
+					if value == idToDelete {
+						// swap with last element
+						idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
+						// pop last element
+						idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
+						break
+					}
 				}
-			}
 
-			// truncate the IDNode to free memory
-			for i := len(idNode.ids) - 1; i >= 0; i-- {
-				if len(idNode.ids[i]) == 0 {
-					idNode.ids = idNode.ids[:len(idNode.ids)-1]
-				} else {
-					// don't process anymore since we found a value
-					break
-				}
+				// truncate the IDNode to free memory
+				idNode.truncate()
 			}
 
 			return len(idNode.ids) == 0 && idNode.creating.Load() == 0
-- 
2.43.0


From 8261e7394336de0fa8d16d3e08826e81dac48dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 14/71] fix: a query with empty And and Or lists selects
 everything

---
 .../datastructures/btree_associated/threadsafe_query.go    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..24add4d 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -39,7 +39,7 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 	defer tsat.destroySyncer.ClearOperation()
 
 	// select all
-	if query.Selection == nil && query.And == nil && query.Or == nil {
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
 		wrappedPagination := func(_ datatypes.EncapsulatedValue, item any) bool {
 			return onQueryPagination(item.(AssociatedKeyValues))
 		}
@@ -85,6 +85,11 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 //	PARAMS:
 //	- query - They user provided query to parse through
 func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.AssociatedActionQuery) set.Set[string] {
+	// select all
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
+		return tsat.findIDs(&queryassociatedaction.Selection{})
+	}
+
 	// need to filter for key values
 	var validIDs set.Set[string]
 	validCounter := 0
-- 
2.43.0


From a72b5a905e7e796c3838b7c883bbf78139325c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 15/71] fix: a query with NotEquals filters items that are
 created while it runs

---
 .../btree_associated/threadsafe_query.go      | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index 24add4d..d7f0265 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -209,6 +209,10 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 	validIDs := set.New[string]()
 	invalidIDs := set.New[string]()
 
+	// the NotEquals keys are looked up last, after all the IDs they filter are collected. Otherwise, an item that
+	// is created between the two lookups would not be filtered
+	notEqualsKeys := []string{}
+
 	for _, queryKey := range associatedSelection.SortedKeys() {
 		allIDS := []string{}
 		associatedValue := associatedSelection.KeyValues[queryKey]
@@ -229,19 +233,7 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 				validIDs.AddBulk(allIDS)
 			}
 		case v1common.NotEquals:
-			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
-				valuesNode := item.(*threadsafeValuesNode)
-
-				_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
-				return false
-			})
-
-			if invalidAdded {
-				invalidIDs.Intersection(allIDS)
-			} else {
-				invalidAdded = true
-				invalidIDs.AddBulk(allIDS)
-			}
+			notEqualsKeys = append(notEqualsKeys, queryKey)
 		case v1common.LessThan:
 			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				valuesNode := item.(*threadsafeValuesNode)
@@ -322,6 +314,25 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 		})
 	}
 
+	for _, queryKey := range notEqualsKeys {
+		allIDS := []string{}
+		associatedValue := associatedSelection.KeyValues[queryKey]
+
+		_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
+			valuesNode := item.(*threadsafeValuesNode)
+
+			_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
+			return false
+		})
+
+		if invalidAdded {
+			invalidIDs.Intersection(allIDS)
+		} else {
+			invalidAdded = true
+			invalidIDs.AddBulk(allIDS)
+		}
+	}
+
 	// filter the IDs to a list of what is only acceptable
 	for _, id := range invalidIDs.Values() {
 		validIDs.Remove(id)
-- 
2.43.0


From d969b6a25186d01461f6cdfabb17aae5060cdcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 16/71] fix: MatchKeyValues excludes the same items for several
 NotEquals as a query

---
 .../api/common/v1/query_associated_action/selection.go    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/selection.go b/pkg/models/api/common/v1/query_associated_action/selection.go
index 521a08b..d2b8823 100644
--- a/pkg/models/api/common/v1/query_associated_action/selection.go
+++ b/pkg/models/api/common/v1/query_associated_action/selection.go
@@ -94,6 +94,9 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
+	// several NotEquals exclude the combination of all their values, as they do when querying the associated tree
+	notEquals, excluded := 0, 0
+
 	// need to validate all the keys in the query against the passed in keyValues
 	for queryKey, valueQuery := range associatedSelection.KeyValues {
 		switch valueQuery.Comparison {
@@ -112,11 +115,12 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 				return false
 			}
 		case v1.NotEquals:
+			notEquals++
 			if matchValue, ok := matchKeyValues[queryKey]; ok {
 				if valueQuery.TypeRestrictions.TypeWithinRange(matchValue.Type) {
 					// the exact key we don't want to find
 					if !matchValue.Less(valueQuery.Value) && !valueQuery.Value.Less(matchValue) {
-						return false
+						excluded++
 					}
 				}
 			}
@@ -245,5 +249,5 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
-	return true
+	return notEquals == 0 || excluded != notEquals
 }
-- 
2.43.0


From 122b11fb8c5105285165135650906d5f290a9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 17/71] fix: MatchTags does not match everything for a query
 with only Or values

---
 .../v1/query_associated_action/associated_action_query.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..5c5c2f1 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,8 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// an empty query matches everything. With only OR values, one of those needs to match
+	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From d560178c12e8f01b71f73c3e519219404bb33f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 18/71] fix: an item of the one to many tree always has its ID

---
 .../btree_one_to_many/one_to_many_item.go       | 17 ++++++++++++++++-
 .../btree_one_to_many/threadsafe_create.go      | 14 ++------------
 .../btree_one_to_many/threadsafe_delete.go      |  2 +-
 .../btree_one_to_many/threadsafe_destroy.go     |  4 ++--
 .../btree_one_to_many/threadsafe_match.go       |  2 +-
 .../btree_one_to_many/threadsafe_query.go       |  2 +-
 6 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index 6f0d648..b6818ee 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -1,6 +1,9 @@
 package btreeonetomany
 
-import "github.com/DanLavine/willow/pkg/models/datatypes"
+import (
+	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/pkg/models/datatypes"
+)
 
 type OneToManyItem interface {
 	// return the original value for the item saved in the tree
@@ -27,6 +30,18 @@ type oneToManyItem struct {
 	manyKeyValues datatypes.KeyValues
 }
 
+// the ID of an item is generated after the item's value is created, so it is always taken from the associated tree
+func itemWithID(item btreeassociated.AssociatedKeyValues) OneToManyItem {
+	savedItem := item.Value().(*oneToManyItem)
+
+	return &oneToManyItem{
+		value:         savedItem.value,
+		oneID:         savedItem.oneID,
+		manyID:        item.AssociatedID(),
+		manyKeyValues: savedItem.manyKeyValues,
+	}
+}
+
 func (otmi *oneToManyItem) Value() any {
 	return otmi.value
 }
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..3165742 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -49,8 +49,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		threadsafeValuesNode := item.(*threadsafeValuesNode)
 
 		//create the many relationship
-		var newOneToManyItem *oneToManyItem
-		created := false
 		associatedCreate := func() any {
 			// create the original item passed in
 			item := onCreate()
@@ -58,19 +56,16 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 				return nil
 			}
 
-			created = true
-			newOneToManyItem = &oneToManyItem{
+			return &oneToManyItem{
 				value:         item,
 				oneID:         oneID,
 				manyKeyValues: manyKeyValues,
 			}
-
-			return newOneToManyItem
 		}
 
 		// found the many relationship
 		associatedFind := func(item btreeassociated.AssociatedKeyValues) {
-			onFind(item.Value().(OneToManyItem))
+			onFind(itemWithID(item))
 		}
 
 		// create the many relationship
@@ -90,11 +85,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		default:
 			panic(err)
 		}
-
-		// record the many ID if it was newly created. This is still thread safe as it is in the BTree's create method
-		if created {
-			newOneToManyItem.manyID = createOrFindID
-		}
 	}
 
 	bTreeCreateOne := func() any {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_delete.go b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
index 741e78f..44d55d3 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_delete.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
@@ -32,7 +32,7 @@ func (tree *threadsafeOneToManyTree) DeleteOneOfManyByKeyValues(oneID string, ma
 	bTreeAssociatedDeleteMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(itemWithID(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
index 4966d31..da4a037 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) DestroyOne(oneID string, canDelete OneToMan
 	deleted := true
 	bTreeAssociatedDelete := func(item btreeassociated.AssociatedKeyValues) bool {
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(itemWithID(item))
 		}
 
 		return deleted
@@ -83,7 +83,7 @@ func (tree *threadsafeOneToManyTree) DestroyOneOfManyByID(oneID string, manyID s
 	bTreeAssociatedDestoyMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(itemWithID(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_match.go b/internal/datastructures/btree_one_to_many/threadsafe_match.go
index 9594a42..1999461 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_match.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_match.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) MatchAction(oneID string, matchActionQuery
 	}
 
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(itemWithID(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_query.go b/internal/datastructures/btree_one_to_many/threadsafe_query.go
index ae3cb0a..83e410f 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_query.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_query.go
@@ -33,7 +33,7 @@ func (tree *threadsafeOneToManyTree) QueryAction(oneID string, query *queryassoc
 	}
 
 	bTreeAssociatedIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(itemWithID(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
-- 
2.43.0


From a902a5d637f6d13aae4a0a3a1524cc4b60ac63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 19/71] fix: an unclaimed lock answers stray heartbeats and
 releases

---
 internal/locker/lock_manager/exclusive_lock.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 7028f6b..a710bab 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,12 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// nobody holds the claim at this point, so there is nothing to heartbeat or release
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From eb6b69dd3f4b02a4edcb68be9772613223821077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 20/71] fix: a lock that times out drops a second tick

---
 internal/locker/lock_manager/exclusive_lock.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index a710bab..74fc353 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -228,6 +228,12 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 				case <-ticker.C:
 					ticker.Stop()
 
+					// drop a tick that fired before the ticker was stopped, the timeout is only processed once
+					select {
+					case <-ticker.C:
+					default:
+					}
+
 					// clear the session id
 					exclusiveLock.sessionIDLock.Lock()
 					exclusiveLock.sessionID = ""
-- 
2.43.0


From b3106170ee9ad720b0b7e7de13402f7a0bbc5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 21/71] fix: a lock that times out during a shutdown does not
 block forever

---
 .../locker/lock_manager/exclusive_lock.go     | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 74fc353..553bd63 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -144,21 +144,7 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 				select {
 				// server shutdown
 				case <-ctx.Done():
-					select {
-					// if a timeout is processing, this should wait untill that is finished
-					case <-exclusiveLock.blockDone:
-						// wait and process the timeout
-						<-exclusiveLock.timedOut
-
-						if exclusiveLock.clientsWaitingForClaim.Add(^uint64(0)) == 0 {
-							exclusiveLock.timedOut <- true
-							return nil
-						} else {
-							exclusiveLock.timedOut <- false
-						}
-					default:
-					}
-
+					// NOTE: if a timeout is processing, it is released through the done channel
 					return nil
 
 				// processed a client lost
@@ -383,8 +369,13 @@ func (exclusiveLock *exclusiveLock) LostClient() bool {
 //
 // TimeOut a currently held lock and allow for another client to process the request
 func (exclusiveLock *exclusiveLock) TimeOut() bool {
-	exclusiveLock.timedOut <- true
-	return <-exclusiveLock.timedOut
+	select {
+	case exclusiveLock.timedOut <- true:
+		return <-exclusiveLock.timedOut
+	case <-exclusiveLock.done:
+		// the service is shutting down
+		return false
+	}
 }
 
 func (exclusiveLock *exclusiveLock) getLastHeartbeatTime() time.Time {
-- 
2.43.0


From 5fb614d272db16704e0f7987dd1cae53cfda3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 22/71] fix: a lock is executed outside of the tree operation
 that creates it

---
 .../locker/lock_manager/exclusive_lock.go     |  7 +++++
 .../locker/lock_manager/exclusive_locker.go   | 26 +++++++++----------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 553bd63..5c871bc 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -94,6 +94,13 @@ func newExclusiveLock(timeout func()) *exclusiveLock {
 	}
 }
 
+// stop releases everything that waits for a lock which is never executed, because the service is shutting down
+func (exclusiveLock *exclusiveLock) stop() {
+	close(exclusiveLock.clientLost)
+	close(exclusiveLock.claim)
+	close(exclusiveLock.done)
+}
+
 // Can possibly be easier and not needed if the client's each call "lock" with a Context that cancels on client disconnect + server shutdown?
 // then the heartbeater is direct to the object (there was something complicated about that before, but cannot remember now)
 func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..fa2c8bd 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -66,24 +66,14 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 
 	var claimChannel <-chan func(time.Duration) string
 
+	var createdLock *exclusiveLock
 	onCreate := func() any {
-		lock := newExclusiveLock(func() {
+		createdLock = newExclusiveLock(func() {
 			exclusiveLocker.timeout(reporting.BaseLogger(logger), createLockRequest.Spec.DBDefinition.KeyValues)
 		})
+		claimChannel = createdLock.GetClaimChannel()
 
-		// add the task to the task manager
-		if err := exclusiveLocker.taskManager.AddExecuteTask("", lock); err == nil {
-			claimChannel = lock.GetClaimChannel()
-		} else {
-			// on an error, just set these to a closed channel to exit from the claim operation. The client will
-			// need to retry and the lock should not be saved
-			closedChannel := make(chan func(time.Duration) string)
-			close(closedChannel)
-
-			claimChannel = closedChannel
-		}
-
-		return lock
+		return createdLock
 	}
 
 	onFind := func(item btreeassociated.AssociatedKeyValues) {
@@ -95,6 +85,14 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 		panic(err)
 	}
 
+	// add the task to the task manager. NOTE: this blocks during a shutdown, so it cannot be done while the tree is locked
+	if createdLock != nil {
+		if err := exclusiveLocker.taskManager.AddExecuteTask("", createdLock); err != nil {
+			// release everyone that waits for the lock. The clients will need to retry
+			createdLock.stop()
+		}
+	}
+
 	select {
 	// client disconnected
 	case <-ctx.Done():
-- 
2.43.0


From b16f86e72d86c07cf13b81ee7fa9338b4a33c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 23/71] fix: an increment by more than one is checked against
 the limit as a whole

---
 internal/limiter/counters/counter_client_local.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..28b2967 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -197,7 +197,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						continue
 					}
 
-					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *rule.Spec.Properties.Limit); counterErr != nil {
+					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *rule.Spec.Properties.Limit); counterErr != nil {
 						return counterErr
 					}
 				} else {
@@ -208,7 +208,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						}
 
 						// 2. check the limt
-						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *override.Spec.Properties.Limit); counterErr != nil {
+						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *override.Spec.Properties.Limit); counterErr != nil {
 							return counterErr
 						}
 					}
@@ -234,7 +234,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 	return nil
 }
 
-func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, limit int64) *errors.ServerError {
+func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, increment int64, limit int64) *errors.ServerError {
 	_, logger := middleware.GetNamedMiddlewareLogger(ctx, "checkCounters")
 
 	// construct the query for all possible rules that need to be found
@@ -258,7 +258,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	counter := int64(0)
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
 		counter += item.Value().(Counter).Load()
-		return counter < limit // check to exit query early if this fails
+		return counter <= limit-increment // check to exit query early if this fails
 	}
 
 	if err := cm.counters.QueryAction(query, bTreeAssociatedOnIterate); err != nil {
@@ -267,7 +267,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	}
 
 	// final check of the counters
-	if counter >= limit {
+	if counter > limit-increment {
 		logger.Info("Limit already reached")
 		return &errors.ServerError{Message: fmt.Sprintf("Limit has already been reached for rule"), StatusCode: http.StatusConflict}
 	}
-- 
2.43.0


From 8e4cfc105c07278e1d96f5a78cf36b45105a1dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 24/71] fix: an increment canceled while waiting for its locks
 does not use a nil lock

---
 internal/limiter/counters/counter_client_local.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 28b2967..ea47bc4 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -159,6 +159,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 					return errors.InternalServerError
 				}
 
+				if lockerLock == nil {
+					// the request was canceled while waiting for the lock
+					logger.Error("failed to obtain a lock, the request was canceled", zap.Any("key values", lockKeyValues))
+					return errors.InternalServerError
+				}
+
 				// setup monitor for when a lock is released
 				lockerLocks = append(lockerLocks, lockerLock)
 				if err := channelOps.MergeOrToOne(lockerLock.Done()); err != nil {
-- 
2.43.0


From ebbf435e51b9f512ab89a7b6d2e1cdd7625c0c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 25/71] fix: an updateable item dropped on a retry is no longer
 counted as enqueued

---
 .../queue_channels/memory/memory_queue_channel.go        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..609b5f0 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -517,6 +517,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						// the dropped item is no longer enqueued
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -554,6 +559,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 			if queueItemToCheck.updateable {
 				// "update" the last item by simply dropping it
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
 			} else {
-- 
2.43.0


From 4f84d790edb627a72fa64c972ce7639e2fdded30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 26/71] fix: failing an item that is not processing is refused

---
 .../brokers/queue_channels/memory/memory_queue_channel.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 609b5f0..2b51baa 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -479,7 +479,6 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -488,6 +487,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			attemptedDelete = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
-- 
2.43.0


From 490803c4883847aafc9539238c95f4f52908ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 27/71] fix: a channel at a running limit compares the counters
 of its own group with the limit

---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 2b51baa..070b997 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -226,7 +226,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 								},
 							}
 
-							for key, value := range rule.Spec.DBDefinition.GroupByKeyValues {
+							for key := range rule.Spec.DBDefinition.GroupByKeyValues {
+								// the counters of the group this channel is in
+								value := erroredKeyValues[key]
 								query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 									Value:      value,
 									Comparison: v1common.Equals,
@@ -272,7 +274,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 									},
 								}
 
-								for key, value := range override.Spec.DBDefinition.GroupByKeyValues {
+								for key := range override.Spec.DBDefinition.GroupByKeyValues {
+									// the counters of the group this channel is in
+									value := erroredKeyValues[key]
 									query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 										Value:      value,
 										Comparison: v1common.Equals,
-- 
2.43.0


From 07af5d289d3f2b469f7b649114c690384fd0c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 28/71] fix: a heartbeater releases blocked callers before it
 runs its callback

---
 internal/heartbeater/heartbeater.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 4329fb8..6d73f5c 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -75,6 +75,16 @@ func New(timeout time.Duration, onShutdown, onTimeout func()) (*heartbeater, err
 
 // Execute expects a single instance of Start to be called
 func (h *heartbeater) Execute(ctx context.Context) error {
+	// run the callback after any blocked calls are released. It can need a lock that one of the callers holds
+	if callback := h.run(ctx); callback != nil {
+		callback()
+	}
+
+	return nil
+}
+
+// run returns the callback for the reason that the heartbeater stopped
+func (h *heartbeater) run(ctx context.Context) func() {
 	defer close(h.doneChan)
 
 	// wait for start or stop instruction to be called
@@ -91,19 +101,13 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 		select {
 		case <-ctx.Done():
 			// in this case, the service is shutting down
-			if h.onShutdown != nil {
-				h.onShutdown()
-			}
-
-			return nil
+			return h.onShutdown
 		case <-h.stopChan:
 			// in this case, a stop was triggered by the caller
 			return nil
 		case <-timer.C:
 			// in this case the timer has hit the timeout limit. assumed the resource has failed.
-			h.onTimeout()
-
-			return nil
+			return h.onTimeout
 		case <-h.heartbeaterChan:
 			// in this case, the client sent a heartbeat so reset the time
 			h.setLastHeartbeat()
-- 
2.43.0


From 0101b739a7943b3c34ebedb854d04ce902046a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 29/71] fix: querying the channels of a missing queue reports
 that it is missing

---
 internal/willow/brokers/queues/queues_client_local.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index b87556a..01d863e 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -211,8 +211,10 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 func (qcl *queueClientLocal) QueryChannels(ctx context.Context, queueName string, query *queryassociatedaction.AssociatedActionQuery) (v1willow.Channels, *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "QueryChannels")
 	channels := v1willow.Channels{}
+	queryChannelsError := errorMissingQueueName(queueName)
 
 	onIterate := func(key datatypes.EncapsulatedValue, item any) bool {
+		queryChannelsError = nil
 		channels = qcl.queueChannelsClient.Channels(ctx, queueName, query)
 		return false
 	}
@@ -228,7 +230,7 @@ func (qcl *queueClientLocal) QueryChannels(ctx context.Context, queueName string
 		}
 	}
 
-	return channels, nil
+	return channels, queryChannelsError
 }
 
 func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqueueItem *v1willow.Item) *errors.ServerError {
-- 
2.43.0


From 6b3350b1020439ca3dd88f1a30f0ded884cbdece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 30/71] fix: a queue keeps its limit when updating the limiter
 fails

---
 internal/willow/brokers/queues/memory/memory_queue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..39a695b 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -67,7 +67,6 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
-	mq.configuredLimit.Store(*updateReq.MaxItems)
 
 	// get the original override id
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
@@ -110,6 +109,8 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		return errors.InternalServerError
 	}
 
+	mq.configuredLimit.Store(*updateReq.MaxItems)
+
 	return nil
 }
 
-- 
2.43.0


From 575427558b0d528f33b50877dc341773f2430b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 31/71] fix: a failed query of the limiter fails the update or
 deletion of a queue, not the service

---
 internal/willow/brokers/queues/memory/memory_queue.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 39a695b..5b6511d 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -94,7 +94,8 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		},
 	})
 	if err != nil {
-		panic(err)
+		logger.Error("Failed to query the Limiter overrides", zap.Error(err))
+		return errors.InternalServerError
 	}
 	if len(overrides) != 1 {
 		panic(overrides)
@@ -140,7 +141,8 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 		},
 	})
 	if err != nil {
-		panic(err)
+		logger.Error("Failed to query the Limiter overrides", zap.Error(err))
+		return errors.InternalServerError
 	}
 	if len(overrides) != 1 {
 		panic(overrides)
-- 
2.43.0


From f48c44e6836cdda070f4ccecd4331306a5f27317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 32/71] fix: a consumer waiting for an item does not block
 creating or deleting queues

---
 .../queue_channels/queue_channels_client_local.go   |  5 +++--
 .../willow/brokers/queues/queues_client_local.go    | 13 +++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..f69482a 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -241,8 +241,9 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 
 		if err := qccl.queueChannels.QueryAction(queueName, dequeueQuery, bTreeOneToManyOnIterate); err != nil {
 			switch err {
-			//case btreeonetomany.ErrorOneIDDestroying
-			// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+			case btreeonetomany.ErrorOneIDDestroying:
+				// the queue is being deleted, so there are no channels left to read from
+				logger.Debug("queue's channels are already destroying")
 			default:
 				logger.Error("failed to create or find the queue channels", zap.Error(err))
 				panic(err)
diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index 01d863e..98a726e 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -255,12 +255,9 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Dequeue")
 	dequeueQueueError := errorMissingQueueName(queueName)
 
-	// nothing for the item to do. but use the bTree as a guard to ensure no delete operations are happening at the same time
-	var dequeueItem *v1willow.Item
-	var onSuccess func()
-	var onFailure func()
+	// only check that the queue exists. Waiting for an item can take forever and must not block other operations on the queues
 	onFind := func(key datatypes.EncapsulatedValue, item any) bool {
-		dequeueItem, onSuccess, onFailure, dequeueQueueError = qcl.queueChannelsClient.DequeueQueueItem(ctx, queueName, dequeueQuery)
+		dequeueQueueError = nil
 		return false
 	}
 
@@ -269,7 +266,11 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 		return nil, nil, nil, errors.InternalServerError
 	}
 
-	return dequeueItem, onSuccess, onFailure, dequeueQueueError
+	if dequeueQueueError != nil {
+		return nil, nil, nil, dequeueQueueError
+	}
+
+	return qcl.queueChannelsClient.DequeueQueueItem(ctx, queueName, dequeueQuery)
 }
 
 func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string, channelKeyValues datatypes.KeyValues) *errors.ServerError {
-- 
2.43.0


From d8cc955c091887571860fc8c1648c1ac3e4e85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:21 +0000
Subject: [PATCH 33/71] fix: a deleted channel does not hand out, requeue or
 count its items anymore

---
 .../memory/memory_queue_channel.go            | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 070b997..ab04cc7 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -57,6 +57,7 @@ type memoryQueueChannel struct {
 
 	itemsLock       *sync.RWMutex
 	itemIDsEnqueued []string
+	deleted         bool // set when the channel is force deleted, there are no items to process anymore
 }
 
 func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queueName string, channelKeyValues datatypes.KeyValues) *memoryQueueChannel {
@@ -115,6 +116,12 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 		close(mqc.deleteChan)
 	})
 
+	// anything still dequeuing or failing an item needs to know there are no more items
+	mqc.itemsLock.Lock()
+	mqc.deleted = true
+	mqc.itemIDsEnqueued = []string{}
+	mqc.itemsLock.Unlock()
+
 	// delete the running and enqueued counters
 	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
 		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
@@ -478,6 +485,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
+	if mqc.deleted {
+		return false
+	}
+
 	attemptedDelete := false
 	backID := ""
 
@@ -604,8 +615,17 @@ func (mqc *memoryQueueChannel) Dequeue() <-chan func(ctx context.Context) (*v1wi
 func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, func(), func()) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "dequeue")
 
+	mqc.itemsLock.Lock()
+	if mqc.deleted {
+		mqc.itemsLock.Unlock()
+
+		mqc.dequeueResponseChan <- false
+		return nil, nil, nil
+	}
+
 	// 1. ensure that the item can be dequeued when running. This just forwards the key values that define the channel
 	if err := mqc.limterUpdateRunningValue(ctx, 1); err != nil {
+		mqc.itemsLock.Unlock()
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
 
 		// re-add to the notifier since we failed to process this item properly
@@ -617,7 +637,6 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	}
 
 	// drop the first index since we are now processing it
-	mqc.itemsLock.Lock()
 	firtItemID := mqc.itemIDsEnqueued[0]
 	mqc.itemIDsEnqueued = mqc.itemIDsEnqueued[1:]
 	mqc.itemsLock.Unlock()
@@ -710,14 +729,19 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 	return func() {
 		ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "failedDequeue")
 
+		mqc.itemsLock.Lock()
+		defer mqc.itemsLock.Unlock()
+
+		if mqc.deleted {
+			mqc.dequeueResponseChan <- false
+			return
+		}
+
 		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
 		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 			panic(err)
 		}
 
-		mqc.itemsLock.Lock()
-		defer mqc.itemsLock.Unlock()
-
 		// requeue the item
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool { // i think this should be canDestroy?
 			queueItem := treeItem.(*item)
-- 
2.43.0


From 8c9aa7e987080e449be1ee011ab19dfafd2cf6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 34/71] fix: a consumer that starts to wait while a channel is
 created is served from it

---
 .../queue_channels/queue_channels_client_local.go      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index f69482a..3c17295 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -152,6 +152,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queueName string, enqueueItem *v1willow.Item) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "EnqueueQueueItem")
 	var enqueueError *errors.ServerError
+	var createdChannel constructor.QueueChannel
 
 	//create a new channel to enqueue items to
 	bTreeOneToManyOnCreate := func() any {
@@ -170,8 +171,7 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		// when a new channel is created, need to add it to the async task manager. if there is an error, that means the
 		// server is shutting down so don't add it to any waiting clients.
 		if err := qccl.asyncManager.AddExecuteTask(queueName, queueChannel); err == nil {
-			// when a new channel is created, inform any clients currently waiting to process that there is something they might care about
-			qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, queueChannel.Dequeue())
+			createdChannel = queueChannel
 		}
 
 		return queueChannel
@@ -193,6 +193,12 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		}
 	}
 
+	// when a new channel is created, inform any clients currently waiting to process that there is something they might care about.
+	// this needs to happen once the channel can be found, or a client that starts to wait in the meantime does not know about it
+	if createdChannel != nil {
+		qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, createdChannel.Dequeue())
+	}
+
 	return enqueueError
 }
 
-- 
2.43.0


From 139272009a0f8215903d393d621d9c97d73b744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 35/71] fix: a heartbeat before the heartbeater is started does
 not block

---
 internal/heartbeater/heartbeater.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 6d73f5c..09b7453 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -88,10 +88,15 @@ func (h *heartbeater) run(ctx context.Context) func() {
 	defer close(h.doneChan)
 
 	// wait for start or stop instruction to be called
-	select {
-	case <-h.start:
-	case <-h.stopChan:
-		return nil
+	for started := false; !started; {
+		select {
+		case <-h.start:
+			started = true
+		case <-h.stopChan:
+			return nil
+		case <-h.heartbeaterChan:
+			// the timeout has not started yet, so there is nothing to reset
+		}
 	}
 
 	timer := time.NewTicker(h.timeout)
-- 
2.43.0


From 8e176e32a946f3c6a3dc7e23a28fe6849fc85608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 36/71] fix: delivering an item of a channel that is being
 deleted does not end the service

---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index ab04cc7..52a9f3c 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -716,7 +716,13 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 		}
 
 		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil {
-			panic(err)
+			switch err {
+			case btree.ErrorTreeDestroying:
+				// the channel is being force deleted, there is no item to heartbeat anymore
+				logger.Debug("channel is already being deleted")
+			default:
+				panic(err)
+			}
 		}
 
 		// resond to the queue forwarder that it can start processing the next item in the queue
-- 
2.43.0


From c1b0a472fb29bff624bf7f076562ad437960ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 37/71] fix: an item timing out while its queue is deleted does
 not end the service

---
 .../brokers/queue_channels/queue_channels_client_local.go       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index 3c17295..f1f6664 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -141,7 +141,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyIDDestroying:
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
-- 
2.43.0


From 9d537f1470505b10eb2aec0af5d21d914f684405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 38/71] fix: concurrent updates of a queue leave it with the
 limit the limiter uses

---
 internal/willow/brokers/queues/memory/memory_queue.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 5b6511d..e82bade 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 
 	"github.com/DanLavine/willow/internal/helpers"
@@ -26,6 +27,9 @@ type memoryQueue struct {
 	// queue details
 	configuredLimit *atomic.Int64
 	queueName       string
+
+	// updates happen one at a time, so the limit here is always the one the limiter uses
+	updateLock *sync.Mutex
 }
 
 func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limiterClient limiterclient.LimiterClient) (*memoryQueue, *errors.ServerError) {
@@ -57,6 +61,7 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 	return &memoryQueue{
 		limiterClient:   limiterClient,
 		configuredLimit: limit,
+		updateLock:      new(sync.Mutex),
 		queueName:       *queue.Spec.DBDefinition.Name,
 	}, nil
 }
@@ -68,6 +73,9 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
 
+	mq.updateLock.Lock()
+	defer mq.updateLock.Unlock()
+
 	// get the original override id
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
 		Selection: &queryassociatedaction.Selection{
-- 
2.43.0


From 5d332b57465a89eb2555d9e17b3989ad6981bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 39/71] fix: dequeuing an item of a channel that is being
 deleted does not end the service

---
 .../queue_channels/memory/memory_queue_channel.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 52a9f3c..12da469 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -642,7 +642,7 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	mqc.itemsLock.Unlock()
 
 	// 2. successfully incremented the counters, pull an item off for the client
-	dequeueItem := &v1willow.Item{}
+	var dequeueItem *v1willow.Item
 
 	onFind := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 		queueItem := treeItem.(*item)
@@ -690,7 +690,18 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	}
 
 	if err := mqc.items.Find(datatypes.String(firtItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		panic(err)
+		switch err {
+		case btree.ErrorTreeDestroying:
+			logger.Debug("channel is already being deleted")
+		default:
+			panic(err)
+		}
+	}
+
+	// the channel was force deleted before the item could be processed
+	if dequeueItem == nil {
+		mqc.dequeueResponseChan <- false
+		return nil, nil, nil
 	}
 
 	return dequeueItem, mqc.successfulDequeue(ctx, firtItemID), mqc.failedDequeue(ctx, firtItemID)
-- 
2.43.0


From c3cd673699eb9ec44a397bc83ffa66db33af49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 40/71] fix: enqueuing or requeuing an item while the channel
 stops does not end the service

---
 .../brokers/queue_channels/memory/memory_queue_channel.go     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 12da469..260562e 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -340,7 +340,11 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 BREAK_DEQUEUE:
 
 	close(mqc.dequeueChan)
+
+	// nothing can be added to the notifier while it is stopping
+	mqc.itemsLock.Lock()
 	mqc.notifier.ForceStop()
+	mqc.itemsLock.Unlock()
 
 	// wait for any heartbeat operations to finish
 	<-stoppedHeartbeating
-- 
2.43.0


From 12f80f8b151b05fe968535e277bb9431db9d11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 41/71] fix: an item acknowledged before its delivery fails is
 counted as finished once

---
 .../queue_channels/memory/memory_queue_channel.go      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 260562e..7e8ff49 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -758,11 +758,6 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			return
 		}
 
-		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
-		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-			panic(err)
-		}
-
 		// requeue the item
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool { // i think this should be canDestroy?
 			queueItem := treeItem.(*item)
@@ -773,6 +768,11 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			if queueItem.StopHeartbeater() {
 				logger.Debug("stopped the heartbeat process")
 
+				// update the running counter that we are no longer processing since we failed to dequeue to the remote client
+				if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				// if the queue item is updateable, check to see if there is something else in the queeu
 				if queueItem.updateable {
 					if len(mqc.itemIDsEnqueued) >= 1 {
-- 
2.43.0


From 162772a57c4b3d6c4a4244fa4de8316c9ebc6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 42/71] fix: an updated item takes over the timeout of the
 update

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 7e8ff49..8639461 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -380,6 +380,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
 				queueItem.retryCount = 0
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 			}
 
 			return false
-- 
2.43.0


From 69cd24eefe1071616f812c90053f0590f080d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 43/71] fix: order NaN before all other float values

A float that is not a number compares as neither less nor greater than any
other value of its type, so it was taken for whichever value it met first
(the same lock, rule or queue as another float) and broke the order of the
trees.
---
 pkg/models/datatypes/encapsulated_value.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index d31ff57..f05a673 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -1,6 +1,7 @@
 package datatypes
 
 import (
+	"cmp"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -62,9 +63,9 @@ func (ev EncapsulatedValue) lessValue(comparableObj EncapsulatedValue) bool {
 	case T_int:
 		return ev.Data.(int) < comparableObj.Data.(int)
 	case T_float32:
-		return ev.Data.(float32) < comparableObj.Data.(float32)
+		return cmp.Less(ev.Data.(float32), comparableObj.Data.(float32))
 	case T_float64:
-		return ev.Data.(float64) < comparableObj.Data.(float64)
+		return cmp.Less(ev.Data.(float64), comparableObj.Data.(float64))
 	case T_string:
 		return ev.Data.(string) < comparableObj.Data.(string)
 	default:
@@ -110,9 +111,9 @@ func (ev EncapsulatedValue) lessValueMatchTyoe(comparableObj EncapsulatedValue)
 	case T_int:
 		return ev.Data.(int) < comparableObj.Data.(int)
 	case T_float32:
-		return ev.Data.(float32) < comparableObj.Data.(float32)
+		return cmp.Less(ev.Data.(float32), comparableObj.Data.(float32))
 	case T_float64:
-		return ev.Data.(float64) < comparableObj.Data.(float64)
+		return cmp.Less(ev.Data.(float64), comparableObj.Data.(float64))
 	case T_string:
 		return ev.Data.(string) < comparableObj.Data.(string)
 	case T_any:
-- 
2.43.0


From 88c5db21691beb23ca2b0a18a7e71e9535efb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 44/71] fix: refuse values of defined types

A value such as type name string; EncapsulatedValue{T_string, name("a")}
passed the validation, and comparing or encoding it panicked.
---
 pkg/models/datatypes/encapsulated_value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index f05a673..9ca3747 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -175,6 +175,10 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 		}
 
 		kind := reflect.ValueOf(data).Kind()
+		if typeName := reflect.TypeOf(data).String(); typeName != kind.String() {
+			// a defined type of the proper kind cannot be compared or encoded
+			return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'%s' has Data of type: %s", dataType.ToString(), typeName)}
+		}
 
 		switch dataType {
 		case T_uint8:
-- 
2.43.0


From 89c17ce61d8d88a0a02b127e087aa46454711fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 45/71] fix: refuse strings that are not valid UTF-8

Their encoding to JSON replaces the invalid bytes, so the value or key that
reaches the service is another one than the client named, and different ones
become the same.
---
 pkg/models/datatypes/encapsulated_value.go            | 6 ++++++
 pkg/models/datatypes/map_string_encapsulated_value.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index 9ca3747..68c6902 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/DanLavine/willow/pkg/models/api/common/errors"
 )
@@ -233,6 +234,11 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 			if kind != reflect.String {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'string' has Data of kind: %s", kind.String())}
 			}
+
+			// JSON would replace the invalid bytes, so that different values end up as the same one
+			if !utf8.ValidString(data.(string)) {
+				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'string' has Data that is not valid UTF-8: %q", data)}
+			}
 		}
 	default:
 		return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'unknown' has Data '%v'", data)}
diff --git a/pkg/models/datatypes/map_string_encapsulated_value.go b/pkg/models/datatypes/map_string_encapsulated_value.go
index 81ef582..7fc8e5d 100644
--- a/pkg/models/datatypes/map_string_encapsulated_value.go
+++ b/pkg/models/datatypes/map_string_encapsulated_value.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"unicode/utf8"
 
 	"github.com/DanLavine/willow/pkg/models/api/common/errors"
 )
@@ -43,6 +44,10 @@ func (kv KeyValues) Validate(minAllowedKeyType, maxAllowedKeyType DataType) *err
 	}
 
 	for key, value := range kv {
+		if !utf8.ValidString(key) {
+			return &errors.ModelError{Field: fmt.Sprintf("[%q]", key), Err: fmt.Errorf("is not valid UTF-8")}
+		}
+
 		if err := value.Validate(minAllowedKeyType, maxAllowedKeyType); err != nil {
 			return &errors.ModelError{Field: fmt.Sprintf("[%s]", key), Child: err}
 		}
-- 
2.43.0


From 44646d2a688790045d0351a03cb247104a36d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 46/71] fix: waiting to obtain one lock does not block the
 client's other locks

---
 pkg/clients/locker_client/locker_client.go | 85 +++++++++++++++++-----
 1 file changed, 67 insertions(+), 18 deletions(-)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7b1ea7b..2469b8a 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -57,6 +57,12 @@ type LockClient struct {
 	locks btreeassociated.BTreeAssociated
 }
 
+// obtainedLock is saved for each lock in the tree
+type obtainedLock struct {
+	done chan struct{} // closed once the request to obtain the lock is finished
+	lock Lock          // set iff the lock was obtained, before done is closed
+}
+
 //	PARAMS
 //	- cfg - configuration for the HTTP(s) client
 //
@@ -124,8 +130,30 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 	var returnLock Lock
 	var lockErr error
 
+	if err := lockRequest.ValidateSpecOnly(); err != nil {
+		return nil, err
+	}
+
+	// the caller can change the request once this returns, but the lock needs to be removed for what was obtained
+	keyValues := datatypes.KeyValues{}
+	for key, value := range lockRequest.Spec.DBDefinition.KeyValues {
+		keyValues[key] = value
+	}
+
+	// what is saved in the tree while the lock is being obtained and held
+	obtaining := &obtainedLock{done: make(chan struct{})}
+	removeObtaining := func() {
+		canDelete := func(item btreeassociated.AssociatedKeyValues) bool {
+			return item.Value() == any(obtaining)
+		}
+
+		if err := lc.locks.Delete(keyValues, canDelete); err != nil {
+			panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
+		}
+	}
+
 	// obtain the desired lock
-	onCreate := func() any {
+	obtain := func() Lock {
 		for {
 			// encode and validate the model
 			data, err := api.ObjectEncodeRequest(lockRequest)
@@ -168,19 +196,11 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 				}
 
 				// wrapper is needed so we ensure that the lock is removed from the tree on removal
-				lostLockWrapper := func() {
-					canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
-						return true
-					}
-
-					if err = lc.locks.Delete(lockRequest.Spec.DBDefinition.KeyValues, canDelete); err != nil {
-						panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
-					}
-				}
+				lostLockWrapper := removeObtaining
 
 				if heartbeatErrorCallback != nil {
 					errCallback := func(err error) {
-						heartbeatErrorCallback(lockRequest.Spec.DBDefinition.KeyValues, err)
+						heartbeatErrorCallback(keyValues, err)
 					}
 					returnLock = newLock(createLockResponse, lc.url, lc.client, errCallback, lostLockWrapper)
 				} else {
@@ -208,13 +228,42 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 		}
 	}
 
-	onFind := func(item btreeassociated.AssociatedKeyValues) {
-		// just return the instance of the found lock
-		returnLock = item.Value().(Lock)
-	}
+	for {
+		var found *obtainedLock
+		onCreate := func() any {
+			return obtaining
+		}
+		onFind := func(item btreeassociated.AssociatedKeyValues) {
+			found = item.Value().(*obtainedLock)
+		}
 
-	// create or find the lock if we already have it
-	_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
+		// create or find the lock if we already have it. The request to the service is made without holding the tree, so
+		// waiting for one lock does not stop any other lock
+		if _, err := lc.locks.CreateOrFind(keyValues, onCreate, onFind); err != nil {
+			return nil, err
+		}
+
+		if found == nil {
+			if obtaining.lock = obtain(); obtaining.lock == nil {
+				removeObtaining()
+			}
+			close(obtaining.done)
 
-	return returnLock, lockErr
+			return returnLock, lockErr
+		}
+
+		select {
+		case <-found.done:
+			// just return the instance of the found lock, or try again if it was not obtained or is already over
+			if found.lock != nil {
+				select {
+				case <-found.lock.Done():
+				default:
+					return found.lock, nil
+				}
+			}
+		case <-ctx.Done():
+			return nil, nil
+		}
+	}
 }
-- 
2.43.0


From 1f9e1fc9e4d4f7661d6897f0e05451de643c6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 47/71] fix: a lock is lost and released in time while a
 heartbeat request hangs

---
 pkg/clients/locker_client/lock.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c5a0828..b1490b3 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -39,6 +39,7 @@ type lock struct {
 	// record stop heartbeating
 	doneOnce *sync.Once
 	done     chan struct{}
+	cancel   context.CancelFunc // cancels any heartbeat request that is still running
 
 	// used to ensure only 1 delete operation proccesses
 	heartbeating chan struct{}
@@ -78,8 +79,15 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		timeout:   *lockResponse.Spec.Properties.Timeout,
 	}
 
+	ctx, cancel := context.WithCancel(context.Background())
+	lock.cancel = cancel
+
+	// the lock is lost when the timeout is reached, even if a heartbeat request is still waiting for a response
+	timeoutTimer := time.AfterFunc(lock.timeout, lock.stop)
+
 	go func() {
 		defer func() {
+			timeoutTimer.Stop()
 			lock.stop()
 			lock.released.Store(true)
 			close(lock.heartbeating)
@@ -88,15 +96,11 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
 		ticker := time.NewTicker(adjustedTimeout / 3)
-		timeoutTicker := time.NewTicker(lock.timeout)
 
 		for {
 			select {
 			case <-lock.done:
-				// release was called. can just escape
-				return
-			case <-timeoutTicker.C:
-				// the timeout was reached. can just escape
+				// release was called, or the timeout was reached. can just escape
 				return
 			case <-ticker.C:
 				lockClaimData, err := api.ModelEncodeRequest(&v1locker.LockClaim{SessionID: lockResponse.State.SessionID})
@@ -105,7 +109,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 					return
 				}
 
-				req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
+				req, err := http.NewRequestWithContext(ctx, "POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
 				if err != nil {
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to setup heartbeat request: %w", err))
@@ -116,6 +120,11 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 				resp, err := client.Do(req)
 				if err != nil {
+					if ctx.Err() != nil {
+						// released or timed out while the heartbeat was running
+						return
+					}
+
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to heartbeat: %w", err))
 					}
@@ -126,7 +135,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// this is the success case and the heartbeat passed
-					timeoutTicker.Reset(lock.timeout)
+					timeoutTimer.Reset(lock.timeout)
 				case http.StatusConflict, http.StatusBadRequest:
 					// there was an error with the request body or session id
 					apiError := &errors.Error{}
@@ -224,6 +233,7 @@ func (l *lock) stop() {
 
 		// close done
 		close(l.done)
+		l.cancel()
 	})
 }
 
-- 
2.43.0


From 3e2082dcbb206236c25b26072fff7c2d3b68ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 48/71] fix: the timeout of a held lock counts from when the
 heartbeat was sent

---
 pkg/clients/locker_client/lock.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index b1490b3..ae2294c 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -118,6 +118,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				}
 				req.Header.Add("Content-Type", "application/json")
 
+				sent := time.Now()
 				resp, err := client.Do(req)
 				if err != nil {
 					if ctx.Err() != nil {
@@ -135,7 +136,8 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// this is the success case and the heartbeat passed
-					timeoutTimer.Reset(lock.timeout)
+					// the service might have counted from as early as when the heartbeat was sent
+					timeoutTimer.Reset(lock.timeout - time.Since(sent))
 				case http.StatusConflict, http.StatusBadRequest:
 					// there was an error with the request body or session id
 					apiError := &errors.Error{}
-- 
2.43.0


From 1ec27f2f304ddbf4de3f285b2d53d079f918041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 49/71] fix: refuse negative lock timeouts and heartbeat locks
 with tiny timeouts

---
 pkg/clients/locker_client/lock.go | 2 +-
 pkg/models/api/locker/v1/lock.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index ae2294c..2839437 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -95,7 +95,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
 
 		for {
 			select {
diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..755cc5d 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -118,7 +118,7 @@ type LockProperties struct {
 
 func (lockProperties *LockProperties) Validate() *errors.ModelError {
 	if lockProperties.Timeout != nil {
-		if *lockProperties.Timeout == 0 {
+		if *lockProperties.Timeout <= 0 {
 			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
 		}
 	}
-- 
2.43.0


From 01cee06a0e797d25f5a84f834fa4541cd18c6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 50/71] fix: refuse an obtained lock without a timeout

---
 pkg/clients/locker_client/locker_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 2469b8a..39ca1e9 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -195,6 +195,11 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 					return nil
 				}
 
+				if createLockResponse.Spec.Properties == nil || createLockResponse.Spec.Properties.Timeout == nil {
+					lockErr = fmt.Errorf("received a lock without a timeout")
+					return nil
+				}
+
 				// wrapper is needed so we ensure that the lock is removed from the tree on removal
 				lostLockWrapper := removeObtaining
 
-- 
2.43.0


From 5556027d84e93a9dc72939cd8f743ab50da33a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 51/71] fix: an item is lost in time while heartbeats hang or
 fail, and an acknowledgement does not crash its heartbeat

---
 pkg/clients/willow_client/item.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 1643be2..b3d3008 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -2,6 +2,7 @@ package willowclient
 
 import (
 	"bytes"
+	"context"
 	"fmt"
 	"net/http"
 	"sync"
@@ -10,7 +11,6 @@ import (
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
 	"github.com/DanLavine/willow/pkg/models/datatypes"
-	"golang.org/x/net/context"
 
 	"github.com/DanLavine/willow/pkg/models/api/common/errors"
 	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
@@ -29,6 +29,7 @@ type WillowItem interface {
 type Item struct {
 	doneOnce *sync.Once
 	done     chan struct{}
+	cancel   context.CancelFunc // cancels any heartbeat request that is still running
 
 	url    string
 	client *http.Client
@@ -60,25 +61,26 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		heartbeatErrorLock: new(sync.RWMutex),
 	}
 
+	ctx, cancel := context.WithCancel(context.Background())
+	item.cancel = cancel
+
+	// the item is lost when the timeout is reached, even if a heartbeat request is still waiting for a response
+	timeoutTimer := time.AfterFunc(item.heartbeatTimeout, item.stop)
+
 	go func() {
 		defer item.stop()
+		defer timeoutTimer.Stop()
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
-		lastHeartbeat := time.Now()
 		adjustedTimeout := item.heartbeatTimeout - (item.heartbeatTimeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
 
 		for {
 			select {
 			case <-item.done:
-				// ack was called can just escape
+				// ack was called, or the timeout was reached. can just escape
 				return
 			case <-ticker.C:
-				// in this case, we know that we have timed out and don't need to heartbeat anymore
-				if time.Since(lastHeartbeat) >= adjustedTimeout {
-					return
-				}
-
 				data, err := api.ModelEncodeRequest(v1willow.Heartbeat{
 					ItemID:    item.itemID,
 					KeyValues: item.keyValues,
@@ -88,7 +90,8 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					continue
 				}
 
-				req, err := http.NewRequest(
+				req, err := http.NewRequestWithContext(
+					ctx,
 					"POST",
 					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
 					bytes.NewBuffer(data),
@@ -98,12 +101,14 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					continue
 				}
 
+				sent := time.Now()
 				resp, err := client.Do(req)
 				// error making the request. This should not happen
 				if err != nil {
 					select {
 					case <-item.done:
 						//nothing to do here. race between ack and heartbeat
+						return
 					default:
 						item.forwardError(err)
 						continue
@@ -113,8 +118,8 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 				// parse the response
 				switch resp.StatusCode {
 				case http.StatusOK:
-					// sent a heartbeat
-					lastHeartbeat = time.Now()
+					// sent a heartbeat. The service might have counted from as early as when it was sent
+					timeoutTimer.Reset(item.heartbeatTimeout - time.Since(sent))
 				case http.StatusBadRequest, http.StatusConflict, http.StatusInternalServerError:
 					// faild to heartbeat for some reason
 					apiError := &errors.Error{}
@@ -230,6 +235,7 @@ func (item *Item) forwardError(err error) {
 func (item *Item) stop() {
 	item.doneOnce.Do(func() {
 		close(item.done)
+		item.cancel()
 	})
 }
 
-- 
2.43.0


From 6404d313a875448ef6c09c5263c22ff6e83d1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 52/71] fix: an acknowledgement answered with an unexpected
 status is an error

---
 pkg/clients/willow_client/item.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index b3d3008..f9ca1ec 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -212,10 +212,8 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 		return apiError
 	default:
-		item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return fmt.Errorf("unexpected status code: %d", resp.StatusCode)
 	}
-
-	return nil
 }
 
 // get the dequeued item
-- 
2.43.0


From 2272362e9de0138718182bf5c7c8d7596b1f1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 53/71] fix: refuse items without a positive timeout

---
 pkg/models/api/willow/v1/item.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..3dede54 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -139,6 +139,8 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 
 	if itemProperties.TimeoutDuration == nil {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
+	} else if *itemProperties.TimeoutDuration <= 0 {
+		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("must be greater than 0")}
 	}
 
 	return nil
-- 
2.43.0


From 3188002a482a92c1f7c19826dd7a3c67da6bde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 54/71] fix: a refused channel delete is not carried out

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From ef58f4c48f08dbb040858833421a87137fde1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 55/71] fix: refuse queue limits below -1 as a bad request

---
 pkg/models/api/willow/v1/queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..59c96af 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -110,6 +110,10 @@ func (queueProperties *QueueProperties) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("recevied a null value")}
 	}
 
+	if *queueProperties.MaxItems < -1 {
+		return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("must be -1 (unlimited) or greater")}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 016fdbb2334466e33a61818af205b2a9e625bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 56/71] fix: a refused lock release is not answered as a
 success

---
 internal/locker/api/v1/handlers/locker_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..7c84955 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,7 +144,10 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
 	// respond and ignore the errors
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
-- 
2.43.0


From f351e890b19e94591763be44a17ab78d0e4a9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 57/71] fix: a null channel is an invalid channel list

---
 pkg/models/api/willow/v1/channels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/channels.go b/pkg/models/api/willow/v1/channels.go
index 1cb462d..d46e426 100644
--- a/pkg/models/api/willow/v1/channels.go
+++ b/pkg/models/api/willow/v1/channels.go
@@ -18,6 +18,10 @@ func (c Channels) Validate() *errors.ModelError {
 	}
 
 	for index, singleChan := range c {
+		if singleChan == nil {
+			return &errors.ModelError{Field: fmt.Sprintf("[%d]", index), Err: fmt.Errorf("received a null value")}
+		}
+
 		if err := singleChan.Validate(); err != nil {
 			return &errors.ModelError{Field: fmt.Sprintf("[%d]", index), Child: err}
 		}
-- 
2.43.0


From 7a7c0511ae7b05d77d299707c1afc3da50407386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 58/71] fix: a queried lock reports the time until it expires,
 not the time since its heartbeat

---
 internal/locker/lock_manager/exclusive_locker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index fa2c8bd..2e959a0 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -147,7 +147,7 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 		if lastHeartbeatTime == (time.Time{}) {
 			expireTime = 0
 		} else {
-			expireTime = time.Since(lastHeartbeatTime)
+			expireTime = exclusiveLock.getLockTimeout() - time.Since(lastHeartbeatTime)
 		}
 
 		locks = append(locks, &v1locker.Lock{
-- 
2.43.0


From 92216cd1fcf43ed6357c70c4507aa3cb8f782e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 59/71] fix: querying the locks fails while a lock changes
 hands

---
 internal/locker/lock_manager/exclusive_locker.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index 2e959a0..7edface 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -142,12 +142,18 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 	exclusiveLocker.exclusiveLocks.QueryAction(query, func(associatedKeyValues btreeassociated.AssociatedKeyValues) bool {
 		exclusiveLock := associatedKeyValues.Value().(*exclusiveLock)
 
+		// nobody holds the lock at this moment, it is about to be claimed by the next client
+		sessionID, lockTimeout := exclusiveLock.getSessionID(), exclusiveLock.getLockTimeout()
+		if sessionID == "" || lockTimeout == 0 {
+			return true
+		}
+
 		var expireTime time.Duration
 		lastHeartbeatTime := exclusiveLock.getLastHeartbeatTime()
 		if lastHeartbeatTime == (time.Time{}) {
 			expireTime = 0
 		} else {
-			expireTime = exclusiveLock.getLockTimeout() - time.Since(lastHeartbeatTime)
+			expireTime = lockTimeout - time.Since(lastHeartbeatTime)
 		}
 
 		locks = append(locks, &v1locker.Lock{
@@ -156,12 +162,12 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: &lockTimeout,
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
+				SessionID:          sessionID,
 				TimeTillExipre:     expireTime,
 				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
 			},
-- 
2.43.0


From 91c437fd4687651dd0fabb6bf5ebef42f0297dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:38 +0000
Subject: [PATCH 60/71] fix: the client escapes a queue's name in a url

---
 pkg/clients/willow_client/channel.go | 7 ++++---
 pkg/clients/willow_client/item.go    | 9 +++++----
 pkg/clients/willow_client/queue.go   | 7 ++++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/clients/willow_client/channel.go b/pkg/clients/willow_client/channel.go
index e4e0d3a..583956e 100644
--- a/pkg/clients/willow_client/channel.go
+++ b/pkg/clients/willow_client/channel.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -33,7 +34,7 @@ func (wc *WillowClient) EnqueueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -79,7 +80,7 @@ func (wc *WillowClient) DequeueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -132,7 +133,7 @@ func (wc *WillowClient) DeleteQueueChannel(ctx context.Context, queueName string
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index f9ca1ec..98f01d4 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 	"sync"
 	"time"
 
@@ -44,12 +45,12 @@ type Item struct {
 	heartbeatErrorCallback func(err error)
 }
 
-func newItem(url string, client *http.Client, queueName string, dequeueItem *v1willow.Item) *Item {
+func newItem(baseURL string, client *http.Client, queueName string, dequeueItem *v1willow.Item) *Item {
 	item := &Item{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
 
-		url:    url,
+		url:    baseURL,
 		client: client,
 
 		data:             dequeueItem.Spec.Properties.Data,
@@ -93,7 +94,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 				req, err := http.NewRequestWithContext(
 					ctx,
 					"POST",
-					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
+					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, url.PathEscape(item.queueName)),
 					bytes.NewBuffer(data),
 				)
 				if err != nil {
@@ -185,7 +186,7 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, item.queueName),
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, url.PathEscape(item.queueName)),
 		bytes.NewBuffer(data),
 	)
 	if err != nil {
diff --git a/pkg/clients/willow_client/queue.go b/pkg/clients/willow_client/queue.go
index 6740f32..ec33cd2 100644
--- a/pkg/clients/willow_client/queue.go
+++ b/pkg/clients/willow_client/queue.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -115,7 +116,7 @@ func (wc *WillowClient) GetQueue(ctx context.Context, queueName string, channels
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +166,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -202,7 +203,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 // Delete a queue and any channels associated with the Queue
 func (wc *WillowClient) DeleteQueue(ctx context.Context, queueName string) error {
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), nil)
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c9a0f6e22139d166fc0c46df993b1be670178a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:38 +0000
Subject: [PATCH 61/71] fix: refuse queue names that no url can reach

---
 pkg/models/api/willow/v1/queue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 59c96af..0be8be5 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -2,6 +2,7 @@ package v1
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/DanLavine/willow/pkg/models/api/common/errors"
 )
@@ -96,6 +97,11 @@ func (queueDBDefinition *QueueDBDefinition) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "Name", Err: fmt.Errorf("recevied an empty string")}
 	}
 
+	// the name is one segment of the queue's url
+	if strings.Contains(*queueDBDefinition.Name, "/") {
+		return &errors.ModelError{Field: "Name", Err: fmt.Errorf("cannot contain a '/'")}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 39bb2480ac9e09ef265a231bacbdf1f9bd6b1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:49 +0000
Subject: [PATCH 62/71] fix: a queue without properties crashes the service

---
 pkg/models/api/willow/v1/queue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 0be8be5..ecbd3e4 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -59,9 +59,7 @@ type QueueSpec struct {
 	// DBDefinition defines how to save the item in the Database
 	DBDefinition *QueueDBDefinition `json:"DBDefinition,omitempty"`
 
-	// Properties are the configurable/updateable fields for the Rule
-	//
-	// This is an optional field as all the properties are currently optional
+	// Properties are the configurable/updateable fields for the Queue
 	Properties *QueueProperties `json:"Properties,omitempty"`
 }
 
@@ -74,7 +72,9 @@ func (queueSpec *QueueSpec) Validate() *errors.ModelError {
 		}
 	}
 
-	if queueSpec.Properties != nil {
+	if queueSpec.Properties == nil {
+		return &errors.ModelError{Field: "Properties", Err: fmt.Errorf("received a null value")}
+	} else {
 		if err := queueSpec.Properties.Validate(); err != nil {
 			return &errors.ModelError{Field: "Properties", Child: err}
 		}
-- 
2.43.0


From 120f874a697c0ceee532577401b002858e15e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 63/71] fix: a lock that the service does not know any more is
 lost

---
 pkg/clients/locker_client/lock.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index 2839437..8141d33 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -138,7 +138,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 					// this is the success case and the heartbeat passed
 					// the service might have counted from as early as when the heartbeat was sent
 					timeoutTimer.Reset(lock.timeout - time.Since(sent))
-				case http.StatusConflict, http.StatusBadRequest:
+				case http.StatusConflict, http.StatusBadRequest, http.StatusNotFound:
 					// there was an error with the request body or session id
 					apiError := &errors.Error{}
 					if err := api.ModelDecodeResponse(resp, apiError); err != nil {
@@ -205,7 +205,7 @@ func (l *lock) Release(ctx context.Context) error {
 		case http.StatusNoContent:
 			// this is the success case and the Lock was deleted
 			return nil
-		case http.StatusConflict, http.StatusBadRequest:
+		case http.StatusConflict, http.StatusBadRequest, http.StatusNotFound:
 			// there was an error with the request body or seession id
 			apiError := &errors.Error{}
 			if err := api.ModelDecodeResponse(resp, apiError); err != nil {
-- 
2.43.0


From aaae0f3c5b730d32e68acef54291333db6cf0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 64/71] fix: deleting a queue crashes the service when the
 limiter has further limits for it

---
 internal/willow/brokers/queues/memory/memory_queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index e82bade..3d2f5b1 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -146,6 +146,8 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 					},
 				},
 			},
+			MinNumberOfKeyValues: helpers.PointerOf(2),
+			MaxNumberOfKeyValues: helpers.PointerOf(2),
 		},
 	})
 	if err != nil {
-- 
2.43.0


From a1be153c925b15cf1ffc22a6308c6c59830924f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:30 +0000
Subject: [PATCH 65/71] fix: willow stops when it is interrupted while waiting
 for the limiter

The wait slept through the interrupt for up to 100 seconds.
---
 cmd/willow/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/willow/main.go b/cmd/willow/main.go
index 603f072..dea880f 100644
--- a/cmd/willow/main.go
+++ b/cmd/willow/main.go
@@ -56,7 +56,12 @@ func main() {
 	for i := 0; i < 10; i++ {
 		if err := limiterClient.Healthy(); err != nil {
 			logger.Error("error checking health of limiter service", zap.Error(err))
-			time.Sleep(10 * time.Second)
+
+			select {
+			case <-time.After(10 * time.Second):
+			case <-shutdown.Done():
+				os.Exit(1)
+			}
 
 			if i == 9 {
 				logger.Fatal("Failed to setup the limiter client which is required")
-- 
2.43.0


From 52ca3a786c6c69dad15349a21980a6c62940f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:53 +0000
Subject: [PATCH 66/71] fix: willow starts against a limiter that already has
 its rule

The rule is set up 'if it does not exist', but the conflict reported for an
existing one ended the service: willow could not be restarted.
---
 cmd/willow/main.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cmd/willow/main.go b/cmd/willow/main.go
index dea880f..af952ee 100644
--- a/cmd/willow/main.go
+++ b/cmd/willow/main.go
@@ -23,6 +23,8 @@ import (
 	v1router "github.com/DanLavine/willow/internal/willow/api/v1/router"
 	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
 	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
+	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
+	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
 	v1 "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
 	"github.com/DanLavine/willow/pkg/models/datatypes"
 )
@@ -88,7 +90,25 @@ func main() {
 		},
 	})
 	if err != nil {
-		logger.Fatal("Failed to setup Limiter enqueue rule", zap.Error(err))
+		// the limiter still has the rule from a previous start
+		anyValue := queryassociatedaction.ValueQuery{
+			Value:            datatypes.Any(),
+			Comparison:       v1common.Equals,
+			TypeRestrictions: v1common.TypeRestrictions{MinDataType: datatypes.T_any, MaxDataType: datatypes.T_any},
+		}
+		existingRules, queryErr := limiterClient.QueryRules(context.Background(), &queryassociatedaction.AssociatedActionQuery{
+			Selection: &queryassociatedaction.Selection{
+				KeyValues: queryassociatedaction.SelectionKeyValues{
+					"_willow_queue_name": anyValue,
+					"_willow_enqueued":   anyValue,
+				},
+				MaxNumberOfKeyValues: helpers.PointerOf(2),
+			},
+		})
+		if queryErr != nil || len(existingRules) != 1 {
+			logger.Fatal("Failed to setup Limiter enqueue rule", zap.Error(err))
+		}
+		ruleResp = existingRules[0]
 	}
 
 	// setup async handlers
-- 
2.43.0


From 313fc3c211f2e5eb37075537bfc9fe2268b1d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:34 +0000
Subject: [PATCH 67/71] fix: willow keeps running when the limiter cannot be
 asked about a limit

A channel that waits for a limit panicked, and with it the service, when one
of its queries failed. It asks again after the usual pause instead.
---
 .../memory/memory_queue_channel.go               | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 8639461..15eafeb 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -199,16 +199,14 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 				for {
 					// find any rules we might be at the limit for
 					rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
-					if err != nil {
-						panic(err)
-					}
 
-					// for each rule, query the counters to know if there is an issue
-					underLimit := true
+					// for each rule, query the counters to know if there is an issue. If the limiter cannot be asked, try again later
+					underLimit := err == nil
 					for _, rule := range rules {
 						overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
 						if err != nil {
-							panic(err)
+							underLimit = false
+							break
 						}
 
 						switch len(overrides) {
@@ -248,7 +246,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 							counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 							if err != nil {
-								panic(err)
+								underLimit = false
+								break
 							}
 
 							totalCount := int64(0)
@@ -296,7 +295,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 								counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 								if err != nil {
-									panic(err)
+									underLimit = false
+									break
 								}
 
 								totalCount := int64(0)
-- 
2.43.0


From f5aa6b6662cadb022cf5814cd2f2d2747e44c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 68/71] fix: a *_INSECURE_HTTP variable set to false replaces
 the command line flag

"All flags will use the env vars if they are set instead of command line
parameters", but a service started with -insecure-http served plain http
although its variable was set to false.
---
 internal/config/limiter_config.go | 3 +++
 internal/config/locker_config.go  | 3 +++
 internal/config/willow_config.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index e166f76..93b7c22 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -123,6 +123,9 @@ func (lc *LimiterConfig) parseEnv() {
 		if strings.ToLower(limiterInsecureHTTP) == "true" {
 			trueValue := true
 			lc.InsecureHttp = &trueValue
+		} else if strings.ToLower(limiterInsecureHTTP) == "false" {
+			falseValue := false
+			lc.InsecureHttp = &falseValue
 		}
 	}
 }
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index 25e2f8f..a39aa9d 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -93,6 +93,9 @@ func (lc *LockerConfig) parseEnv() error {
 		if insecureHTTP == "true" {
 			trueValue := true
 			lc.InsecureHttp = &trueValue
+		} else if insecureHTTP == "false" {
+			falseValue := false
+			lc.InsecureHttp = &falseValue
 		}
 	}
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 38ca504..45ad33e 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -111,6 +111,9 @@ func (wc *WillowConfig) parseEnv() error {
 		if willowInsecureHTTP == "true" {
 			trueValue := true
 			wc.InsecureHttp = &trueValue
+		} else if willowInsecureHTTP == "false" {
+			falseValue := false
+			wc.InsecureHttp = &falseValue
 		}
 	}
 	//// ca key
-- 
2.43.0


From 756290a011f6a85483595e9445f614c53696e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 69/71] fix: the help names the variables that the services
 read

---
 internal/config/limiter_config.go | 6 +++---
 internal/config/willow_config.go  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index 93b7c22..244b71a 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -41,16 +41,16 @@ All flags will use the env vars if they are set instead of command line paramete
 	}
 
 	limiterConfig := &LimiterConfig{
-		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LIMITER_LOG_LEVEL"),
+		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LOG_LEVEL"),
 
 		LimiterPort: limiterFlagSet.String("port", "8082", "default port for the limitter server to run on. Can be set by env var LIMITER_PORT"),
 
-		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_CA"),
+		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_SERVER_CA"),
 		ServerKey: limiterFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var LIMITER_SERVER_KEY"),
 		ServerCRT: limiterFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var LIMITER_SERVER_CRT"),
 
 		LockerURL:       limiterFlagSet.String("locker-url", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_URL"),
-		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CLIENT_CA"),
+		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CA"),
 		LockerClientKey: limiterFlagSet.String("locker-client-key", "", "Client private key location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_KEY"),
 		LockerClientCRT: limiterFlagSet.String("locker-client-crt", "", "Client ssl certificate location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_CRT"),
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 45ad33e..54b6600 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -64,7 +64,7 @@ All flags will use the env vars if they are set instead of command line paramete
 		ServerKey:        willowFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var WILLOW_SERVER_KEY"),
 		ServerCRT:        willowFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var WILLOW_SERVER_CRT"),
 		LimiterURL:       willowFlagSet.String("limiter-url", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_URL"),
-		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CLIENT_CA"),
+		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CA"),
 		LimiterClientKey: willowFlagSet.String("limiter-client-key", "", "Client private key location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_KEY"),
 		LimiterClientCRT: willowFlagSet.String("limiter-client-crt", "", "Client ssl certificate location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_CRT"),
 		StorageConfig: &StorageConfig{
-- 
2.43.0


From 857e96a095286bf83eb7b6f5a0f3a5536b02831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 70/71] fix: a client uses its certificate also without a
 custom CA

The CA is optional, but without one the configured key and certificate were
ignored.
---
 pkg/clients/http_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/clients/http_client.go b/pkg/clients/http_client.go
index f280856..715cc7c 100644
--- a/pkg/clients/http_client.go
+++ b/pkg/clients/http_client.go
@@ -15,7 +15,7 @@ func NewHTTPClient(cfg *Config) (*http.Client, error) {
 
 	client := &http.Client{}
 
-	if cfg.CAFile != "" {
+	if cfg.ClientCRTFile != "" {
 		client.Transport = &http2.Transport{
 			TLSClientConfig: &tls.Config{
 				Certificates: []tls.Certificate{cfg.Cert()},
-- 
2.43.0


From c2cd4bdb535258e16f3b47e33999777601ad954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:43 +0000
Subject: [PATCH 71/71] fix: willow refuses an invalid port like the other
 services

---
 internal/config/willow_config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 54b6600..d3d8d34 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strconv"
 )
 
 var (
@@ -162,6 +163,14 @@ func (wc *WillowConfig) validate() error {
 		return fmt.Errorf("expected config 'LogLevel' to be [debug | info]. Received: '%s'", *wc.logLevel)
 	}
 
+	// server port
+	willowPort, err := strconv.Atoi(*wc.Port)
+	if err != nil {
+		return fmt.Errorf("error parsing 'port': %w", err)
+	} else if willowPort > 65535 {
+		return fmt.Errorf("flag 'port' is invalid: '%d'. Must be set to a proper port below 65536", willowPort)
+	}
+
 	if *wc.InsecureHttp {
 		if *wc.ServerCA != "" {
 			return fmt.Errorf("flag 'server-ca' cannot be set with 'insecure-http'")
-- 
2.43.0

