From 592de5cb644bccd5aaf769fd1975c0d53734fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 1/6] fix: re-access the slot directories after the second
 allocation of HashMap.Create

The accessor returned by the first AllocateSpace may be invalidated by the
second one, the address of the first slot directory was then written through
a stale mapping.
---
 hashmap/hashmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..fb492e4 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -34,8 +34,10 @@ func (hm *HashMap) Init(fileStorage *fsm.FileStorage) *HashMap {
 
 // Create creates the hash map on the file storage.
 func (hm *HashMap) Create() {
-	slotDirsAddr, buffer1 := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
+	slotDirsAddr, _ := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
 	slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
+	// the accessor of the slot dirs gets invalidated by the second allocation
+	buffer1 := hm.fileStorage.AccessSpace(slotDirsAddr)
 	binary.BigEndian.PutUint64(buffer1, uint64(slotDirAddr))
 	binary.BigEndian.PutUint64(buffer2, ^uint64(0))
 	hm.slotDirsAddr = slotDirsAddr
-- 
2.43.0


From 1783746bcca6dc27d5c294c96605bf612fadfe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 2/6] fix: make BPTree range searches respect bounds which are
 not present

When no record was at or after the lower bound in its leaf, the search moved
on to the next leaf but kept reading the key from the old one, and a range
with equal absent bounds returned the next record.
---
 bptree/bptree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..c8d800a 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,11 +765,16 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
 
 	if d == 0 {
+		if !ok3 {
+			return 0, 0, 0, 0, false
+		}
+
 		return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, true
 	}
 
-- 
2.43.0


From 3e365898a58ad724a9bd35c6bd6b825ec13a9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 3/6] fix: count only the records really moved when shifting
 records between leafs

The loops gave up after having already charged the record which is not moved
to the load sizes, so that a leaf could be left overloaded (and later overrun
its page) or underloaded by a shift.
---
 bptree/leaf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..412cbe5 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -202,13 +202,13 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 
 	for i := 0; ; i++ {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
@@ -236,13 +236,13 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 
 	for i := lc.NumberOfRecords() - 1; ; i-- {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
-- 
2.43.0


From 65af64ed2146b3c456c7dfaaa7ac2c38d66ab661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 4/6] fix: account exactly for the separators when shifting
 children between non-leafs

The separator which moves down from the parent (and the key which moves up to
it) were left out of the load sizes, and a child which is not moved was
charged, so that a shift could overload a non-leaf without anyone noticing
and the next insertion overran its page.
---
 bptree/bptree.go  |  8 +++----
 bptree/nonleaf.go | 57 +++++++++++++++++++++++++++--------------------
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index c8d800a..792e148 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -494,7 +494,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController := bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			m := nonLeafController1.NumberOfChildren() - numberOfChildren
 			nonLeafController1.ShiftToRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 
@@ -516,7 +516,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController := bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			m := nonLeafLSiblingController.NumberOfChildren()
 			nonLeafController1.ShiftToLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 
@@ -661,7 +661,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController = bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
@@ -675,7 +675,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController = bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..bdec97e 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -202,25 +202,31 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 	nlc.InsertChildren(nlc.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
-	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
-	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := leftSibling.GetLoadSize()
+	separatorSize := len(parent.GetKey(index))
 	childCount := 0
 
 	for i := 1; ; i++ {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+		// the child i-1 goes to the left sibling along with the separator,
+		// and the key of the child i becomes the new separator.
+		keySize := len(nlc.GetKey(i))
+		delta1 := nonLeafChildHeaderSize + keySize
+		delta2 := nonLeafChildHeaderSize + separatorSize
+
+		if loadSize1-delta1 < nonLeafUnderloadThreshold || loadSize2+delta2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= delta1
+		loadSize2 += delta2
+		separatorSize = keySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -238,28 +244,31 @@ func (nlc nonLeafController) ShiftToLeft(numberOfChildren int, parent nonLeafCon
 	leftSibling.InsertChildren(leftSibling.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLeafController) int {
-	n := nlc.NumberOfChildren()
-	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
-	loadSize1 := nlc.GetLoadSize() - lastChildSize
-	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := rightSibling.GetLoadSize()
+	separatorSize := len(parent.GetKey(index + 1))
 	childCount := 0
 
-	for i := n - 2; ; i-- {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+	for i := nlc.NumberOfChildren() - 1; ; i-- {
+		// the child i goes to the right sibling, the separator goes along
+		// and the key of the child i becomes the new separator.
+		keySize := len(nlc.GetKey(i))
+		delta1 := nonLeafChildHeaderSize + keySize
+		delta2 := nonLeafChildHeaderSize + separatorSize
+
+		if loadSize1-delta1 < nonLeafUnderloadThreshold || loadSize2+delta2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= delta1
+		loadSize2 += delta2
+		separatorSize = keySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += lastChildSize
-		lastChildSize = childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -277,16 +286,16 @@ func (nlc nonLeafController) ShiftToRight(numberOfChildren int, parent nonLeafCo
 	rightSibling.InsertChildren(0, children)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(leftSibling nonLeafController) int {
-	return leftSibling.CountChildrenForShiftingToRight(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	return leftSibling.CountChildrenForShiftingToRight(parent, index-1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromLeft(numberOfChildren int, parent nonLeafController, index int, leftSibling nonLeafController) {
 	leftSibling.ShiftToRight(numberOfChildren, parent, index-1, nlc)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(rightSibling nonLeafController) int {
-	return rightSibling.CountChildrenForShiftingToLeft(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	return rightSibling.CountChildrenForShiftingToLeft(parent, index+1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromRight(numberOfChildren int, parent nonLeafController, index int, rightSibling nonLeafController) {
-- 
2.43.0


From 02c13783b6b98afb957fab61fce65aab1d4510f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 5/6] fix: follow the record path when the root is removed
 while balancing

ensureNotUnderloadNonLeaf may remove the root and so shorten the record path,
the index used by the ensureNotOverloadNonLeaf following it then designated
the child of the non-leaf, possibly a leaf taken for a non-leaf.
---
 bptree/bptree.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 792e148..8386e9e 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -358,8 +358,7 @@ func (bpt *BPTree) syncKey(recordPath *recordPath) {
 		if nonLeafChildIndex >= 1 {
 			nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
 			nonLeafController.SetKey(nonLeafChildIndex, leafController.GetKey(0))
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i)
+			bpt.ensureNonLeafBalanced(recordPath, i)
 			return
 		}
 	}
@@ -409,8 +408,7 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	}
@@ -435,8 +433,7 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	}
@@ -506,8 +503,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	}
@@ -532,8 +528,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	}
@@ -586,8 +581,7 @@ func (bpt *BPTree) ensureNotUnderloadLeaf(recordPath *recordPath) {
 
 		if numberOfRecords := leafController1.CountRecordsForUnshiftingFromRight(leafRSiblingController); numberOfRecords >= 1 {
 			leafController1.UnshiftFromRight(numberOfRecords, leafParentController, leafIndex, leafRSiblingController)
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	} else {
@@ -603,8 +597,7 @@ func (bpt *BPTree) ensureNotUnderloadLeaf(recordPath *recordPath) {
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfRecords + recordIndex
 			// <<< fix record path end
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	} else {
@@ -663,8 +656,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 
 		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	} else {
@@ -680,8 +672,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
 			// <<< fix record path end
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNonLeafBalanced(recordPath, i-1)
 			return
 		}
 	} else {
@@ -705,6 +696,17 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 }
 
+func (bpt *BPTree) ensureNonLeafBalanced(recordPath *recordPath, i int) {
+	height := len(*recordPath) - i
+	bpt.ensureNotUnderloadNonLeaf(recordPath, i)
+	// the record path gets shorter when the root is removed
+	i = len(*recordPath) - height
+
+	if i >= 0 {
+		bpt.ensureNotOverloadNonLeaf(recordPath, i)
+	}
+}
+
 func (bpt *BPTree) increaseHeight() {
 	rootAddr, rootController := bpt.createNonLeaf()
 	rootController.InsertChildren(0, []nonLeafChild{{nil, bpt.rootAddr}})
-- 
2.43.0


From 20e627d1190c62da7d09701dbbfd1cd120ffe019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 6/6] fix: free the contents too when destroying a B+ tree or a
 hash map

Destroy only freed the root leaf or the first slot directory, all the other
nodes, overflows, slots and slot directories were leaked.
---
 bptree/bptree.go   |  4 ++++
 hashmap/hashmap.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 8386e9e..9b36b50 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -38,6 +38,10 @@ func (bpt *BPTree) Create() {
 
 // Destroy destroys the B+ tree on the file storage.
 func (bpt *BPTree) Destroy() {
+	for bpt.recordCount >= 1 {
+		bpt.DeleteRecord(MinKey, false)
+	}
+
 	bpt.destroyLeaf(bpt.rootAddr)
 	*bpt = *new(BPTree).Init(bpt.fileStorage)
 }
diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index fb492e4..9a6c8fb 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -48,9 +48,15 @@ func (hm *HashMap) Create() {
 
 // Destroy destroys the hash map on the file storage.
 func (hm *HashMap) Destroy() {
-	slotDirAddr := int64(binary.BigEndian.Uint64(hm.fileStorage.AccessSpace(hm.slotDirsAddr)))
+	for i := 0; i < hm.slotCount; i++ {
+		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))
+	}
+
+	for i := 0; i < hm.slotDirCount; i++ {
+		hm.fileStorage.FreeSpace(hm.locateSlotDirAddr(i).Get(hm.fileStorage))
+	}
+
 	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
-	hm.fileStorage.FreeSpace(slotDirAddr)
 	*hm = *new(HashMap).Init(hm.fileStorage)
 }
 
-- 
2.43.0

