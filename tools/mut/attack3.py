# bugs which need two sites, an unusual input or a history
exec(open('/verif/tools/mut/h.py').read())
B='bptree/bptree.go';L='bptree/leaf.go';N='bptree/nonleaf.go';K='bptree/key.go';V='bptree/value.go';I='bptree/iterator.go';LL='bptree/leaflist.go';F='bptree/fprint.go';H='hashmap/hashmap.go';D='dict.go';O='ordereddict.go'
b='(bpt *BPTree) ';h='(hm *HashMap) ';lc='(lc leafController) ';nlc='(nlc nonLeafController) '
M=[
# overflow format: the comparer keeps the old one
('k-fixed','C16',[m(K,'(kf keyFactory) allocateKeyOverflow','	keyOverflowRawSize := make([]byte, binary.MaxVarintLen64)\n	keyOverflowRawSize = keyOverflowRawSize[:binary.PutUvarint(keyOverflowRawSize, uint64(len(keyOverflow)))]\n','	keyOverflowRawSize := make([]byte, 4)\n	binary.BigEndian.PutUint32(keyOverflowRawSize, uint32(len(keyOverflow)))\n'),
  m(K,'(kf keyFactory) getKeyOverflow','	n, i := binary.Uvarint(data)\n\n	if i <= 0 {\n		panic(errCorrupted)\n	}\n','	n, i := binary.BigEndian.Uint32(data), 4\n')]),
('k-fixed-ok','',[m(K,'(kf keyFactory) allocateKeyOverflow','	keyOverflowRawSize := make([]byte, binary.MaxVarintLen64)\n	keyOverflowRawSize = keyOverflowRawSize[:binary.PutUvarint(keyOverflowRawSize, uint64(len(keyOverflow)))]\n','	keyOverflowRawSize := make([]byte, 8)\n	binary.BigEndian.PutUint64(keyOverflowRawSize, uint64(len(keyOverflow)))\n'),
  m(K,'(kf keyFactory) getKeyOverflow','	n, i := binary.Uvarint(data)\n\n	if i <= 0 {\n		panic(errCorrupted)\n	}\n','	n, i := binary.BigEndian.Uint64(data), 8\n'),m(K,'(kc keyComparer) CompareKey','	n, i := binary.Uvarint(data)\n\n	if i <= 0 {\n		panic(errCorrupted)\n	}\n','	n, i := binary.BigEndian.Uint64(data), 8\n')]),
('k-short','C16',[m(K,'(kc keyComparer) CompareKey','len(rawKey) <= keyPrefixSize','len(rawKey) < maxKeySize')]),
('k-bound','C17',[m(K,'(kf keyFactory) ReadKey','dataOffset+len(buffer) <= keyPrefixSize','dataOffset+len(buffer) <= maxKeySize')]),
('k-append','C03',[m(K,'(kf keyFactory) CreateKey','	key := key(make([]byte, maxKeySize))\n	copy(key, rawKey[:keyPrefixSize])\n	keyOverflowAddr := kf.allocateKeyOverflow(rawKey[keyPrefixSize:])\n	binary.BigEndian.PutUint64(key[keyPrefixSize:], uint64(keyOverflowAddr))\n	return key\n','	keyOverflowAddr := kf.allocateKeyOverflow(rawKey[keyPrefixSize:])\n	var suffix [8]byte\n	binary.BigEndian.PutUint64(suffix[:], uint64(keyOverflowAddr))\n	return append(rawKey[:keyPrefixSize], suffix[:]...)\n')]),
('k-noaddr','C17',[m(K,'(kf keyFactory) allocateKeyOverflow','	i := copy(buffer, keyOverflowRawSize)\n	copy(buffer[i:], keyOverflow)\n','	copy(buffer[copy(buffer, keyOverflowRawSize[:1]):], keyOverflow)\n')]),
# path fixing
('p-right','C12',[m(B,b+'ensureNotOverloadLeaf','			if recordIndex >= m {','			if recordIndex > m {')]),
('p-up','C12',[m(B,b+'ensureNotUnderloadLeaf','		(*recordPath)[i-1].RecordOrNonLeafChildIndex = leafIndex - 1\n','')]),
('p-nl','C12',[m(B,b+'ensureNotUnderloadNonLeaf','			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex\n','')]),
('p-order','C12',[m(B,b+'removeRecord','	bpt.syncKey(&recordPath)\n	bpt.ensureNotUnderloadLeaf(&recordPath)\n','	bpt.ensureNotUnderloadLeaf(&recordPath)\n	bpt.syncKey(&recordPath)\n')]),
('p-sync-one','C12',[m(B,b+'syncKey','	for i := n - 2; i >= 0; i-- {','	for i := n - 2; i >= n-3 && i >= 0; i-- {')]),
('sync-while-bad','C12',[m(B,b+'syncKey','''	for i := n - 2; i >= 0; i-- {
		nonLeafChildIndex := (*recordPath)[i].RecordOrNonLeafChildIndex

		if nonLeafChildIndex >= 1 {
			nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
			nonLeafController.SetKey(nonLeafChildIndex, leafController.GetKey(0))
			bpt.ensureNonLeafBalanced(recordPath, i)
			return
		}
	}
''','''	i := n - 2

	for i >= 1 && (*recordPath)[i].RecordOrNonLeafChildIndex == 0 {
		i--
	}

	if i < 1 {
		return
	}

	nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
	nonLeafController.SetKey((*recordPath)[i].RecordOrNonLeafChildIndex, leafController.GetKey(0))
	bpt.ensureNonLeafBalanced(recordPath, i)
''')]),
('p-norebalance','C12',[m(B,b+'ensureNotUnderloadLeaf','			leafController1.UnshiftFromRight(numberOfRecords, leafParentController, leafIndex, leafRSiblingController)\n			bpt.ensureNonLeafBalanced(recordPath, i-1)\n','			leafController1.UnshiftFromRight(numberOfRecords, leafParentController, leafIndex, leafRSiblingController)\n')]),
('p-over-first','C12',[m(B,b+'replaceValue','	bpt.ensureNotUnderloadLeaf(&recordPath)\n','	if len(newValue) < oldValueSize {\n		bpt.ensureNotUnderloadLeaf(&recordPath)\n	}\n')]),
('p-thresh','C12',[m(B,b+'ensureNotOverloadLeaf','<= leafOverloadThreshold','<= maxLeafFreeSpaceSize')]),
('p-count-eq','C12',[m(L,lc+'CountRecordsForShiftingToLeft','loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold','loadSize2+recordSize > leafOverloadThreshold')]),
# list of leaves
('l-ins-order','C11',[m(LL,'(ll *leafList) InsertLeafAfter','	leafNextAddr := leafPrevHeader.NextAddr()\n	leafNextHeader := leafHeader(leafFactory.GetLeafController(leafNextAddr))\n	leafHeader1.SetPrevAddr(leafPrevAddr)\n	leafPrevHeader.SetNextAddr(leafAddr)\n','	leafHeader1.SetPrevAddr(leafPrevAddr)\n	leafPrevHeader.SetNextAddr(leafAddr)\n	leafNextAddr := leafPrevHeader.NextAddr()\n	leafNextHeader := leafHeader(leafFactory.GetLeafController(leafNextAddr))\n')]),
('l-rm-late','C11',[m(B,b+'ensureNotUnderloadLeaf','		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n		leafController1.MergeFromRight(leafParentController, leafIndex, leafRSiblingController)\n		bpt.destroyLeaf(leafRSiblingAddr)\n','		leafController1.MergeFromRight(leafParentController, leafIndex, leafRSiblingController)\n		bpt.destroyLeaf(leafRSiblingAddr)\n		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n')]),
('l-after','C11',[m(B,b+'ensureNotOverloadLeaf','InsertLeafAfter(bpt.fileStorage, leafNSiblingAddr, leafAddr)','InsertLeafAfter(bpt.fileStorage, leafNSiblingAddr, bpt.leafList.TailAddr())')]),
# ranges, iterators
('r-tail','C14',[m(B,b+'search','			if minLeafAddr == bpt.leafList.TailAddr() {','			if minLeafAddr == bpt.leafList.HeadAddr() && bpt.leafCount == 1 {')]),
('r-one','C14',[m(B,b+'search','			if f1 == f2 || bpt.recordCount == 1 {','			if f1 == f2 {')]),
('r-noeq','C14',[m(B,b+'search','	if d == 0 {\n		if !ok3 {\n			return 0, 0, 0, 0, false\n		}\n\n','	if d == 0 {\n')]),
('r-maxidx','C14',[m(B,b+'search','	if !ok4 {\n		maxRecordIndex--\n	}\n','	if !ok4 && maxRecordIndex >= 1 {\n		maxRecordIndex--\n	}\n')]),
('i-gt','C15',[m(I,'(bi *backwardIterator) Advance','bi.currentRecordIndex >= 1','bi.currentRecordIndex > 1')]),
('i-end','C15',[m(I,'(i *iterator) preAdvance','i.currentLeafAddr == i.lastLeafAddr && i.currentRecordIndex == i.lastRecordIndex','i.currentLeafAddr == i.lastLeafAddr && i.currentRecordIndex >= i.lastRecordIndex')]),
('i-stale','C15',[m(I,'(i *iterator) preAdvance','		*i = iterator{isAtEnd: true}\n','		i.isAtEnd = true\n		i.lastRecordIndex = -1\n')]),
# counters
('n-dec','C09',[m(B,b+'decreaseHeight','	bpt.destroyNonLeaf(bpt.rootAddr)\n','	nonLeafFactory{bpt.fileStorage}.DestroyNonLeaf(bpt.rootAddr)\n')]),
('n-pay','C09',[m(B,b+'replaceValue','	bpt.payloadSize += len(newValue) - oldValueSize\n','	if returnOldValue || len(newValue) != oldValueSize {\n		bpt.payloadSize += len(newValue) - len(value)\n	}\n')]),
('n-hm','C09',[m(H,h+'replaceValue','	hm.payloadSize += len(value) - len(item.Value)\n\n	if returnReplacedValue {\n		value, item.Value = copyBytes(item.Value), value\n	} else {\n		value, item.Value = nil, value\n	}\n','	newValue := value\n\n	if returnReplacedValue {\n		value, item.Value = copyBytes(item.Value), value\n	} else {\n		value, item.Value = nil, value\n	}\n\n	hm.payloadSize += len(newValue) - len(value)\n')]),
('n-rmdir','C09',[m(H,h+'removeSlotDir','	hm.slotDirCount--\n\n	if hm.max','	if hm.max','		hm.adjustSlotDirs(hm.maxSlotDirCountShift - 1)\n	}\n','		hm.adjustSlotDirs(hm.maxSlotDirCountShift - 1)\n	}\n\n	hm.slotDirCount--\n')]),
# hash
('h-high','C18',[m(H,h+'calculateSlotIndex','	if slotIndex >= hm.slotCount {','	if slotIndex > hm.slotCount {')]),
('h-addorder','C18',[m(H,h+'addSlot','	hm.locateSlotAddr(hm.slotCount).Set(hm.fileStorage, hm.storeSlot(slot))\n	hm.slotCount++\n\n	if hm.slotCount == hm.maxSlotCountPlusOne() {\n','	hm.locateSlotAddr(hm.slotCount).Set(hm.fileStorage, hm.storeSlot(slot))\n	hm.slotCount++\n\n	if hm.slotCount > hm.maxSlotCountPlusOne() {\n')]),
('h-rmdir','C18',[m(H,h+'removeSlot','((hm.slotDirCount-2)<<slotDirLengthShift)+1','((hm.slotDirCount-1)<<slotDirLengthShift)+1')]),
('h-hyst','C18',[m(H,h+'removeSlotDir','hm.slotDirCount == 1<<(hm.maxSlotDirCountShift-2)','hm.slotDirCount == 1<<hm.maxSlotDirCountShift-2')]),
('h-keysum','C18',[m(H,h+'appendItem','	if len(item.Key) <= maxShortKeySize {','	if len(item.Key) <= maxShortKeySize+8 {')]),
('h-bit','C18',[m(H,h+'maybeExpand','uint64(hm.minSlotCount()))\n','uint64(hm.maxSlotCountPlusOne()))\n')]),
('h-binalias','C01',[m(H,h+'removeSlot','	slot.Bin = copyBytes(slot.Bin)\n','')]),
('h-latepack','C01',[m(H,h+'maybeExpand','		slot1, slot2 := packSlot(items1), packSlot(items2)\n		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, slot1))\n		hm.addSlot(slot2)\n','		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, packSlot(items1)))\n		hm.addSlot(packSlot(items2))\n')]),
('h-lateunpack','C01',[m(H,h+'maybeShrink','		items1 := unpackSlot(hm.removeSlot())\n','		slot1 := hm.removeSlot()\n','		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, packSlot(mergeItems(items1, items2))))\n','		hm.eraseSlot(slotAddr)\n		slotAddrRef.Set(hm.fileStorage, hm.storeSlot(packSlot(mergeItems(unpackSlot(slot1), items2))))\n')]),
('h-cursor','C20',[m(H,h+'FetchItem','	','	if cursor.slotIndex >= hm.slotCount {\n		cursor.slotIndex = 0\n	}\n\n	')]),
('h-restore','C10',[m(H,h+'restoreSlot','	hm.eraseSlot(slotAddr)\n	return hm.storeSlot(slot)\n','	if len(slot.ItemInfos) == 0 {\n		return -1\n	}\n\n	hm.eraseSlot(slotAddr)\n	return hm.storeSlot(slot)\n')]),
('h-set-cond','C07',[m(H,h+'flushItems','	items.SlotAddr = hm.restoreSlot(items.SlotAddr, packSlot(items.Value))\n	items.SlotAddrRef.Set(hm.fileStorage, items.SlotAddr)\n','	slotAddr := hm.restoreSlot(items.SlotAddr, packSlot(items.Value))\n\n	if slotAddr >= 0 {\n		items.SlotAddrRef.Set(hm.fileStorage, slotAddr)\n	}\n')]),
('h-pack-last','C19',[m(H,'packSlot','	slot.ItemInfos[n-1].ValueSize = 0\n','	if n > 1 {\n		slot.ItemInfos[n-1].ValueSize = 0\n	}\n'),m(H,'unpackSlot','	items[n-1].Value = slot.Bin[i:]\n','	if n > 1 {\n		items[n-1].Value = slot.Bin[i:]\n	}\n')]),
('h-merge-ovf','C19',[m(H,'mergeItems','	copy(items[n<<1:], items1[n:])\n	copy(items[n<<1:], items2[n:])\n','	if n1 > n2 {\n		copy(items[n<<1:], items1[n:])\n	} else {\n		copy(items[n<<1:], items2[n1:])\n		copy(items[n<<1:], items1)\n	}\n')]),
# life
('o-close','C05',[m(O,'OpenOrderedDict','		return nil, err\n','		return nil, nil\n')]),
('o-create','C04',[m(O,'OpenOrderedDict','if ','if false || ')]),
# order of reading and growing
('g-val','C01',[m(B,b+'AddRecord','createRecord','createRecord')]),
]
M=[x for x in M if x[0] not in('g-val','o-create')]
