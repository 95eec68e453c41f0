# more behaviour-preserving edits; every check has to stay quiet
exec(open('/verif/tools/mut/h.py').read())
B='bptree/bptree.go';L='bptree/leaf.go';N='bptree/nonleaf.go';K='bptree/key.go';V='bptree/value.go';I='bptree/iterator.go';LL='bptree/leaflist.go';F='bptree/fprint.go';H='hashmap/hashmap.go';D='dict.go';O='ordereddict.go'
b='(bpt *BPTree) ';h='(hm *HashMap) ';lc='(lc leafController) ';nlc='(nlc nonLeafController) '
CMP='''	keyOverflowAddr := int64(binary.BigEndian.Uint64(key[keyPrefixSize:]))
	data := kc.FileStorage.AccessSpace(keyOverflowAddr)
	n, i := binary.Uvarint(data)

	if i <= 0 {
		panic(errCorrupted)
	}

	keyOverflowSize := int(n)
	keyOverflow := data[i : i+keyOverflowSize]
'''
M=[
('cmp-factory','',[m(K,'(kc keyComparer) CompareKey',CMP,'	_, keyOverflow := keyFactory{kc.FileStorage}.getKeyOverflow(key)\n')]),
('cmp-order','',[m(K,'(kc keyComparer) CompareKey','''	if len(key) < maxKeySize || len(rawKey) <= keyPrefixSize {
		return bytes.Compare(key, rawKey)
	}

	if d := bytes.Compare(key[:keyPrefixSize], rawKey[:keyPrefixSize]); d != 0 {
		return d
	}
''','''	if len(key) < maxKeySize {
		return bytes.Compare(key, rawKey)
	}

	if len(rawKey) <= keyPrefixSize {
		return bytes.Compare(key, rawKey)
	}

	switch d := bytes.Compare(key[:keyPrefixSize], rawKey[:keyPrefixSize]); {
	case d < 0:
		return -1
	case d > 0:
		return 1
	}
''')]),
('key-size','',[m(K,'(kf keyFactory) DestroyKey','	keyOverflowAddr, keyOverflow := kf.getKeyOverflow(key)\n	kf.destroyKeyOverflow(keyOverflowAddr)\n	keySize := keyPrefixSize + len(keyOverflow)\n','	keySize := kf.GetRawKeySize(key)\n	kf.destroyKeyOverflow(int64(binary.BigEndian.Uint64(key[keyPrefixSize:])))\n')]),
('key-get','',[m(K,'(kf keyFactory) getKeyOverflow','	keyOverflowSize := int(n)\n	return keyOverflowAddr, data[i : i+keyOverflowSize]\n','	data = data[i:]\n	return keyOverflowAddr, data[:n]\n')]),
('key-alloc','',[m(K,'(kf keyFactory) allocateKeyOverflow','	keyOverflowRawSize := make([]byte, binary.MaxVarintLen64)\n	keyOverflowRawSize = keyOverflowRawSize[:binary.PutUvarint(keyOverflowRawSize, uint64(len(keyOverflow)))]\n','	var scratch [binary.MaxVarintLen64]byte\n	keyOverflowRawSize := scratch[:binary.PutUvarint(scratch[:], uint64(len(keyOverflow)))]\n')]),
('key-readall','',[m(K,'(kf keyFactory) ReadKeyAll','	rawKey := make([]byte, keyPrefixSize+len(keyOverflow))\n	copy(rawKey, key[:keyPrefixSize])\n	copy(rawKey[keyPrefixSize:], keyOverflow)\n	return rawKey\n','	rawKey := make([]byte, 0, keyPrefixSize+len(keyOverflow))\n	rawKey = append(rawKey, key[:keyPrefixSize]...)\n	return append(rawKey, keyOverflow...)\n')]),
('key-read','',[m(K,'(kf keyFactory) ReadKey','	var i int\n\n	if dataOffset < keyPrefixSize {\n		i = copy(buffer, key[dataOffset:keyPrefixSize])\n		i += copy(buffer[i:], keyOverflow)\n	} else {\n		i = copy(buffer, keyOverflow[dataOffset-keyPrefixSize:])\n	}\n\n	return i\n','	if dataOffset >= keyPrefixSize {\n		return copy(buffer, keyOverflow[dataOffset-keyPrefixSize:])\n	}\n\n	n := copy(buffer, key[dataOffset:keyPrefixSize])\n	return n + copy(buffer[n:], keyOverflow)\n')]),
('min-ptr','',[(K,fn(K,'isMinKey'),'func isMinKey(rawKey []byte) bool {\n	return sameData(rawKey, MinKey)\n}\n\nfunc sameData(a, b []byte) bool {\n	return unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&a)).Data) ==\n		unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&b)).Data)\n}\n')]),
('ll-link','',[m(LL,'(ll *leafList) InsertLeafAfter','	leafHeader1.SetPrevAddr(leafPrevAddr)\n	leafPrevHeader.SetNextAddr(leafAddr)\n	leafHeader1.SetNextAddr(leafNextAddr)\n	leafNextHeader.SetPrevAddr(leafAddr)\n','	linkLeaves(leafPrevHeader, leafPrevAddr, leafHeader1, leafAddr)\n	linkLeaves(leafHeader1, leafAddr, leafNextHeader, leafNextAddr)\n'),
  (LL,fn(LL,'(ll *leafList) TailAddr'),fn(LL,'(ll *leafList) TailAddr')+'\nfunc linkLeaves(prev leafHeader, prevAddr int64, next leafHeader, nextAddr int64) {\n	prev.SetNextAddr(nextAddr)\n	next.SetPrevAddr(prevAddr)\n}\n')]),
('ll-rm','',[m(LL,'(ll *leafList) RemoveLeaf','	if leafAddr == ll.headAddr {\n		ll.headAddr = leafNextAddr\n	} else if leafAddr == ll.tailAddr {\n		ll.tailAddr = leafPrevAddr\n	}\n','	switch leafAddr {\n	case ll.headAddr:\n		ll.headAddr = leafNextAddr\n	case ll.tailAddr:\n		ll.tailAddr = leafPrevAddr\n	}\n')]),
('it-pre','',[m(I,'(fi *forwardIterator) Advance','	fi.preAdvance()\n\n	if !fi.isAtEnd {\n','	if fi.preAdvance(); fi.isAtEnd {\n		return fi\n	}\n\n	{\n')]),
('it-inline','',[m(I,'(bi *backwardIterator) Advance','	bi.preAdvance()\n','	if bi.currentLeafAddr == bi.lastLeafAddr && bi.currentRecordIndex == bi.lastRecordIndex {\n		bi.iterator = iterator{isAtEnd: true}\n	}\n')]),
('it-fields','',[m(I,'(i *iterator) preAdvance','		*i = iterator{isAtEnd: true}\n','		i.fileStorage = nil\n		i.currentLeafAddr, i.currentRecordIndex = 0, 0\n		i.lastLeafAddr, i.lastRecordIndex = 0, 0\n		i.isAtEnd = true\n')]),
('it-keep','',[m(I,'(i *iterator) preAdvance','		*i = iterator{isAtEnd: true}\n','		i.isAtEnd = true\n')]),
('s-sentinel','',[m(B,b+'search','	f1 := isMinKey(minKey)\n	f2 := isMinKey(maxKey)\n	f3 := isMaxKey(minKey)\n	f4 := isMaxKey(maxKey)\n	ok1 := f1 || f3\n	ok2 := f2 || f4\n','	f1, f2 := isMinKey(minKey), isMinKey(maxKey)\n	ok1 := f1 || isMaxKey(minKey)\n	ok2 := f2 || isMaxKey(maxKey)\n')]),
('s-helper','',[m(B,b+'search','''	if !ok3 {
		if minRecordIndex == minLeafController.NumberOfRecords() {
			if minLeafAddr == bpt.leafList.TailAddr() {
				return 0, 0, 0, 0, false
			}

			minLeafAddr = leafHeader(minLeafController).NextAddr()
			minLeafController = bpt.getLeafController(minLeafAddr)
			minRecordIndex = 0
		}
	}
''','''	if !ok3 && minRecordIndex == minLeafController.NumberOfRecords() {
		if bpt.leafList.TailAddr() == minLeafAddr {
			return 0, 0, 0, 0, false
		}

		minLeafAddr, minLeafController = bpt.nextLeaf(minLeafController)
		minRecordIndex = 0
	}
'''),(B,fn(B,b+'createLeaf'),'func (bpt *BPTree) nextLeaf(leafController1 leafController) (int64, leafController) {\n	leafAddr := leafHeader(leafController1).NextAddr()\n	return leafAddr, bpt.getLeafController(leafAddr)\n}\n\n'+fn(B,b+'createLeaf'))]),
('sync-early','',[m(B,b+'syncKey','''	n := len(*recordPath)

	if n < 2 {
		return
	}

	recordIndex := (*recordPath)[n-1].RecordOrNonLeafChildIndex

	if recordIndex >= 1 {
		return
	}
''','''	n := len(*recordPath)

	if n < 2 || (*recordPath)[n-1].RecordOrNonLeafChildIndex >= 1 {
		return
	}
''')]),
('sync-while','',[m(B,b+'syncKey','''	for i := n - 2; i >= 0; i-- {
		nonLeafChildIndex := (*recordPath)[i].RecordOrNonLeafChildIndex

		if nonLeafChildIndex >= 1 {
			nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
			nonLeafController.SetKey(nonLeafChildIndex, leafController.GetKey(0))
			bpt.ensureNonLeafBalanced(recordPath, i)
			return
		}
	}
''','''	i := n - 2

	for i >= 0 && (*recordPath)[i].RecordOrNonLeafChildIndex == 0 {
		i--
	}

	if i < 0 {
		return
	}

	nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
	nonLeafController.SetKey((*recordPath)[i].RecordOrNonLeafChildIndex, leafController.GetKey(0))
	bpt.ensureNonLeafBalanced(recordPath, i)
''')]),
('inc-root','',[m(B,b+'increaseHeight','	rootController.InsertChildren(0, []nonLeafChild{{nil, bpt.rootAddr}})\n	bpt.rootAddr = rootAddr\n','	child := nonLeafChild{Addr: bpt.rootAddr}\n	bpt.rootAddr = rootAddr\n	rootController.InsertChildren(0, []nonLeafChild{child})\n')]),
('dec-root','',[m(B,b+'decreaseHeight','	rootController := bpt.getNonLeafController(bpt.rootAddr)\n	rootAddr := rootController.GetChildAddr(0)\n	bpt.destroyNonLeaf(bpt.rootAddr)\n	bpt.rootAddr = rootAddr\n','	oldRootAddr := bpt.rootAddr\n	bpt.rootAddr = bpt.getNonLeafController(oldRootAddr).GetChildAddr(0)\n	bpt.destroyNonLeaf(oldRootAddr)\n')]),
('path-helper','',[m(B,b+'ensureNotOverloadLeaf','		*recordPath = append(*recordPath, recordPathComponent{})\n		copy((*recordPath)[1:], (*recordPath)[0:])\n		(*recordPath)[0] = recordPathComponent{bpt.rootAddr, 0}\n','		*recordPath = append([]recordPathComponent{{bpt.rootAddr, 0}}, *recordPath...)\n')]),
('loc-named','',[m(B,b+'locateRecord','	leafAddr := recordPath[len(recordPath)-1].NodeAddr\n	leafController := bpt.getLeafController(leafAddr)\n	recordIndex := recordPath[len(recordPath)-1].RecordOrNonLeafChildIndex\n	return leafAddr, leafController, recordIndex\n','	last := recordPath[len(recordPath)-1]\n	return last.NodeAddr, bpt.getLeafController(last.NodeAddr), last.RecordOrNonLeafChildIndex\n')]),
('ld-sort','',[m(L,lc+'LocateRecord','	i, j := 0, n-1\n','	i, j := 0, n-1\n	compare := func(k int) int { return keyComparer.CompareKey(lc.GetKey(k), key) }\n','		if keyComparer.CompareKey(lc.GetKey(k), key) < 0 {','		if compare(k) < 0 {','	d := keyComparer.CompareKey(lc.GetKey(i), key)\n','	d := compare(i)\n')]),
('ld-end','',[m(L,lc+'LocateRecord','	if d < 0 && i == n-1 {\n		i = n\n	}\n','	if d < 0 {\n		i++\n	}\n')]),
('ld-bisect','',[m(L,lc+'LocateRecord','''	i, j := 0, n-1

	for i < j {
		k := (i + j) / 2
		// i <= k < j

		if keyComparer.CompareKey(lc.GetKey(k), key) < 0 {
			i = k + 1
			// i <= j
		} else {
			j = k
			// j >= i
		}
	}
	// i == j

	d := keyComparer.CompareKey(lc.GetKey(i), key)

	if d == 0 {
		return i, true
	}

	if d < 0 && i == n-1 {
		i = n
	}

	return i, false
''','''	i, j := 0, n

	for i < j {
		k := int(uint(i+j) >> 1)

		if keyComparer.CompareKey(lc.GetKey(k), key) < 0 {
			i = k + 1
		} else {
			j = k
		}
	}

	return i, i < n && keyComparer.CompareKey(lc.GetKey(i), key) == 0
''')]),
('cr-helper','',[m(L,lc+'CountRecordsForSpliting','recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))','lc.recordSize(i)'),
   (L,fn(L,lc+'Split'),'func (lc leafController) recordSize(i int) int {\n	return recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))\n}\n\n'+fn(L,lc+'Split'))]),
('load-helper','',[m(L,lc+'GetLoadSize','	freeSpaceSize := kvsOffsetX - recordHeadersEndOffsetX\n	return maxLeafFreeSpaceSize - freeSpaceSize\n','	return leafSize - kvsOffsetX + recordHeadersEndOffsetX - leafHeaderSize\n')]),
('h-copyrm','',[m(H,h+'removeItem','	n := len(items.Value)\n\n	for j := i + 1; j < n; j++ {\n		items.Value[j-1] = items.Value[j]\n	}\n\n	items.Value = items.Value[:n-1]\n','	copy(items.Value[i:], items.Value[i+1:])\n	items.Value = items.Value[:len(items.Value)-1]\n')]),
('h-apprm','',[m(H,h+'removeItem','	n := len(items.Value)\n\n	for j := i + 1; j < n; j++ {\n		items.Value[j-1] = items.Value[j]\n	}\n\n	items.Value = items.Value[:n-1]\n','	items.Value = append(items.Value[:i], items.Value[i+1:]...)\n')]),
('h-mask','',[m(H,h+'calculateSlotIndex','int(keySum & uint64(hm.maxSlotCountPlusOne()-1))','int(keySum) & (hm.maxSlotCountPlusOne() - 1)')]),
('h-low','',[m(H,h+'calculateLowSlotIndex','highSlotIndex &^ hm.minSlotCount()','highSlotIndex & (hm.minSlotCount() - 1)')]),
('h-ref','',[m(H,'(ar addrRef) Get','	buffer := fileStorage.AccessSpace(ar.ArrayAddr)[ar.ElementIndex<<3:]\n	return int64(binary.BigEndian.Uint64(buffer))\n','	i := ar.ElementIndex * 8\n	return int64(binary.BigEndian.Uint64(fileStorage.AccessSpace(ar.ArrayAddr)[i : i+8]))\n')]),
('h-locfind','',[m(H,h+'locateItem','	for i := range items.Value {\n		item := &items.Value[i]\n\n		if matchItem(item, key, keySum) {\n			return &items, i\n		}\n	}\n\n	return &items, -1\n','	return &items, findItem(items.Value, key, keySum)\n'),
   (H,fn(H,'packSlot'),'func findItem(items []hashItem, key []byte, keySum uint64) int {\n	for i := range items {\n		if matchItem(&items[i], key, keySum) {\n			return i\n		}\n	}\n\n	return -1\n}\n\n'+fn(H,'packSlot'))]),
('h-match','',[m(H,'matchItem','	if len(item.Key) > maxShortKeySize && item.KeySum != keySum {\n		return false\n	}\n\n	return bytes.Equal(item.Key, key)\n','	return (len(item.Key) <= maxShortKeySize || item.KeySum == keySum) && bytes.Equal(item.Key, key)\n')]),
('h-split','',[m(H,'splitItems','''		var keySum uint64

		if len(item.Key) <= maxShortKeySize {
			// cost of optimization for binary size
			keySum = sumKey(item.Key)
		} else {
			keySum = item.KeySum
		}

		if keySum''','''		keySum := item.KeySum

		if len(item.Key) <= maxShortKeySize {
			// cost of optimization for binary size
			keySum = sumKey(item.Key)
		}

		if keySum''')]),
('h-split2','',[m(H,'splitItems','''		if keySum&distinctKeySumBit != 0 {
			items2 = append(items2, *item)
			continue
		}

		items[i] = *item
		i++
''','''		if keySum&distinctKeySumBit == 0 {
			items[i] = *item
			i++
		} else {
			items2 = append(items2, *item)
		}
''')]),
('h-merge-swap','',[m(H,'mergeItems','	var n int\n\n	if n1 < n2 {\n		n = n1\n	} else {\n		n = n2\n	}\n','	n := n1\n\n	if n2 < n {\n		n = n2\n	}\n')]),
('h-pack','',[m(H,'packSlot','		i += copy(slot.Bin[i:], item.Key)\n		itemInfo.KeySize = int64(len(item.Key))\n		i += copy(slot.Bin[i:], item.Value)\n		itemInfo.ValueSize = int64(len(item.Value))\n','		itemInfo.KeySize, itemInfo.ValueSize = int64(len(item.Key)), int64(len(item.Value))\n		copy(slot.Bin[i:], item.Key)\n		i += len(item.Key)\n		copy(slot.Bin[i:], item.Value)\n		i += len(item.Value)\n')]),
('h-pack-app','',[m(H,'packSlot','		Bin:       make([]byte, i),\n','		Bin:       make([]byte, 0, i),\n','	i = 0\n\n	for','	for','		i += copy(slot.Bin[i:], item.Key)\n','		slot.Bin = append(slot.Bin, item.Key...)\n','		i += copy(slot.Bin[i:], item.Value)\n','		slot.Bin = append(slot.Bin, item.Value...)\n')]),
('h-unpack','',[m(H,'unpackSlot','		item.Key = slot.Bin[i : i+int(itemInfo.KeySize)]\n		i += int(itemInfo.KeySize)\n		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]\n		i += int(itemInfo.ValueSize)\n','		k := i + int(itemInfo.KeySize)\n		v := k + int(itemInfo.ValueSize)\n		item.Key, item.Value = slot.Bin[i:k], slot.Bin[k:v]\n		i = v\n')]),
('h-store-slot','',[m(H,h+'storeSlot','	slotRawSize := make([]byte, binary.MaxVarintLen64)\n	slotRawSize = slotRawSize[:binary.PutUvarint(slotRawSize, uint64(slotSize))]\n','	var scratch [binary.MaxVarintLen64]byte\n	slotRawSize := scratch[:binary.PutUvarint(scratch[:], uint64(slotSize))]\n')]),
('h-destroy','',[m(H,h+'Destroy','	for i := 0; i < hm.slotCount; i++ {\n		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))\n	}\n','	for i := hm.slotCount - 1; i >= 0; i-- {\n		slotAddr := hm.locateSlotAddr(i).Get(hm.fileStorage)\n		hm.eraseSlot(slotAddr)\n	}\n')]),
('h-destroy2','',[m(H,h+'Destroy','	for i := 0; i < hm.slotDirCount; i++ {\n		hm.fileStorage.FreeSpace(hm.locateSlotDirAddr(i).Get(hm.fileStorage))\n	}\n','	for i := 0; i < hm.slotDirCount; i++ {\n		slotDirAddr := hm.locateSlotDirAddr(i).Get(hm.fileStorage)\n		hm.fileStorage.FreeSpace(slotDirAddr)\n	}\n','	*hm = *new(HashMap).Init(hm.fileStorage)\n','	*hm = HashMap{fileStorage: hm.fileStorage, slotDirsAddr: -1}\n')]),
('h-expand-one','',[m(H,h+'maybeExpand','	for hm.loadFactor() > maxLoadFactor {\n','	for hm.loadFactor() > maxLoadFactor {\n		hm.splitSlot()\n	}\n}\n\nfunc (hm *HashMap) splitSlot() {\n	{\n')]),
('h-rm-slot','',[m(H,h+'removeSlot','	slotAddr := hm.locateSlotAddr(hm.slotCount - 1).Get(hm.fileStorage)\n','	hm.slotCount--\n	slotAddr := hm.locateSlotAddr(hm.slotCount).Get(hm.fileStorage)\n','	hm.eraseSlot(slotAddr)\n	hm.slotCount--\n','	hm.eraseSlot(slotAddr)\n')]),
('h-adj','',[m(H,h+'adjustSlotDirs','	buffer2 := make([]byte, len(buffer1))\n	copy(buffer2, buffer1)\n','	buffer2 := append([]byte(nil), buffer1...)\n')]),
('h-lf','',[m(H,h+'maybeShrink','hm.loadFactor() < minLoadFactor','float64(hm.itemCount)/float64(hm.slotCount) < minLoadFactor')]),
]
