# refactorings of the hash map and more bugs
exec(open('/verif/tools/mut/h.py').read())
B='bptree/bptree.go';L='bptree/leaf.go';N='bptree/nonleaf.go';K='bptree/key.go';V='bptree/value.go';I='bptree/iterator.go';LL='bptree/leaflist.go';F='bptree/fprint.go';H='hashmap/hashmap.go';D='dict.go';O='ordereddict.go'
b='(bpt *BPTree) ';h='(hm *HashMap) ';lc='(lc leafController) ';nlc='(nlc nonLeafController) '
IT='''	hm.appendItem(items, &hashItem{
		KeySum: keySum,
		Key:    key,
		Value:  value,
	})
'''
LK='	keySum := sumKey(key)\n	items, i := hm.locateItem(key, keySum)\n'
FL='func (hm *HashMap) flushItems('
M=[
('a-add','',[m(H,h+'AddItem','	if i >= 0 {\n		return hm.getValue(items, i, returnPresentValue), false\n	}\n\n'+IT+'\n	return nil, true\n','	if i < 0 {\n		hm.appendItem(items, &hashItem{keySum, key, value})\n		return nil, true\n	}\n\n	return hm.getValue(items, i, returnPresentValue), false\n')]),
('a-find','',[m(H,h+x,LK,'	items, i, _ := hm.find(key)\n') for x in ['HasItem','DeleteItem','UpdateItem']]+[(H,FL,'func (hm *HashMap) find(key []byte) (*items, int, uint64) {\n	sum := sumKey(key)\n	found, i := hm.locateItem(key, sum)\n	return found, i, sum\n}\n\n'+FL)]),
('a-upsert','',[m(H,h+x,IT,'	hm.addNew(items, key, value, keySum)\n') for x in ['AddItem','AddOrUpdateItem']]+[(H,FL,'func (hm *HashMap) addNew(items *items, key, value []byte, keySum uint64) {\n	item := new(hashItem)\n	item.Key = key\n	item.Value = value\n	item.KeySum = keySum\n	hm.appendItem(items, item)\n}\n\n'+FL)]),
('a-get','',[m(H,h+'getValue','	if !do {\n		return nil\n	}\n\n	item := &items.Value[i]\n	value := copyBytes(item.Value)\n	return value\n','	var value []byte\n\n	if do {\n		value = copyBytes(items.Value[i].Value)\n	}\n\n	return value\n')]),
('a-mod','',[m(H,h+'locateSlotAddr','slotIndex >> slotDirLengthShift','slotIndex / (1 << slotDirLengthShift)','slotIndex & ((1 << slotDirLengthShift) - 1)','slotIndex % (1 << slotDirLengthShift)')]),
('a-calc','',[m(H,h+'calculateSlotIndex','	if slotIndex >= hm.slotCount {\n		slotIndex = hm.calculateLowSlotIndex(slotIndex)\n	}\n\n	return slotIndex\n','	if slotIndex < hm.slotCount {\n		return slotIndex\n	}\n\n	return hm.calculateLowSlotIndex(slotIndex)\n')]),
('a-store','',[m(H,h+'storeSlot','	slotRawSize := make([]byte, binary.MaxVarintLen64)\n	slotRawSize = slotRawSize[:binary.PutUvarint(slotRawSize, uint64(slotSize))]\n','	var raw [binary.MaxVarintLen64]byte\n	slotRawSize := raw[:binary.PutUvarint(raw[:], uint64(slotSize))]\n')]),
('a-store2','',[m(H,h+'storeSlot','	i := copy(buffer, slotRawSize)\n	slot.MarshalTo(buffer[i:])\n','	copy(buffer, slotRawSize)\n	slot.MarshalTo(buffer[len(slotRawSize):])\n')]),
('a-load','',[m(H,h+'loadSlot','	var slot protocol.HashSlot\n\n	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil {\n		panic(errCorrupted)\n	}\n\n	return &slot\n','	slot := new(protocol.HashSlot)\n	data := buffer[i:][:slotSize]\n	err := slot.Unmarshal(data)\n\n	if err != nil {\n		panic(errCorrupted)\n	}\n\n	return slot\n')]),
('a-sum','',[m(H,'splitItems','		var keySum uint64\n\n		if len(item.Key) <= maxShortKeySize {\n			// cost of optimization for binary size\n			keySum = sumKey(item.Key)\n		} else {\n			keySum = item.KeySum\n		}\n\n		if keySum&distinctKeySumBit != 0 {','		if item.sum()&distinctKeySumBit != 0 {'),(H,'var errCorrupted','func (hi *hashItem) sum() uint64 {\n	if len(hi.Key) > maxShortKeySize {\n		return hi.KeySum\n	}\n\n	return sumKey(hi.Key)\n}\n\nvar errCorrupted')]),
('a-split-else','',[m(H,'splitItems','			items2 = append(items2, *item)\n			continue\n		}\n\n		items[i] = *item\n		i++\n','			items2 = append(items2, *item)\n		} else {\n			items[i] = *item\n			i++\n		}\n')]),
('a-merge-cond','',[m(H,'mergeItems','	var n int\n\n	if n1 < n2 {\n		n = n1\n	} else {\n		n = n2\n	}\n\n','	n := 0\n','	for i := 0; i < n; i++ {\n','	for i := 0; i < n1 && i < n2; i++ {\n','		items[(i<<1)|(j^1)] = *item2\n','		items[(i<<1)|(j^1)] = *item2\n		n = i + 1\n')]),
('a-merge-mul','',[m(H,'mergeItems','items[(i<<1)|j] = *item1','items[2*i+j] = *item1','items[(i<<1)|(j^1)] = *item2','items[2*i+1-j] = *item2','items[n<<1:], items1','items[2*n:], items1','items[n<<1:], items2','items[2*n:], items2')]),
('a-unpack-cut','',[m(H,'unpackSlot','	i := 0\n','	bin := slot.Bin\n','		item.Key = slot.Bin[i : i+int(itemInfo.KeySize)]\n		i += int(itemInfo.KeySize)\n		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]\n		i += int(itemInfo.ValueSize)\n','		item.Key, bin = bin[:int(itemInfo.KeySize)], bin[int(itemInfo.KeySize):]\n		item.Value, bin = bin[:int(itemInfo.ValueSize)], bin[int(itemInfo.ValueSize):]\n','	items[n-1].Value = slot.Bin[i:]','	last := &items[n-1]\n	last.Value = slot.Bin[len(slot.Bin)-len(bin):]')]),
('a-fetch','',[m(H,h+'FetchItem','''	if cursor.itemIndex < len(cursor.items) {
		item := &cursor.items[cursor.itemIndex]
		cursor.itemIndex++
		return item.Key, item.Value, true
	}

	for cursor.slotIndex < hm.slotCount {
''','''	for {
		if cursor.itemIndex < len(cursor.items) {
			item := &cursor.items[cursor.itemIndex]
			cursor.itemIndex++
			return item.Key, item.Value, true
		}

		if cursor.slotIndex >= hm.slotCount {
			return nil, nil, false
		}

''','''		cursor.slotIndex++

		if len(cursor.items) >= 1 {
			item := &cursor.items[0]
			cursor.itemIndex = 1
			return item.Key, item.Value, true
		}
	}

	return nil, nil, false
''','''		cursor.slotIndex++
		cursor.itemIndex = 0
	}
''')]),
('a-fetch2','',[m(H,h+'FetchItem','''		slot := hm.loadSlot(hm.locateSlotAddr(cursor.slotIndex).Get(hm.fileStorage))
		slot.Bin = copyBytes(slot.Bin)
		cursor.items = unpackSlot(slot)
''','''		cursor.items = hm.copyItems(cursor.slotIndex)
'''),(H,FL,'''func (hm *HashMap) copyItems(slotIndex int) []hashItem {
	slot := hm.loadSlot(hm.locateSlotAddr(slotIndex).Get(hm.fileStorage))
	slot.Bin = copyBytes(slot.Bin)
	return unpackSlot(slot)
}

'''+FL)]),
('a-adjust','',[m(H,h+'adjustSlotDirs','''	buffer1 := hm.fileStorage.AccessSpace(hm.slotDirsAddr)
	buffer2 := make([]byte, len(buffer1))
	copy(buffer2, buffer1)
	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
	hm.slotDirsAddr, buffer1 = hm.fileStorage.AllocateSpace(8 << maxSlotDirCountShift)
	copy(buffer1, buffer2)
''','''	oldAddr := hm.slotDirsAddr
	newAddr, newBuffer := hm.fileStorage.AllocateSpace(8 << maxSlotDirCountShift)
	copy(newBuffer, hm.fileStorage.AccessSpace(oldAddr))
	hm.fileStorage.FreeSpace(oldAddr)
	hm.slotDirsAddr = newAddr
''')]),
('a-adjust-count','',[m(H,h+'adjustSlotDirs','make([]byte, len(buffer1))','make([]byte, 8*hm.slotDirCount)')]),
('a-destroy-back','',[m(H,h+'Destroy','for i := 0; i < hm.slotCount; i++','for i := hm.slotCount - 1; i >= 0; i--')]),
('a-destroy-help','',[m(H,h+'Destroy','''	for i := 0; i < hm.slotCount; i++ {
		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))
	}

	for i := 0; i < hm.slotDirCount; i++ {
		hm.fileStorage.FreeSpace(hm.locateSlotDirAddr(i).Get(hm.fileStorage))
	}
''','''	hm.eraseSlots()
	hm.freeSlotDirs()
'''),(H,FL,'''func (hm *HashMap) eraseSlots() {
	for i := 0; i < hm.slotCount; i++ {
		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))
	}
}

func (hm *HashMap) freeSlotDirs() {
	for i := 0; i < hm.slotDirCount; i++ {
		addr := hm.locateSlotDirAddr(i).Get(hm.fileStorage)
		hm.fileStorage.FreeSpace(addr)
	}
}

'''+FL)]),
('a-loadinfo','',[m(H,h+'Load','''	hm.slotDirsAddr = info.SlotDirsAddr
	hm.maxSlotDirCountShift = int(info.MaxSlotDirCountShift)
	hm.slotDirCount = int(info.SlotDirCount)
	hm.minSlotCountShift = int(info.MinSlotCountShift)
	hm.slotCount = int(info.SlotCount)
	hm.itemCount = int(info.ItemCount)
	hm.payloadSize = int(info.PayloadSize)
''','	hm.setInfo(&info)\n'),(H,FL,'''func (hm *HashMap) setInfo(info *protocol.HashMapInfo) {
	*hm = HashMap{
		fileStorage:          hm.fileStorage,
		slotDirsAddr:         info.SlotDirsAddr,
		maxSlotDirCountShift: int(info.MaxSlotDirCountShift),
		slotDirCount:         int(info.SlotDirCount),
		minSlotCountShift:    int(info.MinSlotCountShift),
		slotCount:            int(info.SlotCount),
		itemCount:            int(info.ItemCount),
		payloadSize:          int(info.PayloadSize),
	}
}

'''+FL)]),
('a-replace-late','',[m(H,h+'replaceValue','	hm.payloadSize += len(value) - len(item.Value)\n','	delta := len(value) - len(item.Value)\n','	hm.flushItems(items)\n','	hm.flushItems(items)\n	hm.payloadSize += delta\n')]),
('a-replace-var','',[m(H,h+'replaceValue','''	if returnReplacedValue {
		value, item.Value = copyBytes(item.Value), value
	} else {
		value, item.Value = nil, value
	}

	hm.flushItems(items)
	return value
''','''	var replaced []byte

	if returnReplacedValue {
		replaced = copyBytes(item.Value)
	}

	item.Value = value
	hm.flushItems(items)
	return replaced
''')]),
('a-expand-order','',[m(H,h+'maybeExpand','		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, slot1))\n		hm.addSlot(slot2)\n','		hm.addSlot(slot2)\n		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, slot1))\n')]),
('a-rmslot','',[m(H,h+'removeSlot','	slot := hm.loadSlot(slotAddr)\n	slot.Bin = copyBytes(slot.Bin)\n	hm.eraseSlot(slotAddr)\n	hm.slotCount--\n','	hm.slotCount--\n	slot := hm.loadSlot(slotAddr)\n	slot.Bin = copyBytes(slot.Bin)\n	hm.eraseSlot(slotAddr)\n')]),
('a-flush','',[m(H,h+'flushItems','	items.SlotAddr = hm.restoreSlot(items.SlotAddr, packSlot(items.Value))\n','	slot := packSlot(items.Value)\n	hm.eraseSlot(items.SlotAddr)\n	items.SlotAddr = hm.storeSlot(slot)\n')]),
('b-under-over','',[m(B,b+'replaceValue','	bpt.ensureNotUnderloadLeaf(&recordPath)\n	bpt.ensureNotOverloadLeaf(&recordPath)\n','	if len(newValue) < oldValueSize {\n		bpt.ensureNotUnderloadLeaf(&recordPath)\n	} else {\n		bpt.ensureNotOverloadLeaf(&recordPath)\n	}\n')]),
('b-count-first','',[m(B,b+'insertRecord','	bpt.recordCount++\n','','	_, leafController, recordIndex := bpt.locateRecord(recordPath)\n','	bpt.recordCount++\n	_, leafController, recordIndex := bpt.locateRecord(recordPath)\n')]),
('b-destroy','',[m(B,b+'destroyRecord','	keySize := keyFactory{bpt.fileStorage}.DestroyKey(record.Key)\n','','	valueSize :=','	keySize := keyFactory{bpt.fileStorage}.DestroyKey(record.Key)\n	valueSize :=')]),
('b-replace-size','',[m(B,b+'replaceValue','''	var oldValueSize int

	if returnOldValue {
		oldValue = valueFactory{bpt.fileStorage}.ReadValueAll(value)
		oldValueSize = len(oldValue)
	} else {
		oldValue = nil
		oldValueSize = valueFactory{bpt.fileStorage}.GetRawValueSize(value)
	}

	valueFactory{bpt.fileStorage}.DestroyValue(value)
''','''
	if returnOldValue {
		oldValue = valueFactory{bpt.fileStorage}.ReadValueAll(value)
	}

	oldValueSize := valueFactory{bpt.fileStorage}.DestroyValue(value)
''')]),
('x-store-bin','C07',[m(H,h+'storeSlot','len(slot.ItemInfos) == 0','len(slot.Bin) == 0')]),
('x-fetch-last','C20',[m(H,h+'FetchItem','cursor.slotIndex < hm.slotCount','cursor.slotIndex < hm.slotCount-1')]),
('x-aou-sum','C07',[m(H,h+'AddOrUpdateItem','KeySum: keySum','KeySum: 0')]),
('x-load-rest','C19',[m(H,h+'loadSlot','slotSize := int(n)','slotSize := len(buffer) - i + 0*int(n)')]),
('x-get-nocopy','C02',[m(H,h+'getValue','copyBytes(item.Value)','item.Value')]),
('x-shrink-early','C18',[m(H,h+'maybeShrink','		items1 := unpackSlot(hm.removeSlot())\n		slotIndex := hm.calculateLowSlotIndex(hm.slotCount)\n','		slotIndex := hm.calculateLowSlotIndex(hm.slotCount - 1)\n		items1 := unpackSlot(hm.removeSlot())\n')]),
('x-shrink-one','C18',[m(H,h+'maybeShrink','hm.slotCount >= 2 && ','')]),
('x-repl-nil','C07',[m(H,h+'replaceValue','value, item.Value = copyBytes(item.Value), value','value, item.Value = copyBytes(value), value')]),
('x-destroy-rest','C10',[m(H,h+'Destroy','*hm = *new(HashMap).Init(hm.fileStorage)','hm.slotDirsAddr = -1')]),
('x-adddir-late','C18',[m(H,h+'addSlot','hm.slotCount == hm.slotDirCount<<slotDirLengthShift','hm.slotCount > hm.slotDirCount<<slotDirLengthShift')]),
('x-adjust-late','C18',[m(H,h+'addSlotDir','hm.slotDirCount == 1<<hm.maxSlotDirCountShift','hm.slotDirCount > 1<<hm.maxSlotDirCountShift')]),
('x-min-late','C18',[m(H,h+'addSlot','hm.slotCount == hm.maxSlotCountPlusOne()','hm.slotCount > hm.maxSlotCountPlusOne()')]),
('x-rm-min','C18',[m(H,h+'removeSlot','hm.slotCount < hm.minSlotCount()','hm.slotCount <= hm.minSlotCount()')]),
('x-rmdir-lost','C10',[m(H,h+'removeSlotDir','	hm.fileStorage.FreeSpace(slotDirAddr)\n','	if hm.slotDirCount > 2 {\n		hm.fileStorage.FreeSpace(slotDirAddr)\n	}\n')]),
('x-keyview','C02',[m(H,h+'FetchItem','		slot.Bin = copyBytes(slot.Bin)\n','		if len(slot.ItemInfos) > 1 {\n			slot.Bin = copyBytes(slot.Bin)\n		}\n')]),
('x-pay-order','C09',[m(B,b+'replaceValue','oldValueSize = valueFactory{bpt.fileStorage}.GetRawValueSize(value)','oldValueSize = len(value)')]),
('x-destr-order','C01',[m(B,b+'replaceValue','	leafController = bpt.getLeafController(leafAddr)\n','')]),
('x-val-before','C02',[m(B,b+'destroyRecord','valueFactory{bpt.fileStorage}.ReadValueAll(record.Value)','record.Value')]),
('x-empty-find','C16',[m(B,b+'findRecord','bpt.recordCount == 0','bpt.recordCount <= 1')]),
('x-over-under','C12',[m(B,b+'replaceValue','	bpt.ensureNotUnderloadLeaf(&recordPath)\n','	if len(newValue) == 0 {\n		bpt.ensureNotUnderloadLeaf(&recordPath)\n	}\n')]),
('x-over-eq','C12',[m(B,b+'replaceValue','	bpt.ensureNotOverloadLeaf(&recordPath)\n','	if len(newValue) > oldValueSize+1 {\n		bpt.ensureNotOverloadLeaf(&recordPath)\n	}\n')]),
]
