# larger edits that keep the behaviour: every check must stay quiet
exec(open('/verif/tools/mut/h.py').read())
B='bptree/bptree.go';L='bptree/leaf.go';N='bptree/nonleaf.go';K='bptree/key.go';V='bptree/value.go';I='bptree/iterator.go';LL='bptree/leaflist.go';F='bptree/fprint.go';H='hashmap/hashmap.go';D='dict.go';O='ordereddict.go'
b='(bpt *BPTree) ';h='(hm *HashMap) ';lc='(lc leafController) ';nlc='(nlc nonLeafController) '
def add(f,extra,*edits):
    # adds declarations at the end of the last edited function
    e=list(edits); g,o,n=e[-1]; assert g==f; e[-1]=(g,o,n+'\n'+extra+'\n'); return e
OL=b+'ensureNotOverloadLeaf';UL=b+'ensureNotUnderloadLeaf';ON=b+'ensureNotOverloadNonLeaf';UN=b+'ensureNotUnderloadNonLeaf'
M=[
('find-step','',add(B,'''func (bpt *BPTree) descend(nodeAddr int64, key []byte) (int, int64) {
	nonLeafController := bpt.getNonLeafController(nodeAddr)
	i, ok := nonLeafController.LocateChild(key, keyComparer{bpt.fileStorage})
	if !ok {
		i--
	}
	return i, nonLeafController.GetChildAddr(i)
}''',m(B,b+'findRecord','''		nonLeafController := bpt.getNonLeafController(nodeAddr)
		i, ok := nonLeafController.LocateChild(key, keyComparer{bpt.fileStorage})

		if !ok {
			i--
		}

		recordPath = append(recordPath, recordPathComponent{nodeAddr, i})
		nodeAddr = nonLeafController.GetChildAddr(i)
''','''		i, childAddr := bpt.descend(nodeAddr, key)
		recordPath = append(recordPath, recordPathComponent{nodeAddr, i})
		nodeAddr = childAddr
'''))),
('find-for','',[m(B,b+'findRecord','''	for {
		if nodeDepth := len(recordPath) + 1; nodeDepth == bpt.height {
			leafController := bpt.getLeafController(nodeAddr)
			i, ok := leafController.LocateRecord(key, keyComparer{bpt.fileStorage})
			recordPath = append(recordPath, recordPathComponent{nodeAddr, i})
			return recordPath, ok
		}

''','''	for depth := 1; depth < bpt.height; depth++ {
''','''		nodeAddr = nonLeafController.GetChildAddr(i)
	}
''','''		nodeAddr = nonLeafController.GetChildAddr(i)
	}

	leafController := bpt.getLeafController(nodeAddr)
	i, ok := leafController.LocateRecord(key, keyComparer{bpt.fileStorage})
	recordPath = append(recordPath, recordPathComponent{nodeAddr, i})
	return recordPath, ok
''')]),
('find-cmp','',[m(B,b+'findRecord','	recordPath := recordPath(','	comparer := keyComparer{bpt.fileStorage}\n	recordPath := recordPath(','keyComparer{bpt.fileStorage})\n			recordPath','comparer)\n			recordPath','(key, keyComparer{bpt.fileStorage})','(key, comparer)')]),
('add-switch','',[m(B,b+'AddRecord','''	if ok {
		return bpt.getValue(recordPath, returnPresentValue), false
	}

	bpt.insertRecord(recordPath, bpt.createRecord(key, value))
	return nil, true
''','''	if !ok {
		record := bpt.createRecord(key, value)
		bpt.insertRecord(recordPath, record)
		return nil, true
	}

	if !returnPresentValue {
		return nil, false
	}

	return bpt.getValue(recordPath, true), false
''')]),
('aou-via','',[m(B,b+'AddOrUpdateRecord','''	bpt.insertRecord(recordPath, bpt.createRecord(key, value))
	return nil, true
''','''	return bpt.insertNew(recordPath, key, value)
'''),(B,fn(B,b+'insertRecord'),fn(B,b+'insertRecord')+'''
func (bpt *BPTree) insertNew(recordPath recordPath, key, value []byte) ([]byte, bool) {
	bpt.insertRecord(recordPath, bpt.createRecord(key, value))
	return nil, true
}
''')]),
('upd-named','',[(B,fn(B,b+'UpdateRecord'),'''func (bpt *BPTree) UpdateRecord(key, value []byte, returnReplacedValue bool) (replaced []byte, ok bool) {
	path, found := bpt.findRecord(key)

	if found {
		replaced, ok = bpt.replaceValue(path, value, returnReplacedValue), true
	}

	return
}
''')]),
('destroy-order','',[(B,fn(B,b+'destroyRecord'),'''func (bpt *BPTree) destroyRecord(record record, returnValue bool) []byte {
	var value []byte

	if returnValue {
		value = valueFactory{bpt.fileStorage}.ReadValueAll(record.Value)
	}

	valueSize := valueFactory{bpt.fileStorage}.DestroyValue(record.Value)
	keySize := keyFactory{bpt.fileStorage}.DestroyKey(record.Key)
	bpt.payloadSize -= valueSize
	bpt.payloadSize -= keySize
	return value
}
''')]),
('rep-size','',[(B,fn(B,b+'replaceValue'),'''func (bpt *BPTree) replaceValue(recordPath recordPath, newValue []byte, returnOldValue bool) []byte {
	values := valueFactory{bpt.fileStorage}
	leafAddr, leafController, recordIndex := bpt.locateRecord(recordPath)
	stored := leafController.GetValue(recordIndex)
	var oldValue []byte

	if returnOldValue {
		oldValue = values.ReadValueAll(stored)
	}

	bpt.payloadSize += len(newValue) - values.DestroyValue(stored)
	stored = values.CreateValue(newValue)
	bpt.getLeafController(leafAddr).SetValue(recordIndex, stored)
	bpt.ensureNotUnderloadLeaf(&recordPath)
	bpt.ensureNotOverloadLeaf(&recordPath)
	return oldValue
}
''')]),
('count-first','',[m(B,b+'insertRecord','	bpt.recordCount++\n','','	_, leafController','	bpt.recordCount++\n	_, leafController'),m(B,b+'removeRecord','	bpt.recordCount--\n','','	bpt.syncKey','	bpt.recordCount--\n	bpt.syncKey')]),
('sync-loop','',[(B,fn(B,b+'syncKey'),'''func (bpt *BPTree) syncKey(recordPath *recordPath) {
	path := *recordPath
	last := len(path) - 1

	if last < 1 || path[last].RecordOrNonLeafChildIndex >= 1 {
		return
	}

	i := last - 1

	for i >= 0 && path[i].RecordOrNonLeafChildIndex < 1 {
		i--
	}

	if i < 0 {
		return
	}

	leafController := bpt.getLeafController(path[last].NodeAddr)
	bpt.getNonLeafController(path[i].NodeAddr).SetKey(path[i].RecordOrNonLeafChildIndex, leafController.GetKey(0))
	bpt.ensureNonLeafBalanced(recordPath, i)
}
''')]),
('ol-helpers','',[m(B,OL,'''	if leafIndex < leafParentController.NumberOfChildren()-1 {
		leafRSiblingAddr := leafParentController.GetChildAddr(leafIndex + 1)
		leafRSiblingController := bpt.getLeafController(leafRSiblingAddr)

		if numberOfRecords := leafController1.CountRecordsForShiftingToRight(leafRSiblingController); numberOfRecords >= 1 {
			m := leafController1.NumberOfRecords() - numberOfRecords
			leafController1.ShiftToRight(numberOfRecords, leafParentController, leafIndex, leafRSiblingController)

			if recordIndex >= m {
				// >>> fix record path begin
				(*recordPath)[i].NodeAddr = leafRSiblingAddr
				(*recordPath)[i].RecordOrNonLeafChildIndex = recordIndex - m
				(*recordPath)[i-1].RecordOrNonLeafChildIndex = leafIndex + 1
				// <<< fix record path end
			}

			bpt.ensureNonLeafBalanced(recordPath, i-1)
			return
		}
	}
''','''	if bpt.shiftLeafToRight(recordPath, i, leafController1, leafParentController, leafIndex, recordIndex) {
		bpt.ensureNonLeafBalanced(recordPath, i-1)
		return
	}
'''),(B,fn(B,b+'increaseHeight'),fn(B,b+'increaseHeight')+'''
func (bpt *BPTree) shiftLeafToRight(recordPath *recordPath, i int, leaf leafController, parent nonLeafController, leafIndex, recordIndex int) bool {
	if leafIndex+1 >= parent.NumberOfChildren() {
		return false
	}

	rightAddr := parent.GetChildAddr(leafIndex + 1)
	right := bpt.getLeafController(rightAddr)
	n := leaf.CountRecordsForShiftingToRight(right)

	if n == 0 {
		return false
	}

	m := leaf.NumberOfRecords() - n
	leaf.ShiftToRight(n, parent, leafIndex, right)

	if recordIndex >= m {
		(*recordPath)[i] = recordPathComponent{rightAddr, recordIndex - m}
		(*recordPath)[i-1].RecordOrNonLeafChildIndex++
	}

	return true
}
''')]),
('ul-idx','',[m(B,UL,'''	var leafRSiblingAddr, leafLSiblingAddr int64
''','''	leafRSiblingAddr, leafLSiblingAddr := int64(-1), int64(-1)
''','''	} else {
		leafRSiblingAddr = -1
	}
''','''	}
''','''	} else {
		leafLSiblingAddr = -1
	}
''','''	}
''')]),
('ul-elem','',[m(B,UL,'''		(*recordPath)[i].NodeAddr = leafLSiblingAddr
		(*recordPath)[i].RecordOrNonLeafChildIndex = m + recordIndex
		(*recordPath)[i-1].RecordOrNonLeafChildIndex = leafIndex - 1
''','''		(*recordPath)[i] = recordPathComponent{
			NodeAddr:                  leafLSiblingAddr,
			RecordOrNonLeafChildIndex: m + recordIndex,
		}
		(*recordPath)[i-1].RecordOrNonLeafChildIndex--
''')]),
('un-path','',[m(B,UN,'''	nonLeafAddr := (*recordPath)[i].NodeAddr
''','''	path := *recordPath
	nonLeafAddr := path[i].NodeAddr
''','''			copy((*recordPath)[0:], (*recordPath)[1:])
			*recordPath = (*recordPath)[:len(*recordPath)-1]
''','''			*recordPath = path[1:]
''')]),
('on-split','',[m(B,ON,'''	numberOfChildren := nonLeafController1.CountChildrenForSpliting()
	m := nonLeafController1.NumberOfChildren() - numberOfChildren
	nonLeafNSiblingAddr, nodeAccessor := bpt.createNonLeaf()
''','''	nonLeafNSiblingAddr, nodeAccessor := bpt.createNonLeaf()
''','''	nonLeafNSiblingController := nonLeafController(nodeAccessor)
''','''	nonLeafNSiblingController := nonLeafController(nodeAccessor)
	numberOfChildren := nonLeafController1.CountChildrenForSpliting()
	m := nonLeafController1.NumberOfChildren() - numberOfChildren
''')]),
('bal-inline','',[(B,fn(B,b+'decreaseHeight'),'''func (bpt *BPTree) decreaseHeight() {
	oldRootAddr := bpt.rootAddr
	bpt.rootAddr = bpt.getNonLeafController(oldRootAddr).GetChildAddr(0)
	bpt.height--
	bpt.destroyNonLeaf(oldRootAddr)
}
''')]),
('search-split','',[m(B,b+'search','''	if bpt.recordCount == 0 {
		return 0, 0, 0, 0, false
	}

	f1''','''	if bpt.recordCount < 1 {
		return 0, 0, 0, 0, false
	}

	f1''','''	if !ok3 {
		if minRecordIndex == minLeafController.NumberOfRecords() {
			if minLeafAddr == bpt.leafList.TailAddr() {
				return 0, 0, 0, 0, false
			}

			minLeafAddr = leafHeader(minLeafController).NextAddr()
			minLeafController = bpt.getLeafController(minLeafAddr)
			minRecordIndex = 0
		}
	}
''','''	if !ok3 && minRecordIndex >= minLeafController.NumberOfRecords() {
		if minLeafAddr == bpt.leafList.TailAddr() {
			return 0, 0, 0, 0, false
		}

		minLeafAddr, minRecordIndex = leafHeader(minLeafController).NextAddr(), 0
		minLeafController = bpt.getLeafController(minLeafAddr)
	}
''')]),
('load-struct','',[m(B,b+'Load','''	bpt.rootAddr = info.RootAddr
	bpt.height = int(info.Height)
	bpt.leafList.Set(info.LeafListTailAddr, info.LeafListHeadAddr)
	bpt.leafCount = int(info.LeafCount)
	bpt.nonLeafCount = int(info.NonLeafCount)
	bpt.recordCount = int(info.RecordCount)
	bpt.payloadSize = int(info.PayloadSize)
''','''	var list leafList
	list.Set(info.LeafListTailAddr, info.LeafListHeadAddr)

	*bpt = BPTree{
		fileStorage:  bpt.fileStorage,
		rootAddr:     info.RootAddr,
		height:       int(info.Height),
		leafList:     list,
		leafCount:    int(info.LeafCount),
		nonLeafCount: int(info.NonLeafCount),
		recordCount:  int(info.RecordCount),
		payloadSize:  int(info.PayloadSize),
	}
''')]),
('create-tmp','',[m(B,b+'Create','''	var rootController leafController
	bpt.rootAddr, rootController = bpt.createLeaf()
	bpt.height = 1
	bpt.leafList.Init(rootController, bpt.rootAddr)
''','''	addr, controller := bpt.createLeaf()
	bpt.leafList.Init(controller, addr)
	bpt.rootAddr, bpt.height = addr, 1
''')]),
('leaf-end-helper','',[m(L,lc+'GetValue','''	recordHeaderOffset := leafHeaderSize + recordIndex*recordHeaderSize
	recordHeader1 := recordHeader(lc[recordHeaderOffset:])
	valueOffset := int(recordHeader1.ValueOffset())
	var valueEndOffset int

	if recordIndex+1 == numberOfRecords {
		valueEndOffset = leafSize
	} else {
		valueEndOffset = int(recordHeader(lc[recordHeaderOffset+recordHeaderSize:]).KeyOffset())
	}

	return value(lc[valueOffset:valueEndOffset])
''','''	valueOffset := int(lc.header(recordIndex).ValueOffset())
	return value(lc[valueOffset:lc.dataEnd(recordIndex, numberOfRecords)])
'''),(L,fn(L,lc+'NumberOfRecords'),fn(L,lc+'NumberOfRecords')+'''
func (lc leafController) header(recordIndex int) recordHeader {
	return recordHeader(lc[leafHeaderSize+recordIndex*recordHeaderSize:])
}

func (lc leafController) dataEnd(recordIndex, numberOfRecords int) int {
	if recordIndex == numberOfRecords-1 {
		return leafSize
	}

	return int(lc.header(recordIndex + 1).KeyOffset())
}
''')]),
('leaf-load','',[(L,fn(L,lc+'GetLoadSize'),'''func (lc leafController) GetLoadSize() int {
	n := lc.NumberOfRecords()

	if n == 0 {
		return 0
	}

	dataSize := leafSize - int(recordHeader(lc[leafHeaderSize:]).KeyOffset())
	return n*recordHeaderSize + dataSize
}
''')]),
('shift-order','',[m(L,lc+'ShiftToLeft(','''	records := lc.RemoveRecords(0, numberOfRecords)
	parent.SetKey(index, lc.GetKey(0))
	leftSibling.InsertRecords(leftSibling.NumberOfRecords(), records)
''','''	leftSibling.InsertRecords(leftSibling.NumberOfRecords(), lc.RemoveRecords(0, numberOfRecords))
	parent.SetKey(index, lc.GetKey(0))
''')]),
('merge-order','',[m(L,lc+'MergeFromRight(','''	parent.RemoveChildren(index+1, 1)
	records := rightSibling.RemoveRecords(0, rightSibling.NumberOfRecords())
	lc.InsertRecords(lc.NumberOfRecords(), records)
''','''	lc.InsertRecords(lc.NumberOfRecords(), rightSibling.RemoveRecords(0, rightSibling.NumberOfRecords()))
	parent.RemoveChildren(index+1, 1)
''')]),
('count-split','',[m(L,lc+'CountRecordsForSpliting','''	loadSize1 := lc.GetLoadSize()
	loadSize2 := 0
	recordCount := 0

	for i := lc.NumberOfRecords() - 1; ; i-- {
''','''	loadSize1, loadSize2, recordCount := lc.GetLoadSize(), 0, 0
	i := lc.NumberOfRecords() - 1

	for ; ; i-- {
''')]),
('read-min','',[(K,fn(K,'(kf keyFactory) ReadKey('),'''func (kf keyFactory) ReadKey(key key, dataOffset int, buffer []byte) int {
	if len(key) < maxKeySize {
		if dataOffset < len(key) {
			return copy(buffer, key[dataOffset:])
		}

		return 0
	}

	if dataOffset+len(buffer) <= keyPrefixSize {
		return copy(buffer, key[dataOffset:keyPrefixSize])
	}

	_, overflow := kf.getKeyOverflow(key)

	if dataOffset >= keyPrefixSize {
		dataOffset -= keyPrefixSize

		if dataOffset >= len(overflow) {
			return 0
		}

		return copy(buffer, overflow[dataOffset:])
	}

	n := copy(buffer, key[dataOffset:keyPrefixSize])
	return n + copy(buffer[n:], overflow)
}
''')]),
('readall-append','',[(V,fn(V,'(vf valueFactory) ReadValueAll'),'''func (vf valueFactory) ReadValueAll(value value) []byte {
	if len(value) < maxValueSize {
		return copyBytes(value)
	}

	_, valueOverflow := vf.getValueOverflow(value)
	rawValue := make([]byte, 0, valuePrefixSize+len(valueOverflow))
	rawValue = append(rawValue, value[:valuePrefixSize]...)
	return append(rawValue, valueOverflow...)
}
''')]),
('cmp-full','',[(K,fn(K,'(kc keyComparer) CompareKey'),'''func (kc keyComparer) CompareKey(key key, rawKey []byte) int {
	if len(key) >= maxKeySize && len(rawKey) > keyPrefixSize {
		d := bytes.Compare(key[:keyPrefixSize], rawKey[:keyPrefixSize])

		if d == 0 {
			_, keyOverflow := keyFactory{kc.FileStorage}.getKeyOverflow(key)
			d = bytes.Compare(keyOverflow, rawKey[keyPrefixSize:])
		}

		return d
	}

	return bytes.Compare(key, rawKey)
}
''')]),
('iter-cur','',add(I,'''func (i *iterator) currentRecord() (key, value) {
	leafController := i.makeCurrentLeafController()
	return leafController.GetKey(i.currentRecordIndex), leafController.GetValue(i.currentRecordIndex)
}''',m(I,'(i *iterator) GetKeySize','''	leafController := i.makeCurrentLeafController()
	key := leafController.GetKey(i.currentRecordIndex)
''','''	key, _ := i.currentRecord()
'''),m(I,'(i *iterator) ReadValueAll','''	leafController := i.makeCurrentLeafController()
	value := leafController.GetValue(i.currentRecordIndex)
''','''	_, value := i.currentRecord()
'''),m(I,'(i *iterator) ReadRecordAll','''	leafController := i.makeCurrentLeafController()
	key := leafController.GetKey(i.currentRecordIndex)
	value := leafController.GetValue(i.currentRecordIndex)
''','''	key, value := i.currentRecord()
'''))),
('iter-adv','',[(I,fn(I,'(fi *forwardIterator) Advance'),'''func (fi *forwardIterator) Advance() Iterator {
	fi.preAdvance()

	if fi.isAtEnd {
		return fi
	}

	leafController := fi.makeCurrentLeafController()
	fi.currentRecordIndex++

	if fi.currentRecordIndex >= leafController.NumberOfRecords() {
		fi.currentLeafAddr, fi.currentRecordIndex = leafHeader(leafController).NextAddr(), 0
	}

	return fi
}
''')]),
('list-rm','',[(LL,fn(LL,'(ll *leafList) RemoveLeaf'),'''func (ll *leafList) RemoveLeaf(fileStorage *fsm.FileStorage, leafAddr int64) {
	lf := leafFactory{fileStorage}
	removed := leafHeader(lf.GetLeafController(leafAddr))
	prevAddr, nextAddr := removed.PrevAddr(), removed.NextAddr()
	leafHeader(lf.GetLeafController(nextAddr)).SetPrevAddr(prevAddr)
	leafHeader(lf.GetLeafController(prevAddr)).SetNextAddr(nextAddr)

	switch leafAddr {
	case ll.headAddr:
		ll.headAddr = nextAddr
	case ll.tailAddr:
		ll.tailAddr = prevAddr
	}
}
''')]),
('print-leaf','',add(F,'''func (bpt *BPTree) fprintLeaf(writer io.Writer, leafController leafController, prefix, newLine string) error {
	n := leafController.NumberOfRecords()

	for i := 0; i < n; i++ {
		key := keyFactory{bpt.fileStorage}.ReadKeyAll(leafController.GetKey(i))
		value := valueFactory{bpt.fileStorage}.ReadValueAll(leafController.GetValue(i))
		start := newLine + "├─● "

		if i == 0 && n == 1 {
			start = prefix + "──● "
		} else if i == 0 {
			start = prefix + "┬─● "
		} else if i == n-1 {
			start = newLine + "└─● "
		}

		if _, err := fmt.Fprintf(writer, "%s%q=%q", start, key, value); err != nil {
			return err
		}
	}

	return nil
}''',(F,fn(F,b+'doFprint'),fn(F,b+'doFprint').replace(fn(F,b+'doFprint').split('		leafController := bpt')[1].split('	} else {\n		nonLeaf')[0],'XX').replace('		leafController := bptXX','		return bpt.fprintLeaf(writer, bpt.getLeafController(nodeAddr), prefix, newLine)\n')))),
('h-locate','',[m(H,h+'locateItem','''	var items items
	items.SlotAddrRef = hm.locateSlotAddr(hm.calculateSlotIndex(keySum))
	items.SlotAddr = items.SlotAddrRef.Get(hm.fileStorage)
	items.Value = unpackSlot(hm.loadSlot(items.SlotAddr))

	for i := range items.Value {
		item := &items.Value[i]

		if matchItem(item, key, keySum) {
			return &items, i
		}
	}

	return &items, -1
''','''	slotAddrRef := hm.locateSlotAddr(hm.calculateSlotIndex(keySum))
	slotAddr := slotAddrRef.Get(hm.fileStorage)
	value := unpackSlot(hm.loadSlot(slotAddr))
	found := -1

	for i, item := range value {
		if matchItem(&item, key, keySum) {
			found = i
			break
		}
	}

	return &items{SlotAddrRef: slotAddrRef, SlotAddr: slotAddr, Value: value}, found
''')]),
('h-remove','',[m(H,h+'removeItem','''	n := len(items.Value)

	for j := i + 1; j < n; j++ {
		items.Value[j-1] = items.Value[j]
	}

	items.Value = items.Value[:n-1]
''','''	items.Value = append(items.Value[:i], items.Value[i+1:]...)
''')]),
('h-remove2','',[m(H,h+'removeItem','''	n := len(items.Value)

	for j := i + 1; j < n; j++ {
		items.Value[j-1] = items.Value[j]
	}

	items.Value = items.Value[:n-1]
''','''	n := copy(items.Value[i:], items.Value[i+1:])
	items.Value = items.Value[:i+n]
''')]),
('h-replace','',[m(H,h+'replaceValue','''	if returnReplacedValue {
		value, item.Value = copyBytes(item.Value), value
	} else {
		value, item.Value = nil, value
	}

	hm.flushItems(items)
	return value
''','''	var replaced []byte

	if returnReplacedValue {
		replaced = copyBytes(item.Value)
	}

	item.Value = value
	hm.flushItems(items)
	return replaced
''')]),
('h-aou','',[m(H,h+'AddOrUpdateItem','''	hm.appendItem(items, &hashItem{
		KeySum: keySum,
		Key:    key,
		Value:  value,
	})

	return nil, true
''','''	item := hashItem{Key: key, Value: value, KeySum: keySum}
	hm.appendItem(items, &item)
	return nil, true
''')]),
('h-shrink-helper','',add(H,'''func (hm *HashMap) shrinkOnce() {
	items1 := unpackSlot(hm.removeSlot())
	slotAddrRef := hm.locateSlotAddr(hm.calculateLowSlotIndex(hm.slotCount))
	slotAddr := slotAddrRef.Get(hm.fileStorage)
	items2 := unpackSlot(hm.loadSlot(slotAddr))
	slot := packSlot(mergeItems(items1, items2))
	slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, slot))
}''',(H,fn(H,h+'maybeShrink'),'''func (hm *HashMap) maybeShrink() {
	for hm.slotCount >= 2 && hm.loadFactor() < minLoadFactor {
		hm.shrinkOnce()
	}
}
'''))),
('h-expand-order','',[m(H,h+'maybeExpand','''		slot1, slot2 := packSlot(items1), packSlot(items2)
		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, slot1))
		hm.addSlot(slot2)
''','''		slot2 := packSlot(items2)
		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, packSlot(items1)))
		hm.addSlot(slot2)
''')]),
('h-fetch','',[(H,fn(H,h+'FetchItem'),'''func (hm *HashMap) FetchItem(cursor *Cursor) ([]byte, []byte, bool) {
	for cursor.itemIndex >= len(cursor.items) {
		if cursor.slotIndex >= hm.slotCount {
			return nil, nil, false
		}

		slot := hm.loadSlot(hm.locateSlotAddr(cursor.slotIndex).Get(hm.fileStorage))
		slot.Bin = copyBytes(slot.Bin)
		cursor.items = unpackSlot(slot)
		cursor.itemIndex = 0
		cursor.slotIndex++
	}

	item := cursor.items[cursor.itemIndex]
	cursor.itemIndex++
	return item.Key, item.Value, true
}
''')]),
('h-load-bits','',[m(H,h+'Load','	hm.minSlotCountShift = int(info.MinSlotCountShift)\n	hm.slotCount = int(info.SlotCount)\n','	hm.slotCount, hm.minSlotCountShift = int(info.SlotCount), int(info.MinSlotCountShift)\n')]),
('h-adjust','',[(H,fn(H,h+'adjustSlotDirs'),'''func (hm *HashMap) adjustSlotDirs(maxSlotDirCountShift int) {
	slotDirAddrs := append([]byte(nil), hm.fileStorage.AccessSpace(hm.slotDirsAddr)...)
	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
	slotDirsAddr, buffer := hm.fileStorage.AllocateSpace(8 << maxSlotDirCountShift)
	copy(buffer, slotDirAddrs)
	hm.slotDirsAddr, hm.maxSlotDirCountShift = slotDirsAddr, maxSlotDirCountShift
}
''')]),
('h-adjust2','',[(H,fn(H,h+'adjustSlotDirs'),'''func (hm *HashMap) adjustSlotDirs(maxSlotDirCountShift int) {
	oldAddr := hm.slotDirsAddr
	newAddr, _ := hm.fileStorage.AllocateSpace(8 << maxSlotDirCountShift)
	copy(hm.fileStorage.AccessSpace(newAddr), hm.fileStorage.AccessSpace(oldAddr)[:8*hm.slotDirCount])
	hm.fileStorage.FreeSpace(oldAddr)
	hm.slotDirsAddr = newAddr
	hm.maxSlotDirCountShift = maxSlotDirCountShift
}
''')]),
('h-merge-simple','',[(H,fn(H,'mergeItems'),'''func mergeItems(items1, items2 []hashItem) []hashItem {
	items := make([]hashItem, 0, len(items1)+len(items2))
	items = append(items, items1...)
	return append(items, items2...)
}
''')]),
('d-open','',[]),
('n-setkey','',[]),
('consts','',[]),
]
M=[x for x in M if x[2]]
