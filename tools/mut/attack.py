# bugs in the shape of optimisations and clean-ups (caches, pools, fast paths, lazy work)
exec(open('/verif/tools/mut/h.py').read())
B='bptree/bptree.go';L='bptree/leaf.go';N='bptree/nonleaf.go';K='bptree/key.go';V='bptree/value.go';I='bptree/iterator.go';LL='bptree/leaflist.go';F='bptree/fprint.go';H='hashmap/hashmap.go';D='dict.go';O='ordereddict.go'
b='(bpt *BPTree) ';h='(hm *HashMap) ';lc='(lc leafController) ';nlc='(nlc nonLeafController) '
OL=b+'ensureNotOverloadLeaf';UL=b+'ensureNotUnderloadLeaf';ON=b+'ensureNotOverloadNonLeaf';UN=b+'ensureNotUnderloadNonLeaf'
FLD=(B,'	payloadSize  int\n}\n')
def field(s): return (B,FLD[1],'	payloadSize  int\n	'+s+'\n}\n')
HF='	payloadSize          int\n}\n'
def hfield(s): return (H,HF,HF[:-2]+'	'+s+'\n}\n')
M=[
# caches
('c-lastpath','C06',[field('lastKey []byte\n	lastPath recordPath'),m(B,b+'findRecord','	recordPath := recordPath(','	if bpt.lastPath != nil && bytes.Equal(bpt.lastKey, key) {\n		return append(recordPath(nil), bpt.lastPath...), true\n	}\n\n	recordPath := recordPath(','			return recordPath, ok\n','			if ok {\n				bpt.lastKey = append([]byte(nil), key...)\n				bpt.lastPath = append(bpt.lastPath[:0], recordPath...)\n			}\n			return recordPath, ok\n')]),
('c-lastkey-ret','C03',[field('lastKey []byte'),m(B,b+'findRecord','	nodeAddr := bpt.rootAddr\n','	nodeAddr := bpt.rootAddr\n	bpt.lastKey = key\n')]),
('c-valbuf','C02',[field('valueBuffer []byte'),m(B,b+'getValue','	return valueFactory{bpt.fileStorage}.ReadValueAll(value)\n','	n := valueFactory{bpt.fileStorage}.GetRawValueSize(value)\n	if cap(bpt.valueBuffer) < n {\n		bpt.valueBuffer = make([]byte, n)\n	}\n	bpt.valueBuffer = bpt.valueBuffer[:n]\n	valueFactory{bpt.fileStorage}.ReadValue(value, 0, bpt.valueBuffer)\n	return bpt.valueBuffer\n')]),
('c-pool','C02',[(V,'type value []byte\n','type value []byte\n\nvar scratch [4096]byte\n'),m(V,'(vf valueFactory) ReadValueAll','	rawValue := make([]byte, valuePrefixSize+len(valueOverflow))\n','	rawValue := scratch[:]\n	if n := valuePrefixSize + len(valueOverflow); n <= len(scratch) {\n		rawValue = scratch[:n]\n	} else {\n		rawValue = make([]byte, n)\n	}\n')]),
('c-rightmost','C16',[field('lastLeafAddr int64'),m(B,b+'findRecord','''			recordPath = append(recordPath, recordPathComponent{nodeAddr, i})
			return recordPath, ok
''','''			if i == leafController.NumberOfRecords() && nodeAddr != bpt.leafList.TailAddr() {
				i--
			}
			recordPath = append(recordPath, recordPathComponent{nodeAddr, i})
			return recordPath, ok
''')]),
('c-slot','C20',[hfield('cache map[int64][]hashItem'),m(H,h+'FetchItem','		slot := hm.loadSlot(hm.locateSlotAddr(cursor.slotIndex).Get(hm.fileStorage))\n		slot.Bin = copyBytes(slot.Bin)\n		cursor.items = unpackSlot(slot)\n','''		slotAddr := hm.locateSlotAddr(cursor.slotIndex).Get(hm.fileStorage)
		items, ok := hm.cache[slotAddr]
		if !ok {
			slot := hm.loadSlot(slotAddr)
			slot.Bin = copyBytes(slot.Bin)
			items = unpackSlot(slot)
			if hm.cache == nil {
				hm.cache = map[int64][]hashItem{}
			}
			hm.cache[slotAddr] = items
		}
		cursor.items = items
''')]),
('c-hm-fetch-key','C02',[m(H,h+'FetchItem','		return item.Key, item.Value, true\n	}\n\n	for','		key := append(cursor.items[0].Key[:0], item.Key...)\n		return key, item.Value, true\n	}\n\n	for')]),
# fast paths
('f-inplace-prefix','C06',[m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n','''	if oldValueSize == len(newValue) && oldValueSize >= maxValueSize {
		_, valueOverflow := valueFactory{bpt.fileStorage}.getValueOverflow(value)
		copy(valueOverflow, newValue[valuePrefixSize:])
		return oldValue
	}

	valueFactory{bpt.fileStorage}.DestroyValue(value)
''')]),
('f-inplace-ok','',[m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n','''	if oldValueSize == len(newValue) && oldValueSize >= maxValueSize {
		_, valueOverflow := valueFactory{bpt.fileStorage}.getValueOverflow(value)
		copy(value, newValue[:valuePrefixSize])
		copy(valueOverflow, newValue[valuePrefixSize:])
		return oldValue
	}

	valueFactory{bpt.fileStorage}.DestroyValue(value)
''')]),
('f-same','',[m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n','''	if returnOldValue && bytes.Equal(oldValue, newValue) {
		return oldValue
	}

	valueFactory{bpt.fileStorage}.DestroyValue(value)
''')]),
('f-same-bad','C06',[m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n','''	if oldValueSize == len(newValue) && bytes.HasPrefix(newValue, oldValue) {
		return oldValue
	}

	valueFactory{bpt.fileStorage}.DestroyValue(value)
''')]),
('f-leak-short','C10',[m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n	value','	if len(newValue) >= maxValueSize {\n		valueFactory{bpt.fileStorage}.DestroyValue(value)\n	}\n\n	value')]),
('f-pay-len','C09',[m(B,b+'replaceValue','oldValueSize = valueFactory{bpt.fileStorage}.GetRawValueSize(value)','oldValueSize = len(value)')]),
('f-append-tail','C12',[m(B,b+'insertRecord','	_, leafController, recordIndex := bpt.locateRecord(recordPath)\n','	leafAddr, leafController, recordIndex := bpt.locateRecord(recordPath)\n','	bpt.ensureNotOverloadLeaf(&recordPath)\n','	if leafAddr != bpt.leafList.TailAddr() || recordIndex < leafController.NumberOfRecords()-2 || bpt.height == 1 {\n		bpt.ensureNotOverloadLeaf(&recordPath)\n	}\n')]),
('f-skip-sync','C12',[m(B,b+'removeRecord','	bpt.syncKey(&recordPath)\n','	if leafController.NumberOfRecords() >= 2 {\n		bpt.syncKey(&recordPath)\n	}\n')]),
('f-key-eq','C16',[m(K,'(kc keyComparer) CompareKey','	if len(key) < maxKeySize','	if len(key) == len(rawKey) {\n		return bytes.Compare(key, rawKey)\n	}\n\n	if len(key) < maxKeySize')]),
('f-find-min','C14',[m(B,b+'findRecord','	recordPath := recordPath(','	if isMinKey(key) && bpt.height > 1 {\n		return []recordPathComponent{{bpt.leafList.HeadAddr(), 0}}, true\n	}\n\n	recordPath := recordPath(')]),
('f-tail','C11',[m(LL,'(ll *leafList) RemoveLeaf',''' else if leafAddr == ll.tailAddr {
		ll.tailAddr = leafPrevAddr
	}''',''),m(B,UL,'		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafAddr)\n','		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafAddr)\n		if leafAddr == bpt.leafList.TailAddr() {\n			bpt.leafList.Set(leafLSiblingAddr, bpt.leafList.HeadAddr())\n		}\n')]),
('f-tail-ok','',[m(LL,'(ll *leafList) RemoveLeaf',''' else if leafAddr == ll.tailAddr {
		ll.tailAddr = leafPrevAddr
	}''',''),m(B,UL,'		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafAddr)\n','		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafAddr)\n		if leafAddr == bpt.leafList.TailAddr() {\n			bpt.leafList.Set(leafLSiblingAddr, bpt.leafList.HeadAddr())\n		}\n','		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n','		if leafRSiblingAddr == bpt.leafList.TailAddr() {\n			bpt.leafList.Set(leafAddr, bpt.leafList.HeadAddr())\n		}\n		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n')]),
# hash map
('h-short','C18',[m(H,h+'appendItem','<= maxShortKeySize','<= maxShortKeySize+1')]),
('h-mtf','C08',[m(H,h+'HasItem','	return hm.getValue(items, i, returnPresentValue), true\n','	value := hm.getValue(items, i, returnPresentValue)\n	if i > 0 {\n		items.Value[0], items.Value[i] = items.Value[i], items.Value[0]\n		hm.flushItems(items)\n	}\n	return value, true\n')]),
('h-mtf-ok','',[m(H,h+'replaceValue','	hm.flushItems(items)\n','	items.Value[0], items.Value[i] = items.Value[i], items.Value[0]\n	hm.flushItems(items)\n')]),
('h-swapdel','',[m(H,h+'removeItem','''	for j := i + 1; j < n; j++ {
		items.Value[j-1] = items.Value[j]
	}

''','''	items.Value[i] = items.Value[n-1]
''')]),
('h-swapdel-bad','C07',[m(H,h+'removeItem','''	for j := i + 1; j < n; j++ {
		items.Value[j-1] = items.Value[j]
	}

''','''	if i+1 < n-1 {
		items.Value[i] = items.Value[n-1]
	}
''')]),
('h-inplace','C07',[m(H,h+'replaceValue','''	if returnReplacedValue {''','''	if len(value) == len(item.Value) {
		old := item.Value
		if returnReplacedValue {
			old = copyBytes(old)
		}
		copy(item.Value, value)
		return old
	}

	if returnReplacedValue {''')]),
('h-inplace-alias','C02',[m(H,h+'replaceValue','''	if returnReplacedValue {''','''	if len(value) == len(item.Value) {
		if !returnReplacedValue {
			copy(item.Value, value)
			return nil
		}
		old := item.Value
		items.Value[i].Value = value
		hm.flushItems(items)
		return old
	}

	if returnReplacedValue {''')]),
('h-expand-once','C18',[m(H,h+'addSlot','	if hm.slotCount == hm.slotDirCount<<slotDirLengthShift {\n		hm.addSlotDir()\n	}\n','','	if hm.slotCount == hm.maxSlotCountPlusOne() {\n','	if hm.slotCount >= hm.slotDirCount<<slotDirLengthShift+1 {\n		hm.addSlotDir()\n	}\n\n	if hm.slotCount == hm.maxSlotCountPlusOne() {\n')]),
('h-load-shift','C04',[m(H,h+'Load','	hm.minSlotCountShift = int(info.MinSlotCountShift)\n','	for 2<<hm.minSlotCountShift < int(info.SlotCount) {\n		hm.minSlotCountShift++\n	}\n')]),
('h-load-shift-ok','',[m(H,h+'Load','	hm.minSlotCountShift = int(info.MinSlotCountShift)\n','	for 2<<hm.minSlotCountShift <= int(info.SlotCount) {\n		hm.minSlotCountShift++\n	}\n')]),
('h-loadslot-len','C21',[m(H,h+'loadSlot','	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil {\n','	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil && len(slot.ItemInfos) == 0 {\n')]),
('h-merge-cap','C19',[m(H,'mergeItems','	items := make([]hashItem, n1+n2)\n','	if n1 == 0 {\n		return items2\n	}\n\n	items := make([]hashItem, n1+n2)\n','	copy(items[n<<1:], items2[n:])\n','	if n1 < n2 {\n		copy(items[n<<1:], items2[n1:])\n	}\n','	copy(items[n<<1:], items1[n:])\n','	if n2 < n1 {\n		copy(items[n<<1:], items1[n2-1:])\n	}\n')]),
('h-pack-dedup','C19',[m(H,'unpackSlot','		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]\n','		if itemInfo.ValueSize > 0 {\n			item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]\n		} else {\n			item.Value = slot.Bin[i:]\n		}\n')]),
# reading
('r-scan-keep','C20',[m(H,h+'FetchItem','		if len(cursor.items) >= 1 {\n			item := &cursor.items[0]\n			cursor.itemIndex = 1\n','		if len(cursor.items) >= 1 {\n			item := &cursor.items[cursor.itemIndex%len(cursor.items)]\n			cursor.itemIndex = 1\n')]),
('r-iter-cache','C15',[(I,'	isAtEnd            bool\n}\n','	isAtEnd            bool\n	leafRecordCount    int\n}\n'),(I,fn(I,'(fi *forwardIterator) Advance'),fn(I,'(fi *forwardIterator) Advance').replace('		if fi.currentRecordIndex < leafController.NumberOfRecords()-1 {','		if fi.leafRecordCount == 0 {\n			fi.leafRecordCount = leafController.NumberOfRecords()\n		}\n\n		if fi.currentRecordIndex < fi.leafRecordCount-1 {'))]),
('r-iter-cache-ok','',[(I,'	isAtEnd            bool\n}\n','	isAtEnd            bool\n	leafRecordCount    int\n}\n'),(I,fn(I,'(fi *forwardIterator) Advance'),fn(I,'(fi *forwardIterator) Advance').replace('		if fi.currentRecordIndex < leafController.NumberOfRecords()-1 {','		if fi.leafRecordCount == 0 {\n			fi.leafRecordCount = leafController.NumberOfRecords()\n		}\n\n		if fi.currentRecordIndex < fi.leafRecordCount-1 {').replace('fi.currentRecordIndex = 0','fi.currentRecordIndex = 0; fi.leafRecordCount = 0'))]),
('r-print-buf','C23',[m(F,b+'Fprint','	return bpt.doFprint(writer, bpt.rootAddr, 1, "", "\\n")','	buffered := bufio.NewWriter(writer)\n	defer buffered.Flush()\n	return bpt.doFprint(buffered, bpt.rootAddr, 1, "", "\\n")'),(F,'import (\n','import (\n	"bufio"\n')]),
('r-print-buf-ok','',[m(F,b+'Fprint','	return bpt.doFprint(writer, bpt.rootAddr, 1, "", "\\n")','	buffered := bufio.NewWriter(writer)\n	if err := bpt.doFprint(buffered, bpt.rootAddr, 1, "", "\\n"); err != nil {\n		return err\n	}\n	return buffered.Flush()'),(F,'import (\n','import (\n	"bufio"\n')]),
# life cycle
('l-close-lazy','C05',[m(D,'(d *Dict) Close','	return d.fileStorage.Close()','	defer d.fileStorage.Close()\n	return nil')]),
('l-close-panic','C05',[m(O,'(od *OrderedDict) Close','	return od.fileStorage.Close()','	err := od.fileStorage.Close()\n	if err == os.ErrClosed {\n		return nil\n	}\n	return err'),(O,'import (\n','import (\n	"os"\n\n')]),
('l-store-dirty','C05',[m(O,'(od *OrderedDict) Close','	','	if od.bpTree.NumberOfRecords() == 0 && od.fileStorage.PrimarySpace() < 0 {\n		return od.fileStorage.Close()\n	}\n\n	')]),
('l-prim','C04',[m(D,'(d *Dict) Close','	d.fileStorage.SetPrimarySpace(hashMapInfoAddr)\n','	if d.fileStorage.PrimarySpace() < 0 {\n		d.fileStorage.SetPrimarySpace(hashMapInfoAddr)\n	}\n')]),
('l-height8','C04',[m(B,b+'Load','	bpt.payloadSize = int(info.PayloadSize)\n','	bpt.payloadSize = int(int32(info.PayloadSize))\n')]),

# buffers used again
('b-append','C02',[field('valueBuffer []byte'),m(B,b+'getValue','	return valueFactory{bpt.fileStorage}.ReadValueAll(value)\n','	bpt.valueBuffer = append(bpt.valueBuffer[:0], valueFactory{bpt.fileStorage}.ReadValueAll(value)...)\n	return bpt.valueBuffer\n')]),
('b-append-ok','',[field('valueBuffer []byte'),m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n','	bpt.valueBuffer = append(bpt.valueBuffer[:0], oldValue...)\n	valueFactory{bpt.fileStorage}.DestroyValue(value)\n')]),
('b-pool','C02',[(V,'type value []byte\n','type value []byte\n\nvar values = sync.Pool{New: func() interface{} { return make([]byte, 0, 512) }}\n'),(V,'import (\n','import (\n	"sync"\n'),m(V,'(vf valueFactory) ReadValueAll','	rawValue := make([]byte, valuePrefixSize+len(valueOverflow))\n','	rawValue := values.Get().([]byte)\n	defer values.Put(rawValue)\n	if n := valuePrefixSize + len(valueOverflow); n <= cap(rawValue) {\n		rawValue = rawValue[:n]\n	} else {\n		rawValue = make([]byte, n)\n	}\n')]),
('b-hm','C02',[hfield('buffer []byte'),m(H,h+'getValue','	value := copyBytes(item.Value)\n','	hm.buffer = append(hm.buffer[:0], item.Value...)\n	value := hm.buffer\n')]),
('b-iter','C02',[(I,'	isAtEnd            bool\n}\n','	isAtEnd            bool\n	buffer             []byte\n}\n'),m(I,'(i *iterator) ReadKeyAll','	return keyFactory{i.fileStorage}.ReadKeyAll(key), nil\n','	n := keyFactory{i.fileStorage}.GetRawKeySize(key)\n	if len(i.buffer) < n {\n		i.buffer = make([]byte, n)\n	}\n	keyFactory{i.fileStorage}.ReadKey(key, 0, i.buffer[:n])\n	return i.buffer[:n], nil\n')]),
('b-cursor','C02',[(H,'type Cursor struct {\n','type Cursor struct {\n	bin       []byte\n'),m(H,h+'FetchItem','slot.Bin = copyBytes(slot.Bin)','cursor.bin = append(cursor.bin[:0], slot.Bin...)\n		slot.Bin = cursor.bin')]),
('b-map','C02',[hfield('seen map[string][]byte'),m(H,h+'getValue','	value := copyBytes(item.Value)\n','	value := hm.seen[string(item.Key)]\n	if len(value) != len(item.Value) {\n		value = make([]byte, len(item.Value))\n		if hm.seen == nil {\n			hm.seen = map[string][]byte{}\n		}\n		hm.seen[string(item.Key)] = value\n	}\n	copy(value, item.Value)\n')]),
]
