import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
B='bptree/bptree.go';H='hashmap/hashmap.go';D='dict.go';O='ordereddict.go'
b='(bpt *BPTree) ';h='(hm *HashMap) '
M=[
('rc-cond','C09',[m(B,b+'insertRecord','	bpt.recordCount++','	if recordIndex < 1<<10 {\n		bpt.recordCount++\n	}')]),
('rc-early','C09',[m(B,b+'removeRecord','	bpt.recordCount--','	if len(recordPath) > 1 {\n		bpt.recordCount--\n	}')]),
('pay-add','C09',[m(B,b+'createRecord','len(key) + len(value)','len(key) + len(record.Value)')]),
('pay-add2','C09',[m(B,b+'createRecord','len(key) + len(value)','len(record.Key) + len(value)')]),
('pay-del','C09',[m(B,b+'destroyRecord','keySize + valueSize','len(record.Key) + valueSize')]),
('pay-del2','C09',[m(B,b+'destroyRecord','bpt.payloadSize -= keySize + valueSize','if returnValue {\n		valueSize = len(value)\n	}\n	bpt.payloadSize -= keySize + valueSize - valueSize')]),
('pay-del-ok','',[m(B,b+'destroyRecord','bpt.payloadSize -= keySize + valueSize','if returnValue {\n		valueSize = len(value)\n	}\n	bpt.payloadSize -= keySize\n	bpt.payloadSize -= valueSize')]),
('pay-rep','C09',[m(B,b+'replaceValue','oldValueSize = valueFactory{bpt.fileStorage}.GetRawValueSize(value)','oldValueSize = len(value)')]),
('pay-rep2','C09',[m(B,b+'replaceValue','		oldValueSize = len(oldValue)\n','')]),
('pay-rep3','C09',[m(B,b+'replaceValue','len(newValue) - oldValueSize','len(value) - oldValueSize')]),
('pay-rep-ok','',[m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n','	oldValueSize = valueFactory{bpt.fileStorage}.DestroyValue(value)\n')]),
('lc-cond','C09',[m(B,b+'destroyLeaf','	bpt.leafCount--','	if bpt.height > 2 {\n		bpt.leafCount--\n	}')]),
('nlc-none','C09',[m(B,b+'destroyNonLeaf','	bpt.nonLeafCount--\n','')]),
('nlc-leaf','C09',[m(B,b+'createNonLeaf','nonLeafCount++','leafCount++')]),
('ht','C09',[m(B,b+'decreaseHeight','	bpt.height--\n','	if bpt.height > 2 {\n		bpt.height--\n	}\n')]),
('ht-ok','',[m(B,b+'increaseHeight','	bpt.height++\n','','	rootAddr, rootController','	bpt.height = bpt.height + 1\n	rootAddr, rootController')]),
('merge-direct','C09',[m(B,'(bpt *BPTree) ensureNotUnderloadLeaf(','		bpt.destroyLeaf(leafAddr)\n','		leafFactory{bpt.fileStorage}.DestroyLeaf(leafAddr)\n')]),
('get-h','C09',[m(B,b+'Height','bpt.height','bpt.height - 1')]),
('get-l','C09',[m(B,b+'NumberOfLeafs','bpt.leafCount','bpt.nonLeafCount')]),
('get-nl','C09',[m(B,b+'NumberOfNonLeafs','bpt.nonLeafCount','bpt.leafCount')]),
('get-r','C09',[m(B,b+'NumberOfRecords','bpt.recordCount','bpt.leafCount')]),
('get-p','C09',[m(B,b+'PayloadSize','return bpt.payloadSize','return bpt.payloadSize + bpt.recordCount')]),
('st-swap','C09',[m(O,'(od *OrderedDict) Stats','NumberOfNonLeafs()','NumberOfLeafs()')]),
('st-swap2','C09',[m(O,'(od *OrderedDict) Stats','od.bpTree.PayloadSize()','od.bpTree.NumberOfRecords()')]),
('st-omit','C09',[m(O,'(od *OrderedDict) Stats','		BPTreeHeight:           od.bpTree.Height(),\n','')]),
('dst-swap','C09',[m(D,'(d *Dict) Stats','NumberOfSlots()','MinNumberOfSlots()')]),
('dst-swap2','C09',[m(D,'(d *Dict) Stats','NumberOfSlotDirs()','MaxNumberOfSlotDirs()')]),
('h-get','C09',[m(H,h+'NumberOfSlots','hm.slotCount','hm.slotDirCount << slotDirLengthShift')]),
('h-get2','C09',[m(H,h+'NumberOfItems','hm.itemCount','hm.slotCount')]),
('h-ic','C09',[m(H,h+'postAddItem','	hm.itemCount++\n	hm.maybeExpand()','	hm.maybeExpand()\n	hm.itemCount = hm.slotCount')]),
('h-ic-noop','C09',[m(H,h+'postDeleteItem','	hm.itemCount--\n','	if hm.slotCount > 1 {\n		hm.itemCount--\n	}\n')]),
('h-pay','C09',[m(H,h+'appendItem','len(item.Key) + len(item.Value)','len(item.Value)')]),
('h-pay2','C09',[m(H,h+'appendItem','	hm.payloadSize += len(item.Key) + len(item.Value)\n\n','','		item.KeySum = 0\n	}\n','		item.KeySum = 0\n		hm.payloadSize += len(item.Key) + len(item.Value)\n	}\n')]),
('h-pay3','C09',[m(H,h+'removeItem','	hm.payloadSize -= len(item.Key) + len(item.Value)\n','','	items.Value = items.Value[:n-1]\n','	hm.payloadSize -= len(item.Key) + len(item.Value)\n	items.Value = items.Value[:n-1]\n')]),
('h-pay4','C09',[m(H,h+'replaceValue','	hm.payloadSize += len(value) - len(item.Value)\n','','	hm.flushItems','	hm.payloadSize += len(item.Value) - len(value)\n	hm.flushItems')]),
('h-pay5','C09',[m(H,h+'removeItem','	hm.payloadSize -= len(item.Key) + len(item.Value)\n','','		value = copyBytes(item.Value)\n','		value = copyBytes(item.Value)\n		hm.payloadSize -= len(item.Key) + len(item.Value)\n')]),
('h-pay-ok','',[m(H,h+'removeItem','	hm.payloadSize -= len(item.Key) + len(item.Value)\n','','	n := len(items.Value)\n','	n := len(items.Value)\n	hm.payloadSize -= len(item.Value)\n	hm.payloadSize -= len(item.Key)\n')]),
('h-inl-ok','',[m(H,h+'appendItem','	hm.postAddItem()\n','	hm.itemCount++\n	hm.maybeExpand()\n')]),
('h-upd-adds','C09',[m(H,h+'replaceValue','	hm.flushItems(items)\n','	hm.flushItems(items)\n	if len(value) == 0 {\n		hm.postAddItem()\n	}\n')]),
('h-sc','C09',[m(H,h+'addSlot','	hm.slotCount++\n\n	if hm.slotCount == hm.maxSlotCountPlusOne() {','	hm.slotCount++\n\n	if hm.slotCount == hm.maxSlotCountPlusOne() {\n		hm.slotDirCount = hm.slotCount')]),
('h-sdc','C09',[m(H,h+'addSlotDir','	hm.slotDirCount++\n','')]),
('h-sdc2','C09',[m(H,h+'removeSlotDir','	hm.slotDirCount--\n','','	if hm.max','	hm.slotDirCount -= 2\n	if hm.max')]),
('store-sw','C09',[m(H,h+'Store','ItemCount:            int64(hm.itemCount)','ItemCount:            int64(hm.slotCount)')]),
('load-sw','C09',[m(H,h+'Load','hm.payloadSize = int(info.PayloadSize)','hm.payloadSize = int(info.ItemCount)')]),
('load-trunc','C09',[m(B,b+'Load','int(info.PayloadSize)','int(int32(info.PayloadSize))')]),
('load-omit','C09',[m(B,b+'Load','	bpt.nonLeafCount = int(info.NonLeafCount)\n','')]),
('create-zero','C09',[m(B,b+'Create','	bpt.height = 1\n','')]),
('has-side','C09',[m(H,h+'HasItem','	if i < 0 {\n','	if i < 0 {\n		hm.payloadSize--\n')]),
('iter','C09',[m(B,b+'SearchForward','	return new','	bpt.recordCount += 0\n	if !ok {\n		bpt.payloadSize = 0\n	}\n	return new')]),
('local-ok','',[m(O,'(od *OrderedDict) Stats','	return OrderedDictStats{','	t := &od.bpTree\n	return OrderedDictStats{','od.bpTree.Height()','t.Height()')]),
]
