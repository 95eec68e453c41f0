import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
B='bptree/bptree.go';H='hashmap/hashmap.go';D='dict.go';O='ordereddict.go';K='bptree/key.go';V='bptree/value.go';L='bptree/leaf.go';N='bptree/nonleaf.go'
b='(bpt *BPTree) ';h='(hm *HashMap) '
OL=b+'ensureNotOverloadLeaf(';UL=b+'ensureNotUnderloadLeaf(';UN=b+'ensureNotUnderloadNonLeaf('
M=[
('hd-dir1','C10',[m(H,h+'Destroy',('i := 0',1),'i := 1')]),
('hd-slot-1','C10',[m(H,h+'Destroy','i < hm.slotCount','i < hm.slotCount-1')]),
('hd-table','C10',[m(H,h+'Destroy','	hm.fileStorage.FreeSpace(hm.slotDirsAddr)\n','')]),
('hd-order','C10',[m(H,h+'Destroy','	hm.fileStorage.FreeSpace(hm.slotDirsAddr)\n','','	for i := 0; i < hm.slotDirCount','	hm.fileStorage.FreeSpace(hm.slotDirsAddr)\n	for i := 0; i < hm.slotDirCount')]),
('hd-min','C10',[m(H,h+'Destroy','i < hm.slotCount','i < hm.minSlotCount()')]),
('hd-max','C10',[m(H,h+'Destroy','i < hm.slotDirCount','i < 1<<hm.maxSlotDirCountShift')]),
('hd-rev-ok','',[m(H,h+'Destroy','i := 0; i < hm.slotCount; i++','i := hm.slotCount - 1; i >= 0; i--')]),
('hd-rev','C10',[m(H,h+'Destroy','i := 0; i < hm.slotCount; i++','i := hm.slotCount - 1; i > 0; i--')]),
('hd-skip','C10',[m(H,h+'Destroy','hm.eraseSlot(','if i&hm.minSlotCount() != 0 {\n			continue\n		}\n		hm.eraseSlot(')]),
('hd-step','C10',[m(H,h+'Destroy','i < hm.slotCount; i++','i < hm.slotCount; i += 2')]),
('hd-while-ok','',[m(H,h+'Destroy','	for i := 0; i < hm.slotCount; i++ {','	n := hm.slotCount\n	for i := 0; i != n; i++ {')]),
('hd-helper-ok','',[m(H,h+'Destroy','hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))','ref := hm.locateSlotAddr(i)\n		if a := ref.Get(hm.fileStorage); a >= 0 {\n			hm.fileStorage.FreeSpace(a)\n		}')]),
('hs-erase','C10',[m(H,h+'restoreSlot','	hm.eraseSlot(slotAddr)\n','	if len(slot.ItemInfos) > 0 {\n		hm.eraseSlot(slotAddr)\n	}\n')]),
('hs-guard','C10',[m(H,h+'eraseSlot','slotAddr < 0','slotAddr <= 0')]),
('hs-shrink','C10',[m(H,h+'removeSlot','	hm.eraseSlot(slotAddr)\n','')]),
('hs-dir','C10',[m(H,h+'removeSlotDir','	hm.fileStorage.FreeSpace(slotDirAddr)\n','')]),
('hs-dir2','C10',[m(H,h+'removeSlotDir','hm.slotDirCount - 1','hm.slotDirCount - 2')]),
('hs-adj','C10',[m(H,h+'adjustSlotDirs','	hm.fileStorage.FreeSpace(hm.slotDirsAddr)\n','	if maxSlotDirCountShift > hm.maxSlotDirCountShift {\n		hm.fileStorage.FreeSpace(hm.slotDirsAddr)\n	}\n')]),
('hs-load','C10',[m(H,h+'Load','	hm.fileStorage.FreeSpace(infoAddr)\n','')]),
('hs-flush','C10',[m(H,h+'flushItems','	items.SlotAddrRef.Set(hm.fileStorage, items.SlotAddr)\n','	if len(items.Value) > 0 {\n		items.SlotAddrRef.Set(hm.fileStorage, items.SlotAddr)\n	}\n')]),
('bd-loop','C10',[m(B,b+'Destroy','bpt.recordCount >= 1','bpt.recordCount > 1')]),
('bd-loop2','C10',[m(B,b+'Destroy','bpt.recordCount >= 1','bpt.height > 1')]),
('bd-root','C10',[m(B,b+'Destroy','	bpt.destroyLeaf(bpt.rootAddr)\n','')]),
('bd-root2','C10',[m(B,b+'Destroy','	for bpt','	rootAddr := bpt.rootAddr\n	for bpt','destroyLeaf(bpt.rootAddr)','destroyLeaf(rootAddr)')]),
('bd-ok','',[m(B,b+'Destroy','bpt.recordCount >= 1','bpt.NumberOfRecords() != 0')]),
('bd-max-ok','',[m(B,b+'Destroy','MinKey','MaxKey')]),
('b-load','C10',[m(B,b+'Load','	bpt.fileStorage.FreeSpace(infoAddr)\n','')]),
('b-dv','C10',[m(B,b+'destroyRecord','	valueSize := valueFactory{bpt.fileStorage}.DestroyValue(record.Value)\n','	valueSize := valueFactory{bpt.fileStorage}.GetRawValueSize(record.Value)\n')]),
('b-dv2','C10',[m(B,b+'replaceValue','	valueFactory{bpt.fileStorage}.DestroyValue(value)\n','	if returnOldValue {\n		valueFactory{bpt.fileStorage}.DestroyValue(value)\n	}\n')]),
('b-dk','C10',[m(B,b+'destroyRecord','keyFactory{bpt.fileStorage}.DestroyKey(record.Key)','keyFactory{bpt.fileStorage}.GetRawKeySize(record.Key)')]),
('b-add','C10',[m(B,b+'AddRecord','	if ok {\n','	record1 := bpt.createRecord(key, value)\n	if ok {\n','bpt.createRecord(key, value))','record1)')]),
('b-merge','C10',[m(B,UL,'		bpt.destroyLeaf(leafAddr)\n','')]),
('b-merge2','C10',[m(B,UL,'		bpt.destroyLeaf(leafAddr)\n','		bpt.destroyLeaf(leafLSiblingAddr)\n')]),
('b-merge3','C10',[m(B,UN,('bpt.destroyNonLeaf(',1),'_ = (')]),
('b-dec','C10',[m(B,b+'decreaseHeight','	bpt.destroyNonLeaf(bpt.rootAddr)\n	bpt.rootAddr = rootAddr\n','	bpt.rootAddr = rootAddr\n	bpt.destroyNonLeaf(bpt.rootAddr)\n')]),
('b-destroynode','C10',[m(B,b+'destroyNonLeaf','nonLeafFactory{bpt.fileStorage}.DestroyNonLeaf(nonLeafAddr)\n','if bpt.height > 2 {\n		nonLeafFactory{bpt.fileStorage}.DestroyNonLeaf(nonLeafAddr)\n	}\n')]),
('f-leaf','C10',[m(L,'(lf leafFactory) DestroyLeaf','	lf.FileStorage.FreeAlignedSpace(leafAddr)\n','')]),
('f-nl','C10',[m(N,'(nlf nonLeafFactory) DestroyNonLeaf','	nlf.FileStorage.FreeAlignedSpace(nonLeafAddr)\n','	nlf.FileStorage.FreeAlignedSpace(nonLeafAddr &^ 0xffff)\n')]),
('k-thr','C10',[m(K,'(kf keyFactory) DestroyKey','n < maxKeySize','n <= maxKeySize')]),
('k-free','C10',[m(K,'(kf keyFactory) DestroyKey','	kf.destroyKeyOverflow(keyOverflowAddr)\n','	if len(keyOverflow) > 8 {\n		kf.destroyKeyOverflow(keyOverflowAddr)\n	}\n')]),
('v-free','C10',[m(V,'(vf valueFactory) DestroyValue','	vf.freeValueOverflow(valueOverflowAddr)\n','')]),
('v-free2','C10',[m(V,'(vf valueFactory) freeValueOverflow','valueOverflowAddr)\n','valueOverflowAddr + 8)\n')]),
('v-create','C10',[m(V,'(vf valueFactory) CreateValue','len(rawValue) < maxValueSize','len(rawValue) <= maxValueSize+8')]),
('k-addr','C10',[m(K,'(kf keyFactory) CreateKey','uint64(keyOverflowAddr)','uint64(uint32(keyOverflowAddr))')]),
('k-cmp','C10',[m(K,'(kc keyComparer) CompareKey','	n, i := binary.Uvarint(data)\n','	n, i := binary.Uvarint(data)\n	if n == 0 {\n		kc.FileStorage.FreeSpace(keyOverflowAddr)\n	}\n')]),
('k-size','',[m(K,'(kf keyFactory) GetRawKeySize','	_, keyOverflow := kf.getKeyOverflow(key)\n','	addr, keyOverflow := kf.getKeyOverflow(key)\n	if len(keyOverflow) == 0 {\n		kf.destroyKeyOverflow(addr)\n	}\n')]),
]
