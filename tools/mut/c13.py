import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
L='bptree/leaf.go';N='bptree/nonleaf.go'
ir='(lc leafController) InsertRecords';rr='(lc leafController) RemoveRecords';sv='(lc leafController) SetValue('
dir='(lc leafController) doInsertRecords';drr='(lc leafController) doRemoveRecords';dsv='(lc leafController) doSetValue'
ic='(nlc nonLeafController) InsertChildren';rc='(nlc nonLeafController) RemoveChildren';sk='(nlc nonLeafController) SetKey'
dic='(nlc nonLeafController) doInsertChildren';drc='(nlc nonLeafController) doRemoveChildren';dsk='(nlc nonLeafController) doSetKey'
gk='(lc leafController) GetKey';gv='(lc leafController) GetValue';gls='(lc leafController) GetLoadSize'
X='C13'
M=[
 # insert
 ('i-shift-val',X,[m(L,dir,'valueOffset - kvsSize','valueOffset')]),
 ('i-noshift-last',X,[m(L,dir,'i < recordHeadersOffset; i += recordHeaderSize','i < recordHeadersOffset-recordHeaderSize; i += recordHeaderSize')]),
 ('i-shift-le','',[m(L,dir,'i < recordHeadersOffset; i','i <= recordHeadersOffset; i')]),
 ('i-hdrcopy-short',X,[m(L,dir,'lc[recordHeadersOffset:recordHeadersEndOffsetX])','lc[recordHeadersOffset:recordHeadersEndOffsetX-recordHeaderSize])')]),
 ('i-data-whole',X,[m(L,dir,'lc[kvsOffsetX:kvsEndOffset]','lc[kvsOffsetX:kvsEndOffset-1]')]),
 ('i-data-more','',[m(L,dir,'lc[kvsOffsetX:kvsEndOffset]','lc[kvsOffsetX:]')]),
 ('i-end-wrong',X,[m(L,ir,'kvsEndOffset = leafSize','kvsEndOffset = kvsOffsetX')]),
 ('i-size-key',X,[m(L,ir,'kvsSize += len(record.Key) + len(record.Value)','kvsSize += len(record.Key)')]),
 ('i-size-max',X,[m(L,ir,'kvsSize += len(record.Key) + len(record.Value)','kvsSize = len(record.Key) + len(record.Value)')]),
 ('i-count',X,[m(L,ir,'int32(numberOfRecordsX + len(records))','int32(numberOfRecordsX + 1)')]),
 ('i-order',X,[m(L,dir,'copy(lc[recordHeadersOffset+recordHeadersSize:], lc[recordHeadersOffset:recordHeadersEndOffsetX])\n',''  ,'kvsOffset := kvsEndOffset - kvsSize\n','copy(lc[recordHeadersOffset+recordHeadersSize:], lc[recordHeadersOffset:recordHeadersEndOffsetX-0])\n	kvsOffset := kvsEndOffset\n')]),
 ('i-swap-kv',X,[m(L,dir,'SetKeyOffset(int32(keyOffset))','SetKeyOffset(int32(valueOffset))')]),
 ('i-reuse-kvoff',X,[m(L,dir,'valueOffset := kvsOffset\n','valueOffset := keyOffset + 1\n')]),
 ('i-first-int8',X,[m(L,dir,'SetKeyOffset(int32(keyOffset - kvsSize))','SetKeyOffset(int32(uint8(keyOffset - kvsSize)))')]),
 ('i-kvsx-off',X,[m(L,ir,'kvsOffsetX = int(recordHeader(lc[leafHeaderSize:]).KeyOffset())','kvsOffsetX = int(recordHeader(lc[leafHeaderSize:]).ValueOffset())')]),
 ('i-kvend-val',X,[m(L,ir,'kvsEndOffset = int(recordHeader(lc[recordHeadersOffset:]).KeyOffset())','kvsEndOffset = int(recordHeader(lc[recordHeadersOffset:]).ValueOffset())')]),
 ('i-hdr-in-place',X,[m(L,dir,'recordHeadersOffset += recordHeaderSize','recordHeadersOffset += 0')]),
 # remove
 ('r-cut',X,[m(L,rr,'kvsEndOffset = leafSize','kvsEndOffset = leafSize - 1')]),
 ('r-noadj',X,[m(L,drr,'recordHeader.SetValueOffset(int32(valueOffset + kvsSize))','recordHeader.SetValueOffset(int32(valueOffset))')]),
 ('r-adj-bound',X,[m(L,drr,('i < recordHeadersOffset',0),'i < recordHeadersOffset-recordHeaderSize')]),
 ('r-hdr',X,[m(L,drr,'copy(lc[recordHeadersEndOffset-recordHeadersSize:], lc[recordHeadersEndOffset:recordHeadersEndOffsetX])','copy(lc[recordHeadersEndOffset-recordHeaderSize:], lc[recordHeadersEndOffset:recordHeadersEndOffsetX])')]),
 ('r-data',X,[m(L,drr,'copy(lc[kvsOffsetX+kvsSize:], lc[kvsOffsetX:kvsOffset])','copy(lc[kvsOffsetX+kvsSize:], lc[kvsOffsetX+1:kvsOffset])')]),
 ('r-data-none',X,[m(L,drr,'copy(lc[kvsOffsetX+kvsSize:], lc[kvsOffsetX:kvsOffset])','')]),
 ('r-count',X,[m(L,rr,'int32(numberOfRecordsX - numberOfRecords)','int32(numberOfRecordsX - len(records) + 1)')]),
 ('r-ret-valend',X,[m(L,drr,'valueEndOffset = leafSize','valueEndOffset = leafSize - 1')]),
 ('r-ret-valend2',X,[m(L,drr,'valueEndOffset = int(recordHeader(lc[j:]).KeyOffset())','valueEndOffset = int(recordHeader(lc[j:]).KeyOffset()) - 1')]),
 ('r-ret-overlap',X,[m(L,drr,'kvs = kvs[len(key):]','')]),
 ('r-ret-overlap2',X,[m(L,drr,'kvs = kvs[len(value):]','')]),
 ('r-ret-swap',X,[m(L,drr,'record{key, value}','record{value, key}')]),
 ('r-ret-first',X,[m(L,drr,'for i := recordHeadersOffset;','for i := recordHeadersOffset + recordHeaderSize;')]),
 ('r-ret-last',X,[m(L,drr,'i < recordHeadersEndOffset; i','i < recordHeadersEndOffset-recordHeaderSize; i')]),
 ('r-ret-late',X,[m(L,drr,'	copy(lc[kvsOffsetX+kvsSize:], lc[kvsOffsetX:kvsOffset])\n','','	recordHeadersOffset := recordHeadersEndOffset - recordHeadersSize\n','	recordHeadersOffset := recordHeadersEndOffset - recordHeadersSize\n	copy(lc[kvsOffsetX+kvsSize:], lc[kvsOffsetX:kvsOffset])\n')]),
 ('r-ret-keylen',X,[m(L,drr,'copy(key, lc[keyOffset:])','copy(key, lc[keyOffset+1:])')]),
 # set
 ('s-delta',X,[m(L,sv,'valueEndOffset = leafSize','valueEndOffset = leafSize - 1')]),
 ('s-adj-lt',X,[m(L,dsv,'i <= recordHeaderOffset','i < recordHeaderOffset')]),
 ('s-adj-all',X,[m(L,dsv,'i <= recordHeaderOffset','i <= recordHeaderOffset+recordHeaderSize')]),
 ('s-inplace',X,[m(L,dsv,'copy(lc[valueOffset-valueSizeDelta:], value)','copy(lc[valueOffset:], value)')]),
 ('s-nomove',X,[m(L,dsv,'copy(lc[kvsOffsetX-valueSizeDelta:], lc[kvsOffsetX:valueOffset])','if valueSizeDelta > 0 {\n		copy(lc[kvsOffsetX-valueSizeDelta:], lc[kvsOffsetX:valueOffset])\n	}')]),
 ('s-order',X,[m(L,dsv,'	copy(lc[kvsOffsetX-valueSizeDelta:], lc[kvsOffsetX:valueOffset])\n	copy(lc[valueOffset-valueSizeDelta:], value)\n','	copy(lc[valueOffset-valueSizeDelta:], value)\n	copy(lc[kvsOffsetX-valueSizeDelta:], lc[kvsOffsetX:valueOffset])\n')]),
 ('s-fast',X,[m(L,sv,'	lc.doSetValue(','	if valueSizeDelta < 0 {\n		copy(lc[valueOffset:], value)\n		return\n	}\n	lc.doSetValue(')]),
 # non-leaf
 ('ni-addr',X,[m(N,dic,'childHeader.SetAddr(child.Addr)','if len(child.Key) > 0 {\n			childHeader.SetAddr(child.Addr)\n		}')]),
 ('ni-shift',X,[m(N,dic,'i < childHeadersOffset; i += nonLeafChildHeaderSize','i+nonLeafChildHeaderSize < childHeadersOffset; i += nonLeafChildHeaderSize')]),
 ('ni-step',X,[m(N,dic,'i += nonLeafChildHeaderSize','i += recordHeaderSize')]),
 ('ni-size',X,[m(N,ic,'keysSize += len(child.Key)','keysSize += len(child.Key) + 1')]),
 ('ni-hs',X,[m(N,ic,'childHeadersSize := len(children) * nonLeafChildHeaderSize','childHeadersSize := nonLeafChildHeaderSize')]),
 ('ni-end',X,[m(N,ic,'keysEndOffset = nonLeafSize','keysEndOffset = keysOffsetX')]),
 ('nr-addr',X,[m(N,drc,'nonLeafChild{key, childHeader.Addr()}','nonLeafChild{key, nonLeafChildHeader(nlc[childHeadersOffset:]).Addr()}')]),
 ('nr-end',X,[m(N,rc,'keysEndOffset = nonLeafSize','keysEndOffset = keysOffsetX')]),
 ('nr-adj',X,[m(N,drc,'keyOffset + keysSize','keyOffset')]),
 ('nr-overlap',X,[m(N,drc,'keys = keys[len(key):]','')]),
 ('ns-lt',X,[m(N,dsk,'i <= childHeaderOffset','i < childHeaderOffset')]),
 ('ns-end',X,[m(N,sk,'keyEndOffset = nonLeafSize','keyEndOffset = keyOffset')]),
 # getters, headers
 ('g-key',X,[m(L,gk,'int(recordHeader1.ValueOffset())','int(recordHeader1.ValueOffset()) - 1')]),
 ('g-val',X,[m(L,gv,'valueEndOffset = leafSize','valueEndOffset = leafSize - 1')]),
 ('g-load',X,[m(L,gls,'kvsOffsetX = leafSize','kvsOffsetX = leafSize - leafHeaderSize')]),
 ('h-next',X,[m(L,'(lh leafHeader) SetNextAddr','lh[8:]','lh[4:]')]),
 ('h-val',X,[m(L,'(rh recordHeader) SetValueOffset','rh[4:]','rh[2:]')]),
 ('h-count16',X,[m(L,'(lh leafHeader) SetRecordCount','binary.BigEndian.PutUint32(lh[16:], uint32(value))','binary.BigEndian.PutUint16(lh[18:], uint16(value))')]),
 ('h-addr32',X,[m(N,'(nlch nonLeafChildHeader) SetAddr','binary.BigEndian.PutUint64(nlch[4:], uint64(value))','binary.BigEndian.PutUint64(nlch[4:], uint64(uint32(value)))')]),
 ('new-nozero',X,[m(L,'(lf leafFactory) CreateLeaf','i < leafHeaderSize','i < leafHeaderSize-4')]),
 ('new-nozero2',X,[m(N,'(nlf nonLeafFactory) CreateNonLeaf','i < nonLeafHeaderSize','i < nonLeafHeaderSize-2')]),
 # behaviour kept
 ('k-range','',[m(L,dir,'for i := leafHeaderSize; i < recordHeadersOffset; i += recordHeaderSize {\n		recordHeader := recordHeader(lc[i:])','for k := 0; k < (recordHeadersOffset-leafHeaderSize)/recordHeaderSize; k++ {\n		recordHeader := recordHeader(lc[leafHeaderSize+k*recordHeaderSize:])')]),
 ('k-back','',[m(L,dir,'for i := leafHeaderSize; i < recordHeadersOffset; i += recordHeaderSize {','for i := recordHeadersOffset - recordHeaderSize; i >= leafHeaderSize; i -= recordHeaderSize {')]),
 ('k-size-first','',[m(L,dir,'	copy(lc[recordHeadersOffset+recordHeadersSize:], lc[recordHeadersOffset:recordHeadersEndOffsetX])\n	copy(lc[kvsOffsetX-kvsSize:], lc[kvsOffsetX:kvsEndOffset])\n','	copy(lc[kvsOffsetX-kvsSize:], lc[kvsOffsetX:kvsEndOffset])\n	copy(lc[recordHeadersOffset+recordHeadersSize:recordHeadersEndOffsetX+recordHeadersSize], lc[recordHeadersOffset:])\n')]),
 ('k-alloc','',[m(L,drr,'key := kvs[:keyEndOffset-keyOffset]\n		kvs = kvs[len(key):]\n','key := make([]byte, keyEndOffset-keyOffset)\n','value := kvs[:valueEndOffset-valueOffset]\n		kvs = kvs[len(value):]\n','value := make([]byte, valueEndOffset-valueOffset)\n','	kvs := make([]byte, kvsSize)\n','')]),
 ('k-appendcopy','',[m(L,drr,'key := kvs[:keyEndOffset-keyOffset]\n		kvs = kvs[len(key):]\n		copy(key, lc[keyOffset:])','key := append([]byte(nil), lc[keyOffset:keyEndOffset]...)')]),
 ('k-idx','',[m(L,drr,'records := make([]record, 0, numberOfRecords)','records := make([]record, numberOfRecords)\n	n := 0','records = append(records, record{key, value})','records[n] = record{key, value}\n		n++')]),
 ('k-get','',[m(L,drr,'		valueOffset := keyEndOffset\n','		valueOffset := keyEndOffset\n		_ = valueOffset\n')]),
 ('k-setcopyfirst','',[m(L,dsv,'	copy(lc[kvsOffsetX-valueSizeDelta:], lc[kvsOffsetX:valueOffset])\n	copy(lc[valueOffset-valueSizeDelta:], value)\n','	if valueSizeDelta != 0 {\n		copy(lc[kvsOffsetX-valueSizeDelta:], lc[kvsOffsetX:valueOffset])\n	}\n	copy(lc[valueOffset-valueSizeDelta:], value)\n')]),
 ('k-recdel','',[m(L,dir,'for _, record := range records {','for j := range records {\n		record := records[j]')]),
 ('k-backins','',[m(N,dic,'	keysOffset := keysEndOffset - keysSize\n\n	for _, child := range children {\n		keyOffset := keysOffset\n		keysOffset += copy(nlc[keysOffset:], child.Key)\n','	keyOffset := keysEndOffset - keysSize\n\n	for _, child := range children {\n		copy(nlc[keyOffset:], child.Key)\n','		childHeader.SetAddr(child.Addr)\n','		childHeader.SetAddr(child.Addr)\n		keyOffset += len(child.Key)\n')]),
]
