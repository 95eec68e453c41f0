import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
K='bptree/key.go';V='bptree/value.go'
k='(kf keyFactory) ';v='(vf valueFactory) ';c='(kc keyComparer) CompareKey'
M=[
('k-thr','C17',[m(K,k+'DestroyKey','n < maxKeySize','n <= maxKeySize')]),
('k-thr2','C17',[m(K,k+'CreateKey','len(rawKey) < maxKeySize','len(rawKey) <= maxKeySize')]),
('k-thr3','',[m(K,k+'CreateKey','len(rawKey) < maxKeySize','len(rawKey) <= keyPrefixSize')]),
('k-free','C17',[m(K,k+'DestroyKey','	kf.destroyKeyOverflow(keyOverflowAddr)\n','	if len(keyOverflow) > 8 {\n		kf.destroyKeyOverflow(keyOverflowAddr)\n	}\n')]),
('v-free','C17',[m(V,v+'DestroyValue','	vf.freeValueOverflow(valueOverflowAddr)\n','')]),
('v-free2','C17',[m(V,v+'freeValueOverflow','valueOverflowAddr)\n','valueOverflowAddr + 8)\n')]),
('v-create','C17',[m(V,v+'CreateValue','len(rawValue) < maxValueSize','len(rawValue) <= maxValueSize+8')]),
('k-addr','C17',[m(K,k+'CreateKey','uint64(keyOverflowAddr)','uint64(uint32(keyOverflowAddr))')]),
('k-size','',[m(K,k+'GetRawKeySize','	_, keyOverflow := kf.getKeyOverflow(key)\n','	addr, keyOverflow := kf.getKeyOverflow(key)\n	if len(keyOverflow) == 0 {\n		kf.destroyKeyOverflow(addr)\n	}\n')]),
('k-size2','C17',[m(K,k+'DestroyKey','keyPrefixSize + len(keyOverflow)','maxKeySize + len(keyOverflow)')]),
('k-varint','C17',[m(K,k+'allocateKeyOverflow','binary.PutUvarint(keyOverflowRawSize, uint64(len(keyOverflow)))','binary.PutVarint(keyOverflowRawSize, int64(len(keyOverflow)))')]),
('k-short','C17',[m(K,k+'allocateKeyOverflow','len(keyOverflowRawSize) + len(keyOverflow)','1 + len(keyOverflow)')]),
('k-be','C17',[m(K,k+'CreateKey','BigEndian','LittleEndian')]),
('k-both-le-ok','',[m(V,v+'CreateValue','BigEndian','LittleEndian'),m(V,v+'getValueOverflow','BigEndian','LittleEndian')]),
('k-pre','C17',[m(K,k+'CreateKey','rawKey[keyPrefixSize:]','rawKey[keyPrefixSize+1:]')]),
('v-off','C17',[m(V,v+'CreateValue','value[valuePrefixSize:]','value[valuePrefixSize-1:]')]),
('r-all','C17',[m(K,k+'ReadKeyAll','copy(rawKey, key[:keyPrefixSize])','copy(rawKey, key)','copy(rawKey[keyPrefixSize:], keyOverflow)','copy(rawKey[maxKeySize:], keyOverflow)')]),
('r-all-ok','',[m(K,k+'ReadKeyAll','copy(rawKey, key[:keyPrefixSize])','copy(rawKey, key)')]),
('r-part','C17',[m(V,v+'ReadValue','valueOverflow[dataOffset-valuePrefixSize:]','valueOverflow[dataOffset-valuePrefixSize+1:]')]),
('r-part2','C17',[m(V,v+'ReadValue','value[dataOffset:valuePrefixSize]','value[dataOffset:]')]),
('r-part3','C17',[m(V,v+'ReadValue','dataOffset+len(buffer) <= valuePrefixSize','dataOffset+len(buffer) <= maxValueSize')]),
('r-part4','',[m(V,v+'ReadValue','dataOffset >= valuePrefixSize+len(valueOverflow)','dataOffset > valuePrefixSize+len(valueOverflow)')]),
('r-part5','C17',[m(V,v+'ReadValue','dataOffset >= valuePrefixSize+len(valueOverflow)','dataOffset >= maxValueSize+len(valueOverflow)')]),
('r-part6','C17',[m(K,k+'ReadKey','		i += copy(buffer[i:], keyOverflow)\n','		copy(buffer[i:], keyOverflow)\n')]),
('r-part7','C17',[m(K,k+'ReadKey','dataOffset < keyPrefixSize {','dataOffset <= keyPrefixSize+1 {')]),
('r-part-ok','',[m(K,k+'ReadKey','dataOffset < keyPrefixSize {','dataOffset <= keyPrefixSize {')]),
('r-part8','C17',[m(K,k+'ReadKey','		if dataOffset >= n {\n			return 0\n		}\n\n','')]),
('r-part9','C17',[m(K,k+'ReadKey','dataOffset+len(buffer) <= keyPrefixSize','len(buffer) <= keyPrefixSize')]),
('cmp1','C16',[m(K,c,'len(rawKey) <= keyPrefixSize','len(rawKey) <= maxKeySize')]),
('cmp2','C16',[m(K,c,'len(key) < maxKeySize || len(rawKey) <= keyPrefixSize','len(key) < maxKeySize || len(rawKey) < maxKeySize')]),
('cmp3','C16',[m(K,c,'rawKey[keyPrefixSize:])\n}','rawKey)\n}')]),
('cmp4','C16',[m(K,c,'; d != 0 {','; d > 0 {')]),
('cmp5','C16',[m(K,c,'return bytes.Compare(keyOverflow, rawKey[keyPrefixSize:])','return bytes.Compare(rawKey[keyPrefixSize:], keyOverflow)')]),
('cmp6','C16',[m(K,c,'return bytes.Compare(keyOverflow, rawKey[keyPrefixSize:])','return len(keyOverflow) - len(rawKey[keyPrefixSize:])')]),
('cmp7-ok','',[m(K,c,'len(rawKey) <= keyPrefixSize','len(rawKey) < keyPrefixSize')]),
('cmp8','C16',[m(K,c,'; d != 0 {\n		return d\n	}','; d != 0 {\n		return -1\n	}')]),
('cmp9-ok','',[m(K,c,'; d != 0 {\n		return d\n	}','; d < 0 {\n		return -1\n	} else if d > 0 {\n		return 1\n	}')]),
('cmp10-ok','',[m(K,c,'	keyOverflowAddr := int64(binary.BigEndian.Uint64(key[keyPrefixSize:]))\n	data := kc.FileStorage.AccessSpace(keyOverflowAddr)\n	n, i := binary.Uvarint(data)\n\n	if i <= 0 {\n		panic(errCorrupted)\n	}\n\n	keyOverflowSize := int(n)\n	keyOverflow := data[i : i+keyOverflowSize]\n','	_, keyOverflow := keyFactory{kc.FileStorage}.getKeyOverflow(key)\n')]),
]
