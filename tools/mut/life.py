B='bptree/bptree.go'; H='hashmap/hashmap.go'; D='dict.go'; O='ordereddict.go'
M=[
('store-swap','C04',[(B,'LeafListTailAddr: bpt.leafList.TailAddr(),','LeafListTailAddr: bpt.leafList.HeadAddr(),')]),
('load-swap','C04',[(B,'bpt.leafList.Set(info.LeafListTailAddr, info.LeafListHeadAddr)','bpt.leafList.Set(info.LeafListHeadAddr, info.LeafListTailAddr)')]),
('load-miss','C04',[(H,'	hm.payloadSize = int(info.PayloadSize)\n','')]),
('load-int32','C04',[(B,'RecordCount:      int64(bpt.recordCount)','RecordCount:      int64(int32(bpt.recordCount))')]),
('load-nofree','C04',[(H,'	hm.fileStorage.FreeSpace(infoAddr)\n','')]),
('store-hash-miss','C04',[(H,'		MinSlotCountShift:    int64(hm.minSlotCountShift),\n','')]),
('le','C04',[(B,'binary.Read(data, binary.BigEndian','binary.Read(data, binary.LittleEndian')]),
('load-free-first','C21',[(B,'	data := bytes.NewReader(bpt.fileStorage.AccessSpace(infoAddr))\n','	data := bytes.NewReader(append([]byte(nil), bpt.fileStorage.AccessSpace(infoAddr)...))\n	bpt.fileStorage.FreeSpace(infoAddr)\n'),(B,'	bpt.fileStorage.FreeSpace(infoAddr)\n	bpt.rootAddr','	bpt.rootAddr')]),
('load-noerr','C21',[(H,'	if err := buffer.DecodeMessage(&info); err != nil {\n		panic(errCorrupted)\n	}\n','	_ = buffer.DecodeMessage(&info)\n')]),
('slot-noerr','C21',[(H,'	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil {\n		panic(errCorrupted)\n	}\n','	_ = slot.Unmarshal(buffer[i : i+slotSize])\n')]),
('slot-return','C21',[(H,'	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil {\n		panic(errCorrupted)\n	}\n','	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil {\n		return &slot\n	}\n')]),
('uv','C21',[(H,'	if i <= 0 {\n		panic','	if i < 0 {\n		panic')]),
('close-order','C05',[(D,'	d.fileStorage.SetPrimarySpace(hashMapInfoAddr)\n	return d.fileStorage.Close()','	err := d.fileStorage.Close()\n	d.fileStorage.SetPrimarySpace(hashMapInfoAddr)\n	return err')]),
('close-nil','C05',[(O,'	return od.fileStorage.Close()','	od.fileStorage.Close()\n	return nil')]),
('close-noprim','C05',[(O,'	od.fileStorage.SetPrimarySpace(bpTreeInfoAddr)\n','	_ = bpTreeInfoAddr\n')]),
('open-lt','C05',[(O,'bpTreeInfoAddr < 0','bpTreeInfoAddr <= 0')]),
('open-swallow','C05',[(D,'		return nil, err\n','		return &d, nil\n')]),
('open-flag','C05',[(D,'Open(fileName, createFileIfNotExists)','Open(fileName, true)')]),
('create-height','C04',[(B,'	bpt.height = 1\n','	bpt.height = 0\n')]),
('read-write','C08',[(H,'func (hm *HashMap) NumberOfItems() int {\n','func (hm *HashMap) NumberOfItems() int {\n	hm.minSlotCountShift = hm.minSlotCountShift &^ 64\n')]),
('has-shrinks','C08',[(H,'	return hm.getValue(items, i, returnPresentValue), true\n','	hm.flushItems(items)\n	return hm.getValue(items, i, returnPresentValue), true\n')]),
('r-open','',[(D,'	if hashMapInfoAddr := d.fileStorage.PrimarySpace(); hashMapInfoAddr < 0 {\n		d.hashMap.Create()\n	} else {\n		d.hashMap.Load(hashMapInfoAddr)\n	}\n','	addr := d.fileStorage.PrimarySpace()\n	if addr >= 0 {\n		d.hashMap.Load(addr)\n		return &d, nil\n	}\n	d.hashMap.Create()\n')]),
('r-close','',[(D,'	d.fileStorage.SetPrimarySpace(hashMapInfoAddr)\n	return d.fileStorage.Close()','	d.fileStorage.SetPrimarySpace(hashMapInfoAddr)\n	if err := d.fileStorage.Close(); err != nil {\n		return err\n	}\n	return nil')]),
('r-load','',[(B,'	bpt.fileStorage.FreeSpace(infoAddr)\n	bpt.rootAddr = info.RootAddr\n','	bpt.rootAddr = info.RootAddr\n	defer bpt.fileStorage.FreeSpace(infoAddr)\n')]),
('r-store','',[(B,'	info := bpTreeInfo{','	info := bpt.info()\n\n	if err := binary.Write(buffer, binary.BigEndian, info); err != nil {\n		panic(err)\n	}\n\n	infoAddr, buffer2 := bpt.fileStorage.AllocateSpace(buffer.Len())\n	copy(buffer2, buffer.Bytes())\n	*bpt = *new(BPTree).Init(bpt.fileStorage)\n	return infoAddr\n}\n\nfunc (bpt *BPTree) info() *bpTreeInfo {\n	return &bpTreeInfo{'),(B,'''		PayloadSize:      int64(bpt.payloadSize),
	}

	if err := binary.Write(buffer, binary.BigEndian, &info); err != nil {
		panic(err)
	}

	infoAddr, buffer2 := bpt.fileStorage.AllocateSpace(buffer.Len())
	copy(buffer2, buffer.Bytes())
	*bpt = *new(BPTree).Init(bpt.fileStorage)
	return infoAddr
}
''','''		PayloadSize:      int64(bpt.payloadSize),
	}
}
''')]),
('r-loadslot','',[(H,'''	n, i := binary.Uvarint(buffer)

	if i <= 0 {
		panic(errCorrupted)
	}

	slotSize := int(n)
''','''	n, i := binary.Uvarint(buffer)

	if !(i > 0) {
		panic(errCorrupted)
	}

	slotSize := int(n)
''')]),
]
