H='hashmap/hashmap.go'
def r(a,b): return (H,a,b)
M=[
('last-size','C19',[r('slot.ItemInfos[n-1].ValueSize = 0','slot.ItemInfos[n/2].ValueSize = 0')]),
('last-size2','C19',[r('	slot.ItemInfos[n-1].ValueSize = 0\n','	slot.ItemInfos[n-1].KeySize = 0\n')]),
('last-keep','C19',[r('	slot.ItemInfos[n-1].ValueSize = 0\n','')]),
('last-read','C19',[r('	items[n-1].Value = slot.Bin[i:]\n','')]),
('swap','C19',[r('''		i += copy(slot.Bin[i:], item.Key)
		itemInfo.KeySize = int64(len(item.Key))
		i += copy(slot.Bin[i:], item.Value)
''','''		i += copy(slot.Bin[i:], item.Value)
		itemInfo.KeySize = int64(len(item.Key))
		i += copy(slot.Bin[i:], item.Key)
''')]),
('sizes','C19',[r('itemInfo.ValueSize = int64(len(item.Value))','itemInfo.ValueSize = int64(int32(len(item.Value)))')]),
('sizes2','C19',[r('itemInfo.ValueSize = int64(len(item.Value))','itemInfo.ValueSize = int64(uint16(len(item.Value)))')]),
('nosum','C19',[r('		itemInfo.KeySum = item.KeySum\n','		if len(item.Value) != 0 {\n			itemInfo.KeySum = item.KeySum\n		}\n')]),
('readv','C19',[r('item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]','item.Value = slot.Bin[i : i+int(itemInfo.KeySize)]')]),
('readi','C19',[r('		i += int(itemInfo.ValueSize)\n','		i += len(item.Key)\n')]),
('rdsum','C19',[r('		item.KeySum = itemInfo.KeySum\n','		item.KeySum = uint64(itemInfo.KeySize)\n')]),
('order','C19',[r('item := &items[j]\n		item.KeySum','item := &items[n-1-j]\n		item.KeySum')]),
('alloc','C19',[r('hm.fileStorage.AllocateSpace(len(slotRawSize) + slotSize)','hm.fileStorage.AllocateSpace(1 + slotSize)')]),
('hdr','C19',[r('i := copy(buffer, slotRawSize)\n	slot.MarshalTo(buffer[i:])','i := copy(buffer, slotRawSize)\n	slot.MarshalTo(buffer[1+i-i:])')]),
('hdrrd','C19',[r('slot.Unmarshal(buffer[i : i+slotSize])','slot.Unmarshal(buffer[1 : 1+slotSize])')]),
('hdrsz','C19',[r('slotRawSize[:binary.PutUvarint(slotRawSize, uint64(slotSize))]','slotRawSize[:binary.PutUvarint(slotRawSize, uint64(uint16(slotSize)))]')]),
('empty','C19',[r('if len(slot.ItemInfos) == 0 {','if len(slot.Bin) == 0 {')]),
('refac-append','',[r('''	slot := protocol.HashSlot{
		ItemInfos: make([]protocol.HashItemInfo, n),
		Bin:       make([]byte, i),
	}

	i = 0

	for j := range items {
		item := &items[j]
		itemInfo := &slot.ItemInfos[j]
		itemInfo.KeySum = item.KeySum
		i += copy(slot.Bin[i:], item.Key)
		itemInfo.KeySize = int64(len(item.Key))
		i += copy(slot.Bin[i:], item.Value)
		itemInfo.ValueSize = int64(len(item.Value))
	}

	// optimization for binary size
	slot.ItemInfos[n-1].ValueSize = 0
	return &slot
''','''	bin := make([]byte, 0, i)
	infos := make([]protocol.HashItemInfo, 0, n)

	for j := range items {
		item := &items[j]
		bin = append(bin, item.Key...)
		bin = append(bin, item.Value...)
		infos = append(infos, protocol.HashItemInfo{KeySum: item.KeySum, KeySize: int64(len(item.Key)), ValueSize: int64(len(item.Value))})
	}

	// optimization for binary size
	infos[n-1].ValueSize = 0
	return &protocol.HashSlot{ItemInfos: infos, Bin: bin}
''')]),
('refac-copy','',[r('''		i += copy(slot.Bin[i:], item.Key)
		itemInfo.KeySize = int64(len(item.Key))
		i += copy(slot.Bin[i:], item.Value)
		itemInfo.ValueSize = int64(len(item.Value))
''','''		keySize, valueSize := len(item.Key), len(item.Value)
		copy(slot.Bin[i:i+keySize], item.Key)
		i += keySize
		copy(slot.Bin[i:i+valueSize], item.Value)
		i += valueSize
		itemInfo.KeySize, itemInfo.ValueSize = int64(keySize), int64(valueSize)
''')]),
('refac-rest','',[r('''		item.Key = slot.Bin[i : i+int(itemInfo.KeySize)]
		i += int(itemInfo.KeySize)
		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]
		i += int(itemInfo.ValueSize)
	}

	// cost of optimization for binary size
	items[n-1].Value = slot.Bin[i:]
''','''		item.Key, bin = bin[:itemInfo.KeySize], bin[itemInfo.KeySize:]
		item.Value, bin = bin[:itemInfo.ValueSize], bin[itemInfo.ValueSize:]
	}

	// cost of optimization for binary size
	items[n-1].Value = bin
'''),r('''	items := make([]hashItem, n)
	i := 0

	for j := range slot.ItemInfos {''','''	items := make([]hashItem, n)
	bin := []byte(slot.Bin)

	for j := range slot.ItemInfos {''')]),
('refac-last','',[r('		i += int(itemInfo.ValueSize)\n	}\n\n	// cost of optimization for binary size\n	items[n-1].Value = slot.Bin[i:]\n','''		i += int(itemInfo.ValueSize)
	}

	last := &items[n-1]
	last.Value = slot.Bin[i:]
''')]),
('refac-store','',[r('''	slotSize := slot.Size()
	slotRawSize := make([]byte, binary.MaxVarintLen64)
	slotRawSize = slotRawSize[:binary.PutUvarint(slotRawSize, uint64(slotSize))]
	slotAddr, buffer := hm.fileStorage.AllocateSpace(len(slotRawSize) + slotSize)
	i := copy(buffer, slotRawSize)
	slot.MarshalTo(buffer[i:])
	return slotAddr
''','''	var header [binary.MaxVarintLen64]byte
	slotSize := slot.Size()
	headerSize := binary.PutUvarint(header[:], uint64(slotSize))
	slotAddr, buffer := hm.fileStorage.AllocateSpace(headerSize + slotSize)
	copy(buffer, header[:headerSize])
	slot.MarshalTo(buffer[headerSize:])
	return slotAddr
''')]),
]
