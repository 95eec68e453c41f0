H='hashmap/hashmap.go'
def r(a,b): return (H,a,b)
M=[
('split-hash','C18',[r('''		if len(item.Key) <= maxShortKeySize {
			// cost''','''		if len(item.Key) < maxShortKeySize {
			// cost''')]),
('split-sum','C18',[r('''			keySum = sumKey(item.Key)
		} else {''','''			keySum = item.KeySum
		} else {''')]),
('split-lose','C18',[r('''			items2 = append(items2, *item)
			continue''','''			items2 = append(items2, items[i])
			continue''')]),
('split-inv','C18',[r('if keySum&distinctKeySumBit != 0 {','if keySum&distinctKeySumBit == 0 {')]),
('split-end','',[r('items1 := items[:i]','items1 := items[:len(items)-len(items2)]')]),
('merge-tail','C18',[r('copy(items[n<<1:], items2[n:])','if n1+8 < n2 {\n\t\tcopy(items[n<<1:], items2[n:n2-1])\n\t} else {\n\t\tcopy(items[n<<1:], items2[n:])\n\t}')]),
('merge-same','C18',[r('items[(i<<1)|(j^1)] = *item2','items[(i<<1)|(j&1)] = *item2')]),
('low','C18',[r('return highSlotIndex &^ hm.minSlotCount()','return highSlotIndex - hm.minSlotCount()&highSlotIndex>>1<<1')]),
('idx-ge','C18',[r('if slotIndex >= hm.slotCount {','if slotIndex > hm.slotCount {')]),
('short-store','C18',[r('''	if len(item.Key) <= maxShortKeySize {
		// optimization''','''	if len(item.Key) <= maxShortKeySize+1 {
		// optimization''')]),
('min-late','C18',[r('if hm.slotCount == hm.maxSlotCountPlusOne() {','if hm.slotCount == hm.maxSlotCountPlusOne()+1 {')]),
('min-shrink','C18',[r('if hm.slotCount < hm.minSlotCount() {','if hm.slotCount <= hm.minSlotCount() {')]),
('dir-full','C18',[r('if hm.slotCount == hm.slotDirCount<<slotDirLengthShift {','if hm.slotCount == hm.slotDirCount<<slotDirLengthShift+1 {')]),
('dir-remove','C18',[r('hm.slotCount == ((hm.slotDirCount-2)<<slotDirLengthShift)+1 {','hm.slotCount == ((hm.slotDirCount-1)<<slotDirLengthShift)+1 {')]),
('table-shrink','C18',[r('hm.slotDirCount == 1<<(hm.maxSlotDirCountShift-2) {','hm.slotDirCount >= 1<<(hm.maxSlotDirCountShift-2) {')]),
('table-nocopy','C18',[r('	copy(buffer1, buffer2)\n	hm.maxSlotDirCountShift','	copy(buffer1, buffer2[:len(buffer2)/2])\n	hm.maxSlotDirCountShift')]),
('table-grow-size','C18',[r('hm.fileStorage.AllocateSpace(8 << maxSlotDirCountShift)','hm.fileStorage.AllocateSpace(4 << maxSlotDirCountShift)')]),
('dirsize','C18',[r('slotDirAddr, _ := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)','slotDirAddr, _ := hm.fileStorage.AllocateSpace(4 << slotDirLengthShift)')]),
('dirsize0','C18',[r('slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)','slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << (slotDirLengthShift-1))')]),
('expand-swap','C18',[r('slot1, slot2 := packSlot(items1), packSlot(items2)','slot2, slot1 := packSlot(items1), packSlot(items2)')]),
('shrink-drop','C18',[r('packSlot(mergeItems(items1, items2))','packSlot(mergeItems(items2, items2))')]),
('shrink-idx','C18',[r('''		items1 := unpackSlot(hm.removeSlot())
		slotIndex := hm.calculateLowSlotIndex(hm.slotCount)''','''		slotIndex := hm.calculateLowSlotIndex(hm.slotCount-1)
		items1 := unpackSlot(hm.removeSlot())
		slotIndex |= slotIndex&hm.slotCount''')]),
('create-slot','C18',[r('binary.BigEndian.PutUint64(buffer2, ^uint64(0))','binary.BigEndian.PutUint64(buffer2[8:], ^uint64(0))')]),
('create-shift','C18',[r('	hm.maxSlotDirCountShift = minMaxSlotDirCountShift\n','	hm.maxSlotDirCountShift = minMaxSlotDirCountShift + 1\n')]),
('refac-split','',[r('''	for j := range items {
		item := &items[j]
		var keySum uint64

		if len(item.Key) <= maxShortKeySize {
			// cost of optimization for binary size
			keySum = sumKey(item.Key)
		} else {
			keySum = item.KeySum
		}

		if keySum&distinctKeySumBit != 0 {
			items2 = append(items2, *item)
			continue
		}

		items[i] = *item
		i++
	}
''','''	for j := 0; j < len(items); j++ {
		item := items[j]

		if item.hash()&distinctKeySumBit == 0 {
			items[i] = item
			i++
		} else {
			items2 = append(items2, item)
		}
	}
'''),r('''func mergeItems(''','''func (hi *hashItem) hash() uint64 {
	if len(hi.Key) > maxShortKeySize {
		return hi.KeySum
	}

	return sumKey(hi.Key)
}

func mergeItems(''')]),
('refac-split2','',[r('''	items2 := ([]hashItem)(nil)
	i := 0
''','''	var items1, items2 []hashItem
'''),r('''		items[i] = *item
		i++
	}

	items1 := items[:i]
''','''		items1 = append(items1, *item)
	}

''')]),
('refac-merge','',[r('''	n1, n2 := len(items1), len(items2)
	items := make([]hashItem, n1+n2)
	var n int

	if n1 < n2 {
		n = n1
	} else {
		n = n2
	}

	x := uint64(1)

	for i := 0; i < n; i++ {
		item1 := &items1[i]
		item2 := &items2[i]
		x *= uint64(len(item1.Key)) + uint64(len(item2.Key))
		j := int(x & 1)
		items[(i<<1)|j] = *item1
		items[(i<<1)|(j^1)] = *item2
	}

	copy(items[n<<1:], items1[n:])
	copy(items[n<<1:], items2[n:])
''','''	items := make([]hashItem, 0, len(items1)+len(items2))
	items = append(items, items1...)
	items = append(items, items2...)
''')]),
('refac-merge2','',[r('''		x *= uint64(len(item1.Key)) + uint64(len(item2.Key))
		j := int(x & 1)
		items[(i<<1)|j] = *item1
		items[(i<<1)|(j^1)] = *item2
''','''		x *= uint64(len(item1.Key)) + uint64(len(item2.Key))

		if x&1 == 0 {
			items[2*i], items[2*i+1] = *item1, *item2
		} else {
			items[2*i+1], items[2*i] = *item1, *item2
		}
''')]),
('refac-index','',[r('''	slotIndex := int(keySum & uint64(hm.maxSlotCountPlusOne()-1))

	if slotIndex >= hm.slotCount {
		slotIndex = hm.calculateLowSlotIndex(slotIndex)
	}

	return slotIndex
''','''	if slotIndex := int(keySum % uint64(hm.maxSlotCountPlusOne())); slotIndex < hm.slotCount {
		return slotIndex
	}

	return int(keySum & uint64(hm.minSlotCount()-1))
''')]),
('refac-dir','',[r('''		ArrayAddr:    hm.locateSlotDirAddr(slotIndex >> slotDirLengthShift).Get(hm.fileStorage),
		ElementIndex: slotIndex & ((1 << slotDirLengthShift) - 1),''','''		ArrayAddr:    hm.locateSlotDirAddr(slotIndex / (1 << slotDirLengthShift)).Get(hm.fileStorage),
		ElementIndex: slotIndex % (1 << slotDirLengthShift),''')]),
('refac-adjust','',[r('''	buffer2 := make([]byte, len(buffer1))
	copy(buffer2, buffer1)
	hm.fileStorage''','''	buffer2 := append([]byte(nil), buffer1...)
	hm.fileStorage''')]),
('refac-addslot','',[r('''	hm.locateSlotAddr(hm.slotCount).Set(hm.fileStorage, hm.storeSlot(slot))
	hm.slotCount++
''','''	slotAddr := hm.storeSlot(slot)
	hm.slotCount++
	hm.locateSlotAddr(hm.slotCount-1).Set(hm.fileStorage, slotAddr)
''')]),
('refac-expand','',[r('''		slot1, slot2 := packSlot(items1), packSlot(items2)
		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, slot1))
		hm.addSlot(slot2)
''','''		slot1, slot2 := packSlot(items1), packSlot(items2)
		hm.addSlot(slot2)
		slotAddrRef.Set(hm.fileStorage, hm.restoreSlot(slotAddr, slot1))
''')]),
('refac-loc','',[r('''func (hm *HashMap) maybeExpand() {
	for hm.loadFactor() > maxLoadFactor {
''','''func (hm *HashMap) maybeExpand() {
	for hm.overloaded() {
'''),r('''func (hm *HashMap) minSlotCount() int {
''','''func (hm *HashMap) overloaded() bool {
	return float64(hm.itemCount) > maxLoadFactor*float64(hm.slotCount)
}

func (hm *HashMap) minSlotCount() int {
''')]),
]
