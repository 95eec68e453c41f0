H='hashmap/hashmap.go'
def r(a,b): return (H,a,b)
M=[
('ge2','C20',[r('if len(cursor.items) >= 1 {','if len(cursor.items) >= 2 {')]),
('idx0','C20',[r('			cursor.itemIndex = 1\n','			cursor.itemIndex = 0\n')]),
('idx0b','C20',[r('			cursor.itemIndex = 1\n','')]),
('lateinc','C20',[r('		cursor.slotIndex++\n\n','\n'),r('''			return item.Key, item.Value, true
		}
	}
''','''			return item.Key, item.Value, true
		}
		cursor.slotIndex++
	}
''')]),
('lastslot','C20',[r('for cursor.slotIndex < hm.slotCount {','for cursor.slotIndex+1 < hm.slotCount {')]),
('lastslot2','C20',[r('for cursor.slotIndex < hm.slotCount {','for cursor.slotIndex < hm.slotCount&^1 {')]),
('last','C20',[r('item := &cursor.items[0]','item := &cursor.items[len(cursor.items)-1]')]),
('kv','C20',[r('''		cursor.itemIndex++
		return item.Key, item.Value, true''','''		cursor.itemIndex++
		return item.Key, item.Key, true''')]),
('kv2','C20',[r('''		cursor.itemIndex++
		return item.Key, item.Value, true''','''		cursor.itemIndex++
		return item.Key, cursor.items[0].Value, true''')]),
('skip','C20',[r('''		cursor.itemIndex++
		return item.Key''','''		cursor.itemIndex += 1 + len(item.Key)>>20
		return item.Key''')]),
('mask','C20',[r('hm.locateSlotAddr(cursor.slotIndex).Get','hm.locateSlotAddr(cursor.slotIndex&(hm.slotCount-1)).Get')]),
('empty','C20',[r('''		cursor.slotIndex++

		if len(cursor.items) >= 1 {''','''		cursor.slotIndex++

		if len(cursor.items) >= 1 && len(cursor.items[0].Key) >= 1 {''')]),
('wrap','C20',[r('''	return nil, nil, false
}

// MaxNumber''','''	cursor.slotIndex = 0
	return nil, nil, false
}

// MaxNumber''')]),
('reset','C20',[r('''	return nil, nil, false
}

// MaxNumber''','''	cursor.itemIndex = 0
	return nil, nil, false
}

// MaxNumber''')]),
# equivalent
('eq-while','',[r('''	for cursor.slotIndex < hm.slotCount {
		slot''','''	for {
		if cursor.slotIndex >= hm.slotCount {
			break
		}
		slot''')]),
('eq-local','',[r('cursor.items = unpackSlot(slot)','items := unpackSlot(slot)\n		cursor.items = items'),r('''		if len(cursor.items) >= 1 {
			item := &cursor.items[0]''','''		if len(items) != 0 {
			item := &items[0]''')]),
('eq-refill','',[r('''	if cursor.itemIndex < len(cursor.items) {
		item := &cursor.items[cursor.itemIndex]
		cursor.itemIndex++
		return item.Key, item.Value, true
	}

	for cursor.slotIndex < hm.slotCount {''','''	for {
		if cursor.itemIndex < len(cursor.items) {
			item := cursor.items[cursor.itemIndex]
			cursor.itemIndex++
			return item.Key, item.Value, true
		}
		if cursor.slotIndex >= hm.slotCount {
			return nil, nil, false
		}
'''),r('''		cursor.slotIndex++

		if len(cursor.items) >= 1 {
			item := &cursor.items[0]
			cursor.itemIndex = 1
			return item.Key, item.Value, true
		}
	}

	return nil, nil, false
}
''','''		cursor.slotIndex++
		cursor.itemIndex = 0
	}
}
''')]),
('eq-helper','',[r('''		slot := hm.loadSlot(hm.locateSlotAddr(cursor.slotIndex).Get(hm.fileStorage))
		slot.Bin = copyBytes(slot.Bin)
		cursor.items = unpackSlot(slot)
		cursor.slotIndex++

		if len''','''		hm.fill(cursor)
		if len'''),r('''// MaxNumberOfSlotDirs returns''','''func (hm *HashMap) fill(c *Cursor) {
		slot := hm.loadSlot(hm.locateSlotAddr(c.slotIndex).Get(hm.fileStorage))
		slot.Bin = copyBytes(slot.Bin)
		c.items = unpackSlot(slot)
		c.slotIndex++
}

// MaxNumberOfSlotDirs returns''')]),
('eq-nil','',[r('''	return nil, nil, false
}

// MaxNumber''','''	cursor.items, cursor.itemIndex = nil, 0
	return nil, nil, false
}

// MaxNumber''')]),
]
