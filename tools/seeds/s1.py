H='hashmap/hashmap.go'; B='bptree/bptree.go'; K='bptree/key.go'; V='bptree/value.go'
SEEDS=[
dict(id='S01',prop='C01',pkg='bptree',edits=[(B,"""	value = valueFactory{bpt.fileStorage}.CreateValue(newValue)
	leafController = bpt.getLeafController(leafAddr)
	leafController.SetValue(recordIndex, value)
""","""	_ = leafAddr
	value = valueFactory{bpt.fileStorage}.CreateValue(newValue)
	leafController.SetValue(recordIndex, value)
""")],needs='replacing a value by a long one at the moment when its overflow makes the file grow',breaks='the new value is written to the page through a mapping that is gone'),
dict(id='S02',prop='C02',pkg='hashmap',edits=[(H,'''	item := &items.Value[i]
	value := copyBytes(item.Value)
	return value
''','''	return items.Value[i].Value
''')],needs='a later write to the same place of the file, or Close, after reading a present value',breaks='the value returned by HasItem/AddItem aliases the mapped file'),
dict(id='S03',prop='C02',pkg='hashmap',edits=[(H,'''		slot.Bin = copyBytes(slot.Bin)
		cursor.items = unpackSlot(slot)
''','''		cursor.items = unpackSlot(slot)
''')],needs='items modified between two calls of a scan, or bytes of a scan used after the dictionary changed',breaks='keys and values returned by a scan alias the mapped file',),
dict(id='S04',prop='C03',pkg='bptree',edits=[(B,"""	keySize := keyFactory{bpt.fileStorage}.DestroyKey(record.Key)
	var value []byte
""","""	keySize := keyFactory{bpt.fileStorage}.DestroyKey(record.Key)
	var value []byte

"""),(B,"""	bpt.payloadSize += len(newValue) - oldValueSize
	return oldValue
""","""	bpt.payloadSize += len(newValue) - oldValueSize

	if returnOldValue && cap(newValue) >= oldValueSize {
		// reuse the memory of the new value
		oldValue = append(newValue[:0], oldValue...)
	}

	return oldValue
""")],needs='asking for the replaced value when the buffer of the new one has enough capacity',breaks='the value passed in is overwritten with the replaced value'),
]
