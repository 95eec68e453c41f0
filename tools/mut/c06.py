B='bptree/bptree.go'; O='ordereddict.go'
M=[
('add-dup','C06',[(B,'''	if ok {
		return bpt.getValue(recordPath, returnPresentValue), false
	}

	bpt.insertRecord(recordPath, bpt.createRecord(key, value))
	return nil, true
}

// UpdateRecord''','''	if ok {
		bpt.replaceValue(recordPath, value, false)
		return bpt.getValue(recordPath, returnPresentValue), false
	}

	bpt.insertRecord(recordPath, bpt.createRecord(key, value))
	return nil, true
}

// UpdateRecord''')]),
('set-ret','C06',[(O,'''	value, _ = od.bpTree.AddOrUpdateRecord(key, value, returnReplacedValue)
	return value''','''	oldValue, ok := od.bpTree.AddOrUpdateRecord(key, value, returnReplacedValue)
	if !ok && oldValue == nil {
		return value
	}
	return oldValue''')]),
('swapkv','C06',[(O,'od.bpTree.UpdateRecord(key, value, returnReplacedValue)','od.bpTree.AddOrUpdateRecord(key, value, returnReplacedValue)')]),
('delret','C06',[(B,'return bpt.destroyRecord(bpt.removeRecord(recordPath), returnRemovedValue), true','return bpt.destroyRecord(bpt.removeRecord(recordPath), true), true')]),
('idx','C06',[(B,'''	leafController.SetValue(recordIndex, value)
	bpt.ensureNotUnderloadLeaf''','''	leafController.SetValue(recordPath[len(recordPath)-2+1].RecordOrNonLeafChildIndex/2*2, value)
	bpt.ensureNotUnderloadLeaf''')]),
('noval','C06',[(B,'''	value = valueFactory{bpt.fileStorage}.CreateValue(newValue)
''','''	if len(newValue) > 0 {
		value = valueFactory{bpt.fileStorage}.CreateValue(newValue)
	}
''')]),
('refac-early','',[(B,'''	recordPath, ok := bpt.findRecord(key)

	if !ok {
		return nil, false
	}

	return bpt.replaceValue(recordPath, value, returnReplacedValue), true''','''	if path, found := bpt.findRecord(key); found {
		old := bpt.replaceValue(path, value, returnReplacedValue)
		return old, true
	}

	return nil, false''')]),
('refac-empty','',[(B,'''	recordPath, ok := bpt.findRecord(key)

	if !ok {
		return nil, false
	}

	return bpt.getValue(recordPath, returnPresentValue), true''','''	if bpt.NumberOfRecords() < 1 {
		return nil, false
	}

	recordPath, ok := bpt.findRecord(key)

	if ok {
		return bpt.getValue(recordPath, returnPresentValue), true
	}

	return nil, false''')]),
]
