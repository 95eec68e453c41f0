import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
B='bptree/bptree.go'; K='bptree/key.go'; O='ordereddict.go'
s='(bpt *BPTree) search('; sf='(bpt *BPTree) SearchForward'; sb='(bpt *BPTree) SearchBackward'
one='return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, true'
none='return 0, 0, 0, 0, false'
M=[
('notail','C14',[m(B,s,'''			if minLeafAddr == bpt.leafList.TailAddr() {
				return 0, 0, 0, 0, false
			}

''','')]),
('head','C14',[m(B,s,'TailAddr()','HeadAddr()')]),
('prev','C14',[m(B,s,'NextAddr()','PrevAddr()')]),
('idx0','C14',[m(B,s,'			minRecordIndex = 0\n','			minRecordIndex--\n')]),
('idx0b','C14',[m(B,s,'			minRecordIndex = 0\n','')]),
('stale-ctl','C14',[m(B,s,'			minLeafController = bpt.getLeafController(minLeafAddr)\n','')]),
('no--','C14',[m(B,s,'	if !ok4 {\n		maxRecordIndex--\n	}\n','	_ = ok4\n')]),
('always--','C14',[m(B,s,'	if !ok4 {\n		maxRecordIndex--\n	}\n','	_ = ok4\n	maxRecordIndex--\n')]),
('d>=','C14',[m(B,s,'		if d > 0 {','		if d >= 0 {')]),
('d>1','C14',[m(B,s,('			if d > 0 {',0),'			if d > 1 {')]),
('d2>=','C14',[m(B,s,('			if d > 0 {',0),'			if d >= 0 {')]),
('d3>=','C14',[m(B,s,('		if d > 0 {',2),'		if d >= 0 {')]),
('d3<','C14',[m(B,s,('		if d > 0 {',2),'		if d < 0 {')]),
('eqend','',[m(B,s,'''			if d == 0 {
				'''+one+'''
			}
''','')]),
('rev','C14',[m(B,s,'''
		if d > 0 {
			return 0, 0, 0, 0, false
		}
	}

	minRecordPath''','''	}

	minRecordPath''')]),
('cmp','C14',[m(B,s,'bytes.Compare(minKey, maxKey)','bytes.Compare(maxKey, minKey)')]),
('cmp2','C14',[m(B,s,('bytes.Compare(minKey, maxKey)',1),'bytes.Compare(maxKey, minKey)')]),
('cmp3','C14',[m(B,s,('bytes.Compare(minKey, maxKey)',2),'bytes.Compare(maxKey, minKey)')]),
('f1-f2','C14',[m(B,s,'f1 == f2 || bpt.recordCount == 1','bpt.recordCount == 1')]),
('rc1','C14',[m(B,s,'f1 == f2 || bpt.recordCount == 1','f1 == f2')]),
('rc2','C14',[m(B,s,'bpt.recordCount == 1','bpt.recordCount <= 2')]),
('f1','',[m(B,s,'				if !f1 {\n					return 0, 0, 0, 0, false\n				}\n\n','')]),
('f1b','C14',[m(B,s,'if !f1 {','if f1 {')]),
('dzero','C14',[m(B,s,'''		} else {
			d = -1
		}
	} else {''','''		} else {
			d = 0
		}
	} else {''')]),
('empty','C14',[m(B,s,'bpt.recordCount == 0','bpt.recordCount < 0')]),
('empty1','C14',[m(B,s,'bpt.recordCount == 0','bpt.recordCount <= 1')]),
('d0ok3','C14',[m(B,s,'		if !ok3 {\n			return 0, 0, 0, 0, false\n		}\n\n		return','		return')]),
('c1','C14',[m(B,s,'!(!ok1 && ok3)','!(ok1 && ok3)')]),
('c1b','',[m(B,s,'!(!ok1 && ok3)','ok1 || !ok3')]),
('c1c','C14',[m(B,s,'!(!ok1 && ok3)','!ok1 && !ok3')]),
('c2','',[m(B,s,'!(!ok2 && ok4)','ok2 && ok4')]),
('c2b','',[m(B,s,'!(!ok2 && ok4)','true')]),
('c2c','',[m(B,s,'!(!ok2 && ok4)','ok2')]),
('c2d','C14',[m(B,s,'if !(!ok2 && ok4)','if !ok2 || !ok4')]),
('ok2','C14',[m(B,s,'		if !ok2 {\n			d = bytes','		if ok2 {\n			d = bytes')]),
('ok2b','C14',[m(B,s,'		if !ok2 {\n			d = bytes','		if !ok1 {\n			d = bytes')]),
('isMin','C14',[m(B,s,'f3 := isMaxKey(minKey)','f3 := false')]),
('isMin2','C14',[m(B,s,'f2 := isMinKey(maxKey)','f2 := isMinKey(minKey)')]),
('swapok','C14',[m(B,s,'maxRecordPath, ok4 := bpt.findRecord(maxKey)','maxRecordPath, ok4 := bpt.findRecord(minKey)')]),
('retA','C14',[m(B,s,'return minLeafAddr, minRecordIndex, maxLeafAddr, maxRecordIndex, true','return minLeafAddr, minRecordIndex, maxLeafAddr, minRecordIndex, true')]),
('retB','C14',[m(B,s,'return minLeafAddr, minRecordIndex, maxLeafAddr, maxRecordIndex, true','return minLeafAddr, 0, maxLeafAddr, maxRecordIndex, true')]),
('sf','C14',[m(B,sf,'		!ok,','		ok,')]),
('sf2','C14',[m(B,sf,'bpt.search(minKey, maxKey)','bpt.search(maxKey, minKey)')]),
('sb','C14',[m(B,sb,'''		maxLeafAddr,
		maxRecordIndex,
		minLeafAddr,
		minRecordIndex,
''','''		minLeafAddr,
		minRecordIndex,
		maxLeafAddr,
		maxRecordIndex,
''')]),
('sb2','C14',[m(B,sb,'''		maxRecordIndex,
		minLeafAddr,
		minRecordIndex,
''','''		minRecordIndex,
		minLeafAddr,
		maxRecordIndex,
''')]),
('ra','C14',[m(O,'(od *OrderedDict) RangeAsc','SearchForward(minKey, maxKey)','SearchBackward(minKey, maxKey)')]),
('rd','C14',[m(O,'(od *OrderedDict) RangeDesc','(minKey, maxKey)','(maxKey, minKey)') if 0 else m(O,'(od *OrderedDict) RangeDesc','SearchBackward(minKey, maxKey)','SearchBackward(maxKey, minKey)')]),
('ra2','C14',[m(O,'(od *OrderedDict) RangeAsc','SearchForward(minKey, maxKey)','SearchForward(minKey, minKey)')]),
('fr','C14',[m(B,'(bpt *BPTree) findRecord','			i--\n','')]),
('lc','C14',[m('bptree/leaf.go','(lc leafController) LocateRecord','return i, false','return i + 1, false')]),
('ismax','C14',[m(K,'isMaxKey','&MaxKey','&MinKey')]),
('ok-key','',[m(B,s,('	d = bytes.Compare(minKey, maxKey)\n\n		if d > 0 {\n			return 0, 0, 0, 0, false\n		}\n	}\n\n	return',0),'	if bytes.Compare(minKey, maxKey) > 0 {\n			return 0, 0, 0, 0, false\n		}\n	}\n\n	return')]),
('nextleaf-helper','',[m(B,s,'leafHeader(minLeafController).NextAddr()','leafHeader(bpt.getLeafController(minLeafAddr)).NextAddr()')]),
]
