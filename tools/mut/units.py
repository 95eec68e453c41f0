B='bptree/bptree.go';L='bptree/leaf.go';N='bptree/nonleaf.go';LL='bptree/leaflist.go'
_t={}
def src(f):
    if f not in _t: _t[f]=open('/repo/'+f).read()
    return _t[f]
def fn(f,head):
    s=src(f); i=s.index('\nfunc '+head)+1; j=s.index('\n}\n',i)+3
    return s[i:j]
def m(f,head,*reps):
    b=fn(f,head); n=b
    for o,x in zip(reps[::2],reps[1::2]):
        k=0
        if isinstance(o,tuple): o,k=o
        p=-1
        for _ in range(k+1):
            p=n.find(o,p+1)
            assert p>=0,(head,o)
        n=n[:p]+x+n[p+len(o):]
    return (f,b,n)
OL='(bpt *BPTree) ensureNotOverloadLeaf(';ON='(bpt *BPTree) ensureNotOverloadNonLeaf(';UL='(bpt *BPTree) ensureNotUnderloadLeaf(';UN='(bpt *BPTree) ensureNotUnderloadNonLeaf('
IH='(bpt *BPTree) increaseHeight';DH='(bpt *BPTree) decreaseHeight'
lc='(lc leafController) ';nl='(nlc nonLeafController) '
M=[
# conservation (C22)
('lsplit-idx','C22',[m(L,lc+'Split(','parent.InsertChildren(index+1','parent.InsertChildren(index')]),
('lsplit-key','C22',[m(L,lc+'Split(','records[0].Key','records[len(records)-1].Key')]),
('lsplit-rm','C22',[m(L,lc+'Split(','lc.RemoveRecords(lc.NumberOfRecords()-numberOfRecords, numberOfRecords)','lc.RemoveRecords(0, numberOfRecords)')]),
('lmerge-pos','C22',[m(L,lc+'MergeFromRight(','lc.InsertRecords(lc.NumberOfRecords(), records)','lc.InsertRecords(0, records)')]),
('lmerge-rm','C22',[m(L,lc+'MergeFromRight(','parent.RemoveChildren(index+1, 1)','parent.RemoveChildren(index, 1)')]),
('lmerge-lose','C22',[m(L,lc+'MergeFromRight(','rightSibling.NumberOfRecords())','rightSibling.NumberOfRecords()-1)')]),
('lml-idx','C22',[m(L,lc+'MergeToLeft(','index-1','index')]),
('lsl-key','C22',[m(L,lc+'ShiftToLeft(','lc.GetKey(0)','records[0].Key')]),
('lsl-order','C22',[m(L,lc+'ShiftToLeft(','	parent.SetKey(index, lc.GetKey(0))\n','',' records := lc.RemoveRecords(0, numberOfRecords)'.strip(),'parent.SetKey(index, lc.GetKey(0))\n	records := lc.RemoveRecords(0, numberOfRecords)')]),
('lsl-idx','C22',[m(L,lc+'ShiftToLeft(','parent.SetKey(index,','parent.SetKey(index+1,')]),
('lsl-pos','C22',[m(L,lc+'ShiftToLeft(','leftSibling.NumberOfRecords(), records','0, records')]),
('lsr-key','C22',[m(L,lc+'ShiftToRight(','records[0].Key','rightSibling.GetKey(0)')]),
('lsr-nokey','C22',[m(L,lc+'ShiftToRight(','	parent.SetKey(index+1, records[0].Key)\n','')]),
('lufl','C22',[m(L,lc+'UnshiftFromLeft(','index-1','index')]),
('lufr','C22',[m(L,lc+'UnshiftFromRight(','index+1','index')]),
('nsplit-keepkey','C22',[m(N,nl+'Split(','	children[0].Key = nil\n','')]),
('nsplit-key','C22',[m(N,nl+'Split(','{{key, newSiblingAddr}}','{{nlc.GetKey(nlc.NumberOfChildren()-1), newSiblingAddr}}','	key := children[0].Key\n','')]),
('nmerge-key','C22',[m(N,nl+'MergeFromRight(','	children[0].Key = key\n','	_ = key\n')]),
('nsl-nokey','C22',[m(N,nl+'ShiftToLeft(','	nlc.SetKey(0, nil)\n','')]),
('nsl-alias','C22',[m(N,nl+'ShiftToLeft(','copyBytes(parent.GetKey(index))','parent.GetKey(index)')]),
('nsl-key','C22',[m(N,nl+'ShiftToLeft(','	children[0].Key = copyBytes(parent.GetKey(index))\n','')]),
('nsr-swap','C22',[m(N,nl+'ShiftToRight(','	rightSibling.SetKey(0, parent.GetKey(index+1))\n	parent.SetKey(index+1, children[0].Key)\n','	parent.SetKey(index+1, children[0].Key)\n	rightSibling.SetKey(0, parent.GetKey(index+1))\n')]),
('nsr-order','C22',[m(N,nl+'ShiftToRight(','	rightSibling.SetKey(0, parent.GetKey(index+1))\n','','	rightSibling.InsertChildren(0, children)\n','	rightSibling.InsertChildren(0, children)\n	rightSibling.SetKey(0, parent.GetKey(index+1))\n')]),
('nsr-keep','C22',[m(N,nl+'ShiftToRight(','	children[0].Key = nil\n','')]),
# the path
('ol-path-noaddr','C12',[m(B,OL,'			(*recordPath)[i].NodeAddr = leafRSiblingAddr\n			','				')]),
('ol-path-gt','C12',[m(B,OL,'if recordIndex >= m {','if recordIndex > m {')]),
('ol-path-gt2','C12',[m(B,OL,('if recordIndex >= m {',1),'if recordIndex > m {')]),
('ol-path-m','C12',[m(B,OL,'m + recordIndex','recordIndex + numberOfRecords')]),
('ol-path-up','C12',[m(B,OL,'				(*recordPath)[i-1].RecordOrNonLeafChildIndex = leafIndex - 1\n','')]),
('ol-m-late','C12',[m(B,OL,'			m := leafLSiblingController.NumberOfRecords()\n','','			leafController1.ShiftToLeft(numberOfRecords, leafParentController, leafIndex, leafLSiblingController)\n','			leafController1.ShiftToLeft(numberOfRecords, leafParentController, leafIndex, leafLSiblingController)\n			m := leafLSiblingController.NumberOfRecords()\n')]),
('ol-root-noshift','C12',[m(B,OL,'		copy((*recordPath)[1:], (*recordPath)[0:])\n','')]),
('on-root-idx','C12',[m(B,ON,'recordPathComponent{bpt.rootAddr, 0}','recordPathComponent{bpt.rootAddr, nonLeafChildIndex}')]),
('on-root-i','C12',[m(B,ON,'		i = 1\n','		i = i + 0\n')]),
('ul-path','C12',[m(B,UL,'numberOfRecords + recordIndex','recordIndex')]),
('ul-merge-path','C12',[m(B,UL,'		(*recordPath)[i-1].RecordOrNonLeafChildIndex = leafIndex - 1\n','')]),
('un-merge-path','C12',[m(B,UN,'		(*recordPath)[i].NodeAddr = nonLeafLSiblingAddr\n','')]),
('un-merge-m','C12',[m(B,UN,'		m := nonLeafLSiblingController.NumberOfChildren()\n','','		nonLeafController1.MergeToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)\n','		nonLeafController1.MergeToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)\n		m := nonLeafLSiblingController.NumberOfChildren()\n')]),
('un-root-path','C12',[m(B,UN,'			copy((*recordPath)[0:], (*recordPath)[1:])\n			*recordPath = (*recordPath)[:len(*recordPath)-1]\n','			*recordPath = (*recordPath)[:len(*recordPath)-1]\n')]),
# follow ups
('ol-nofollow','C12',[m(B,OL,'			bpt.ensureNonLeafBalanced(recordPath, i-1)\n','')]),
('ol-split-nofollow','C12',[m(B,OL,'	bpt.ensureNotOverloadNonLeaf(recordPath, i-1)\n','')]),
('ol-split-wrong','C12',[m(B,OL,'	bpt.ensureNotOverloadNonLeaf(recordPath, i-1)\n','	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)\n')]),
('on-follow-level','C12',[m(B,ON,'	bpt.ensureNotOverloadNonLeaf(recordPath, i-1)\n','	bpt.ensureNotOverloadNonLeaf(recordPath, i)\n')]),
('un-nofollow','C12',[m(B,UN,'	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)\n','	if i > 1 {\n		bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)\n	}\n')]),
('ul-shift-follow','C12',[m(B,UL,('			bpt.ensureNonLeafBalanced(recordPath, i-1)\n',1),'			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)\n')]),
# height and roots
('dh-child','C12',[m(B,DH,'GetChildAddr(0)','GetChildAddr(rootController.NumberOfChildren()-1)'),m(B,UN,'NumberOfChildren() == 1','NumberOfChildren() <= 2')]),
('un-root-two','C12',[m(B,UN,'NumberOfChildren() == 1','NumberOfChildren() <= 2')]),
('ih-order','C12',[m(B,IH,'	rootController.InsertChildren(0, []nonLeafChild{{nil, bpt.rootAddr}})\n	bpt.rootAddr = rootAddr\n','	bpt.rootAddr = rootAddr\n	rootController.InsertChildren(0, []nonLeafChild{{nil, bpt.rootAddr}})\n')]),
# counts and thresholds
('cnt-l-first','C12',[m(L,lc+'CountRecordsForShiftingToLeft(','loadSize2+recordSize > leafOverloadThreshold','loadSize2 > leafOverloadThreshold')]),
('cnt-l-under','C12',[m(L,lc+'CountRecordsForShiftingToRight(','loadSize1-recordSize < leafUnderloadThreshold','loadSize1 < leafUnderloadThreshold')]),
('cnt-l-ret','C12',[m(L,lc+'CountRecordsForShiftingToRight(','	if loadSize1 > leafOverloadThreshold || loadSize2 < leafUnderloadThreshold {\n		return 0\n	}\n\n','')]),
('cnt-l-ret2','C12',[m(L,lc+'CountRecordsForShiftingToLeft(','loadSize1 > leafOverloadThreshold || ','')]),
('cnt-l-end','C12',[m(L,lc+'CountRecordsForShiftingToRight(','i := lc.NumberOfRecords() - 1; ; i--','i := 0; ; i++')]),
('cnt-n-sep','C12',[m(N,nl+'CountChildrenForShiftingToLeft(','		separatorSize = keySize\n','')]),
('cnt-n-sep2','C12',[m(N,nl+'CountChildrenForShiftingToRight(','parent.GetKey(index + 1)','parent.GetKey(index)')]),
('cnt-n-i','C12',[m(N,nl+'CountChildrenForShiftingToLeft(','i := 1; ;','i := 0; ;')]),
('cnt-uf','C12',[m(N,nl+'CountChildrenForUnshiftingFromLeft(','index-1','index')]),
('over-const','C12',[(L,'const leafOverloadThreshold','const leafOverloadThresholdOld')] if 0 else [m(B,OL,'<= leafOverloadThreshold','<= leafOverloadThreshold+maxKeySize')]),
('under-const','C12',[m(B,UN,'>= nonLeafUnderloadThreshold','>= nonLeafUnderloadThreshold/4')]),
# chain
('ll-ins-next','C11',[m(LL,'(ll *leafList) InsertLeafAfter','	leafNextHeader.SetPrevAddr(leafAddr)\n','')]),
('ll-ins-tail','C11',[m(LL,'(ll *leafList) InsertLeafAfter','if leafPrevAddr == ll.tailAddr','if leafNextAddr == ll.tailAddr')]),
('ll-ins-order','C11',[m(LL,'(ll *leafList) InsertLeafAfter','	leafNextAddr := leafPrevHeader.NextAddr()\n	leafNextHeader','	leafPrevHeader.SetNextAddr(leafAddr)\n	leafNextAddr := leafPrevHeader.NextAddr()\n	leafNextHeader')]),
('ll-rm-head','C11',[m(LL,'(ll *leafList) RemoveLeaf','ll.headAddr = leafNextAddr','ll.headAddr = leafPrevAddr')]),
('ll-rm-tail','C11',[m(LL,'(ll *leafList) RemoveLeaf','	} else if leafAddr == ll.tailAddr {\n		ll.tailAddr = leafPrevAddr\n','')]),
('ll-rm-prev','C11',[m(LL,'(ll *leafList) RemoveLeaf','	leafNextHeader.SetPrevAddr(leafPrevAddr)\n','')]),
('ul-rm-which','C11',[m(B,UL,'bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)','bpt.leafList.RemoveLeaf(bpt.fileStorage, leafAddr)')]),
('ol-ins-which','C11',[m(B,OL,'InsertLeafAfter(bpt.fileStorage, leafNSiblingAddr, leafAddr)','InsertLeafAfter(bpt.fileStorage, leafNSiblingAddr, bpt.leafList.TailAddr())')]),
('ul-rm-late','C11',[m(B,UL,'		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n','','		bpt.destroyLeaf(leafRSiblingAddr)\n','		bpt.destroyLeaf(leafRSiblingAddr)\n		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n')]),
# sync
('sync-stop','C12',[m(B,'(bpt *BPTree) syncKey','> 0','>= 0')] if '> 0' in fn(B,'(bpt *BPTree) syncKey') else [m(B,OL,'recordIndex >= m','recordIndex > m')]),
# keeps
('k-ll-vars','',[m(LL,'(ll *leafList) InsertLeafAfter','	leafHeader1.SetPrevAddr(leafPrevAddr)\n	leafPrevHeader.SetNextAddr(leafAddr)\n	leafHeader1.SetNextAddr(leafNextAddr)\n','	leafHeader1.SetNextAddr(leafNextAddr)\n	leafHeader1.SetPrevAddr(leafPrevAddr)\n	leafPrevHeader.SetNextAddr(leafAddr)\n')]),
('k-rm-last','',[m(B,UL,'		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n		leafController1.MergeFromRight(leafParentController, leafIndex, leafRSiblingController)\n','		leafController1.MergeFromRight(leafParentController, leafIndex, leafRSiblingController)\n		bpt.leafList.RemoveLeaf(bpt.fileStorage, leafRSiblingAddr)\n')]),
('k-lsplit','',[m(L,lc+'Split(','	newSibling.InsertRecords(0, records)\n	parent.InsertChildren(index+1, []nonLeafChild{{records[0].Key, newSiblingAddr}})\n','	first := records[0].Key\n	parent.InsertChildren(index+1, []nonLeafChild{{Key: first, Addr: newSiblingAddr}})\n	newSibling.InsertRecords(newSibling.NumberOfRecords(), records)\n')]),
('k-cnt-helper','',[(L,fn(L,lc+'CountRecordsForShiftingToLeft('),fn(L,lc+'CountRecordsForShiftingToLeft(').replace('recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))','lc.recordSize(i)')+'\nfunc (lc leafController) recordSize(i int) int {\n	return recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))\n}\n'),m(L,lc+'CountRecordsForShiftingToRight(','recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))','lc.recordSize(i)')]),
('k-cnt-for','',[m(L,lc+'CountRecordsForShiftingToRight(','	for i := lc.NumberOfRecords() - 1; ; i-- {','	i := lc.NumberOfRecords()\n	for {\n		i--')]),
('k-cnt-cond','',[m(L,lc+'CountRecordsForShiftingToLeft(','		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {\n			break\n		}\n','		if loadSize1-recordSize < leafUnderloadThreshold {\n			break\n		}\n\n		if loadSize2+recordSize > leafOverloadThreshold {\n			break\n		}\n')]),
('k-path-helper','',[(B,fn(B,OL),fn(B,OL).replace('''			// >>> fix record path begin
				(*recordPath)[i].NodeAddr = leafRSiblingAddr
				(*recordPath)[i].RecordOrNonLeafChildIndex = recordIndex - m
				(*recordPath)[i-1].RecordOrNonLeafChildIndex = leafIndex + 1
''','''			recordPath.moveTo(i, leafRSiblingAddr, recordIndex-m, leafIndex+1)
''')+'''
func (rp recordPath) moveTo(i int, addr int64, index int, parentIndex int) {
	rp[i] = recordPathComponent{addr, index}
	rp[i-1].RecordOrNonLeafChildIndex = parentIndex
}
''')]),
('k-grow-helper','',[m(B,OL,'''		*recordPath = append(*recordPath, recordPathComponent{})
		copy((*recordPath)[1:], (*recordPath)[0:])
		(*recordPath)[0] = recordPathComponent{bpt.rootAddr, 0}
''','''		bpt.pushRoot(recordPath)
'''),(B,fn(B,ON),fn(B,ON).replace('''		*recordPath = append(*recordPath, recordPathComponent{})
		copy((*recordPath)[1:], (*recordPath)[0:])
		(*recordPath)[0] = recordPathComponent{bpt.rootAddr, 0}
''','''		bpt.pushRoot(recordPath)
''')+'''
func (bpt *BPTree) pushRoot(recordPath *recordPath) {
	*recordPath = append(*recordPath, recordPathComponent{})
	copy((*recordPath)[1:], (*recordPath)[0:])
	(*recordPath)[0] = recordPathComponent{bpt.rootAddr, 0}
}
''')]),
('k-grow-append','',[m(B,OL,'''		*recordPath = append(*recordPath, recordPathComponent{})
		copy((*recordPath)[1:], (*recordPath)[0:])
		(*recordPath)[0] = recordPathComponent{bpt.rootAddr, 0}
''','''		*recordPath = append([]recordPathComponent{{bpt.rootAddr, 0}}, *recordPath...)
''')]),
('k-shrink','',[m(B,UN,'''			copy((*recordPath)[0:], (*recordPath)[1:])
			*recordPath = (*recordPath)[:len(*recordPath)-1]
''','''			*recordPath = (*recordPath)[1:]
''')]),
('k-split-fn','',[(B,fn(B,OL),fn(B,OL).replace('''	numberOfRecords := leafController1.CountRecordsForSpliting()
''','''	bpt.splitLeaf(recordPath, i)
}

func (bpt *BPTree) splitLeaf(recordPath *recordPath, i int) {
	leafAddr := (*recordPath)[i].NodeAddr
	recordIndex := (*recordPath)[i].RecordOrNonLeafChildIndex
	leafController1 := bpt.getLeafController(leafAddr)
	leafParentAddr := (*recordPath)[i-1].NodeAddr
	leafIndex := (*recordPath)[i-1].RecordOrNonLeafChildIndex
	numberOfRecords := leafController1.CountRecordsForSpliting()
''').replace('''	leafParentController = bpt.getNonLeafController(leafParentAddr)
	// <<<''','''	leafParentController := bpt.getNonLeafController(leafParentAddr)
	// <<<'''))]),
('k-inline-bal','',[m(B,UL,'			bpt.ensureNonLeafBalanced(recordPath, i-1)\n','''			h := len(*recordPath) - (i - 1)
			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
			if j := len(*recordPath) - h; j >= 0 {
				bpt.ensureNotOverloadNonLeaf(recordPath, j)
			}
''')]),
('k-under-order','',[m(B,UL,'	if leafController1.GetLoadSize() >= leafUnderloadThreshold {\n		return\n	}\n','	if load := leafController1.GetLoadSize(); load >= leafUnderloadThreshold || load > leafOverloadThreshold {\n		return\n	}\n')]),
('k-merge-else','',[m(B,UL,'	if leafRSiblingAddr >= 0 {','	hasRight := leafRSiblingAddr >= 0\n	if hasRight {')]),
('k-tail-switch','',[m(LL,'(ll *leafList) RemoveLeaf','''	if leafAddr == ll.headAddr {
		ll.headAddr = leafNextAddr
	} else if leafAddr == ll.tailAddr {
		ll.tailAddr = leafPrevAddr
	}
''','''	switch leafAddr {
	case ll.headAddr:
		ll.headAddr = leafNextAddr
	case ll.tailAddr:
		ll.tailAddr = leafPrevAddr
	}
''')]),
('k-ih','',[m(B,IH,'	rootController.InsertChildren(0, []nonLeafChild{{nil, bpt.rootAddr}})\n	bpt.rootAddr = rootAddr\n','	child := nonLeafChild{Addr: bpt.rootAddr}\n	bpt.rootAddr = rootAddr\n	rootController.InsertChildren(0, []nonLeafChild{child})\n')]),
]
