import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
I='bptree/iterator.go'
fa='(fi *forwardIterator) Advance';ba='(bi *backwardIterator) Advance';pa='(i *iterator) preAdvance'
M=[
('f-n','C15',[m(I,fa,'leafController.NumberOfRecords()-1','leafController.NumberOfRecords()')]),
('f-n2','C15',[m(I,fa,'leafController.NumberOfRecords()-1','leafController.NumberOfRecords()-2')]),
('f-0','C15',[m(I,fa,'currentRecordIndex = 0','currentRecordIndex = 1')]),
('f-0b','C15',[m(I,fa,'			fi.currentRecordIndex = 0\n','')]),
('f-prev','C15',[m(I,fa,'NextAddr','PrevAddr')]),
('f-two','C15',[m(I,fa,'fi.currentRecordIndex++','fi.currentRecordIndex += 2')]),
('f-ok','',[m(I,fa,'		if fi.currentRecordIndex < leafController.NumberOfRecords()-1 {\n			fi.currentRecordIndex++\n		} else {\n','		fi.currentRecordIndex++\n		if fi.currentRecordIndex == leafController.NumberOfRecords() {\n')]),
('f-self','C15',[m(I,fa,'	return fi\n','	it := *fi\n	return &it\n')]),
('f-end','C15',[m(I,fa,'!fi.isAtEnd','true')]),
('b-1','C15',[m(I,ba,'>= 1','>= 2')]),
('b-0','C15',[m(I,ba,'>= 1','>= 0')]),
('b-c','C15',[m(I,ba,'			leafController = bi.makeCurrentLeafController()\n','')]),
('b-n','C15',[m(I,ba,'NumberOfRecords() - 1','NumberOfRecords()')]),
('b-next','C15',[m(I,ba,'PrevAddr','NextAddr')]),
('b-ok','',[m(I,ba,'bi.currentRecordIndex >= 1','bi.currentRecordIndex != 0')]),
('p-or','C15',[m(I,pa,'&&','||')]),
('p-idx','C15',[m(I,pa,'i.currentRecordIndex == i.lastRecordIndex','i.currentRecordIndex >= i.lastRecordIndex')]),
('p-leaf','C15',[m(I,pa,'i.currentLeafAddr == i.lastLeafAddr && ','')]),
('p-idx0','C15',[m(I,pa,'&& i.currentRecordIndex == i.lastRecordIndex','')]),
('p-keep-ok','',[m(I,pa,'*i = iterator{isAtEnd: true}','i.isAtEnd = true')]),
('p-none','C15',[m(I,pa,'*i = iterator{isAtEnd: true}','*i = iterator{}')]),
('k-size','C15',[m(I,'(i *iterator) GetKeySize','keyFactory{i.fileStorage}.GetRawKeySize(key)','len(key)')]),
('k-size2','C15',[m(I,'(i *iterator) GetKeySize','GetKey(i.currentRecordIndex)','GetKey(i.lastRecordIndex)')]),
('k-off','C15',[m(I,'(i *iterator) ReadKey(','(key, dataOffset, buffer)','(key, 0, buffer)')]),
('k-off2','C15',[m(I,'(i *iterator) ReadValue(','(value, dataOffset, buffer)','(value, dataOffset, buffer[:len(buffer):len(buffer)])[0:0:0]') if 0 else m(I,'(i *iterator) ReadValue(','(value, dataOffset, buffer)','(value, dataOffset, buffer[:cap(buffer)])')]),
('v-key','C15',[m(I,'(i *iterator) GetValueSize','value := leafController.GetValue(','value := leafController.GetKey(')]),
('r-swap','C15',[m(I,'(i *iterator) ReadRecordAll','return keyFactory{i.fileStorage}.ReadKeyAll(key), valueFactory{i.fileStorage}.ReadValueAll(value), nil','return keyFactory{i.fileStorage}.ReadKeyAll(key), keyFactory{i.fileStorage}.ReadKeyAll(value), nil')]),
('r-err','C15',[m(I,'(i *iterator) ReadRecordAll','return nil, nil, errEndOfIteration','return nil, nil, nil')]),
('r-end','C15',[m(I,'(i *iterator) ReadValueAll','	if i.isAtEnd {\n		return nil, errEndOfIteration\n	}\n','')]),
('r-end2','C15',[m(I,'(i *iterator) ReadValue(','	if i.isAtEnd {\n','	if i.isAtEnd && len(buffer) > 0 {\n')]),
('r-zero','C15',[m(I,'(i *iterator) GetKeySize','return 0, errEnd','return -1, errEnd')]),
('e-const-ok','',[(I,'	isAtEnd            bool\n','	isAtEnd            bool\n	steps int\n'),m(I,pa,'	if i.cur','	i.steps += 2\n	if i.cur')]),
('ren-ok','',[m(I,fa,'		leafController := fi.makeCurrentLeafController()\n','		leafController := leafFactory{fi.fileStorage}.GetLeafController(fi.currentLeafAddr)\n')]),
]
