import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
K='bptree/key.go';L='bptree/leaf.go';N='bptree/nonleaf.go'
lr='(lc leafController) LocateRecord';nc='(nlc nonLeafController) LocateChild'
LOOP_L='''	i, j := 0, n-1

	for i < j {
		k := (i + j) / 2
		// i <= k < j

		if keyComparer.CompareKey(lc.GetKey(k), key) < 0 {
			i = k + 1
			// i <= j
		} else {
			j = k
			// j >= i
		}
	}
	// i == j

	d := keyComparer.CompareKey(lc.GetKey(i), key)

	if d == 0 {
		return i, true
	}

	if d < 0 && i == n-1 {
		i = n
	}

	return i, false
'''
LOOP_N=LOOP_L.replace('i, j := 0, n-1','i, j := 1 /* skip the first child whose key is dummy */, n-1').replace('lc.GetKey','nlc.GetKey')
def L_(new): return [m(L,lr,LOOP_L,new)]
def N_(new): return [m(N,nc,LOOP_N,new)]
half='''	i, j := FIRST, n
	for i < j {
		k := int(uint(i+j) >> 1)
		if keyComparer.CompareKey(lc.GetKey(k), key) < 0 {
			i = k + 1
		} else {
			j = k
		}
	}
	if i < n && keyComparer.CompareKey(lc.GetKey(i), key) == 0 {
		return i, true
	}
	return i, false
'''
three='''	i, j := 0, n-1
	for i <= j {
		k := i + (j-i)/2
		d := keyComparer.CompareKey(lc.GetKey(k), key)
		if d == 0 {
			return k, true
		}
		if d < 0 {
			i = k + 1
		} else {
			j = k - 1
		}
	}
	return i, false
'''
lin='''	for i := 0; i < n; i++ {
		if d := keyComparer.CompareKey(lc.GetKey(i), key); d >= 0 {
			return i, d == 0
		}
	}
	return n, false
'''
linb='''	i := n
	for i > 0 {
		d := keyComparer.CompareKey(lc.GetKey(i-1), key)
		if d == 0 {
			return i - 1, true
		}
		if d < 0 {
			break
		}
		i--
	}
	return i, false
'''
lenf='''	i, c := 0, n
	for c > 0 {
		h := c / 2
		if keyComparer.CompareKey(lc.GetKey(i+h), key) < 0 {
			i += h + 1
			c -= h + 1
		} else {
			c = h
		}
	}
	return i, i < n && keyComparer.CompareKey(lc.GetKey(i), key) == 0
'''
upper='''	i, j := 0, n
	for i < j {
		k := (i + j) / 2
		if keyComparer.CompareKey(lc.GetKey(k), key) <= 0 {
			i = k + 1
		} else {
			j = k
		}
	}
	if i > 0 && keyComparer.CompareKey(lc.GetKey(i-1), key) == 0 {
		return i - 1, true
	}
	return i, false
'''
fast='''	if keyComparer.CompareKey(lc.GetKey(n-1), key) < 0 {
		return n, false
	}
'''+LOOP_L
M=[
('half-ok','',L_(half.replace('FIRST','0'))),
('three-ok','',L_(three)),
('lin-ok','',L_(lin)),
('linb-ok','',L_(linb)),
('len-ok','',L_(lenf)),
('upper-ok','',L_(upper)),
('fast-ok','',L_(fast)),
('nhalf-ok','',N_(half.replace('FIRST','1').replace('lc.','nlc.'))),
('half1','C16',L_(half.replace('FIRST','1'))),
('half-n','C16',L_(half.replace('FIRST','0').replace(', n\n',', n-1\n'))),
('half-le','C16',L_(half.replace('FIRST','0').replace('key) < 0','key) <= 0'))),
('three-lt','C16',L_(three.replace('i <= j','i < j'))),
('three-k','C16',L_(three.replace('j = k - 1','j = k - 2'))),
('lin-1','C16',L_(lin.replace('i := 0','i := 1'))),
('lin-n','C16',L_(lin.replace('i < n;','i < n-1;'))),
('linb-1','C16',L_(linb.replace('i > 0','i > 1'))),
('len-h','C16',L_(lenf.replace('c -= h + 1','c -= h + 2'))),
('upper-r','C16',L_(upper.replace('return i - 1, true','return i, true'))),
('upper-1','C16',L_(upper.replace('i > 0 &&','i > 1 &&'))),
('fast-le','C16',L_(fast.replace('key) < 0 {\n		return n,','key) <= 0 {\n		return n,'))),
('l-last','C16',[m(L,lr,'d < 0 && i == n-1','d < 0 && i == n')]),
('l-last2','C16',[m(L,lr,'		i = n\n','		i = n - 1\n')]),
('l-last3','',[m(L,lr,'d < 0 && i == n-1','d < 0')]),
('l-j','C16',[m(L,lr,'j := 0, n-1','j := 0, n-2')]),
('l-i','C16',[m(L,lr,'j := 0, n-1','j := 1, n-1')]),
('l-k','C16',[m(L,lr,'			j = k\n','			j = k - 1\n')]),
('l-k2','C16',[m(L,lr,'i = k + 1','i = k + 2')]),
('l-le','C16',[m(L,lr,'key) < 0 {','key) <= 0 {')]),
('l-gt','C16',[m(L,lr,'key) < 0 {','key) > 0 {')]),
('l-d','C16',[m(L,lr,'d == 0','d >= 0')]),
('l-big','C16',[m(L,lr,'for i < j {','if n > 128 {\n		j = 127\n	}\n	for i < j {')]),
('l-min','C16',[m(L,lr,'return 0, true','return 0, false')]),
('l-max','C16',[m(L,lr,'return n - 1, true','return n, true')]),
('n-0-ok','',[m(N,nc,'j := 1 /','j := 0 /')]),
('n-2','C16',[m(N,nc,'j := 1 /','j := 2 /')]),
('n-last','C16',[m(N,nc,'d < 0 && i == n-1','d < 0 && i == n')]),
('n-last2','C16',[m(N,nc,'	if d < 0 && i == n-1 {\n		i = n\n	}\n','')]),
('n-max','C16',[m(N,nc,'	if isMaxKey(key) {\n		return n - 1, true\n	}\n','')]),
('n-d','C16',[m(N,nc,'	if d == 0 {\n		return i, true\n	}\n','	if d == 0 && i < n-1 {\n		return i, true\n	}\n')]),
('s-len','C16',[(K,'MinKey = []byte("MIN_KEY")','MinKey = []byte("")')]),
('s-same','C16',[(K,'MaxKey = []byte("MAX_KEY")','MaxKey = MinKey')]),
('s-eq','C16',[m(K,'isMaxKey(','	return unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&rawKey)).Data) ==\n		unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&MaxKey)).Data)\n','	return (unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&rawKey)).Data) == unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&MaxKey)).Data)) || string(rawKey) == string(MaxKey)\n')]),
('s-eq2','C16',[m(K,'isMinKey(','	return unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&rawKey)).Data) ==\n		unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&MinKey)).Data)\n','	return string(rawKey) == string(MinKey)\n')]),
('s-len2-ok','',[m(K,'isMinKey(','unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&rawKey)).Data) ==\n		unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&MinKey)).Data)\n','len(rawKey) >= 1 && &rawKey[0] == &MinKey[0]\n')]),
('s-root','C16',[('ordereddict.go','MaxKey = bptree.MaxKey','MaxKey = append([]byte(nil), bptree.MaxKey...)')]),
]
