import sys; sys.path.insert(0,'/verif/tools/mut')
from h import *
F='bptree/fprint.go'; d='(bpt *BPTree) doFprint'; f='(bpt *BPTree) Fprint'
err='''			if err != nil {
				return err
			}
'''
M=[
('i1','C23',[m(F,d,'i := 0; i < n','i := 1; i < n')]),
('n-1','C23',[m(F,d,'i := 0; i < n','i := 0; i < n-1')]),
('noerr','C23',[m(F,d,err,'			_ = err\n')]),
('err-late','C23',[m(F,d,err,'			if err != nil && i > 0 {\n				return err\n			}\n')]),
('err-break','C23',[m(F,d,err,'			if err != nil {\n				break\n			}\n')]),
('err-nil','C23',[m(F,d,err,'			if err != nil {\n				return nil\n			}\n')]),
('kv','C23',[m(F,d,'└─● %q=%q", newLine, key, value','└─● %q=%q", newLine, value, key')]),
('kk','C23',[m(F,d,'├─● %q=%q", newLine, key, value','├─● %q=%q", newLine, key, key')]),
('verb','C23',[m(F,d,'%s──● %q=%q','%s──● %q=%d')]),
('val0','C23',[m(F,d,'leafController.GetValue(i)','leafController.GetValue(0)')]),
('key0','C23',[m(F,d,'leafController.GetKey(i)','leafController.GetKey(n-1-i)')]),
('n==1','C23',[m(F,d,'''				if n == 1 {
					_, err = fmt.Fprintf(writer, "%s──● %q=%q", prefix, key, value)
				} else {
''','''				if n > 1 {
''')]),
('child0','C23',[m(F,d,'''		if err := bpt.doFprint(writer, nonLeafController.GetChildAddr(0), nodeDepth+1, prefix+"┬─", newLine+"│ "); err != nil {
			return err
		}
''','')]),
('child0err','C23',[m(F,d,'''		if err := bpt.doFprint(writer, nonLeafController.GetChildAddr(0), nodeDepth+1, prefix+"┬─", newLine+"│ "); err != nil {
			return err
		}
''','''		bpt.doFprint(writer, nonLeafController.GetChildAddr(0), nodeDepth+1, prefix+"┬─", newLine+"│ ")
''')]),
('child1','C23',[m(F,d,'GetChildAddr(0)','GetChildAddr(1)')]),
('i=1','C23',[m(F,d,'i := 1; i < n','i := 2; i < n')]),
('in-1','C23',[m(F,d,'i := 1; i < n','i := 1; i < n-1')]),
('sep','C23',[m(F,d,'nonLeafController.GetKey(i)','nonLeafController.GetKey(i-1)')]),
('gc','C23',[m(F,d,'GetChildAddr(i)','GetChildAddr(i-1)')]),
('depth','C23',[m(F,d,('nodeDepth+1',1),'nodeDepth')]),
('depth2','C23',[m(F,d,('nodeDepth+1',1),'nodeDepth+2')]),
('seperr','C23',[m(F,d,'''			if _, err := fmt.Fprintf(writer, "%s├─● %q", newLine, key); err != nil {
				return err
			}
''','''			fmt.Fprintf(writer, "%s├─● %q", newLine, key)
''')]),
('recerr','C23',[m(F,d,'prefix2, newLine2); err != nil {\n				return err','prefix2, newLine2); err != nil && i < n-1 {\n				return err')]),
('last','C23',[m(F,d,'	return nil\n','	return io.EOF\n')]),
('start','C23',[m(F,f,'1, ""','0, ""')]),
('start2','C23',[m(F,f,'bpt.rootAddr','bpt.leafList.HeadAddr()')]),
('ferr','C23',[m(F,f,'	return bpt.doFprint(writer, bpt.rootAddr, 1, "", "\\n")','	bpt.doFprint(writer, bpt.rootAddr, 1, "", "\\n")\n	return nil')]),
('empty','C23',[m(F,f,'	return','	if bpt.height > 1 {\n		return nil\n	}\n	return')]),
('order','C23',[m(F,d,'i := 1; i < n; i++','i := n - 1; i > 0; i--')]),
('twice','C23',[m(F,d,'''			if err := bpt.doFprint(writer, nonLeafController.GetChildAddr(i), nodeDepth+1, prefix2, newLine2); err != nil {
				return err
			}
''','''			for j := 0; j < 2; j++ {
				if err := bpt.doFprint(writer, nonLeafController.GetChildAddr(i), nodeDepth+1, prefix2, newLine2); err != nil {
					return err
				}
			}
''')]),
('leafskip','C23',[m(F,d,'		for i := 0; i < n; i++ {\n','		for i := 0; i < n; i++ {\n			if leafController.NumberOfRecords() > 200 {\n				break\n			}\n')]),
('leafskip2','C23',[m(F,d,'		for i := 0; i < n; i++ {\n','		for i := 0; i < n; i++ {\n			if i == 5 {\n				continue\n			}\n')]),
('ok-split','',[m(F,d,'''	if nodeDepth == bpt.height {
		leafController''','''	if nodeDepth == bpt.height {
		return bpt.fprintLeaf(writer, nodeAddr, prefix, newLine)
	}
	return bpt.fprintInner(writer, nodeAddr, nodeDepth, prefix, newLine)
}

func (bpt *BPTree) fprintLeaf(writer io.Writer, nodeAddr int64, prefix, newLine string) error {
		leafController''','''	} else {
		nonLeafController''','''	return nil
}

func (bpt *BPTree) fprintInner(writer io.Writer, nodeAddr int64, nodeDepth int, prefix, newLine string) error {
		nonLeafController''','''				return err
			}
		}
	}

	return nil
''','''				return err
			}
		}

	return nil
''')]),
('ok-down','',[m(F,d,'nodeDepth == bpt.height','nodeDepth == 1',('nodeDepth+1',0),'nodeDepth-1',('nodeDepth+1',0),'nodeDepth-1'),m(F,f,'1, ""','bpt.height, ""')]),
('ok-kv','',[m(F,d,'''				_, err = fmt.Fprintf(writer, "%s└─● %q=%q", newLine, key, value)''','''				if _, err = fmt.Fprintf(writer, "%s└─● %q", newLine, key); err == nil {
					_, err = fmt.Fprintf(writer, "=%q", value)
				}''')]),
('ok-ret','',[m(F,d,err,'			if err == nil {\n				continue\n			}\n			return err\n')]),
('ok-while','',[m(F,d,'for i := 1; i < n; i++ {','for i := 1; i != n; i++ {')]),
('ok-tail','',[m(F,f,'return bpt.doFprint(writer, bpt.rootAddr, 1, "", "\\n")','if err := bpt.doFprint(writer, bpt.rootAddr, 1, "", "\\n"); err != nil {\n		return err\n	}\n	return nil')]),
('ok-loop0','',[m(F,d,'''		if err := bpt.doFprint(writer, nonLeafController.GetChildAddr(0), nodeDepth+1, prefix+"┬─", newLine+"│ "); err != nil {
			return err
		}

''','','i := 1; i < n','i := 0; i < n','''			key := keyFactory{bpt.fileStorage}.ReadKeyAll(nonLeafController.GetKey(i))

			if _,''','''			if i == 0 {
				if err := bpt.doFprint(writer, nonLeafController.GetChildAddr(0), nodeDepth+1, prefix+"┬─", newLine+"│ "); err != nil {
					return err
				}
				continue
			}
			key := keyFactory{bpt.fileStorage}.ReadKeyAll(nonLeafController.GetKey(i))

			if _,''')]),
]
