package bptree

import (
	"bytes"
	"fmt"
)

func chk(b *BPTree) error {
	var leaves []int64
	nl, nn, nr := 0, 0, 0
	var walk func(a int64, d int, lo []byte) error
	walk = func(a int64, d int, lo []byte) error {
		if d == b.height {
			nl++
			lc := b.getLeafController(a)
			leaves = append(leaves, a)
			n := lc.NumberOfRecords()
			nr += n
			if d > 1 && (lc.GetLoadSize() < leafUnderloadThreshold || lc.GetLoadSize() > leafOverloadThreshold) {
				return fmt.Errorf("leaf load %d", lc.GetLoadSize())
			}
			var p []byte
			for i := 0; i < n; i++ {
				k := keyFactory{b.fileStorage}.ReadKeyAll(lc.GetKey(i))
				if i == 0 && lo != nil && !bytes.Equal(k, lo) {
					return fmt.Errorf("sep != first %q %q", lo, k)
				}
				if p != nil && bytes.Compare(p, k) >= 0 {
					return fmt.Errorf("order")
				}
				p = k
			}
			return nil
		}
		nn++
		c := b.getNonLeafController(a)
		n := c.NumberOfChildren()
		if n < 2 {
			return fmt.Errorf("nonleaf n %d depth %d", n, d)
		}
		if ls := c.GetLoadSize(); ls > nonLeafOverloadThreshold || d > 1 && ls < nonLeafUnderloadThreshold {
			return fmt.Errorf("nonleaf load %d", ls)
		}
		for i := 0; i < n; i++ {
			var l []byte = lo
			if i > 0 {
				l = keyFactory{b.fileStorage}.ReadKeyAll(c.GetKey(i))
			} else if len(c.GetKey(0)) != 0 {
				return fmt.Errorf("first key")
			}
			if err := walk(c.GetChildAddr(i), d+1, l); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(b.rootAddr, 1, nil); err != nil {
		return err
	}
	if nl != b.leafCount || nn != b.nonLeafCount || nr != b.recordCount {
		return fmt.Errorf("counts %d/%d %d/%d %d/%d", nl, b.leafCount, nn, b.nonLeafCount, nr, b.recordCount)
	}
	if leaves[0] != b.leafList.headAddr || leaves[nl-1] != b.leafList.tailAddr {
		return fmt.Errorf("head/tail")
	}
	for i := range leaves {
		if leafHeader(b.getLeafController(leaves[i])).NextAddr() != leaves[(i+1)%nl] {
			return fmt.Errorf("next")
		}
		if leafHeader(b.getLeafController(leaves[i])).PrevAddr() != leaves[(i+nl-1)%nl] {
			return fmt.Errorf("prev")
		}
	}
	return nil
}
