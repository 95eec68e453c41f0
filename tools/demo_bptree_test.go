package bptree

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"testing"

	"github.com/roy2220/fsm"
)

// TestDemo drives the tree with random operations against a sorted map and checks, on the way, the
// structure of the tree, the statistics, the space in use, returned and given buffers, and reopening.
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_DIR")
	if dir == "" {
		dir = t.TempDir()
	}
	for seed := int64(0); seed < 12; seed++ {
		one(t, seed, fmt.Sprintf("%s/t%d.tmp", dir, seed))
		if t.Failed() {
			return
		}
	}
}

func one(t *testing.T, seed int64, fn string) {
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("seed %d: panic %v", seed, e)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	defer os.Remove(fn)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(fn, true); err != nil {
		t.Fatal(err)
	}
	bpt := new(BPTree).Init(fs)
	bpt.Create()
	m := map[string][]byte{}
	pool := make([][]byte, 600+r.Intn(3000))
	kl := []int{0, 1, 3, 5, 248, 249, 250, 256, 257, 258, 300, 700}
	if seed%3 == 1 {
		kl = []int{3, 4, 8}
	}
	for i := range pool {
		k := make([]byte, kl[r.Intn(len(kl))])
		r.Read(k)
		if len(k) > 260 && r.Intn(2) == 0 {
			for j := 0; j < 255; j++ {
				k[j] = byte(seed)
			}
		}
		pool[i] = k
	}
	mv := func() []byte {
		ls := []int{0, 1, 3, 120, 121, 122, 128, 129, 130, 300, 5000}
		v := make([]byte, ls[r.Intn(len(ls))], 6000)
		r.Read(v)
		return v
	}
	type held struct{ got, want []byte }
	var hold []held
	rng := func(lo, hi []byte) {
		var ks []string
		for s := range m {
			if (isMinKey(lo) || s >= string(lo)) && (isMaxKey(hi) || s <= string(hi)) {
				ks = append(ks, s)
			}
		}
		sort.Strings(ks)
		for dir := 0; dir < 2; dir++ {
			it := bpt.SearchForward(lo, hi)
			if dir == 1 {
				it = bpt.SearchBackward(lo, hi)
			}
			for i := range ks {
				s := ks[i]
				if dir == 1 {
					s = ks[len(ks)-1-i]
				}
				a, b, e := it.ReadRecordAll()
				if e != nil || string(a) != s || !bytes.Equal(b, m[s]) {
					t.Fatalf("seed %d: range", seed)
				}
				off := r.Intn(len(b) + 5)
				buf := bytes.Repeat([]byte{0xee}, r.Intn(400))
				n, e := it.ReadValue(off, buf)
				var want []byte
				if off < len(b) {
					want = b[off:]
				}
				if len(want) > len(buf) {
					want = want[:len(buf)]
				}
				if e != nil || !bytes.Equal(buf[:n], want) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xee}, len(buf)-n)) {
					t.Fatalf("seed %d: ReadValue off %d len %d", seed, off, len(b))
				}
				off = r.Intn(len(a) + 5)
				buf = bytes.Repeat([]byte{0xee}, r.Intn(400))
				n, e = it.ReadKey(off, buf)
				want = nil
				if off < len(a) {
					want = a[off:]
				}
				if len(want) > len(buf) {
					want = want[:len(buf)]
				}
				if e != nil || !bytes.Equal(buf[:n], want) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xee}, len(buf)-n)) {
					t.Fatalf("seed %d: ReadKey off %d len %d", seed, off, len(a))
				}
				if n, e := it.GetKeySize(); e != nil || n != len(a) {
					t.Fatalf("seed %d: key size", seed)
				}
				if n, e := it.GetValueSize(); e != nil || n != len(b) {
					t.Fatalf("seed %d: value size", seed)
				}
				it.Advance()
			}
			if !it.IsAtEnd() {
				t.Fatalf("seed %d: end", seed)
			}
			if _, e := it.ReadKeyAll(); e == nil {
				t.Fatalf("seed %d: no error at the end", seed)
			}
			it.Advance()
			if !it.IsAtEnd() {
				t.Fatalf("seed %d: end again", seed)
			}
		}
	}
	phase := 0
	for op := 0; op < 12000; op++ {
		if op%3000 == 0 {
			phase = r.Intn(3)
		}
		k0 := pool[r.Intn(len(pool))]
		k := append(make([]byte, 0, len(k0)+300), k0...)
		v := mv()
		k1, v1 := append([]byte{}, k[:cap(k)]...), append([]byte{}, v[:cap(v)]...)
		o := r.Intn(6)
		if phase == 1 && r.Intn(2) == 0 {
			o = 3
		}
		if phase == 0 && o == 3 {
			o = 0
		}
		old, ok := m[string(k)]
		ret := r.Intn(2) == 0
		var x []byte
		var f bool
		want, wantF := old, ok
		switch o {
		case 0:
			x, f = bpt.AddRecord(k, v, ret)
			wantF = !ok
			if !ok {
				m[string(k)] = append([]byte{}, v...)
			}
		case 1:
			x, f = bpt.UpdateRecord(k, v, ret)
			if ok {
				m[string(k)] = append([]byte{}, v...)
			}
		case 2:
			x, f = bpt.AddOrUpdateRecord(k, v, ret)
			wantF = !ok
			m[string(k)] = append([]byte{}, v...)
		case 3:
			x, f = bpt.DeleteRecord(k, ret)
			delete(m, string(k))
		case 4:
			x, f = bpt.HasRecord(k, ret)
		case 5:
			if op%50 == 0 {
				lo, hi := k, pool[r.Intn(len(pool))]
				if r.Intn(6) == 0 {
					lo = MinKey
				}
				if r.Intn(6) == 0 {
					hi = MaxKey
				}
				rng(lo, hi)
			}
			continue
		}
		if !ret || !ok {
			want = nil
		}
		if f != wantF || !bytes.Equal(x, want) {
			t.Fatalf("seed %d op %d kind %d: got %d bytes %v, want %d bytes %v", seed, op, o, len(x), f, len(want), wantF)
		}
		if !bytes.Equal(k1, k[:cap(k)]) || !bytes.Equal(v1, v[:cap(v)]) {
			t.Fatalf("seed %d: caller's buffer modified", seed)
		}
		for i := range v[:cap(v)] {
			v[:cap(v)][i] ^= 0x55
		}
		for i := range k[:cap(k)] {
			k[:cap(k)][i] ^= 0x55
		}
		if len(x) > 0 && len(hold) < 50 {
			hold = append(hold, held{x, append([]byte{}, x...)})
		}
		if op%97 == 0 {
			if e := chk(bpt); e != nil {
				t.Fatal(seed, op, e)
			}
			ps := 0
			for s, v := range m {
				ps += len(s) + len(v)
			}
			if ps != bpt.PayloadSize() || len(m) != bpt.NumberOfRecords() {
				t.Fatalf("seed %d: payload size %d, want %d; records %d, want %d", seed, bpt.PayloadSize(), ps, bpt.NumberOfRecords(), len(m))
			}
			for _, h := range hold {
				if !bytes.Equal(h.got, h.want) {
					t.Fatalf("seed %d: returned bytes changed", seed)
				}
				for i := range h.got {
					h.got[i] ^= 0xff
				}
			}
			hold = nil
		}
		if op%1000 == 0 {
			a := bpt.Store()
			fs.SetPrimarySpace(a)
			if e := fs.Close(); e != nil {
				t.Fatal(e)
			}
			fs = new(fsm.FileStorage).Init()
			if e := fs.Open(fn, false); e != nil {
				t.Fatal(e)
			}
			bpt = new(BPTree).Init(fs)
			bpt.Load(fs.PrimarySpace())
			rng(MinKey, MaxKey)
		}
	}
	for s := range m {
		if _, ok := bpt.DeleteRecord([]byte(s), false); !ok {
			t.Fatalf("seed %d: record lost", seed)
		}
		if r.Intn(50) == 0 {
			if e := chk(bpt); e != nil {
				t.Fatal(seed, e)
			}
		}
	}
	if e := chk(bpt); e != nil || bpt.NumberOfLeafs() != 1 || bpt.NumberOfNonLeafs() != 0 || bpt.Height() != 1 {
		t.Fatal(seed, "not empty", e)
	}
	for i := 0; i < 400; i++ {
		k := pool[r.Intn(len(pool))]
		bpt.AddRecord(k, mv(), false)
	}
	bpt.Destroy()
	if n := fs.Stats().AllocatedSpaceSize; n != 0 {
		t.Fatalf("seed %d: %d bytes leaked", seed, n)
	}
	fs.Close()
}
