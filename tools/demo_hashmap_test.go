package hashmap

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"testing"

	"github.com/roy2220/fsm"
)

// TestDemo drives the hash map with random operations against a map and checks statistics, cursors,
// returned and given buffers, reopening and the space in use.
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_DIR")
	if dir == "" {
		dir = t.TempDir()
	}
	for seed := int64(0); seed < 8; seed++ {
		one(t, seed, fmt.Sprintf("%s/h%d.tmp", dir, seed))
		if t.Failed() {
			return
		}
	}
}

func one(t *testing.T, seed int64, fn string) {
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("seed %d: panic %v", seed, e)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	defer os.Remove(fn)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(fn, true); err != nil {
		t.Fatal(err)
	}
	hm := new(HashMap).Init(fs)
	hm.Create()
	m := map[string][]byte{}
	size := 600 + r.Intn(5000)
	ops := 40000
	if seed%4 == 3 {
		size, ops = 120000, 420000
	}
	pool := make([][]byte, size)
	for i := range pool {
		ls := []int{0, 1, 3, 5, 23, 24, 25, 26, 40}
		k := make([]byte, ls[r.Intn(len(ls))])
		r.Read(k)
		pool[i] = k
	}
	mv := func() []byte {
		ls := []int{0, 1, 3, 120}
		v := make([]byte, ls[r.Intn(len(ls))], 130)
		r.Read(v)
		return v
	}
	type held struct{ got, want []byte }
	var hold []held
	scan := func() {
		seen := map[string]bool{}
		var c Cursor
		for {
			k, v, ok := hm.FetchItem(&c)
			if !ok {
				break
			}
			if w, has := m[string(k)]; !has || !bytes.Equal(w, v) || seen[string(k)] {
				t.Fatalf("seed %d: scan", seed)
			}
			seen[string(k)] = true
			for i := range k {
				k[i] ^= 0xff
			}
			for i := range v {
				v[i] ^= 0xff
			}
		}
		if len(seen) != len(m) {
			t.Fatalf("seed %d: scan found %d of %d", seed, len(seen), len(m))
		}
	}
	phase := 0
	for op := 0; op < ops; op++ {
		if op%(ops/4) == 0 {
			phase = op / (ops / 4) % 2
		}
		k0 := pool[r.Intn(len(pool))]
		k := append(make([]byte, 0, len(k0)+20), k0...)
		v := mv()
		k1, v1 := append([]byte{}, k[:cap(k)]...), append([]byte{}, v[:cap(v)]...)
		o := r.Intn(5)
		if phase == 1 && r.Intn(2) == 0 {
			o = 3
		}
		if phase == 0 && o == 3 {
			o = 0
		}
		old, ok := m[string(k)]
		ret := r.Intn(2) == 0
		var x []byte
		var f bool
		want, wantF := old, ok
		switch o {
		case 0:
			x, f = hm.AddItem(k, v, ret)
			wantF = !ok
			if !ok {
				m[string(k)] = append([]byte{}, v...)
			}
		case 1:
			x, f = hm.UpdateItem(k, v, ret)
			if ok {
				m[string(k)] = append([]byte{}, v...)
			}
		case 2:
			x, f = hm.AddOrUpdateItem(k, v, ret)
			wantF = !ok
			m[string(k)] = append([]byte{}, v...)
		case 3:
			x, f = hm.DeleteItem(k, ret)
			delete(m, string(k))
		case 4:
			x, f = hm.HasItem(k, ret)
		}
		if !ret || !ok {
			want = nil
		}
		if f != wantF || !bytes.Equal(x, want) {
			t.Fatalf("seed %d op %d kind %d: got %d bytes %v, want %d bytes %v", seed, op, o, len(x), f, len(want), wantF)
		}
		if !bytes.Equal(k1, k[:cap(k)]) || !bytes.Equal(v1, v[:cap(v)]) {
			t.Fatalf("seed %d: caller's buffer modified", seed)
		}
		for i := range v {
			v[i] ^= 0x55
		}
		for i := range k {
			k[i] ^= 0x55
		}
		if len(x) > 0 && len(hold) < 50 {
			hold = append(hold, held{x, append([]byte{}, x...)})
		}
		if op%997 == 0 {
			if len(m) != hm.NumberOfItems() {
				t.Fatalf("seed %d: items %d, want %d", seed, hm.NumberOfItems(), len(m))
			}
			for _, h := range hold {
				if !bytes.Equal(h.got, h.want) {
					t.Fatalf("seed %d: returned bytes changed", seed)
				}
				for i := range h.got {
					h.got[i] ^= 0xff
				}
			}
			hold = nil
			lf := float64(hm.NumberOfItems()) / float64(hm.NumberOfSlots())
			if lf > 1.6181 || hm.NumberOfSlots() > 1 && lf < 0.809 {
				t.Fatalf("seed %d: load factor %f", seed, lf)
			}
			if n := hm.NumberOfSlots(); hm.MinNumberOfSlots() > n || n >= 2*hm.MinNumberOfSlots() {
				t.Fatalf("seed %d: %d slots", seed, n)
			}
			if d := hm.NumberOfSlotDirs(); d<<12 < hm.NumberOfSlots() || d > hm.MaxNumberOfSlotDirs() {
				t.Fatalf("seed %d: %d slot dirs", seed, d)
			}
		}
		if op%(ops/8) == 0 {
			ps := 0
			for s, v := range m {
				ps += len(s) + len(v)
			}
			if ps != hm.PayloadSize() {
				t.Fatalf("seed %d: payload size %d, want %d", seed, hm.PayloadSize(), ps)
			}
			scan()
			a := hm.Store()
			fs.SetPrimarySpace(a)
			if e := fs.Close(); e != nil {
				t.Fatal(e)
			}
			fs = new(fsm.FileStorage).Init()
			if e := fs.Open(fn, false); e != nil {
				t.Fatal(e)
			}
			hm = new(HashMap).Init(fs)
			hm.Load(fs.PrimarySpace())
			scan()
		}
	}
	n := 0
	for s := range m {
		if _, ok := hm.DeleteItem([]byte(s), false); !ok {
			t.Fatalf("seed %d: item lost", seed)
		}
		delete(m, s)
		if n++; n%20000 == 0 {
			scan()
		}
	}
	if hm.NumberOfItems() != 0 || hm.NumberOfSlots() != 1 || hm.PayloadSize() != 0 {
		t.Fatalf("seed %d: not empty", seed)
	}
	for i := 0; i < 400; i++ {
		hm.AddItem(pool[r.Intn(len(pool))], mv(), false)
	}
	hm.Destroy()
	if n := fs.Stats().AllocatedSpaceSize; n != 0 {
		t.Fatalf("seed %d: %d bytes leaked", seed, n)
	}
	fs.Close()
}
