import re
_ns={}
exec(open('/verif/tools/mut/attack.py').read(),_ns)
A={x[0]:[e for e in x[2]] for x in _ns['M']}
def s(id,prop,name,pkg,needs,breaks): return dict(id=id,prop=prop,pkg=pkg,edits=A[name],needs=needs,breaks=breaks)
T='bptree';M='hashmap'
SEEDS=[
s('S05','C06','f-inplace-prefix',T,'replacing a value by one of the same length which begins with the same bytes','the new value is not written'),
s('S06','C09','f-pay-len',T,'replacing values and reading the statistics afterwards','the payload size drifts'),
s('S07','C10','f-leak-short',T,'replacing a long value by a short one','the space of the old overflow part is never released'),
s('S08','C11','f-tail',T,'the last leaf is removed, and the list of leaves is walked backwards later','the list of leaves keeps a removed leaf as its last one'),
s('S09','C12','f-append-tail',T,'splitting with adjacent keys','keys of inner nodes go out of step'),
s('S10','C16','f-key-eq',T,'two long keys which agree in the part kept in the page','different keys are taken as equal'),
s('S11','C14','f-find-min',T,'a range with a bound below the smallest key','the range starts at another place'),
s('S12','C18','h-short',M,'growing over the limit of a directory','slots are looked up in another directory'),
s('S13','C07','h-swapdel-bad',M,'clearing the next to last item of a slot','the cleared item stays'),
s('S14','C20','r-scan-keep',M,'a slot with items behind one without in a scan','items are left out'),
s('S15','C15','r-iter-cache',T,'leaves with different numbers of records','the iterator steps over or beyond records'),
s('S16','C06','c-lastpath',T,'a modification between two lookups of the same key','lookups follow the path of the past'),
s('S17','C02','c-valbuf',T,'a value read before another one is read','the bytes returned change'),
s('S18','C08','h-mtf',M,'reading the second item of a slot','reading writes'),
s('S19','C19','h-pack-dedup',M,'an empty value','items are decoded with other bytes'),
s('S20','C23','r-print-buf',T,'a writer which fails','the error is lost'),
s('S21','C18','h-expand-once',M,'growing across a doubling','slots and counters go out of step'),
s('S22','C12','f-skip-sync',T,'removing the first record of a leaf','keys of inner nodes go out of step'),
s('S23','C05','l-store-dirty',T,'closing an empty ordered dictionary the first time','the state is lost'),
s('S24','C04','l-prim',M,'closing a dictionary for the second time','the state of the first time is opened'),
s('S25','C16','c-rightmost',T,'adding keys around the rightmost one','keys are found at another place'),
s('S26','C03','c-lastkey-ret',T,'changing the buffer of a key after a call','memory of the caller is kept'),
]
SEEDS[[x['id'] for x in SEEDS].index('S18')]['demo']='''package hashmap

import (
	"fmt"
	"os"
	"testing"

	"github.com/roy2220/fsm"
)

// TestDemo: reading any number of times leaves the file as it is.
func TestDemo(t *testing.T) {
	fn := os.Getenv("DEMO_DIR") + "/d.tmp"
	defer os.Remove(fn)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(fn, true); err != nil {
		t.Fatal(err)
	}
	defer fs.Close()
	hm := new(HashMap).Init(fs)
	hm.Create()
	for i := 0; i < 300; i++ {
		hm.AddItem([]byte(fmt.Sprint("key", i)), []byte(fmt.Sprint("value", i)), false)
	}
	before, err := os.ReadFile(fn)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300; i++ {
		v, ok := hm.HasItem([]byte(fmt.Sprint("key", i)), true)
		if !ok || string(v) != fmt.Sprint("value", i) {
			t.Fatal(i, string(v), ok)
		}
	}
	after, err := os.ReadFile(fn)
	if err != nil {
		t.Fatal(err)
	}
	if string(before) != string(after) {
		t.Fatal("reading changed the file")
	}
}
'''
SEEDS[[x['id'] for x in SEEDS].index('S20')]['demo']='''package bptree

import (
	"errors"
	"fmt"
	"os"
	"testing"

	"github.com/roy2220/fsm"
)

var errFull = errors.New("full")

type full struct{ left int }

func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errFull
	}
	f.left -= len(p)
	return len(p), nil
}

// TestDemo: printing to a writer which fails tells so.
func TestDemo(t *testing.T) {
	fn := os.Getenv("DEMO_DIR") + "/d.tmp"
	defer os.Remove(fn)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(fn, true); err != nil {
		t.Fatal(err)
	}
	defer fs.Close()
	bpt := new(BPTree).Init(fs)
	bpt.Create()
	for i := 0; i < 50; i++ {
		bpt.AddRecord([]byte(fmt.Sprint("key", i)), []byte("v"), false)
	}
	for n := 0; n < 400; n += 7 {
		if err := bpt.Fprint(&full{n}); err != errFull {
			t.Fatalf("room for %d bytes: %v", n, err)
		}
	}
}
'''
SEEDS[[x['id'] for x in SEEDS].index('S24')]['demo']='''package plainkv

import (
	"fmt"
	"os"
	"testing"
)

// TestDemo: opened and closed again and again, the dictionary keeps what was set.
func TestDemo(t *testing.T) {
	fn := os.Getenv("DEMO_DIR") + "/d.tmp"
	defer os.Remove(fn)
	for i := 0; i < 4; i++ {
		d, err := OpenDict(fn, true)
		if err != nil {
			t.Fatal(err)
		}
		for j := 0; j < 200*i; j++ {
			if v, ok := d.Test([]byte(fmt.Sprint("key", j)), true); !ok || string(v) != "value" {
				t.Fatal(i, j, string(v), ok)
			}
		}
		for j := 0; j < 200*(i+1); j++ {
			d.Set([]byte(fmt.Sprint("key", j)), []byte("value"), false)
		}
		if err := d.Close(); err != nil {
			t.Fatal(err)
		}
	}
}
'''
for x in SEEDS:
    if x['id']=='S24': x['pkg']='.'
