_A={}
for _f in ['attack3','c13','units','life','c14','c15','c18','c16','c09','c10','c19']:
    _ns={}
    exec(open('/verif/tools/mut/%s.py'%_f).read(),_ns)
    for x in _ns['M']:
        _A[_f+':'+x[0]]=x[2]
def s(id,prop,name,pkg,needs,breaks): return dict(id=id,prop=prop,pkg=pkg,edits=[e for e in _A[name]],needs=needs,breaks=breaks)
T='bptree';M='hashmap'
SEEDS=[
s('S30','C12','attack3:p-sync-one',T,'the first key of the leftmost leaf below a second child changes in a tree of three levels','a key two levels above stays behind'),
s('S31','C17','attack3:k-bound',T,'a key just at the length from which it goes to overflow space','it is read back wrong'),
s('S32','C17','attack3:k-noaddr',T,'a long key','its overflow part is not found again'),
s('S33','C15','attack3:i-end',T,'iterating up to the end of the range','the iterator ends early or late'),
s('S34','C14','attack3:r-tail',T,'a range which ends in the last leaf','the wrong entries are covered'),
s('S35','C11','attack3:l-ins-order',T,'splitting a leaf in the middle of the chain','the chain leaves a leaf out'),
s('S36','C01','attack3:h-latepack',M,'growing with a file which is remapped in between','memory which was unmapped is read'),
s('S37','C12','attack3:p-thresh',T,'a leaf at the border of its fill level','a page overflows'),
s('S38','C20','attack3:h-cursor',M,'scanning slots with several items','items are left out or seen twice'),
s('S39','C10','attack3:h-restore',M,'a slot which becomes empty','its space is lost'),
s('S40','C13','c13:i-noshift-last',T,'inserting in front of records in a leaf','the last record points elsewhere'),
s('S41','C13','c13:r-adj-bound',T,'removing records from the middle of a leaf','a record points elsewhere'),
s('S42','C13','c13:ni-shift',T,'inserting a child in front of others','a key is read wrong'),
s('S43','C22','units:nsr-keep',T,'shifting children to the right','keys of inner nodes are wrong'),
s('S44','C22','units:lmerge-pos',T,'merging leaves','records are out of order'),
s('S45','C21','life:load-noerr',M,'opening a dictionary whose head page is damaged','garbage is used as if it were data'),
s('S46','C01','attack3:h-lateunpack',M,'shrinking','memory which was released is read'),
s('S47','C18','attack3:h-rmdir',M,'shrinking over a directory','a directory is dropped too early'),
]
_C='''package hashmap

import (
	"os"
	"testing"

	"github.com/roy2220/fsm"
)

// TestDemo: loading something which is not a dictionary is refused.
func TestDemo(t *testing.T) {
	fn := os.Getenv("DEMO_DIR") + "/d.tmp"
	defer os.Remove(fn)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(fn, true); err != nil {
		t.Fatal(err)
	}
	defer fs.Close()
	addr, buf := fs.AllocateSpace(64)
	for i := range buf {
		buf[i] = 0xff
	}
	defer func() {
		if recover() == nil {
			t.Fatal("garbage loaded")
		}
	}()
	new(HashMap).Init(fs).Load(addr)
}
'''
for x in SEEDS:
    if x['id']=='S45': x['demo']=_C
