id='S01'; prop='P01'; pkg='sync3'
edits=[('sync3/range.go','p.x == o.x && p.isOldRange == o.isOldRange && p.isOpen == o.isOpen','p.x == o.x && p.isOldRange == o.isOldRange')]
needs='a requested window that covers exactly one position, in a request that changes the windows'
breaks='a single-position window is seen as a duplicate point: the sweep never closes it and the request panics or yields wrong positions'
demo='''package sync3
import "testing"
func TestDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatalf("panic: %v", e) } }()
	old := SliceRanges{{0, 9}}
	added, removed, _ := old.Delta(SliceRanges{{0, 9}, {15, 15}})
	if len(added) != 1 || added[0] != [2]int64{15, 15} || len(removed) != 0 {
		t.Fatalf("added=%v removed=%v", added, removed)
	}
}
'''
