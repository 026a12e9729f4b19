package sync3

// Window (range) arithmetic of room lists.

func vRanges(name string, n int, hi int) SliceRanges {
	r := SliceRanges{}
	for i := 0; i < n; i++ {
		a := vInt(name+"_lo", 0, hi)
		b := vInt(name+"_hi", 0, hi)
		r = append(r, [2]int64{int64(a), int64(b)})
	}
	return r
}

func vIn(r SliceRanges, x int64) bool {
	in := false
	for _, p := range r {
		if p[0] <= x && x <= p[1] {
			in = true
		}
	}
	return in
}

// VRangeDelta: for every pair of valid window sets, the added/removed/same outputs of Delta
// are exactly the set difference/intersection, point by point.
func VRangeDelta() {
	hi := vPick(30, 100)
	n1 := vChoose("n_old", 3)
	n2 := vChoose("n_new", vPick(3, 3))
	old := vRanges("old", n1, hi)
	next := vRanges("new", n2, hi)
	vAssume(old.Valid())
	vAssume(next.Valid())
	added, removed, same := old.Delta(next)
	x := int64(vInt("x", 0, hi))
	inOld, inNew := vIn(old, x), vIn(next, x)
	vAssert(vIn(added, x) == (inNew && !inOld), "added ranges are exactly the newly tracked positions")
	vAssert(vIn(removed, x) == (inOld && !inNew), "removed ranges are exactly the no longer tracked positions")
	vAssert(vIn(same, x) == (inOld && inNew), "same ranges are exactly the still tracked positions")
	for _, rs := range []SliceRanges{added, removed} {
		for _, p := range rs {
			vAssert(p[0] <= p[1], "returned ranges are not inverted")
		}
	}
	vCover("end")
}
