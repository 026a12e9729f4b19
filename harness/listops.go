package sync3

import "context"

// Convergence of list operations: a client which applies the DELETE/INSERT operations the way
// the reference client (client/sync.js) does ends up with exactly the server's windows.

type vHList struct {
	ids    []string
	target []string // the order after the change
}

func (l *vHList) IndexOf(roomID string) (int, bool) {
	for i, id := range l.ids {
		if id == roomID {
			return i, true
		}
	}
	return 0, false
}
func (l *vHList) Len() int64 { return int64(len(l.ids)) }
func (l *vHList) Sort(sortBy []string) error {
	l.ids = l.target
	return nil
}
func (l *vHList) Add(roomID string) bool {
	l.ids = append(append([]string{}, l.ids...), roomID)
	return true
}
func (l *vHList) Remove(roomID string) int {
	i, ok := l.IndexOf(roomID)
	if !ok {
		return -1
	}
	l.ids = append(append([]string{}, l.ids[:i]...), l.ids[i+1:]...)
	return i
}
func (l *vHList) Get(index int) string {
	vAssert(index >= 0 && index < len(l.ids), "list read inside its bounds")
	return l.ids[index]
}

const vHMax = 12

type vHClient struct {
	rooms [vHMax]string // "" = absent
	r     SliceRanges
}

func (c *vHClient) inRange(i int) bool { return vIn(c.r, int64(i)) }
func (c *vHClient) max() int {
	m := -1
	for i, x := range c.rooms {
		if x != "" {
			m = i
		}
	}
	return m
}
func (c *vHClient) shiftRight(hi, low int) {
	for i := hi; i > low; i-- {
		if c.inRange(i) {
			c.rooms[i] = c.rooms[i-1]
		}
	}
}
func (c *vHClient) shiftLeft(hi, low int) {
	for i := low; i < hi; i++ {
		if c.inRange(i) {
			c.rooms[i] = c.rooms[i+1]
		}
	}
}
func (c *vHClient) removeEntry(index int) {
	m := c.max()
	if m < 0 || index > m {
		return
	}
	c.shiftLeft(m, index)
	c.rooms[m] = ""
}
func (c *vHClient) addEntry(index int) {
	m := c.max()
	if m < 0 || index > m {
		return
	}
	c.shiftRight(m+1, index)
}
func (c *vHClient) apply(ops []ResponseOp) {
	gap := -1
	for _, o := range ops {
		op, ok := o.(*ResponseOpSingle)
		vAssert(ok, "live list operations are single operations")
		vAssert(op != nil, "no null operation is sent")
		vAssert(op.Index != nil, "operation carries an index")
		idx := vConcrete(*op.Index)
		vAssert(idx >= 0 && idx < vHMax-1, "operation index is sane")
		vAssert(c.inRange(idx), "operation index is inside a tracked window")
		switch op.Operation {
		case OpDelete:
			c.rooms[idx] = ""
			if gap != -1 {
				c.removeEntry(gap)
			}
			gap = idx
		case OpInsert:
			vAssert(op.RoomID != "", "INSERT names a room")
			if c.rooms[idx] != "" {
				if gap < 0 {
					c.addEntry(idx)
				} else if gap > idx {
					c.shiftRight(gap, idx)
				} else if gap < idx {
					c.shiftLeft(idx, gap)
				}
			}
			gap = -1
			c.rooms[idx] = op.RoomID
		default:
			vAssert(false, "unknown live operation")
		}
	}
	if gap != -1 {
		c.removeEntry(gap)
	}
}

var vHNames = []string{"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"}

// one scenario: list of n rooms; kind 0=add at to, 1=delete from, 2=move from->to
func vHListOps(n, kind, from, to int, ranges SliceRanges) {
	before := append([]string{}, vHNames[:n]...)
	var after []string
	var room string
	var op ListOp
	switch kind {
	case 0:
		room = "new"
		after = append(append(append([]string{}, before[:to]...), room), before[to:]...)
		op = ListOpAdd
	case 1:
		room = before[from]
		after = append(append([]string{}, before[:from]...), before[from+1:]...)
		op = ListOpDel
	default:
		room = before[from]
		rest := append(append([]string{}, before[:from]...), before[from+1:]...)
		after = append(append(append([]string{}, rest[:to]...), room), rest[to:]...)
		op = ListOpChange
	}
	c := &vHClient{r: ranges}
	wasIn := map[string]bool{}
	for i, id := range before {
		if c.inRange(i) {
			c.rooms[i] = id
			wasIn[id] = true
		}
	}
	list := &vHList{ids: before, target: after}
	rl := &RequestList{Ranges: ranges, Sort: []string{SortByRecency}}
	ops, subs := CalculateListOps(context.Background(), rl, list, room, op)
	vAssert(len(list.ids) == len(after), "list updated")
	for i := range after {
		vAssert(list.ids[i] == after[i], "list updated to the new order")
	}
	c.apply(ops)
	subbed := map[string]bool{}
	for _, s := range subs {
		subbed[s] = true
	}
	for i := 0; i < n+2; i++ {
		want := ""
		if i < len(after) {
			want = after[i]
		}
		if c.inRange(i) {
			vAssert(c.rooms[i] == want, "client window equals server window")
			if want != "" {
				vAssert(wasIn[want] || subbed[want], "room data is sent for rooms entering the window")
			}
		}
	}
	vCover("end")
}

func vHKind(n int) (kind, from, to int) {
	kind = vChoose("kind", 3)
	switch kind {
	case 0:
		to = vChoose("to", n+1)
	case 1:
		vAssume(n > 0)
		from = vChoose("from", n)
	default:
		vAssume(n > 0)
		from = vChoose("from", n)
		to = vChoose("to", n)
	}
	return
}

// VListOps1: one window.
func VListOps1() {
	n := vChoose("n", vPick(6, 8))
	kind, from, to := vHKind(n)
	r := vRanges("w", 1, n+2)
	vAssume(r.Valid())
	vHListOps(n, kind, from, to, r)
}

// VListOps2: two windows.
func VListOps2() {
	n := vChoose("n", vPick(5, 7))
	kind, from, to := vHKind(n)
	r := vRanges("w", 2, n+1)
	vAssume(r.Valid())
	vHListOps(n, kind, from, to, r)
}
