package sync3

import (
	"context"
	"time"
)

// The set of connections: one per user, device and connection ID.

// VConnMap: after any sequence of creations and closures, lookups find exactly the live connections,
// and closing by device or user reaches all of them, whenever expiry callbacks happen to run.
func VConnMap() {
	SpamProtectionInterval = 0
	cm := NewConnMap(false, time.Hour)
	cids := []ConnID{{UserID: "@a", DeviceID: "D1", CID: ""}, {UserID: "@a", DeviceID: "D1", CID: "D2"}, {UserID: "@a", DeviceID: "D2", CID: "D1"}, {UserID: "@b", DeviceID: "D1", CID: ""}}
	live := map[string]*vHHandler{}
	var all []*vHHandler
	owner := map[*vHHandler]int{}
	closed := map[*vHHandler]bool{}
	create := func(i int) {
		h := &vHHandler{}
		all = append(all, h)
		owner[h] = i
		if old := live[cids[i].String()]; old != nil {
			closed[old] = true
		}
		c := cm.CreateConn(cids[i], func() {}, func() ConnHandler { return h })
		vAssert(c != nil && c.ConnID == cids[i], "creating a connection returns it")
		live[cids[i].String()] = h
	}
	kill := func(i int) {
		if h := live[cids[i].String()]; h != nil {
			closed[h] = true
			delete(live, cids[i].String())
		}
	}
	create(0)
	n := vPick(3, 4)
	if vChoose("more", 2) == 1 {
		n = vPick(2, 3)
		create(1)
		create(2)
		create(3)
	}
	for k := 0; k < n; k++ {
		switch vChoose("op", 5) {
		case 0:
			create(0)
		case 1:
			create(3)
		case 2:
			cm.CloseConnsForDevice("@a", "D1")
			kill(0)
			kill(1)
		case 3:
			want := 0
			for i := 0; i < 3; i++ {
				if live[cids[i].String()] != nil {
					want++
				}
				kill(i)
			}
			got := cm.CloseConnsForUsers([]string{"@a"})
			vAssert(got >= want, "closing a user's connections counts them")
		case 4: // its buffer is full
			if h := live[cids[0].String()]; h != nil {
				h.dead = true
				vAssert(cm.Conn(cids[0]) == nil, "a dead connection is not found")
				kill(0)
			}
		}
	}
	vSettle()
	for i, cid := range cids {
		c := cm.Conn(cid)
		h := live[cid.String()]
		vAssert((c != nil) == (h != nil), "a connection is found iff it was created and not closed")
		vAssert(c == nil || c.handler == ConnHandler(h), "the connection found is the last one created")
		cnt := 0
		for _, x := range cm.Conns(cid.UserID, cid.DeviceID) {
			if x.ConnID == cid {
				cnt++
				vAssert(x == c, "a device's connections are the live ones")
			}
		}
		vAssert((cnt == 1) == (h != nil) && cnt <= 1, "a device's connections are exactly the live ones")
		_ = i
	}
	for _, h := range all {
		vAssert((h.destroyed > 0) == closed[h], "exactly the closed connections are torn down")
	}
	// every live connection can still be closed by its user
	cm.CloseConnsForUsers([]string{"@a", "@b"})
	vSettle()
	for _, cid := range cids {
		vAssert(cm.Conn(cid) == nil, "closing a user's connections closes all of them")
	}
	for _, h := range all {
		vAssert(h.destroyed > 0, "every connection is torn down in the end")
	}
	_ = context.Background
	vCover("end")
}
