package handler

import (
	"encoding/json"

	"github.com/matrix-org/sliding-sync/sync3"
)

// vhSysLagMember: memberships change while the client side lags behind.
func vhSysLagMember() {
	s := vNewSys(vDB())
	w := &vMemberWorld{s: s, room: s1, ts: 10, m: "join", order: vChoose("order", 2)}
	w.state = []json.RawMessage{sCreate("$c1", 1), sMember("$b1", sB, "join", 2)}
	init1 := append(append([]json.RawMessage{}, w.state...), sMember("$a1", sA, "join", 3))
	s.poller(sA, "D", sJoin(s1, init1, sMsg("$x1", sB, 4)))
	s.poller(sB, "D", sJoin(s1, init1, sMsg("$x1", sB, 4)))
	w.room2()
	s.boot()
	view := vChoose("view", 3)
	c := s.connect(sA, "D")
	c.sync(vMemberReq(view, w.room))
	w.check(c, view)
	s.ps.hold = true
	invited := false
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 4) {
		case 0:
			w.step()
			invited = invited || w.m == "invite"
		case 1:
			vAssume(len(s.ps.wait) > 0)
			s.ps.release(1)
			vCover("lag")
		case 2:
			c.sync(vMemberReq(view, w.room))
			w.secrets(c)
		case 3:
			c = s.connect(sA, "E")
			c.sync(vMemberReq(view, w.room))
			w.secrets(c)
			vCover("connected")
			if w.m != "join" && w.m != "invite" {
				w.last = "" // it may never have been told of the room
			}
		}
	}
	if invited {
		w.last = "" // an invite which is no more when it is announced is not shown, and neither is that it is no more
	}
	s.ps.hold = false
	s.ps.release(-1)
	c.settle(func() *sync3.Request { return vMemberReq(view, w.room) })
	w.check(c, view)
	vCover("done")
}

func (w *vMemberWorld) secrets(c *vClient) {
	for _, id := range w.secret {
		vAssert(!c.seen[id], "events sent while the user was not in the room are not shown")
	}
}
