package handler

import (
	"encoding/json"
	"fmt"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// vMemberWorld drives one user's membership of a room, as the homeserver shows it to the pollers
// of that user (A) and of another member (B).
type vMemberWorld struct {
	s      *vSys
	room   string
	solo   bool // nobody else in the room is polled for
	ts     int
	m      string   // A's membership of the room
	secret []string // events sent to the room while A was not in it
	shown  []string // events sent since A joined
	last   string   // the latest event with A's membership which A's homeserver told A
	order  int      // which poller gets an event first
	late   []*sync2.SyncResponse
	state  []json.RawMessage
}

func (w *vMemberWorld) id(p string) string {
	w.ts++
	return fmt.Sprintf("$%s%d", p, w.ts)
}

// both delivers a response to A and one to B, in either order.
func (w *vMemberWorld) both(a, b *sync2.SyncResponse) {
	if w.order > 0 {
		w.other(b)
	}
	if w.order == 2 {
		w.late = append(w.late, a)
		return
	}
	w.s.respond(sA, "D", a)
	if w.order == 0 {
		w.other(b)
	}
}

// flush delivers what A's poller has yet to process.
func (w *vMemberWorld) flush() {
	for _, a := range w.late {
		w.s.respond(sA, "D", a)
	}
	w.late = nil
}

func (w *vMemberWorld) other(b *sync2.SyncResponse) {
	if !w.solo {
		w.s.respond(sB, "D", b)
	}
}

func (w *vMemberWorld) member(sender, membership string) json.RawMessage {
	id := w.id("e")
	sk := sA
	w.m = membership
	return sEvent(id, "m.room.member", sender, &sk, w.ts, vObj(vKV("membership", membership)))
}

// out makes A leave, or be removed.
func (w *vMemberWorld) out(sender, membership string) {
	ev := w.member(sender, membership)
	w.last = fmt.Sprintf("$e%d", w.ts)
	w.shown = nil
	w.both(sLeave(w.room, ev), sJoin(w.room, nil, ev))
}

func (w *vMemberWorld) join(what string) {
	ev := w.member(sA, "join")
	w.last = fmt.Sprintf("$e%d", w.ts)
	w.shown = []string{w.last}
	w.both(sJoin(w.room, w.state, ev), sJoin(w.room, nil, ev))
	vCover(what)
}

func (w *vMemberWorld) invite() {
	ev := w.member(sB, "invite")
	st := []json.RawMessage{
		sStateEv("", "m.room.name", "", sB, w.ts, vObj(vKV("name", "N"))),
		sStateEv("", "m.room.member", sA, sB, w.ts, vObj(vKV("membership", "invite"))),
	}
	w.both(&sync2.SyncResponse{Rooms: sync2.SyncRoomsResponse{Invite: map[string]sync2.SyncV2InviteResponse{w.room: {InviteState: sync2.EventsResponse{Events: st}}}}}, sJoin(w.room, nil, ev))
	vCover("invited")
}

func (w *vMemberWorld) message() {
	id := w.id("m")
	ev := sMsg(id, sB, w.ts)
	if w.m == "join" {
		w.shown = append(w.shown, id)
		w.both(sJoin(w.room, nil, ev), sJoin(w.room, nil, ev))
		vCover("message")
	} else {
		w.secret = append(w.secret, id)
		w.other(sJoin(w.room, nil, ev))
		vCover("secret message")
	}
}

// step makes one of the changes which are possible now.
func (w *vMemberWorld) step() {
	k := vChoose("change", 4)
	if k == 3 {
		w.message()
		return
	}
	switch w.m {
	case "join":
		switch k {
		case 0:
			w.out(sA, "leave")
			vCover("left")
		case 1:
			w.out(sB, "leave")
			vCover("kicked")
		case 2:
			w.out(sB, "ban")
			vCover("banned")
		}
	case "invite":
		switch k {
		case 0:
			w.join("accepted")
		case 1:
			if vChoose("who", 2) == 0 {
				w.out(sA, "leave")
				vCover("rejected")
			} else {
				w.out(sB, "leave")
				vCover("revoked")
			}
		case 2:
			w.out(sB, "ban")
			vCover("banned invitee")
		}
	case "leave":
		switch k {
		case 0:
			w.join("rejoined")
		case 1:
			vAssume(w.order < 2) // users act upon an invite after it has reached them
			w.invite()
		case 2:
			w.other(sJoin(w.room, nil, w.member(sB, "ban")))
			vCover("banned away")
		}
	case "ban":
		vAssume(k == 0)
		w.other(sJoin(w.room, nil, w.member(sB, "leave")))
		vCover("unbanned")
	}
}

func (w *vMemberWorld) check(c *vClient, view int) {
	in := c.sees("l", w.room)
	want := w.m == "join" || w.m == "invite"
	n := 1
	if want {
		n = 2
	}
	if view == 0 {
		vAssert(!in || want, "a room which the user has left is not in their list")
		vAssert(in || !want, "a room which the user is in, or invited to, is in their list")
		vAssert(c.sees("l", s2), "a room which the user is in is in their list")
		vAssert(len(c.list["l"]) == n, "the list has as many rooms as it says")
	}
	if view < 2 {
		vAssert(c.n["l"] == n, "the number of rooms in the list is that of the rooms the user is in or invited to")
	}
	r := c.room[w.room]
	if want && view < 2 {
		vAssert(r != nil && r.initials > 0, "a room in the list was sent in full")
	}
	if w.m == "join" {
		vAssert(r != nil && r.initials > 0, "a room the user is in is sent in full")
		vAssert(len(r.last.InviteState) == 0, "a room the user is in is not shown as an invite")
		vAssert(r.notif == 0 && r.high == 0, "a room the user is in is not shown as unread because of an invite")
		k := 0
		for _, id := range r.timeline {
			if k < len(w.shown) && w.shown[k] == id {
				k++
			}
		}
		vAssert(k == len(w.shown), "everything sent since the user joined is in the timeline, in order")
		vAssert(len(w.shown) == 0 || r.timeline[len(r.timeline)-1] == w.shown[len(w.shown)-1], "the timeline ends with the last event")
	}
	if w.m == "invite" && view < 2 {
		vAssert(len(r.last.InviteState) > 0, "an invite comes with its state")
	}
	if !want && r != nil && r.initials > 0 && w.last != "" && view == 1 {
		vAssert(c.seen[w.last], "a client without list operations is told that the user left by the event")
	}
	for _, id := range w.secret {
		vAssert(!c.seen[id], "events sent while the user was not in the room are not shown")
	}
	if r != nil {
		for i := range r.timeline {
			for j := 0; j < i; j++ {
				vAssert(r.timeline[i] != r.timeline[j], "no event is shown twice")
			}
		}
	}
}

func vMemberReq(view int, room string) *sync3.Request {
	sub := sync3.RoomSubscription{TimelineLimit: 20}
	switch view {
	case 0:
		return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: sub, Sort: []string{sync3.SortByRecency}}}}
	case 1:
		all := true
		return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {SlowGetAllRooms: &all, RoomSubscription: sub, Sort: []string{sync3.SortByRecency}}}}
	}
	return &sync3.Request{RoomSubscriptions: map[string]sync3.RoomSubscription{room: sub}}
}

func (w *vMemberWorld) run(view, steps int) {
	s := w.s
	s.boot()
	start := 0 // when the client asks for the room
	if view == 2 {
		start = vChoose("start", vPick(2, steps+1))
	}
	i := 0
	req := func() *sync3.Request {
		if i < start {
			return &sync3.Request{}
		}
		return vMemberReq(view, w.room)
	}
	c := s.connect(sA, "D")
	c.sync(req())
	if start == 0 {
		w.check(c, view)
	}
	for i < steps {
		w.step()
		i++
		if i < start {
			continue
		}
		if i == start {
			vCover("subscribed later")
		}
		if vChoose("sync", 2) == 1 {
			w.flush()
			c.settle(req)
			w.check(c, view)
		}
	}
	w.flush()
	c.settle(req)
	w.check(c, view)
	// a new connection shows the same, and so does one after a restart
	d := s.connect(sA, "D2")
	d.sync(vMemberReq(view, w.room))
	w.fresh(d, view)
	s.boot()
	e := s.connect(sA, "D2")
	e.sync(vMemberReq(view, w.room))
	w.fresh(e, view)
	vCover("done")
}

func (w *vMemberWorld) fresh(d *vClient, view int) {
	if w.m != "join" && w.m != "invite" {
		vAssert(d.room[w.room] == nil, "nothing of a room which the user has left is sent to a new connection")
		w.last = ""
	}
	w.check(d, view)
}

// vhSysMember: a room with another polled member.
func vhSysMember(view int) {
	s := vNewSys(vDB())
	w := &vMemberWorld{s: s, room: s1, ts: 10, m: "join", order: vChoose("order", 3)}
	w.state = []json.RawMessage{sCreate("$c1", 1), sMember("$b1", sB, "join", 2)}
	init1 := append(append([]json.RawMessage{}, w.state...), sMember("$a1", sA, "join", 3))
	s.poller(sA, "D", sJoin(s1, init1, sMsg("$x1", sB, 4)))
	s.poller(sB, "D", sJoin(s1, init1, sMsg("$x1", sB, 4)))
	w.room2()
	w.run(view, vPick(3, 4))
}

func vhSysMemberList() { vhSysMember(0) }
func vhSysMemberAll()  { vhSysMember(1) }
func vhSysMemberSub()  { vhSysMember(2) }

func (w *vMemberWorld) room2() {
	w.s.respond(sA, "D", sJoin(s2, []json.RawMessage{sCreate("$c2", 5), sMember("$a2", sA, "join", 6), sMember("$b2", sB, "join", 7)}, sMsg("$x2", sB, 8)))
}

// vhSysMemberSolo: a room which the proxy does not know yet, with nobody else polled for.
func vhSysMemberSolo() {
	s := vNewSys(vDB())
	w := &vMemberWorld{s: s, room: s3, ts: 10, m: "leave", solo: true}
	w.state = []json.RawMessage{sCreate("$c3", 1), sMember("$b3", sB, "join", 2)}
	s.poller(sA, "D", &sync2.SyncResponse{})
	w.room2()
	w.run(vChoose("view", 3), vPick(3, 4))
}
