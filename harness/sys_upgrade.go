package handler

import (
	"encoding/json"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// vUpWorld: room 1 may be replaced by room 2, which may be replaced by room 3.
type vUpWorld struct {
	*vLWorld
	joined map[string]bool
	tomb   map[string]string
	pred   map[string]string
	old    bool
}

func (w *vUpWorld) room(id string) *vLRoom {
	for _, r := range w.rooms {
		if r.id == id {
			return r
		}
	}
	r := &vLRoom{id: id, name: "r" + id[1:2]}
	w.rooms = append(w.rooms, r)
	return r
}

// join lets the user join a room which other users made.
func (w *vUpWorld) join(id string) {
	r := w.room(id)
	n := id[1:2]
	pred := w.pred[id]
	was := len(r.events) > 0
	w.joined[id] = true
	r.unknown = false
	me := w.id()
	if was {
		w.note(r, me)
		w.deliver(r, sMember(me, sA, "join", w.ts))
		return
	}
	state := []json.RawMessage{
		sStateEv("$c"+n, "m.room.create", "", sB, 1, vObj(vKV("room_version", "10"), vKVIf(pred != "", "predecessor", vObj(vKV("room_id", pred), vKV("event_id", "$x"))))),
		sMember("$b"+n, sB, "join", 3), sStateEv("$n"+n, "m.room.name", "", sB, 4, vObj(vKV("name", r.name))),
	}
	w.note(r, me)
	w.s.respond(sA, "D", sJoin(id, state, sMember(me, sA, "join", w.ts)))
}

func (w *vUpWorld) reqOld() *sync3.Request {
	r := w.vLWorld.req()
	l := r.Lists["l"]
	if w.old {
		l.RoomSubscription.IncludeOldRooms = &sync3.RoomSubscription{TimelineLimit: 1}
	}
	r.Lists["l"] = l
	return r
}

// verify: a replaced room is shown exactly while the user is in it but not in its replacement.
func (w *vUpWorld) verify(c *vClient) {
	for _, r := range w.rooms {
		r.unknown = !w.joined[r.id]
		if next := w.tomb[r.id]; next != "" && w.joined[next] {
			r.unknown = true
		}
	}
	w.check(c)
}

func vUpgradeWorld() *vUpWorld {
	s := vNewSys(vDB())
	w := &vUpWorld{vLWorld: &vLWorld{s: s, ts: 10, key: "l", limit: 1, sort: []string{sync3.SortByRecency}, window: sync3.SliceRanges{{0, 9}}}, joined: map[string]bool{}, tomb: map[string]string{}, pred: map[string]string{}}
	s.poller(sA, "D", &sync2.SyncResponse{})
	return w
}

// vhSysUpgrade: lists while rooms are replaced.
func vhSysUpgrade() {
	w := vUpgradeWorld()
	w.pred[s2] = s1
	w.join(s1)
	w.join(s3)
	w.old = vChoose("old rooms", 2) == 1
	w.window = []sync3.SliceRanges{{{0, 9}}, {{0, 0}}}[vChoose("window", 2)]
	w.s.boot()
	w.c = w.s.connect(sA, "D")
	w.c.sync(w.reqOld())
	w.verify(w.c)
	for i := 0; i < vPick(3, 4); i++ {
		r1 := w.room(s1)
		switch vChoose("step", 5) {
		case 0:
			vAssume(w.tomb[s1] != s3)
			if w.tomb[s1] == "" {
				w.tomb[s1] = s2
				vCover("replaced")
			} else {
				w.tomb[s1] = s3
				vCover("replaced again")
			}
			w.deliver(r1, w.st(r1, "m.room.tombstone", "", vObj(vKV("replacement_room", w.tomb[s1]))))
		case 1:
			vAssume(!w.joined[s2])
			w.join(s2)
			vCover("joined")
		case 2:
			vAssume(w.joined[s2])
			id := w.id()
			w.note(w.room(s2), id)
			w.joined[s2] = false
			w.s.respond(sA, "D", sLeave(s2, sMember(id, sA, "leave", w.ts)))
			vCover("left")
		case 3:
			r := w.room([]string{s1, s2, s3}[vChoose("room", 3)])
			vAssume(w.joined[r.id])
			w.deliver(r, w.msg(r))
			vCover("message")
		case 4:
			w.c.settle(w.reqOld)
			w.verify(w.c)
		}
	}
	w.c.settle(w.reqOld)
	w.verify(w.c)
	w.finish()
}

func (w *vUpWorld) finish() {
	c2 := w.s.connect(sA, "E")
	c2.settle(w.reqOld)
	w.verify(c2)
	w.s.boot()
	c3 := w.s.connect(sA, "F")
	c3.settle(w.reqOld)
	w.verify(c3)
	vCover("done")
}

// vhSysOldRooms: whatever rooms claim to be their predecessors, a request is answered, with the rooms
// which came before those asked for as far as the user is in them.
func vhSysOldRooms() {
	w := vUpgradeWorld()
	w.old = true
	ids := []string{s1, s2, s3}
	for _, id := range ids {
		if k := vChoose("predecessor", 4); k < 3 {
			w.pred[id] = ids[k]
		}
	}
	for i, id := range ids {
		if vChoose("joined", 2) == 1 || i == 0 {
			w.join(id)
		}
	}
	w.s.boot()
	sub := &sync3.RoomSubscription{TimelineLimit: 1, IncludeOldRooms: &sync3.RoomSubscription{TimelineLimit: 1}}
	req := func() *sync3.Request {
		return &sync3.Request{RoomSubscriptions: map[string]sync3.RoomSubscription{s1: *sub}}
	}
	cl := w.s.connect(sA, "D")
	if k := vChoose("left", 3); k > 0 {
		// the user has left a room meanwhile
		id := ids[k]
		vAssume(w.joined[id])
		cl.sync(&sync3.Request{})
		w.joined[id] = false
		w.s.respond(sA, "D", sLeave(id, sMember("$l", sA, "leave", 99)))
		vCover("left")
	}
	cl.sync(req())
	want := map[string]bool{s1: true}
	for id := w.pred[s1]; id != "" && w.joined[id] && !want[id]; id = w.pred[id] {
		want[id] = true
		vCover("old room")
	}
	for _, id := range ids {
		got := cl.room[id] != nil
		vAssert(got == want[id], "the old rooms are those before the room which the user is in")
		if got {
			vAssert(cl.room[id].initials == 1 && len(cl.room[id].timeline) == 1, "an old room is sent with its timeline")
		}
	}
	vCover("done")
}
