package handler

import (
	"encoding/json"
	"fmt"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// vBWorld: rooms with the times of their last events of each kind.
type vBWorld struct {
	s     *vSys
	ts    int
	rooms []string
	last  map[string]map[string]int // room -> type -> when, since the user joined
	join  map[string]int
	lists map[string][]string // list -> what counts
	conn  map[string]uint64
}

func (w *vBWorld) when(room string, types []string) int {
	at := w.join[room]
	if len(types) == 0 {
		for _, ts := range w.last[room] {
			if ts > at {
				at = ts
			}
		}
		return at
	}
	for _, t := range types {
		if w.last[room][t] > at {
			at = w.last[room][t]
		}
	}
	return at
}

func (w *vBWorld) req() *sync3.Request {
	r := &sync3.Request{Lists: map[string]sync3.RequestList{}}
	for key, types := range w.lists {
		r.Lists[key] = sync3.RequestList{Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: 1}, Sort: []string{sync3.SortByRecency}, BumpEventTypes: types}
	}
	return r
}

func (w *vBWorld) pull(c *vClient) {
	for i := 0; i < 8; i++ {
		res := c.sync(w.req())
		for id, r := range res.Rooms {
			if r.Timestamp > 0 {
				w.conn[id] = r.Timestamp
			}
		}
		if res.ListOps() == 0 && len(res.Rooms) == 0 {
			return
		}
	}
	vAssert(false, "the client catches up")
}

func (w *vBWorld) check(c *vClient) {
	var all []string
	for key, types := range w.lists {
		all = append(all, types...)
		l := append([]string{}, w.rooms...)
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if w.when(l[j], types) > w.when(l[i], types) {
					l[i], l[j] = l[j], l[i]
				}
			}
		}
		for i, id := range l {
			vAssert(c.list[key][i] == id, "rooms are in the order of the last event which counts")
		}
		vAssert(c.n[key] == len(l), "the list counts the rooms")
	}
	for _, id := range w.rooms {
		vAssert(w.conn[id] == uint64(w.when(id, all)), "a room comes with the time of the last event which counts")
	}
}

func (w *vBWorld) send(room string, typ string) json.RawMessage {
	w.ts++
	w.last[room][typ] = w.ts
	id := fmt.Sprintf("$e%d", w.ts)
	if typ == "m.room.topic" {
		return sStateEv(id, typ, "", sB, w.ts, vObj(vKV("topic", id)))
	}
	return sEvent(id, typ, sB, nil, w.ts, vObj(vKV("body", id)))
}

// vhSysBump: lists are sorted by the events which the client says count.
func vhSysBump() {
	s := vNewSys(vDB())
	w := &vBWorld{s: s, ts: 20, last: map[string]map[string]int{}, join: map[string]int{}, conn: map[string]uint64{}}
	s.poller(sA, "D", &sync2.SyncResponse{})
	s.poller(sB, "D", &sync2.SyncResponse{})
	for i, id := range []string{s1, s2, s3} {
		n := id[1:2]
		w.rooms = append(w.rooms, id)
		w.last[id] = map[string]int{}
		if i == 0 {
			// there were events before the user joined
			s.respond(sB, "D", sJoin(id, []json.RawMessage{sCreate("$c"+n, 1), sMember("$b"+n, sB, "join", 2)}, w.send(id, "m.room.message"), w.send(id, "m.room.topic")))
			w.last[id] = map[string]int{}
		}
		w.ts++
		w.join[id] = w.ts
		st := []json.RawMessage{sCreate("$c"+n, 1), sMember("$b"+n, sB, "join", 2)}
		s.respond(sA, "D", sJoin(id, st, sMember("$a"+n, sA, "join", w.ts)))
		w.last[id]["m.room.member"] = w.ts
	}
	switch vChoose("lists", 4) {
	case 0:
		w.lists = map[string][]string{"l": {"m.room.message"}}
	case 1:
		w.lists = map[string][]string{"l": {"m.room.topic", "m.x"}}
	case 2:
		w.lists = map[string][]string{"l": {"m.room.message"}, "k": nil}
	case 3:
		w.lists = map[string][]string{"l": {"m.room.topic"}, "k": {"m.room.message"}}
	}
	if vChoose("before", 2) == 1 {
		id := w.rooms[vChoose("room", 2)]
		s.respond(sA, "D", sJoin(id, nil, w.send(id, "m.room.message"), w.send(id, "m.x")))
		vCover("before")
	}
	s.boot()
	c := s.connect(sA, "D")
	w.pull(c)
	w.check(c)
	for i := 0; i < vPick(2, 3); i++ {
		id := w.rooms[vChoose("room", 2)]
		switch vChoose("step", 4) {
		case 0:
			s.respond(sA, "D", sJoin(id, nil, w.send(id, "m.room.message")))
			vCover("message")
		case 1:
			s.respond(sA, "D", sJoin(id, nil, w.send(id, "m.room.topic")))
			vCover("state")
		case 2:
			s.respond(sA, "D", sJoin(id, nil, w.send(id, "m.room.message"), w.send(id, "m.y")))
			vCover("two")
		case 3:
			vAssume(id == s1)
			w.pull(c)
			w.check(c)
		}
	}
	w.pull(c)
	w.check(c)
	w.conn = map[string]uint64{}
	c2 := s.connect(sA, "E")
	w.pull(c2)
	w.check(c2)
	s.boot()
	w.conn = map[string]uint64{}
	c3 := s.connect(sA, "F")
	w.pull(c3)
	w.check(c3)
	vCover("done")
}
