package handler

import (
	"encoding/json"
	"fmt"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

type vGRoom struct {
	id     string
	name   string
	tail   []string // the events since the last gap
	joined map[string]bool
	enc    bool
	repl   bool
	kids   map[string]bool
	ts     int
	n      int
}

// vGWorld: rooms whose pollers miss some events, and get the state which these left instead.
type vGWorld struct {
	s     *vSys
	ts    int
	rooms []*vGRoom
	two   bool
}

func (w *vGWorld) ev(typ, sk string, content json.RawMessage) json.RawMessage {
	w.ts++
	return sStateEv(fmt.Sprintf("$s%d", w.ts), typ, sk, sB, w.ts, content)
}

func (w *vGWorld) add(id, typ, name string) *vGRoom {
	n := id[1:2]
	r := &vGRoom{id: id, name: name, joined: map[string]bool{sA: true, sB: true}, kids: map[string]bool{}}
	w.rooms = append(w.rooms, r)
	w.ts++
	r.ts = w.ts
	m := fmt.Sprintf("$m%d", w.ts)
	r.tail = append(r.tail, m)
	w.s.respond(sA, "D", sJoin(id, []json.RawMessage{
		sStateEv("$c"+n, "m.room.create", "", sB, 1, vObj(vKV("room_version", "10"), vKVIf(typ != "", "type", typ))),
		sMember("$a"+n, sA, "join", 2), sMember("$b"+n, sB, "join", 3), sStateEv("$n"+n, "m.room.name", "", sB, 4, vObj(vKV("name", name))),
	}, sMsg(m, sB, w.ts)))
	return r
}

// change makes an event which changes the state of a room.
func (w *vGWorld) change() (*vGRoom, json.RawMessage) {
	r := w.rooms[0]
	switch vChoose("change", 6) {
	case 0:
		r.name = fmt.Sprintf("n%d", w.ts)
		vCover("name")
		return r, w.ev("m.room.name", "", vObj(vKV("name", r.name)))
	case 1:
		r.joined[sC] = !r.joined[sC]
		m, was := "leave", "join"
		if r.joined[sC] {
			m, was = "join", "leave"
		}
		w.ts++
		vCover("member")
		return r, vObj(vKV("event_id", fmt.Sprintf("$s%d", w.ts)), vKV("type", "m.room.member"), vKV("state_key", sC), vKV("sender", sC), vKV("origin_server_ts", w.ts),
			vKV("content", vObj(vKV("membership", m))), vKV("unsigned", vObj(vKV("prev_content", vObj(vKV("membership", was))))))
	case 2:
		r.enc = true
		vCover("encrypted")
		return r, w.ev("m.room.encryption", "", vObj(vKV("algorithm", "x")))
	case 3:
		r.repl = true
		vCover("replaced")
		return r, w.ev("m.room.tombstone", "", vObj(vKV("replacement_room", s2)))
	case 4:
		sp := w.rooms[2]
		sp.kids[s1] = !sp.kids[s1]
		vCover("child")
		return sp, w.ev("m.space.child", s1, vObj(vKVIf(sp.kids[s1], "via", []string{"h"})))
	}
	sp := w.rooms[2]
	sp.name = fmt.Sprintf("n%d", w.ts)
	vCover("space name")
	return sp, w.ev("m.room.name", "", vObj(vKV("name", sp.name)))
}

func (w *vGWorld) msg(r *vGRoom) json.RawMessage {
	w.ts++
	r.ts = w.ts
	id := fmt.Sprintf("$m%d", w.ts)
	r.tail = append(r.tail, id)
	return sMsg(id, sB, w.ts)
}

func (w *vGWorld) req() *sync3.Request {
	yes := true
	rs := sync3.RoomSubscription{TimelineLimit: 20}
	rg := sync3.SliceRanges{{0, 9}}
	by := []string{sync3.SortByRecency}
	return &sync3.Request{Lists: map[string]sync3.RequestList{
		"all":   {Ranges: rg, RoomSubscription: rs, Sort: by},
		"enc":   {Ranges: rg, RoomSubscription: rs, Sort: by, Filters: &sync3.RequestFilters{IsEncrypted: &yes}},
		"space": {Ranges: rg, RoomSubscription: rs, Sort: by, Filters: &sync3.RequestFilters{Spaces: []string{s3}}},
	}}
}

func (w *vGWorld) pull(c *vClient) {
	if w.s.h.ConnMap.Conn(c.id) != c.conn {
		c.open()
		vCover("reconnected")
	}
	c.settle(w.req)
}

func (w *vGWorld) check(c *vClient) {
	order := append([]*vGRoom{}, w.rooms...)
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if order[j].ts > order[i].ts {
				order[i], order[j] = order[j], order[i]
			}
		}
	}
	for _, key := range []string{"all", "enc", "space"} {
		i := 0
		for _, r := range order {
			if r.repl || (key == "enc" && !r.enc) || (key == "space" && !w.rooms[2].kids[r.id]) {
				continue
			}
			vAssert(c.list[key][i] == r.id, "a list shows the rooms which match its filter, in order")
			i++
		}
		vAssert(c.n[key] == i, "a list counts the rooms which match its filter")
	}
	for _, r := range w.rooms {
		if r.repl {
			continue
		}
		cr := c.room[r.id]
		vAssert(cr != nil && cr.name == r.name, "the name of the room")
		n := 0
		for _, in := range r.joined {
			if in {
				n++
			}
		}
		vAssert(cr.joined == n, "the number of members")
		vAssert(len(cr.timeline) > 0 && len(cr.timeline) <= len(r.tail), "the timeline does not reach across the gap")
		for k := range cr.timeline {
			vAssert(cr.timeline[k] == r.tail[len(r.tail)-len(cr.timeline)+k], "the timeline has the last events, without gaps or repeats")
		}
	}
}

// vhSysGap: what a gap in the events hid is made up for by the state which comes with it.
func vhSysGap() {
	s := vNewSys(vDB())
	w := &vGWorld{s: s, ts: 10}
	s.poller(sA, "D", &sync2.SyncResponse{})
	w.add(s1, "", "one")
	w.add(s2, "", "two")
	w.add(s3, "m.space", "space")
	s.poller(sB, "D", &sync2.SyncResponse{})
	s.boot()
	c := s.connect(sA, "D")
	w.pull(c)
	w.check(c)
	for i := 0; i < vPick(2, 3); i++ {
		r, ev := w.change()
		switch vChoose("how", 4) {
		case 0:
			// in the timeline
			r.ts = w.ts
			r.tail = append(r.tail, fmt.Sprintf("$s%d", w.ts))
			s.respond(sA, "D", sJoin(r.id, nil, ev))
			vCover("live")
		case 1:
			// in the state before a timeline with a gap
			r.tail = nil
			resp := sJoin(r.id, []json.RawMessage{ev}, w.msg(r))
			j := resp.Rooms.Join[r.id]
			j.Timeline.Limited = true
			j.Timeline.PrevBatch = "p"
			resp.Rooms.Join[r.id] = j
			s.respond(sA, "D", resp)
			vCover("gap")
		case 2:
			// the same, and it had been missed while being offline: the client has caught up
			w.pull(c)
			r.tail = nil
			resp := sJoin(r.id, []json.RawMessage{ev}, w.msg(r), w.msg(r))
			j := resp.Rooms.Join[r.id]
			j.Timeline.Limited = true
			resp.Rooms.Join[r.id] = j
			s.respond(sA, "D", resp)
			w.pull(c)
			w.check(c)
		case 3:
			// another user's poller saw it, so the gap hides nothing
			r.ts = w.ts
			r.tail = append(r.tail, fmt.Sprintf("$s%d", w.ts))
			s.respond(sB, "D", sJoin(r.id, nil, ev))
			if vChoose("between", 2) == 1 {
				w.pull(c)
				w.check(c)
			}
			resp := sJoin(r.id, []json.RawMessage{ev}, w.msg(r))
			j := resp.Rooms.Join[r.id]
			j.Timeline.Limited = true
			resp.Rooms.Join[r.id] = j
			s.respond(sA, "D", resp)
			vCover("seen by another")
		}
	}
	w.pull(c)
	w.check(c)
	c2 := s.connect(sA, "E")
	w.pull(c2)
	w.check(c2)
	s.boot()
	c3 := s.connect(sA, "F")
	w.pull(c3)
	w.check(c3)
	vCover("done")
}
