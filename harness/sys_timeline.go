package handler

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// vTLWorld: rooms with a known sequence of timeline events, and a client's window on them.
type vTLWorld struct {
	s      *vSys
	c      *vClient
	ts     int
	events map[string][]string
	lastTS map[string]int
	rooms  []string // the rooms the user is in
	two    bool     // a second member is polled for: everything is delivered twice
	// the client's request
	ranges sync3.SliceRanges
	limit  int64
	all    bool
	none   bool // no lists
	sub    map[string]int64
	since  map[string]int // how many events of a room there were when the client subscribed
}

func (w *vTLWorld) ev(room string) json.RawMessage {
	w.ts++
	id := fmt.Sprintf("$m%d", w.ts)
	w.events[room] = append(w.events[room], id)
	w.lastTS[room] = w.ts
	return sMsg(id, sB, w.ts)
}

func (w *vTLWorld) deliver(room string, state []json.RawMessage, evs ...json.RawMessage) {
	w.s.respond(sA, "D", sJoin(room, state, evs...))
	if w.two {
		w.s.respond(sB, "D", sJoin(room, state, evs...))
	}
}

func (w *vTLWorld) newRoom(room string) {
	n := room[1:2]
	w.ts += 3
	w.rooms = append(w.rooms, room)
	w.deliver(room, []json.RawMessage{sCreate("$c"+n, w.ts-2), sMember("$a"+n, sA, "join", w.ts-1), sMember("$b"+n, sB, "join", w.ts)}, w.ev(room))
}

func (w *vTLWorld) req() *sync3.Request {
	l := sync3.RequestList{Ranges: w.ranges, RoomSubscription: sync3.RoomSubscription{TimelineLimit: w.limit}, Sort: []string{sync3.SortByRecency}}
	if w.all {
		t := true
		l.Ranges, l.SlowGetAllRooms = nil, &t
	}
	r := &sync3.Request{}
	if !w.none {
		r.Lists = map[string]sync3.RequestList{"l": l}
	}
	for room, n := range w.sub {
		if n < 0 {
			r.UnsubscribeRooms = append(r.UnsubscribeRooms, room)
			delete(w.sub, room)
			continue
		}
		if r.RoomSubscriptions == nil {
			r.RoomSubscriptions = map[string]sync3.RoomSubscription{}
		}
		r.RoomSubscriptions[room] = sync3.RoomSubscription{TimelineLimit: n}
	}
	return r
}

// order is the list as it has to be: the most recently active room first.
func (w *vTLWorld) order() []string {
	l := append([]string{}, w.rooms...)
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if w.lastTS[l[j]] > w.lastTS[l[i]] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func (w *vTLWorld) checkRoom(id string, limit int64) {
	r := w.c.room[id]
	vAssert(r != nil && r.initials > 0, "a visible room was sent in full")
	all := w.events[id]
	want := int(limit)
	if want > len(all) {
		want = len(all)
	}
	if _, ok := w.sub[id]; w.none && ok && want < len(all)-w.since[id] {
		want = len(all) - w.since[id]
	}
	vAssert(len(r.timeline) >= want, "a visible room has at least as many events as asked for")
	vAssert(len(r.timeline) <= len(all), "a room has no more events than were sent")
	for k := range r.timeline {
		vAssert(r.timeline[k] == all[len(all)-len(r.timeline)+k], "the timeline of a visible room ends with the last event, without gaps or repeats")
	}
}

func (w *vTLWorld) check() {
	order := w.order()
	if w.none {
		order = nil
	}
	vAssert(w.c.n["l"] == len(order), "the list counts the rooms")
	for i, id := range order {
		in := w.all
		if !w.all {
			for _, r := range w.ranges {
				in = in || (int64(i) >= r[0] && int64(i) <= r[1])
			}
			if in {
				vAssert(w.c.list["l"][i] == id, "the window shows the rooms in the order of their last activity")
			} else {
				vAssert(w.c.list["l"][i] == "", "nothing is known of positions outside the window")
			}
		}
		if in {
			w.checkRoom(id, w.limit)
		}
	}
	for id, n := range w.sub {
		if _, ok := w.events[id]; ok {
			w.checkRoom(id, n)
		}
	}
}

// blocked starts a request, which waits, and then lets something happen.
func (w *vTLWorld) blocked(f func()) {
	done := make(chan bool, 1)
	go func() {
		w.c.sync(w.req())
		done <- true
	}()
	f()
	<-done
}

// lost makes a request whose response is lost, lets something happen and repeats the request.
func (w *vTLWorld) lost(f func()) {
	c := w.c
	req := w.req()
	req.SetPos(int64(c.pos))
	req.SetTimeoutMSecs(1)
	_, herr := c.conn.OnIncomingRequest(context.Background(), req, time.Now())
	vAssert(herr == nil, "the request succeeds")
	f()
	again := *req
	c.sync(&again)
}

func (w *vTLWorld) pick() string { return w.rooms[vChoose("room", len(w.rooms))] }

func vTimeline(rooms int, two bool) *vTLWorld {
	s := vNewSys(vDB())
	w := &vTLWorld{s: s, ts: 10, events: map[string][]string{}, lastTS: map[string]int{}, sub: map[string]int64{}, since: map[string]int{}, two: two, limit: 2, ranges: sync3.SliceRanges{{0, 0}}}
	s.poller(sA, "D", &sync2.SyncResponse{})
	if two {
		s.poller(sB, "D", &sync2.SyncResponse{})
	}
	for _, r := range []string{s1, s2, s3}[:rooms] {
		w.newRoom(r)
	}
	w.deliver(s1, nil, w.ev(s1), w.ev(s1))
	s.boot()
	w.c = s.connect(sA, "D")
	return w
}

// vhSysWindow: a sliding window on a list.
func vhSysWindow() {
	w := vTimeline(3, false)
	w.c.sync(w.req())
	w.check()
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 6) {
		case 0:
			room := w.pick()
			w.deliver(room, nil, w.ev(room))
		case 1:
			room := w.pick()
			w.deliver(room, nil, w.ev(room), w.ev(room), w.ev(room))
			vCover("burst")
		case 2:
			w.c.settle(w.req)
			w.check()
		case 3:
			w.ranges = []sync3.SliceRanges{{{0, 1}}, {{1, 2}}, {{0, 0}, {2, 2}}, {{0, 9}}}[vChoose("window", 4)]
			w.c.sync(w.req())
			vCover("window")
		case 4:
			w.blocked(func() { room := w.pick(); w.deliver(room, nil, w.ev(room)) })
			vCover("blocked")
		case 5:
			w.lost(func() { room := w.pick(); w.deliver(room, nil, w.ev(room)) })
			vCover("lost")
		}
	}
	w.c.settle(w.req)
	w.check()
	vCover("done")
}

// vhSysSubs: a list with room subscriptions, changing limits and new rooms.
func vhSysSubs() {
	w := vTimeline(2, true)
	w.all = vChoose("all", 2) == 1
	w.c.sync(w.req())
	w.check()
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 7) {
		case 0:
			room := w.pick()
			w.deliver(room, nil, w.ev(room))
		case 1:
			w.c.settle(w.req)
			w.check()
		case 2:
			room := []string{s1, s2, s3}[vChoose("room", 3)]
			if _, ok := w.sub[room]; ok {
				w.sub[room] = -1
				vCover("unsubscribe")
			} else {
				w.sub[room] = 3
				w.since[room] = len(w.events[room])
				vCover("subscribe")
			}
			w.c.sync(w.req())
		case 3:
			w.limit = 5 - w.limit
			w.c.sync(w.req())
			vCover("limit")
		case 4:
			vAssume(len(w.rooms) == 2)
			w.newRoom(s3)
			vCover("new room")
		case 5:
			w.blocked(func() { room := w.pick(); w.deliver(room, nil, w.ev(room), w.ev(room)) })
			vCover("blocked")
		case 6:
			w.lost(func() { room := w.pick(); w.deliver(room, nil, w.ev(room)) })
			vCover("lost")
		}
	}
	w.c.settle(w.req)
	w.check()
	vCover("done")
}

// vhSysOnlySubs: no lists, only room subscriptions.
func vhSysOnlySubs() {
	w := vTimeline(2, vChoose("two", 2) == 1)
	w.none = true
	w.c.sync(w.req())
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 4) {
		case 0:
			room := w.pick()
			w.deliver(room, nil, w.ev(room))
		case 1:
			w.c.settle(w.req)
			w.check()
		case 2:
			room := w.pick()
			if _, ok := w.sub[room]; ok {
				w.sub[room] = -1
				vCover("unsubscribe")
			} else {
				w.sub[room] = []int64{0, 1, 3}[vChoose("events", 3)]
				w.since[room] = len(w.events[room])
				vCover("subscribe")
			}
			w.c.sync(w.req())
		case 3:
			vAssume(len(w.sub) > 0)
			w.blocked(func() { room := w.pick(); w.deliver(room, nil, w.ev(room), w.ev(room)) })
			vCover("blocked")
		}
	}
	w.c.settle(w.req)
	w.check()
	for room := range w.c.room {
		if _, ok := w.sub[room]; !ok {
			vAssert(len(w.c.room[room].timeline) <= len(w.events[room]), "a room has no more events than were sent")
		}
	}
	vCover("done")
}

// vhSysLag: the client side lags behind the database, where there may be more than it has been told of.
func vhSysLag() {
	w := vTimeline(2, vChoose("two", 2) == 1)
	w.all = vChoose("all", 2) == 1
	ps := w.s.ps
	connected := vChoose("connected", 2) == 1
	if connected {
		w.c.sync(w.req())
		w.check()
	}
	ps.hold = true
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 6) {
		case 0:
			room := w.pick()
			w.deliver(room, nil, w.ev(room))
		case 1:
			// one notification more arrives
			vAssume(len(ps.wait) > 0)
			ps.release(1)
			vCover("lag")
		case 2:
			w.c.sync(w.req())
		case 3:
			room := []string{s1, s2}[vChoose("room", 2)]
			_, ok := w.sub[room]
			vAssume(!ok)
			w.sub[room] = 3
			w.since[room] = len(w.events[room])
			w.c.sync(w.req())
			vCover("subscribe")
		case 4:
			vAssume(!w.all)
			w.ranges = sync3.SliceRanges{{0, 1}}
			w.c.sync(w.req())
			vCover("window")
		case 5:
			vAssume(len(w.rooms) == 2)
			w.newRoom(s3)
			vCover("new room")
		}
	}
	ps.hold = false
	ps.release(-1)
	w.c.settle(w.req)
	w.check()
	vCover("done")
}
