package handler

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// The regular clean-up of the database: clients do not notice it.

type vClWorld struct {
	s     *vSys
	c     *vClient
	ts    int
	state map[string]map[string]string // room -> type and key -> event ID
	tl    map[string][]string          // room -> what its timeline has since the last gap
	txns  int
}

const vClLimit = 2

func (w *vClWorld) req() *sync3.Request {
	return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: 10, RequiredState: [][2]string{{"*", "*"}}}, Sort: []string{sync3.SortByRecency}}}}
}

func (w *vClWorld) set(room, typ, key string, content json.RawMessage) json.RawMessage {
	w.ts++
	id := fmt.Sprintf("$%d", w.ts)
	w.state[room][typ+"|"+key] = id
	return sStateEv(id, typ, key, sA, w.ts, content)
}

func (w *vClWorld) name(room string) json.RawMessage {
	return w.set(room, "m.room.name", "", vObj(vKV("name", fmt.Sprintf("name %d", w.ts))))
}

func (w *vClWorld) msg() json.RawMessage {
	w.ts++
	return sMsg(fmt.Sprintf("$%d", w.ts), sA, w.ts)
}

func (w *vClWorld) timeline(room string, evs ...json.RawMessage) {
	for _, ev := range evs {
		w.tl[room] = append(w.tl[room], gjson.GetBytes(ev, "event_id").Str)
	}
}

func (w *vClWorld) fresh() {
	f := w.s.connect(sA, "F")
	f.settle(w.req)
	for _, room := range []string{s1, s2} {
		r := f.room[room]
		vAssert(r != nil, "the room is shown")
		got := map[string]string{}
		for _, ev := range r.last.RequiredState {
			k := gjson.GetBytes(ev, "type").Str + "|" + gjson.GetBytes(ev, "state_key").Str
			vAssert(got[k] == "", "each piece of state comes once")
			got[k] = gjson.GetBytes(ev, "event_id").Str
		}
		for k, id := range w.state[room] {
			vAssert(got[k] == id, "the current state of the room is shown")
		}
		vAssert(len(got) == len(w.state[room]), "only the current state of the room is shown")
		want := w.tl[room]
		if len(want) > vClLimit {
			want = want[len(want)-vClLimit:]
		}
		vAssert(len(r.timeline) == len(want), "the timeline has the latest events")
		for i := range want {
			vAssert(r.timeline[i] == want[i], "the timeline has the latest events, in order")
		}
	}
	w.s.h.ConnMap.CloseConnsForDevice(sA, "F")
}

// the client which is there all along has every event after those it began with
func (w *vClWorld) old() {
	if w.s.h.ConnMap.Conn(w.c.id) != w.c.conn { // after a gap
		w.c.open()
	}
	w.c.settle(w.req)
	for _, room := range []string{s1, s2} {
		got := w.c.room[room].timeline
		want := w.tl[room]
		vAssert(len(got) > 0, "there is a timeline")
		if len(got) > len(want) {
			got = got[len(got)-len(want):]
		}
		want = want[len(want)-len(got):]
		for i := range got {
			vAssert(got[i] == want[i], "the timeline of a connected client has all events in order")
		}
	}
}

func (w *vClWorld) clean() {
	vSettle()
	vFireTimers() // the hour is over
	vSettle()
	var n int
	vAssert(w.s.db.Get(&n, `SELECT count(*) FROM syncv3_snapshots WHERE room_id=$1`, s1) == nil, "query")
	vAssert(n <= vClLimit+1, "states which are not needed any more are removed")
	if w.txns > 0 {
		ids := []string{"$new", "$old"}
		m, err := w.s.store.TransactionsTable.Select(sA, "D", ids)
		vAssert(err == nil, "query")
		vAssert(m["$new"] == "tnew", "transaction IDs are kept for an hour")
		vAssert(m["$old"] == "", "older transaction IDs are removed")
		vCover("transaction IDs")
	}
}

func vhSysClean() {
	vClock()
	s := vNewSys(vDB())
	s.store.MaxTimelineLimit = vClLimit
	w := &vClWorld{s: s, ts: 10, state: map[string]map[string]string{s1: {}, s2: {}}, tl: map[string][]string{}}
	rooms := map[string]sync2.SyncV2JoinResponse{}
	for _, room := range []string{s1, s2} {
		st := []json.RawMessage{w.set(room, "m.room.create", "", vObj(vKV("room_version", "10"))), w.set(room, "m.room.member", sA, vObj(vKV("membership", "join")))}
		tl := []json.RawMessage{w.name(room), w.msg()}
		w.timeline(room, tl...)
		rooms[room] = sync2.SyncV2JoinResponse{State: sync2.EventsResponse{Events: st}, Timeline: sync2.TimelineResponse{Events: tl}}
	}
	s.poller(sA, "D", &sync2.SyncResponse{Rooms: sync2.SyncRoomsResponse{Join: rooms}})
	s.boot()
	go s.store.Cleaner(time.Hour)
	w.c = s.connect(sA, "D")
	w.c.settle(w.req)
	n := vPick(4, 5)
	for i := 0; i < n; i++ {
		switch vChoose("step", 6) {
		case 0:
			ev := w.msg()
			w.timeline(s1, ev)
			s.respond(sA, "D", sJoin(s1, nil, ev))
		case 1: // several state changes at once
			evs := []json.RawMessage{w.name(s1), w.set(s1, "m.room.topic", "", vObj(vKV("topic", "x"))), w.name(s1)}
			w.timeline(s1, evs...)
			s.respond(sA, "D", sJoin(s1, nil, evs...))
			vCover("state")
		case 2:
			ev := w.set(s1, "m.room.member", sB, vObj(vKV("membership", "join")))
			w.timeline(s1, ev)
			s.respond(sA, "D", sJoin(s1, nil, ev))
		case 3: // a gap
			st := []json.RawMessage{w.name(s1), w.set(s1, "m.room.avatar", "", vObj(vKV("url", "x")))}
			ev := w.msg()
			w.tl[s1] = nil
			w.timeline(s1, ev)
			s.respond(sA, "D", &sync2.SyncResponse{Rooms: sync2.SyncRoomsResponse{Join: map[string]sync2.SyncV2JoinResponse{s1: {State: sync2.EventsResponse{Events: st}, Timeline: sync2.TimelineResponse{Events: []json.RawMessage{ev}, Limited: true, PrevBatch: "p"}}}}})
			vCover("gap")
		case 4: // in the other room
			evs := []json.RawMessage{w.name(s2), w.msg()}
			w.timeline(s2, evs...)
			s.respond(sA, "D", sJoin(s2, nil, evs...))
		case 5:
			if w.txns == 0 {
				vAssert(s.store.TransactionsTable.Insert(sA, "D", map[string]string{"$new": "tnew", "$old": "told"}) == nil, "insert")
				ago := time.Now().Add(-2 * time.Hour).UnixMilli()
				s.db.MustExec(`UPDATE syncv3_txns SET ts=$1 WHERE event_id='$old'`, ago)
				w.txns++
			}
			w.clean()
			w.old()
			w.fresh()
			vCover("cleaned")
		}
	}
	w.clean()
	w.old()
	w.fresh()
	s.boot()
	w.fresh()
	vCover("done")
}
