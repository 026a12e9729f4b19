package handler

import (
	"encoding/json"
	"fmt"

	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// Redactions: what they remove is gone for everyone who has not seen it yet, and nothing else is.

type vReEvent struct {
	id       string
	room     string
	kind     string // message, name
	text     string
	redacted bool
}

type vReWorld struct {
	s   *vSys
	c   *vClient
	ts  int
	top bool // form of redactions
	evs []*vReEvent
}

func (w *vReWorld) req() *sync3.Request {
	return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: 6, RequiredState: [][2]string{{"m.room.name", ""}, {"m.room.member", sA}}}, Sort: []string{sync3.SortByRecency}}}}
}

func (w *vReWorld) ev(room, kind string) json.RawMessage {
	w.ts++
	e := &vReEvent{id: fmt.Sprintf("$%s%d", kind, w.ts), room: room, kind: kind, text: fmt.Sprintf("text %d", w.ts)}
	w.evs = append(w.evs, e)
	if kind == "name" {
		return sStateEv(e.id, "m.room.name", "", sA, w.ts, vObj(vKV("name", e.text)))
	}
	return sEvent(e.id, "m.room.message", sA, nil, w.ts, vObj(vKV("body", e.text)))
}

// redaction of the last event of a kind in a room, sent in another room possibly
func (w *vReWorld) redaction(in, room, kind string) json.RawMessage {
	w.ts++
	target := "$unknown"
	for i := len(w.evs) - 1; i >= 0; i-- {
		if e := w.evs[i]; e.room == room && e.kind == kind {
			target = e.id
			if in == room {
				e.redacted = true
			}
			break
		}
	}
	top := w.top
	content := vObj(vKVIf(!top, "redacts", target), vKV("reason", "because"))
	return vObj(vKV("event_id", fmt.Sprintf("$r%d", w.ts)), vKV("type", "m.room.redaction"), vKV("sender", sA), vKV("origin_server_ts", w.ts), vKVIf(top, "redacts", target), vKV("content", content))
}

func (w *vReWorld) name(room string) string {
	n := ""
	for _, e := range w.evs {
		if e.room == room && e.kind == "name" {
			n = e.text
			if e.redacted {
				n = ""
			}
		}
	}
	return n
}

// check compares what a client has with what there is; a new client must not see what has been redacted.
func (w *vReWorld) check(c *vClient, fresh bool) {
	for _, room := range []string{s1, s2} {
		r := c.room[room]
		vAssert(r != nil, "the room is shown")
		if n := w.name(room); n != "" {
			vAssert(r.name == n, "the name of the room is the current one")
		} else {
			for _, e := range w.evs {
				vAssert(r.name != e.text, "a redacted name is not the room's name")
			}
		}
		if !fresh {
			continue
		}
		byID := map[string]json.RawMessage{}
		for _, ev := range r.last.Timeline {
			byID[gjson.GetBytes(ev, "event_id").Str] = ev
		}
		for _, ev := range r.last.RequiredState {
			id := gjson.GetBytes(ev, "event_id").Str
			if gjson.GetBytes(ev, "type").Str == "m.room.name" {
				byID[id] = ev
			} else {
				vAssert(gjson.GetBytes(ev, "content.membership").Str == "join", "memberships stay")
			}
		}
		last := ""
		for _, e := range w.evs {
			if e.room == room && e.kind == "name" {
				last = e.id
			}
		}
		if last != "" {
			vAssert(byID[last] != nil, "the state event is still there")
		}
		for _, e := range w.evs {
			ev := byID[e.id]
			if ev == nil {
				continue
			}
			vAssert(e.room == room, "the event is the room's")
			got := gjson.GetBytes(ev, "content.body").Str + gjson.GetBytes(ev, "content.name").Str
			if e.redacted {
				vAssert(got == "", "redacted content is not shown")
				vAssert(gjson.GetBytes(ev, "unsigned.redacted_because.type").Str == "m.room.redaction", "redacted events say so")
				vCover("redacted")
			} else {
				vAssert(got == e.text, "what was not redacted is shown")
				vAssert(!gjson.GetBytes(ev, "unsigned.redacted_because").Exists(), "only redacted events say so")
				vCover("not redacted")
			}
		}
	}
}

func (w *vReWorld) verify() {
	w.c.settle(w.req)
	w.check(w.c, false)
	w.fresh()
}

func (w *vReWorld) fresh() {
	f := w.s.connect(sA, "F")
	f.settle(w.req)
	// everything comes with the first response
	w.check(f, true)
	w.s.h.ConnMap.CloseConnsForDevice(sA, "F")
}

func vhSysRedact() {
	s := vNewSys(vDB())
	w := &vReWorld{s: s, ts: 10, top: vChoose("form", 2) == 0}
	st := func(room string) []json.RawMessage {
		return []json.RawMessage{sCreate("$c"+room, 1), sMember("$j"+room, sA, "join", 2)}
	}
	rooms := map[string]sync2.SyncV2JoinResponse{}
	for _, room := range []string{s1, s2} {
		rooms[room] = sync2.SyncV2JoinResponse{State: sync2.EventsResponse{Events: st(room)}, Timeline: sync2.TimelineResponse{Events: []json.RawMessage{w.ev(room, "name"), w.ev(room, "message")}}}
	}
	s.poller(sA, "D", &sync2.SyncResponse{Rooms: sync2.SyncRoomsResponse{Join: rooms}})
	s.boot()
	w.c = s.connect(sA, "D")
	w.c.settle(w.req)
	n := vPick(3, 4)
	for i := 0; i < n; i++ {
		var evs []json.RawMessage
		switch vChoose("step", 4) {
		case 0: // redacted
			evs = append(evs, w.redaction(s1, s1, []string{"message", "name"}[vChoose("kind", 2)]))
		case 1: // someone in this room redacts in another
			evs = append(evs, w.redaction(s1, s2, []string{"message", "name", "no such"}[vChoose("kind", 3)]))
			vCover("other room")
		case 2: // sent, and perhaps redacted at once
			kind := []string{"message", "name"}[vChoose("kind", 2)]
			evs = append(evs, w.ev(s1, kind))
			if vChoose("redacted", 2) == 1 {
				evs = append(evs, w.redaction(s1, s1, kind))
				vCover("at once")
			}
		case 3:
			w.c.settle(w.req)
			w.check(w.c, false)
			vCover("caught up")
			continue
		}
		s.respond(sA, "D", sJoin(s1, nil, evs...))
	}
	w.verify()
	s.boot()
	w.fresh()
	vCover("done")
}
