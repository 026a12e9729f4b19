package handler

import (
	"encoding/json"

	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/pubsub"
	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/sync3/extensions"
)

// vFWorld: the client side does not take part in the faults, which hit the poller side only.
type vFWorld struct {
	s       *vSys
	c       *vClient
	acc     map[string]string
	dev     []string
	devices map[string]bool
}

func (w *vFWorld) quiet() {
	f := w.s.ps.fn[pubsub.ChanV2]
	w.s.ps.fn[pubsub.ChanV2] = func(p pubsub.Payload) {
		n := vSQLFaultsLeft()
		vSQLFaults(0)
		f(p)
		vSQLFaults(n)
	}
}

func (w *vFWorld) req() *sync3.Request {
	yes := true
	return &sync3.Request{
		Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: 9}, Sort: []string{sync3.SortByRecency}}},
		Extensions: extensions.Request{
			AccountData: &extensions.AccountDataRequest{Core: extensions.Core{Enabled: &yes}},
		},
	}
}

func (w *vFWorld) pull() {
	if w.s.h.ConnMap.Conn(w.c.id) != w.c.conn {
		// the connection was closed, the client makes a new one
		w.c.open()
		w.acc = map[string]string{}
		vCover("reconnected")
	}
	for i := 0; i < 8; i++ {
		res := w.c.sync(w.req())
		if x := res.Extensions.AccountData; x != nil {
			for _, ev := range x.Global {
				w.acc[gjson.GetBytes(ev, "type").Str] = gjson.GetBytes(ev, "content.v").Str
			}
			for id, evs := range x.Rooms {
				for _, ev := range evs {
					w.acc[id+gjson.GetBytes(ev, "type").Str] = gjson.GetBytes(ev, "content.v").Str
				}
			}
		}
		if res.ListOps() == 0 && len(res.Rooms) == 0 && !res.Extensions.HasData(false) {
			return
		}
	}
	vAssert(false, "the client catches up")
}

func vFAcc(typ, v string) json.RawMessage {
	return vObj(vKV("type", typ), vKV("content", vObj(vKV("v", v))))
}

func vFRoom(id string, limited bool) []json.RawMessage {
	n := id[1:2]
	return []json.RawMessage{sCreate("$c"+n, 1), sMember("$a"+n, sA, "join", 2), sMember("$b"+n, sB, "join", 3), sStateEv("$n"+n, "m.room.name", "", sB, 4, vObj(vKV("name", "N"+n)))}
}

// respond makes the response of the homeserver anew, as each request gets its own.
func (w *vFWorld) response(kind int) *sync2.SyncResponse {
	r := sJoin(s1, nil)
	j := r.Rooms.Join[s1]
	one := 1
	switch kind {
	case 0:
		// events, account data, counts, to-device messages and device lists
		j.Timeline.Events = []json.RawMessage{sMsg("$m1", sB, 11), sStateEv("$n", "m.room.name", "", sB, 12, vObj(vKV("name", "new"))), sMsg("$m2", sB, 13)}
		j.AccountData.Events = []json.RawMessage{vFAcc("t", "2")}
		j.UnreadNotifications.NotificationCount = &one
		r.Rooms.Join[s1] = j
		r.AccountData.Events = []json.RawMessage{vFAcc("g", "2"), vFAcc("h", "1")}
		r.ToDevice.Events = []json.RawMessage{vObj(vKV("type", "x"), vKV("sender", sB), vKV("content", vObj(vKV("n", 1)))), vObj(vKV("type", "x"), vKV("sender", sB), vKV("content", vObj(vKV("n", 2))))}
		r.DeviceLists.Changed = []string{sB}
		r.DeviceListsOTKCount = map[string]int{"k": 7}
	case 1:
		// a new room and an invite
		r = sJoin(s2, vFRoom(s2, false), sMsg("$m1", sB, 11), sMsg("$m2", sB, 12))
		r.Rooms.Invite = map[string]sync2.SyncV2InviteResponse{s3: {InviteState: sync2.EventsResponse{Events: []json.RawMessage{sStateEv("$i", "m.room.member", sA, sB, 9, vObj(vKV("membership", "invite")))}}}}
	case 2:
		// leaving a room, and a new state of another, after a gap
		r = sLeave(s2, sMsg("$m1", sB, 11), sMember("$l", sA, "leave", 12))
		r.Rooms.Join = map[string]sync2.SyncV2JoinResponse{s1: {
			State:    sync2.EventsResponse{Events: append(vFRoom(s1, true), sStateEv("$n", "m.room.name", "", sB, 12, vObj(vKV("name", "new"))))},
			Timeline: sync2.TimelineResponse{Limited: true, PrevBatch: "p", Events: []json.RawMessage{sMsg("$m2", sB, 13)}},
		}}
	case 3:
		// a room which makes no sense, and events in another
		j.Timeline.Events = []json.RawMessage{sMsg("$m1", sB, 11), sMsg("$m2", sB, 12)}
		r.Rooms.Join[s1] = j
		r.Rooms.Join[s3] = sync2.SyncV2JoinResponse{State: sync2.EventsResponse{Events: []json.RawMessage{sMember("$x", sB, "join", 1)}}, Timeline: sync2.TimelineResponse{Events: []json.RawMessage{sMsg("$y", sB, 2)}}}
		r.ToDevice.Events = []json.RawMessage{vObj(vKV("type", "x"), vKV("sender", sB), vKV("content", vObj(vKV("n", 1))))}
	}
	invite := sStateEv("$i", "m.room.member", sA, sB, 9, vObj(vKV("membership", "invite")))
	switch kind {
	case 4:
		// an invite is accepted
		r = sJoin(s3, append(vFRoom(s3, false)[:1], sMember("$b3", sB, "join", 3), invite), sMember("$j", sA, "join", 10), sMsg("$m1", sB, 11))
	case 5:
		// an invite is rejected
		r = sLeave(s3, sMember("$l", sA, "leave", 10))
	}
	r.NextBatch = "next"
	return r
}

func vFHas(c *vClient, room string) bool { return c.sees("l", room) }

func vFTail(tl []string, want ...string) bool {
	if len(tl) < len(want) {
		return false
	}
	for i, id := range want {
		if tl[len(tl)-len(want)+i] != id {
			return false
		}
	}
	for i := range tl {
		for j := range tl[:i] {
			if tl[i] == tl[j] {
				return false
			}
		}
	}
	return true
}

func (w *vFWorld) check(kind int) {
	c := w.c
	switch kind {
	case 0:
		vAssert(vFTail(c.room[s1].timeline, "$m1", "$n", "$m2"), "the events reach the client, once and in order")
		vAssert(c.room[s1].name == "new", "the name of the room is current")
		vAssert(w.acc["g"] == "2" && w.acc["h"] == "1", "account data is current")
		vAssert(w.acc[s1+"t"] == "2", "the room's account data is current")
		vAssert(c.room[s1].notif == 1, "the unread count is current")
	case 1:
		vAssert(vFHas(c, s2) && vFHas(c, s3), "the new room and the invite are shown")
		vAssert(vFTail(c.room[s2].timeline, "$m1", "$m2"), "the events of the new room reach the client, once and in order")
		vAssert(len(c.room[s3].last.InviteState) == 1, "the invite has its state")
	case 2:
		vAssert(!vFHas(c, s2), "the room left is gone")
		vAssert(vFTail(c.room[s1].timeline, "$m2"), "the event after the gap reaches the client")
		vAssert(c.room[s1].name == "new", "the name of the room is current")
	case 3:
		vAssert(vFTail(c.room[s1].timeline, "$m1", "$m2"), "the events reach the client, once and in order")
		vAssert(!vFHas(c, s3), "a room which makes no sense is not shown")
	case 4:
		vAssert(vFHas(c, s3) && c.room[s3].last.InviteState == nil, "the room joined is shown, and not as an invite")
		vAssert(vFTail(c.room[s3].timeline, "$j", "$m1"), "the events of the room joined reach the client, once and in order")
	case 5:
		vAssert(!vFHas(c, s3), "an invite which was rejected is gone")
	}
}

// vhSysFaults: a statement fails while a response of the homeserver is processed.
func vhSysFaults() {
	s := vNewSys(vDB())
	w := &vFWorld{s: s, acc: map[string]string{}}
	kind := vChoose("response", 6)
	s.v2.Listen()
	s.poller(sA, "D", &sync2.SyncResponse{})
	first := w.first(kind)
	vAssert(s.respond(sA, "D", first) == "first", "the poller goes on")
	s.boot()
	w.quiet()
	w.c = s.connect(sA, "D")
	w.pull()
	crash := vChoose("crash", 2) == 1
	n := vPick(1, 2)
	vSQLFaults(n)
	since := s.respond(sA, "D", w.response(kind))
	for i := 1; i < n && since == "first"; i++ {
		since = s.respond(sA, "D", w.response(kind))
	}
	vSQLFaults(0)
	if since == "first" {
		vCover("repeated")
		if crash {
			// the process ends, and starts again
			s = vNewSys(s.db)
			s.v2.Listen()
			w.s = s
			s.poller(sA, "D", w.response(kind))
			vCover("crashed")
		} else {
			vAssert(s.respond(sA, "D", w.response(kind)) == "next", "the poller goes on")
		}
	} else {
		vAssert(since == "next", "the poller goes on or repeats the request")
		vAssume(!crash)
		vCover("went on")
	}
	if kind == 0 {
		// the counts come again with the next events
		one := 1
		r := sJoin(s1, nil)
		j := r.Rooms.Join[s1]
		j.UnreadNotifications.NotificationCount = &one
		r.Rooms.Join[s1] = j
		s.respond(sA, "D", r)
	}
	if !crash {
		w.pull()
		w.check(kind)
	}
	// what is stored is complete, too
	s.boot()
	w.c = s.connect(sA, "E")
	w.acc = map[string]string{}
	w.pull()
	w.check(kind)
	w.stored(kind, false)
	vCover("done")
}

// stored checks what is for the device only.
func (w *vFWorld) stored(kind int, again bool) {
	s := w.s
	if kind == 0 || kind == 3 {
		msgs, _, err := s.store.ToDeviceTable.Messages(sA, "D", -1, 9)
		vAssert(err == nil, "to-device messages can be read")
		want := 2
		if kind == 3 {
			want = 1
		}
		vAssert(len(msgs) == want || (again && len(msgs) == 2*want), "every to-device message is stored once")
	}
	if kind == 0 {
		dd, err := s.store.DeviceDataTable.Select(sA, "D", false)
		vAssert(err == nil && dd != nil, "device data can be read")
		vAssert(dd.OTKCounts["k"] == 7, "the key counts are stored")
		l, err := s.store.DeviceDataTable.Select(sA, "D", true)
		vAssert(err == nil && l != nil, "device data can be read")
		found := false
		for _, u := range l.DeviceListChanged {
			found = found || u == sB
		}
		vAssert(found, "the change of the device list is stored")
	}
}

// vhSysCrash: the process ends while a response of the homeserver is processed, and starts again from
// where the database says it was.
func vhSysCrash() {
	s := vNewSys(vDB())
	w := &vFWorld{s: s, acc: map[string]string{}}
	kind := vChoose("response", 6)
	_, err := s.db.Exec("INSERT INTO syncv3_sync2_devices(user_id, device_id, since) VALUES($1,$2,$3)", sA, "D", "")
	vAssert(err == nil, "a device is known")
	s.v2.Listen()
	s.poller(sA, "D", w.first(kind))
	if vChoose("between", 2) == 1 {
		r := sJoin(s1, nil, sMsg("$j1", sB, 8))
		r.NextBatch = "second"
		s.respond(sA, "D", r)
	}
	vSQLFaults(-1)
	s.respond(sA, "D", w.response(kind))
	if vSQLFaultsLeft() == -2 {
		vCover("crashed")
	}
	vSQLFaults(0)
	s = vNewSys(s.db)
	w.s = s
	s.v2.Listen()
	since := ""
	vAssert(s.db.Get(&since, "SELECT since FROM syncv3_sync2_devices WHERE user_id=$1 AND device_id=$2", sA, "D") == nil, "the device is known")
	again := true
	switch since {
	case "":
		vAssert(false, "the first response need not be repeated")
	case "first", "second":
		s.poller(sA, "D", w.response(kind))
		vCover("repeated")
	case "next":
		s.poller(sA, "D", &sync2.SyncResponse{NextBatch: "next"})
		vCover("went on")
		again = false
	}
	if kind == 0 {
		one := 1
		r := sJoin(s1, nil)
		j := r.Rooms.Join[s1]
		j.UnreadNotifications.NotificationCount = &one
		r.Rooms.Join[s1] = j
		s.respond(sA, "D", r)
	}
	s.boot()
	w.c = s.connect(sA, "E")
	w.pull()
	w.check(kind)
	w.stored(kind, again)
	vCover("done")
}

func (w *vFWorld) first(kind int) *sync2.SyncResponse {
	first := sJoin(s1, vFRoom(s1, false), sMsg("$i1", sB, 5))
	if kind == 2 {
		first.Rooms.Join[s2] = sync2.SyncV2JoinResponse{State: sync2.EventsResponse{Events: vFRoom(s2, false)}, Timeline: sync2.TimelineResponse{Events: []json.RawMessage{sMsg("$i2", sB, 6)}}}
	}
	first.AccountData.Events = []json.RawMessage{vFAcc("g", "1")}
	j := first.Rooms.Join[s1]
	j.AccountData.Events = []json.RawMessage{vFAcc("t", "1")}
	first.Rooms.Join[s1] = j
	if kind >= 4 {
		first.Rooms.Invite = map[string]sync2.SyncV2InviteResponse{s3: {InviteState: sync2.EventsResponse{Events: []json.RawMessage{sStateEv("$i", "m.room.member", sA, sB, 9, vObj(vKV("membership", "invite")))}}}}
	}
	first.NextBatch = "first"
	return first
}
