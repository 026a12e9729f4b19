package handler

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// vLRoom: a room as a filter or sort order has to see it.
type vLRoom struct {
	id      string
	typ     string
	name    string
	enc     bool
	tomb    bool
	dm      bool
	invite  bool
	tags    map[string]bool
	spaces  map[string]bool
	notif   int
	high    int
	ts      int
	unknown bool // whether the user is in or invited to the room
	events  []string
}

type vLWorld struct {
	s      *vSys
	c      *vClient
	ts     int
	rooms  []*vLRoom
	filter *sync3.RequestFilters
	sort   []string
	window sync3.SliceRanges
	limit  int64
	key    string
	shared bool // nothing about the rooms depends on the user
}

func (w *vLWorld) id() string { w.ts++; return fmt.Sprintf("$e%d", w.ts) }

func (w *vLWorld) newRoom(id, typ, name string) *vLRoom {
	r := &vLRoom{id: id, typ: typ, name: name, tags: map[string]bool{}, spaces: map[string]bool{}}
	w.rooms = append(w.rooms, r)
	create := sStateEv("$c"+id[1:2], "m.room.create", "", sB, 1, vObj(vKV("room_version", "10"), vKVIf(typ != "", "type", typ)))
	state := []json.RawMessage{create, sMember("$a"+id[1:2], sA, "join", 2), sMember("$b"+id[1:2], sB, "join", 3), sStateEv("$n"+id[1:2], "m.room.name", "", sB, 4, vObj(vKV("name", name)))}
	w.s.respond(sA, "D", sJoin(id, state, w.msg(r)))
	return r
}

func (w *vLWorld) note(r *vLRoom, id string) {
	r.ts = w.ts
	r.events = append(r.events, id)
}

func (w *vLWorld) msg(r *vLRoom) json.RawMessage {
	id := w.id()
	w.note(r, id)
	return sMsg(id, sB, w.ts)
}

func (w *vLWorld) st(r *vLRoom, typ, sk string, content json.RawMessage) json.RawMessage {
	id := w.id()
	w.note(r, id)
	return sStateEv(id, typ, sk, sB, w.ts, content)
}

func (w *vLWorld) deliver(r *vLRoom, evs ...json.RawMessage) {
	resp := sJoin(r.id, nil, evs...)
	j := resp.Rooms.Join[r.id]
	n, h := r.notif, r.high
	j.UnreadNotifications = sync2.UnreadNotifications{NotificationCount: &n, HighlightCount: &h}
	resp.Rooms.Join[r.id] = j
	w.s.respond(sA, "D", resp)
}

func (w *vLWorld) req() *sync3.Request {
	return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: w.window, RoomSubscription: sync3.RoomSubscription{TimelineLimit: w.limit}, Sort: w.sort, Filters: w.filter}}}
}

func (w *vLWorld) matches(r *vLRoom) bool {
	f := w.filter
	if r.unknown {
		return false
	}
	if f == nil {
		return true
	}
	if f.IsEncrypted != nil && *f.IsEncrypted != r.enc {
		return false
	}
	if f.IsDM != nil && *f.IsDM != r.dm {
		return false
	}
	if f.IsInvite != nil && *f.IsInvite != r.invite {
		return false
	}
	if f.IsTombstoned != nil && *f.IsTombstoned != r.tomb {
		return false
	}
	if f.RoomNameFilter != "" && !strings.Contains(strings.ToLower(r.name), strings.ToLower(f.RoomNameFilter)) {
		return false
	}
	for _, t := range f.NotTags {
		if r.tags[t] {
			return false
		}
	}
	if len(f.Tags) > 0 {
		any := false
		for _, t := range f.Tags {
			any = any || r.tags[t]
		}
		if !any {
			return false
		}
	}
	if len(f.Spaces) > 0 {
		any := false
		for _, t := range f.Spaces {
			any = any || r.spaces[t]
		}
		if !any {
			return false
		}
	}
	is := func(t *string) bool { return (t == nil && r.typ == "") || (t != nil && *t == r.typ) }
	for _, t := range f.NotRoomTypes {
		if is(t) {
			return false
		}
	}
	if len(f.RoomTypes) > 0 {
		any := false
		for _, t := range f.RoomTypes {
			any = any || is(t)
		}
		if !any {
			return false
		}
	}
	return true
}

func (r *vLRoom) level() int {
	if r.high > 0 || r.invite {
		return 3
	}
	if r.notif > 0 && r.enc {
		return 2
	}
	if r.notif > 0 {
		return 1
	}
	return 0
}

func (w *vLWorld) before(a, b *vLRoom) bool {
	for _, s := range w.sort {
		switch s {
		case sync3.SortByName:
			if x, y := strings.ToLower(a.name), strings.ToLower(b.name); x != y {
				return x < y
			}
		case sync3.SortByNotificationLevel:
			if x, y := a.level(), b.level(); x != y {
				return x > y
			}
		case sync3.SortByHighlightCount:
			if a.high != b.high {
				return a.high > b.high
			}
		case sync3.SortByNotificationCount:
			if a.notif != b.notif {
				return a.notif > b.notif
			}
		case sync3.SortByRecency:
			if a.ts != b.ts {
				return a.ts > b.ts
			}
		}
	}
	return false
}

func (w *vLWorld) check(c *vClient) {
	var want []*vLRoom
	for _, r := range w.rooms {
		if w.matches(r) {
			want = append(want, r)
		}
	}
	for i := range want {
		for j := i + 1; j < len(want); j++ {
			if w.before(want[j], want[i]) {
				want[i], want[j] = want[j], want[i]
			}
		}
	}
	vAssert(c.n[w.key] == len(want), "the list counts the rooms which match its filter")
	for i, r := range want {
		in := false
		for _, rg := range w.window {
			in = in || (int64(i) >= rg[0] && int64(i) <= rg[1])
		}
		if !in {
			continue
		}
		vAssert(c.list[w.key][i] == r.id, "the window shows the rooms which match its filter, in its order")
		cr := c.room[r.id]
		vAssert(cr != nil && cr.initials > 0, "a visible room was sent in full")
		vAssert(cr.name == r.name, "a visible room has its name")
		if r.invite {
			continue
		}
		vAssert(len(cr.timeline) > 0 && len(cr.timeline) <= len(r.events), "a visible room has a timeline")
		for k := range cr.timeline {
			vAssert(cr.timeline[k] == r.events[len(r.events)-len(cr.timeline)+k], "the timeline of a visible room has its own last events, without gaps or repeats")
		}
		vAssert(cr.notif == r.notif && cr.high == r.high, "a visible room has its unread counts")
	}
	for i := range c.list[w.key] {
		vAssert(i < len(want), "no room is shown beyond the end of the list")
	}
}

func vListWorld() *vLWorld {
	s := vNewSys(vDB())
	w := &vLWorld{s: s, ts: 10, key: "l", limit: 1, sort: []string{sync3.SortByRecency}, window: sync3.SliceRanges{{0, 9}}}
	s.poller(sA, "D", &sync2.SyncResponse{})
	w.newRoom(s1, "", "Beta")
	w.newRoom(s2, "", "alpha")
	return w
}

func (w *vLWorld) run(steps int, step func()) {
	w.s.boot()
	w.c = w.s.connect(sA, "D")
	w.c.sync(w.req())
	w.check(w.c)
	for i := 0; i < steps; i++ {
		switch vChoose("step", 3) {
		case 0:
			step()
		case 1:
			r := w.rooms[vChoose("room", 2)]
			if r.unknown || r.invite {
				break
			}
			w.deliver(r, w.msg(r))
			vCover("message")
		case 2:
			w.c.settle(w.req)
			w.check(w.c)
		}
	}
	w.c.settle(w.req)
	w.check(w.c)
	c2 := w.s.connect(sA, "E")
	c2.settle(w.req)
	w.check(c2)
	if w.shared {
		// the first connection of another user
		cb := w.s.connect(sB, "B")
		cb.settle(w.req)
		w.check(cb)
	}
	w.s.boot()
	c3 := w.s.connect(sA, "F")
	c3.settle(w.req)
	w.check(c3)
	vCover("done")
}

func (w *vLWorld) accountData(r *vLRoom, ev json.RawMessage) {
	resp := &sync2.SyncResponse{}
	if r == nil {
		resp.AccountData.Events = []json.RawMessage{ev}
	} else {
		resp = sJoin(r.id, nil)
		j := resp.Rooms.Join[r.id]
		j.AccountData.Events = []json.RawMessage{ev}
		resp.Rooms.Join[r.id] = j
	}
	w.s.respond(sA, "D", resp)
}

// vhSysFilter: a list shows the rooms which match its filter, while they do.
func vhSysFilter() {
	w := vListWorld()
	yes, no := true, false
	b := []*bool{&yes, &no}[vChoose("want", 2)]
	var step func()
	switch vChoose("filter", 5) {
	case 0:
		w.filter = &sync3.RequestFilters{IsEncrypted: b}
		step = func() {
			r := w.rooms[vChoose("room", 2)]
			if vChoose("state", 2) == 0 {
				r.enc = true
				w.deliver(r, w.st(r, "m.room.encryption", "", vObj(vKV("algorithm", "x"))))
				vCover("encrypted")
			} else {
				id := w.id()
				w.note(r, id)
				w.deliver(r, sEvent(id, "m.room.encryption", sB, nil, w.ts, vObj(vKV("algorithm", "x"))))
				vCover("not a state event")
			}
		}
	case 1:
		w.filter = &sync3.RequestFilters{IsTombstoned: b}
		step = func() {
			r := w.rooms[vChoose("room", 2)]
			if vChoose("state", 2) == 0 {
				r.tomb = true
				w.deliver(r, w.st(r, "m.room.tombstone", "", vObj(vKV("replacement_room", "!x:h"))))
				vCover("tombstone")
			} else {
				id := w.id()
				w.note(r, id)
				w.deliver(r, sEvent(id, "m.room.tombstone", sB, nil, w.ts, vObj(vKV("replacement_room", "!x:h"))))
				vCover("not a state event")
			}
		}
	case 2:
		if *b {
			w.filter = &sync3.RequestFilters{Tags: []string{"u.x", "u.y"}}
		} else {
			w.filter = &sync3.RequestFilters{NotTags: []string{"u.x", "u.y"}}
		}
		step = func() {
			r := w.rooms[vChoose("room", 2)]
			t := []string{"", "u.x", "u.y", "u.z"}[vChoose("tag", 4)]
			r.tags = map[string]bool{t: true}
			w.accountData(r, vObj(vKV("type", "m.tag"), vKV("content", vObj(vKV("tags", vObj(vKVIf(t != "", t, vObj())))))))
			vCover("tag")
		}
	case 3:
		w.filter = &sync3.RequestFilters{IsDM: b}
		step = func() {
			// the list follows with the next event of the room
			r := w.rooms[vChoose("room", 2)]
			r.dm = !r.dm
			var dms []string
			for _, r := range w.rooms {
				if r.dm {
					dms = append(dms, r.id)
				}
			}
			w.accountData(nil, vObj(vKV("type", "m.direct"), vKV("content", vObj(vKV(sB, dms)))))
			w.deliver(r, w.msg(r))
			vCover("direct")
		}
	case 4:
		w.filter = &sync3.RequestFilters{RoomNameFilter: "BE"}
		if !*b {
			w.filter = nil
			w.sort = []string{sync3.SortByName}
		}
		step = func() {
			r := w.rooms[vChoose("room", 2)]
			r.name = []string{"obey", "Alp", "zeta"}[vChoose("name", 3)]
			vAssume(w.rooms[0].name != w.rooms[1].name)
			w.deliver(r, w.st(r, "m.room.name", "", vObj(vKV("name", r.name))))
			vCover("name")
		}
	}
	w.shared = w.filter == nil || (w.filter.IsDM == nil && w.filter.Tags == nil && w.filter.NotTags == nil)
	w.run(vPick(2, 3), step)
}

// vhSysSpaces: the filter by space follows the space's children.
func vhSysSpaces() {
	w := vListWorld()
	sp := w.newRoom(s3, "m.space", "space")
	typ := "m.space"
	switch vChoose("filter", 3) {
	case 0:
		w.filter = &sync3.RequestFilters{Spaces: []string{s3}}
	case 1:
		w.filter = &sync3.RequestFilters{Spaces: []string{s3, "!4:h"}, NotRoomTypes: []*string{&typ}}
		w.child(w.newRoom("!4:h", "m.space", "space 2"), w.rooms[0], true)
		vCover("two spaces")
	case 2:
		w.filter = &sync3.RequestFilters{RoomTypes: []*string{nil}}
	}
	if vChoose("child", 2) == 1 {
		w.child(sp, w.rooms[0], true)
	}
	w.shared = true
	w.run(vPick(3, 4), func() {
		r := w.rooms[vChoose("room", 2)]
		w.child(sp, r, !r.spaces[s3])
	})
}

func (w *vLWorld) child(sp, r *vLRoom, add bool) {
	r.spaces[sp.id] = add
	if add {
		w.deliver(sp, w.st(sp, "m.space.child", r.id, vObj(vKV("via", []string{"h"}))))
		vCover("child added")
	} else {
		w.deliver(sp, w.st(sp, "m.space.child", r.id, vObj(vKVIf(vChoose("odd", 2) == 1, "via", "h"))))
		vCover("child removed")
	}
}

// vhSysSorts: sort orders which depend on unread counts.
func vhSysSorts() {
	w := vListWorld()
	w.sort = [][]string{{sync3.SortByNotificationLevel, sync3.SortByRecency}, {sync3.SortByHighlightCount, sync3.SortByNotificationCount, sync3.SortByName}}[vChoose("sort", 2)]
	w.window = []sync3.SliceRanges{{{0, 9}}, {{0, 0}}, {{1, 1}}}[vChoose("window", 3)]
	w.rooms[0].notif = 2
	w.deliver(w.rooms[0], w.msg(w.rooms[0]))
	w.run(vPick(2, 3), func() {
		r := w.rooms[vChoose("room", 2)]
		switch vChoose("unread", 4) {
		case 0:
			n := vChoose("left", 2)
			r.notif, r.high = n, n
			w.deliver(r)
			vCover("read")
		case 1:
			r.notif++
			w.deliver(r, w.msg(r))
			vCover("notified")
		case 2:
			r.notif++
			r.high++
			w.deliver(r, w.msg(r))
			vCover("highlighted")
		case 3:
			if !r.enc {
				r.enc = true
				w.deliver(r, w.st(r, "m.room.encryption", "", vObj(vKV("algorithm", "x"))))
				vCover("encrypted")
			}
		}
	})
}
