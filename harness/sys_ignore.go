package handler

import (
	"encoding/json"
	"fmt"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

type vIgEvent struct {
	id     string
	sender string
	state  bool
	// whether its sender was ignored at some time, or not ignored at some time, since it was sent
	ign, not bool
}

type vIgWorld struct {
	s       *vSys
	c       *vClient
	ts      int
	ignored map[string]bool
	evs     []*vIgEvent
	seen    int // events the client has had the chance to see
	limit   int64
	sub     bool
}

func (w *vIgWorld) req() *sync3.Request {
	rs := sync3.RoomSubscription{TimelineLimit: w.limit}
	if w.sub {
		return &sync3.Request{RoomSubscriptions: map[string]sync3.RoomSubscription{s1: rs}}
	}
	return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: rs, Sort: []string{sync3.SortByRecency}}}}
}

func (w *vIgWorld) send(sender string, state bool) {
	w.ts++
	id := fmt.Sprintf("$m%d", w.ts)
	w.evs = append(w.evs, &vIgEvent{id: id, sender: sender, state: state, ign: w.ignored[sender], not: !w.ignored[sender]})
	ev := sMsg(id, sender, w.ts)
	if state {
		ev = sStateEv(id, "m.room.topic", "", sender, w.ts, vObj(vKV("topic", "x")))
	}
	w.s.respond(sA, "D", sJoin(s1, nil, ev))
}

func (w *vIgWorld) ignore() {
	u := []string{sB, sC}[vChoose("who", 2)]
	w.ignored[u] = !w.ignored[u]
	var kvs []vF
	for _, x := range []string{sB, sC} {
		if w.ignored[x] {
			kvs = append(kvs, vKV(x, vObj()))
		}
	}
	for _, e := range w.evs[w.seen:] {
		if w.ignored[e.sender] {
			e.ign = true
		} else {
			e.not = true
		}
	}
	r := &sync2.SyncResponse{}
	r.AccountData.Events = []json.RawMessage{vObj(vKV("type", "m.ignored_user_list"), vKV("content", vObj(vKV("ignored_users", vObj(kvs...)))))}
	w.s.respond(sA, "D", r)
}

func (w *vIgWorld) pull() {
	w.c.settle(w.req)
	w.seen = len(w.evs)
}

// check compares a timeline with the events since the given one.
func (w *vIgWorld) check(c *vClient, from int, now bool) {
	tl := c.room[s1].timeline
	k := 0
	for k < len(tl) && tl[k] == "$i" {
		k++
	}
	for _, e := range w.evs[from:] {
		ign, not := e.ign, e.not
		if now {
			ign, not = w.ignored[e.sender], !w.ignored[e.sender]
		}
		if e.state {
			ign, not = false, true
		}
		shown := k < len(tl) && tl[k] == e.id
		if shown {
			k++
			vAssert(not, "a message of an ignored user is not shown")
		} else {
			vAssert(ign, "an event of a user who is not ignored is shown")
		}
	}
	vAssert(k == len(tl), "the timeline has each event once and in order")
}

// short looks at the last events only.
func (w *vIgWorld) short(device string, n int64) {
	limit := w.limit
	for w.limit = n; w.limit == n; w.limit++ {
		c := w.s.connect(sA, fmt.Sprint(device, w.limit))
		c.settle(w.req)
		tl := c.room[s1].timeline
		k := 0
		from := len(w.evs) - int(w.limit)
		if from < 0 {
			from = 0
			for k < len(tl) && tl[k] != w.first() {
				k++
			}
		}
		for _, e := range w.evs[from:] {
			if k < len(tl) && tl[k] == e.id {
				k++
				vAssert(e.state || !w.ignored[e.sender], "a message of an ignored user is not shown, however short the timeline is")
			} else {
				vAssert(!e.state && w.ignored[e.sender], "an event of a user who is not ignored is shown, however short the timeline is")
			}
		}
		vAssert(k == len(tl), "the timeline has the latest events")
		w.s.h.ConnMap.CloseConnsForDevice(sA, c.id.DeviceID)
	}
	w.limit = limit
}

func (w *vIgWorld) first() string {
	for _, e := range w.evs {
		if e.state || !w.ignored[e.sender] {
			return e.id
		}
	}
	return ""
}

// vhSysIgnore: messages of users whom the user ignores.
func vhSysIgnore() {
	s := vNewSys(vDB())
	w := &vIgWorld{s: s, ts: 10, ignored: map[string]bool{}, limit: 50}
	s.poller(sA, "D", &sync2.SyncResponse{})
	s.respond(sA, "D", sJoin(s1, []json.RawMessage{sCreate("$c", 1), sMember("$a", sA, "join", 2), sMember("$b", sB, "join", 3), sMember("$x", sC, "join", 4)}, sMsg("$i", sA, 5)))
	s.respond(sA, "D", sJoin(s2, []json.RawMessage{sCreate("$c2", 1), sMember("$a2", sA, "join", 2)}, sMsg("$i2", sA, 6)))
	if vChoose("before", 2) == 1 {
		w.ignore()
		vCover("before")
	}
	s.boot()
	w.sub = vChoose("sub", 2) == 1
	w.c = s.connect(sA, "D")
	w.c.sync(w.req())
	for i := 0; i < vPick(4, 5); i++ {
		switch vChoose("step", 5) {
		case 0:
			w.send(sB, false)
			vCover("message")
		case 1:
			w.send(sC, false)
		case 2:
			w.send(sB, true)
			vCover("state")
		case 3:
			w.ignore()
			vCover("ignore")
		case 4:
			w.pull()
			w.check(w.c, 0, false)
		}
	}
	w.pull()
	w.check(w.c, 0, false)
	c2 := s.connect(sA, "E")
	c2.settle(w.req)
	w.check(c2, 0, true)
	w.short("G", 2)
	s.boot()
	c3 := s.connect(sA, "F")
	c3.settle(w.req)
	w.check(c3, 0, true)
	w.short("H", 1)
	vCover("done")
}
