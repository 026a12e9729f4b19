package handler

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// vStWorld: the state of one room, and what a client knows of it.
type vStWorld struct {
	s       *vSys
	c       *vClient
	ts      int
	state   map[string]string // type|key -> event ID
	sender  map[string]string // event ID -> sender
	cur     map[string]string // what the client knows: type|key -> event ID
	tl      []string          // the client's timeline
	reqs    [][2]string
	limit   int64
	sub     bool
	members map[string]string
}

func (w *vStWorld) ev(typ string, sk *string, sender string, content json.RawMessage) json.RawMessage {
	w.ts++
	id := fmt.Sprintf("$e%d", w.ts)
	if sk != nil {
		w.state[typ+"|"+*sk] = id
	}
	w.sender[id] = sender
	return sEvent(id, typ, sender, sk, w.ts, content)
}

func (w *vStWorld) topic() json.RawMessage {
	k := ""
	return w.ev("m.room.topic", &k, sB, vObj(vKV("topic", "x")))
}
func (w *vStWorld) member(u, membership string) json.RawMessage {
	w.members[u] = membership
	return w.ev("m.room.member", &u, u, vObj(vKV("membership", membership), vKV("displayname", fmt.Sprintf("n%d", w.ts))))
}
func (w *vStWorld) msg(u string) json.RawMessage {
	return w.ev("m.room.message", nil, u, vObj(vKV("body", "x")))
}

func (w *vStWorld) deliver(evs ...json.RawMessage) {
	w.s.respond(sA, "D", sJoin(s1, nil, evs...))
}

func (w *vStWorld) req() *sync3.Request {
	rs := sync3.RoomSubscription{TimelineLimit: w.limit, RequiredState: w.reqs}
	if w.sub {
		return &sync3.Request{RoomSubscriptions: map[string]sync3.RoomSubscription{s1: rs}}
	}
	return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: rs, Sort: []string{sync3.SortByRecency}}}}
}

// apply adds a response to what the client knows: first the state, then the timeline.
func (w *vStWorld) apply(res *sync3.Response) {
	r, ok := res.Rooms[s1]
	if !ok {
		return
	}
	// when a list changes what it asks for, rooms are sent again with what has changed only
	if r.Initial && (len(r.Timeline) > 0 || w.limit == 0) {
		w.tl = nil
	}
	for _, ev := range r.RequiredState {
		j := gjson.ParseBytes(ev)
		vAssert(j.Get("state_key").Exists(), "only state events are state")
		key := j.Get("type").Str + "|" + j.Get("state_key").Str
		w.cur[key] = j.Get("event_id").Str
	}
	for _, ev := range r.Timeline {
		j := gjson.ParseBytes(ev)
		w.tl = append(w.tl, j.Get("event_id").Str)
		if j.Get("state_key").Exists() {
			w.cur[j.Get("type").Str+"|"+j.Get("state_key").Str] = j.Get("event_id").Str
		}
	}
}

func (w *vStWorld) pull() {
	for i := 0; i < 8; i++ {
		res := w.c.sync(w.req())
		w.apply(res)
		if res.ListOps() == 0 && len(res.Rooms) == 0 {
			return
		}
	}
	vAssert(false, "the client catches up")
}

func (w *vStWorld) wants(typ, sk string) bool {
	for _, r := range w.reqs {
		if (r[0] == "*" || r[0] == typ) && (r[1] == "*" || r[1] == sk || (r[1] == "$ME" && sk == sA)) {
			return true
		}
	}
	return false
}

func (w *vStWorld) check() {
	lazy := false
	for _, r := range w.reqs {
		lazy = lazy || r[1] == "$LAZY"
	}
	for key, id := range w.state {
		typ, sk := key, ""
		for i := range key {
			if key[i] == '|' {
				typ, sk = key[:i], key[i+1:]
				break
			}
		}
		if w.wants(typ, sk) {
			vAssert(w.cur[key] == id, "the state asked for is current")
		} else if w.cur[key] != "" {
			vAssert(w.cur[key] == id, "no outdated state is known")
		}
	}
	for key := range w.cur {
		vAssert(w.state[key] != "", "no state is known which does not exist")
	}
	if lazy {
		for _, id := range w.tl {
			vAssert(w.cur["m.room.member|"+w.sender[id]] != "", "the sender of an event shown is known")
		}
	}
}

// vhSysState: the state a client asks for is complete and kept current.
func vhSysState() {
	s := vNewSys(vDB())
	w := &vStWorld{s: s, ts: 10, state: map[string]string{}, sender: map[string]string{}, cur: map[string]string{}, members: map[string]string{}, limit: 1}
	s.poller(sA, "D", &sync2.SyncResponse{})
	k := ""
	state := []json.RawMessage{w.ev("m.room.create", &k, sA, vObj(vKV("room_version", "10"))), w.member(sA, "join"), w.member(sB, "join"), w.member(sC, "join"), w.topic()}
	s.respond(sA, "D", sJoin(s1, state, w.msg(sB)))
	s.boot()
	w.c = s.connect(sA, "D")
	opts := [][][2]string{
		{{"m.room.topic", ""}, {"m.room.member", "$LAZY"}},
		{{"m.room.member", "$ME"}, {"m.room.create", ""}},
		{{"*", "*"}},
		{{"m.room.member", "*"}},
		{{"m.room.topic", "*"}, {"m.room.member", sC}},
	}
	w.reqs = opts[vChoose("required state", 5)]
	w.sub = vChoose("sub", 2) == 1
	w.apply(w.c.sync(w.req()))
	w.check()
	for i := 0; i < vPick(2, 3); i++ {
		w.step(opts)
	}
	w.pull()
	w.check()
	w.c = s.connect(sA, "E")
	w.cur, w.tl = map[string]string{}, nil
	w.pull()
	w.check()
	s.boot()
	w.c = s.connect(sA, "F")
	w.cur, w.tl = map[string]string{}, nil
	w.pull()
	w.check()
	vCover("done")
}

func (w *vStWorld) step(opts [][][2]string) {
	switch vChoose("step", 9) {
	case 0:
		w.deliver(w.topic())
		vCover("state")
	case 1:
		w.deliver(w.msg(sC))
		vCover("message")
	case 2:
		w.deliver(w.member(sC, []string{"join", "leave"}[vChoose("membership", 2)]))
		vCover("member")
	case 3:
		// several at once
		w.deliver(w.msg(sC), w.topic(), w.member(sC, "join"), w.topic())
		vCover("burst")
	case 4:
		w.reqs = opts[vChoose("required state", 5)]
		w.apply(w.c.sync(w.req()))
		vCover("required state")
	case 5:
		w.limit = 5
		w.apply(w.c.sync(w.req()))
		vCover("limit")
	case 6:
		w.pull()
		w.check()
	case 7:
		// a response is lost and the request repeated
		req := w.req()
		req.SetPos(int64(w.c.pos))
		req.SetTimeoutMSecs(1)
		_, herr := w.c.conn.OnIncomingRequest(context.Background(), req, time.Now())
		vAssert(herr == nil, "the request succeeds")
		w.deliver(w.member(sC, "join"), w.msg(sC))
		again := *req
		w.apply(w.c.sync(&again))
		vCover("lost")
	case 8:
		w.deliver(w.member("@d:h", "join"), w.msg("@d:h"))
		vCover("new member")
	}
}
