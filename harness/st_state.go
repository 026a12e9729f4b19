package state

import (
	"context"
	"encoding/json"
)

// vEv is one event of the model: what the homeserver sent under this ID.
type vEv struct {
	id, typ, sk string
	isState     bool
	json        json.RawMessage
}

// vAnyEv is any event of the kinds that matter for state tracking.
func vAnyEv(id string) vEv {
	switch vChoose("kind"+id, 6) {
	case 0:
		return vEv{id, "m.room.name", "", true, vState(id, "m.room.name", "", vObj(vKV("name", id)))}
	case 1:
		return vEv{id, "m.room.name", "", false, vMsg(id, "m.room.name", vB, vObj(vKV("name", id)))}
	case 2:
		u := vStr("user"+id, vA, vB)
		return vEv{id, "m.room.member", u, true, vMember(id, u, vStr("mem"+id, "join", "leave"))}
	case 3:
		return vEv{id, "m.room.message", "", false, vMsg(id, "m.room.message", vB, vObj())}
	case 4:
		return vEv{id, "x", "k", true, vState(id, "x", "k", vObj())}
	}
	return vEv{id, "x", "", true, vState(id, "x", "", vObj())}
}

type vKey struct{ typ, sk string }

// vSt is the oracle: the current event of every (type, state key), in order of first appearance.
type vSt struct {
	keys []vKey
	ev   []vEv
}

func (s *vSt) set(e vEv) {
	k := vKey{e.typ, e.sk}
	for i := range s.keys {
		if s.keys[i] == k {
			s.ev[i] = e
			return
		}
	}
	s.keys = append(s.keys, k)
	s.ev = append(s.ev, e)
}

func (s *vSt) copy() *vSt {
	return &vSt{append([]vKey{}, s.keys...), append([]vEv{}, s.ev...)}
}

// vSame: the rows are exactly the oracle's events which the filter selects.
func vSame(rows []Event, want *vSt, filter map[string][]string, label string) {
	n := 0
	for i := range want.keys {
		if filter != nil {
			sks, ok := filter[want.keys[i].typ]
			if !ok {
				continue
			}
			hit := len(sks) == 0
			for _, k := range sks {
				if k == want.keys[i].sk {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		n++
		found := 0
		for j := range rows {
			if rows[j].ID == want.ev[i].id || vIDOf(rows[j].JSON) == want.ev[i].id {
				found++
			}
		}
		vAssert(found > 0, label+": the current event of every (type, state key) is returned")
		vAssert(found == 1, label+": no state event is returned twice")
	}
	vAssert(len(rows) == n, label+": nothing but current state is returned")
}

func vIDOf(j json.RawMessage) string {
	var e struct {
		ID string `json:"event_id"`
	}
	json.Unmarshal(j, &e)
	return e.ID
}

var vFilters = []map[string][]string{
	nil,
	{"m.room.name": {""}},
	{"m.room.member": nil},
	{"m.room.member": {vB}, "m.room.name": nil, "x": {"k"}},
	{"x": nil},
}

func vCheckState(s *Storage, pos int64, want *vSt, label string) {
	for _, f := range vFilters {
		got, err := s.RoomStateAfterEventPosition(context.Background(), []string{vRoom}, pos, f)
		vMust(err, "read room state")
		vSame(got[vRoom], want, f, label)
	}
}

// vhStateTimeline: a room with some initial state; two deliveries of timeline events, which may repeat events.
func vhStateTimeline() {
	s := NewStorageWithDB(vDB(), false)
	cur := &vSt{}
	ic := vEv{"$c", "m.room.create", "", true, vCreate("$c")}
	ia := vEv{"$ja", "m.room.member", vA, true, vMember("$ja", vA, "join")}
	init := []json.RawMessage{ic.json, ia.json}
	cur.set(ic)
	cur.set(ia)
	if vBool("initname") {
		in := vEv{"$n", "m.room.name", "", true, vState("$n", "m.room.name", "", vObj(vKV("name", "i")))}
		init = append(init, in.json)
		cur.set(in)
	}
	_, err := s.Initialise(vRoom, init)
	vMust(err, "initialise")
	top, err := s.LatestEventNID()
	vMust(err, "latest position")
	vCheckState(s, top, cur, "after the initial state")

	evs := []vEv{vAnyEv("$e0")}
	seen := map[string]bool{}
	n := vPick(3, 4)
	var batch []int
	type at struct {
		pos int64
		st  *vSt
	}
	hist := []at{{top, cur.copy()}}
	flush := func() {
		if len(batch) == 0 {
			return
		}
		var raw []json.RawMessage
		for _, b := range batch {
			raw = append(raw, evs[b].json)
		}
		// the events after the last one which was known already
		start := 0
		inBatch := map[string]bool{}
		var uniq []vEv
		for _, b := range batch {
			if !inBatch[evs[b].id] {
				inBatch[evs[b].id] = true
				uniq = append(uniq, evs[b])
			}
		}
		for i, e := range uniq {
			if seen[e.id] {
				start = i + 1
			}
		}
		res, err := s.Accumulate(vA, vRoom, vTimeline(raw...))
		vMust(err, "accumulate")
		fresh := uniq[start:]
		vAssert(res.NumNew == len(fresh), "exactly the new events are reported as new")
		vAssert(len(res.TimelineNIDs) == len(fresh), "exactly the new events get a position")
		for i, e := range fresh {
			seen[e.id] = true
			if e.isState {
				cur.set(e)
			}
			vAssert(res.TimelineNIDs[i] > hist[len(hist)-1].pos, "positions grow from delivery to delivery")
			hist = append(hist, at{res.TimelineNIDs[i], cur.copy()})
		}
		batch = nil
	}
	for i := 0; i < n; i++ {
		if i > 0 && vBool("flush") {
			flush()
		}
		k := vChoose("ev", len(evs)+1)
		if k == len(evs) || i == 0 && k == 1 {
			if i == 0 {
				k = 0
			} else {
				evs = append(evs, vAnyEv("$e"+string(rune('0'+k))))
			}
		}
		batch = append(batch, k)
	}
	flush()
	for _, h := range hist {
		vCheckState(s, h.pos, h.st, "after a position of the timeline")
	}
	top, err = s.LatestEventNID()
	vMust(err, "latest position")
	vCheckState(s, top, cur, "after the last event")
	vCover("done")
}
