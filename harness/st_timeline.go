package state

import (
	"encoding/json"

	"github.com/matrix-org/sliding-sync/sync2"
)

type vTE struct {
	id   string
	mem  string // membership of user A this event sets, if any
	nid  int64
	gap  bool   // what came before this event is unknown
	prev string // token
	init bool   // part of the initial state, hence not of the timeline
	json json.RawMessage
}

func vTimelineEv(i int) vTE {
	id := "$t" + string(rune('0'+i))
	k := vChoose("kind", 4)
	if k == 0 {
		return vTE{id: id, json: vMsg(id, "m.room.message", vB, vObj())}
	}
	m := []string{"join", "leave", "invite"}[k-1]
	return vTE{id: id, mem: m, json: vMember(id, vA, m)}
}

// vhTimeline: what a user is shown of a room's timeline.
func vhTimeline() {
	s := NewStorageWithDB(vDB(), false)
	var log []vTE
	init := []json.RawMessage{vCreate("$c"), vMember("$jb", vB, "join")}
	im := []string{"", "join", "leave", "invite"}[vChoose("initial", 4)]
	if im != "" {
		init = append(init, vMember("$ja", vA, im))
	}
	_, err := s.Initialise(vRoom, init)
	vMust(err, "initialise")
	top, err := s.LatestEventNID()
	vMust(err, "latest position")
	if im != "" {
		log = append(log, vTE{id: "$ja", mem: im, nid: top, init: true})
	}
	_, err = s.Initialise(vRoom2, []json.RawMessage{vCreate("$oc"), vMember("$oa", vA, "join")})
	vMust(err, "initialise the other room")

	batches := 2
	tokens := vChoose("tokens", 3)
	size := vPick(2, 3)
	n := 0
	for b := 0; b < batches; b++ {
		var batch []vTE
		var raw []json.RawMessage
		limited := b > 0 && vBool("limited")
		overlap := b > 0 && vBool("overlap")
		if overlap {
			raw = append(raw, log[len(log)-1].json) // the last event once more
		}
		k := 1 + vChoose("n", size)
		for i := 0; i < k; i++ {
			e := vTimelineEv(n)
			n++
			batch = append(batch, e)
			raw = append(raw, e.json)
		}
		tok := ""
		if tokens == b || tokens == 2 {
			tok = "p" + string(rune('0'+b))
		}
		if !overlap {
			batch[0].gap = limited
			batch[0].prev = tok
		}
		res, err := s.Accumulate(vB, vRoom, sync2.TimelineResponse{Events: raw, Limited: limited, PrevBatch: tok})
		vMust(err, "accumulate")
		vAssert(len(res.TimelineNIDs) == k, "every new event gets a position")
		for i := range batch {
			batch[i].nid = res.TimelineNIDs[i]
			log = append(log, batch[i])
		}
		// the other room goes on too
		id := "$o" + string(rune('0'+b))
		_, err = s.Accumulate(vA, vRoom2, sync2.TimelineResponse{Events: []json.RawMessage{vMsg(id, "m.room.message", vA, vObj())}, PrevBatch: "o"})
		vMust(err, "accumulate")
	}
	first := 0
	if im != "" {
		first = 1
	}
	// rewriting rows, as redactions do, changes the order in which they are stored
	for i := len(log) - 1; i >= 0; i-- {
		_, err := s.DB.Exec("UPDATE syncv3_events SET event = event WHERE event_id = $1", log[i].id)
		vMust(err, "rewrite")
	}
	for at := first; at < len(log); at++ {
		for limit := 1; limit <= 3; limit++ {
			vCheckTimeline(s, log, at, limit)
		}
	}
	vCover("done")
}

// vCheckTimeline: what user A is shown at position log[at].
func vCheckTimeline(s *Storage, log []vTE, at, limit int) {
	to := log[at].nid
	got, err := s.LatestEventsInRooms(vA, []string{vRoom, vRoom2}, to, limit)
	vMust(err, "read the timeline")

	// the user's last stay in the room up to here, or the last invitation if it came after it
	lo, hi := -1, -1
	joined := false
	for i := 0; i <= at; i++ {
		switch {
		case log[i].mem == "join" && !joined:
			lo, hi, joined = i, -1, true
		case log[i].mem == "leave" && joined:
			hi, joined = i, false
		case log[i].mem == "invite" && !joined:
			lo, hi = i, i
		}
	}
	if joined {
		hi = at
	}
	var want []vTE
	if lo >= 0 {
		for i := hi; i >= lo && len(want) < limit; i-- {
			if log[i].init {
				break
			}
			want = append([]vTE{log[i]}, want...)
			if log[i].gap {
				vCover("gap")
				break
			}
		}
	}
	var tl []json.RawMessage
	prev := ""
	if got[vRoom] != nil {
		tl, prev = got[vRoom].Timeline, got[vRoom].PrevBatch
	}
	vAssert(len(tl) <= limit, "no more events than asked for")
	for _, e := range tl {
		ok := false
		for i := lo; lo >= 0 && i <= hi; i++ {
			if log[i].id == vIDOf(e) {
				ok = true
			}
		}
		vAssert(ok, "only events of the user's last stay in the room are shown")
	}
	vAssert(len(tl) == len(want), "the timeline is the latest events up to the position without a gap")
	for i := range want {
		vAssert(vIDOf(tl[i]) == want[i].id, "the timeline is in order")
	}
	if len(want) > 0 {
		vAssert(got[vRoom].LatestNID == want[len(want)-1].nid, "the position of the timeline is that of its last event")
		// the token to paginate from: the closest at or after the first event
		tok := ""
		for i := range log {
			if log[i].nid >= want[0].nid && log[i].prev != "" {
				tok = log[i].prev
				break
			}
		}
		vAssert(prev == tok, "the pagination token is the closest one")
		vCover("shown")
	}
	if got[vRoom2] != nil {
		for _, e := range got[vRoom2].Timeline {
			vAssert(vIDOf(e) == "$o0" || vIDOf(e) == "$o1", "the other room shows its own events")
		}
	}
}
