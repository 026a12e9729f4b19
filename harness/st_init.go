package state

import (
	"context"
	"encoding/json"
)

func vSEv(id string) vEv {
	switch vChoose("kind"+id, 4) {
	case 0:
		return vEv{id, "m.room.name", "", true, vState(id, "m.room.name", "", vObj(vKV("name", id)))}
	case 1:
		u := vStr("user"+id, vA, vB)
		return vEv{id, "m.room.member", u, true, vMember(id, u, vStr("mem"+id, "join", "leave"))}
	case 2:
		return vEv{id, "m.room.create", "", true, vCreate(id)}
	}
	return vEv{id, "m.room.message", "", false, vMsg(id, "m.room.message", vA, vObj())}
}

// vhStateBlocks: state blocks and timelines in any order, from an empty database; another room is there too.
func vhStateBlocks() {
	s := NewStorageWithDB(vDB(), false)
	// another room, whose state must stay what it is
	_, err := s.Initialise(vRoom2, []json.RawMessage{vCreate("$oc"), vMember("$oa", vA, "join")})
	vMust(err, "initialise the other room")
	other := &vSt{}
	other.set(vEv{"$oc", "m.room.create", "", true, nil})
	other.set(vEv{"$oa", "m.room.member", vA, true, nil})

	cur := &vSt{}
	exists := false
	known := map[string]bool{}
	var evs []vEv
	nops := vPick(2, 3)
	for op := 0; op < nops; op++ {
		isBlock := vBool("block")
		n := 1 + vChoose("n", 2)
		var in []vEv
		var raw []json.RawMessage
		for i := 0; i < n; i++ {
			k := vChoose("ev", len(evs)+1)
			if k == len(evs) {
				evs = append(evs, vSEv("$e"+string(rune('0'+k))))
			}
			if isBlock {
				vAssume(evs[k].isState)
			}
			dup := false
			for _, e := range in {
				if e.id == evs[k].id || isBlock && e.typ == evs[k].typ && e.sk == evs[k].sk {
					dup = true // a state block has one event for each (type, state key)
				}
			}
			vAssume(!dup)
			in = append(in, evs[k])
			raw = append(raw, evs[k].json)
		}
		if isBlock {
			hasCreate := false
			for _, e := range in {
				if e.typ == "m.room.create" {
					hasCreate = true
				}
			}
			res, err := s.Initialise(vRoom, raw)
			if !exists && !hasCreate {
				vAssert(err != nil, "a room cannot start from a state block without a create event")
				vCover("rejected")
			} else {
				vMust(err, "initialise")
				added := false
				for _, e := range in {
					if !known[e.id] {
						known[e.id] = true
						cur.set(e)
						added = true
					}
				}
				vAssert(res.AddedEvents == added, "a state block reports whether it added events")
				if added {
					vAssert(res.ReplacedExistingSnapshot == exists, "a state block reports whether it replaced state")
					exists = true
				}
			}
		} else {
			start := 0
			for i, e := range in {
				if known[e.id] {
					start = i + 1
				}
			}
			res, err := s.Accumulate(vA, vRoom, vTimeline(raw...))
			vMust(err, "accumulate")
			fresh := in[start:]
			if !exists && (len(fresh) == 0 || fresh[0].typ != "m.room.create") {
				fresh = nil
				vCover("stray")
			}
			vAssert(res.NumNew == len(fresh), "exactly the new events of a known room are accepted")
			for _, e := range fresh {
				known[e.id] = true
				exists = true
				if e.isState {
					cur.set(e)
				}
			}
		}
		top, err := s.LatestEventNID()
		vMust(err, "latest position")
		for _, f := range vFilters {
			got, err := s.RoomStateAfterEventPosition(context.Background(), []string{vRoom, vRoom2}, top, f)
			vMust(err, "read room state")
			vSame(got[vRoom], cur, f, "current state")
			vSame(got[vRoom2], other, f, "state of another room")
		}
	}
	// memberships
	joins, invites, leaves, err := s.FetchMemberships(vRoom)
	vMust(err, "memberships")
	nj, nl := 0, 0
	for i, k := range cur.keys {
		if k.typ != "m.room.member" {
			continue
		}
		var c struct {
			Content struct {
				Membership string `json:"membership"`
			} `json:"content"`
		}
		json.Unmarshal(cur.ev[i].json, &c)
		l := leaves
		if c.Content.Membership == "join" {
			nj++
			l = joins
		} else {
			nl++
		}
		found := false
		for _, u := range l {
			if u == k.sk {
				found = true
			}
		}
		vAssert(found, "the current membership of every user is reported")
	}
	vAssert(len(joins) == nj && len(leaves) == nl && len(invites) == 0, "nothing but current memberships is reported")
	vCover("done")
}
