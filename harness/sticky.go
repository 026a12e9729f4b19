package sync3

import (
	"github.com/matrix-org/sliding-sync/sync3/extensions"
)

// Stickiness of request parameters across a connection.

func vHTrue() *bool  { b := true; return &b }
func vHFalse() *bool { b := false; return &b }

const vHFields = 9

// vHSetField sets field f of rl to the value which belongs to request number i.
func vHSetField(rl *RequestList, f, i int) {
	switch f {
	case 0:
		rl.Ranges = SliceRanges{{0, int64(i)}}
	case 1:
		rl.Sort = []string{[]string{SortByName, SortByRecency, SortByNotificationLevel, SortByHighlightCount}[i]}
	case 2:
		rl.RequiredState = [][2]string{{"m.room.name", string(rune('a' + i))}}
	case 3:
		b := i%2 == 0
		rl.SlowGetAllRooms = &b
	case 4:
		rl.IncludeOldRooms = &RoomSubscription{TimelineLimit: int64(i + 1)}
	case 5:
		rl.TimelineLimit = int64(i + 1)
	case 6:
		rl.Filters = &RequestFilters{RoomNameFilter: string(rune('a' + i))}
	case 7:
		rl.BumpEventTypes = []string{string(rune('a' + i))}
	case 8:
		b := i%2 == 0
		rl.Heroes = &b
	}
}

// vHClearField sets field f explicitly to nothing; false if that cannot be expressed.
func vHClearField(rl *RequestList, f int) bool {
	switch f {
	case 0:
		rl.Ranges = SliceRanges{}
	case 2:
		rl.RequiredState = [][2]string{}
	case 6:
		rl.Filters = &RequestFilters{}
	case 7:
		rl.BumpEventTypes = []string{}
	default:
		return false
	}
	return true
}

const vHCleared = -2

// vHFieldIs: does field f have the value belonging to request i (-1: never specified)?
func vHFieldIs(rl *RequestList, f, i int) bool {
	if i == vHCleared {
		i = -1
		if f == 6 {
			return rl.Filters != nil && rl.Filters.RoomNameFilter == ""
		}
	}
	switch f {
	case 0:
		if i < 0 {
			return len(rl.Ranges) == 0
		}
		return len(rl.Ranges) == 1 && rl.Ranges[0] == [2]int64{0, int64(i)}
	case 1:
		if i < 0 { // the documented default
			return len(rl.Sort) == 1 && rl.Sort[0] == SortByRecency
		}
		return len(rl.Sort) == 1 && rl.Sort[0] == []string{SortByName, SortByRecency, SortByNotificationLevel, SortByHighlightCount}[i]
	case 2:
		if i < 0 {
			return len(rl.RequiredState) == 0
		}
		return len(rl.RequiredState) == 1 && rl.RequiredState[0] == [2]string{"m.room.name", string(rune('a' + i))}
	case 3:
		if i < 0 {
			return !rl.ShouldGetAllRooms()
		}
		return rl.ShouldGetAllRooms() == (i%2 == 0)
	case 4:
		if i < 0 {
			return rl.IncludeOldRooms == nil
		}
		return rl.IncludeOldRooms != nil && rl.IncludeOldRooms.TimelineLimit == int64(i+1)
	case 5:
		return rl.TimelineLimit == int64(i+1)
	case 6:
		if i < 0 {
			return rl.Filters == nil
		}
		return rl.Filters != nil && rl.Filters.RoomNameFilter == string(rune('a'+i))
	case 7:
		if i < 0 {
			return len(rl.BumpEventTypes) == 0
		}
		return len(rl.BumpEventTypes) == 1 && rl.BumpEventTypes[0] == string(rune('a'+i))
	case 8:
		if i < 0 {
			return !rl.IncludeHeroes()
		}
		return rl.IncludeHeroes() == (i%2 == 0)
	}
	return false
}

// VStickyLists: every list parameter keeps its last specified value.
func VStickyLists() {
	focus := vChoose("field", vHFields)
	n := vPick(3, 4)
	last, lastOther := -1, -1
	var eff *Request
	for i := 0; i < n; i++ {
		req := &Request{}
		if i == 0 || vChoose("listed", 2) == 1 {
			rl := RequestList{}
			switch vChoose("set", 3) {
			case 1:
				vHSetField(&rl, focus, i)
				last = i
			case 2:
				vAssume(vHClearField(&rl, focus))
				last = vHCleared
			}
			if vChoose("others", 2) == 1 {
				for f := 0; f < vHFields; f++ {
					if f != focus {
						vHSetField(&rl, f, i)
					}
				}
				lastOther = i
			}
			req.Lists = map[string]RequestList{"a": rl}
		}
		var d *RequestDelta
		prev := eff
		eff, d = eff.ApplyDelta(req)
		rl, ok := eff.Lists["a"]
		vAssert(ok && len(eff.Lists) == 1, "a list stays until it is deleted")
		for f := 0; f < vHFields; f++ {
			w := lastOther
			if f == focus {
				w = last
			}
			vAssert(vHFieldIs(&rl, f, w), "a list parameter has its last specified value")
			vAssert(d.Lists["a"].Curr != nil && vHFieldIs(d.Lists["a"].Curr, f, w), "the new parameters of a list are the effective ones")
		}
		if prev == nil {
			vAssert(d.Lists["a"].Prev == nil, "a new list has no previous parameters")
		} else {
			p := d.Lists["a"].Prev
			vAssert(p != nil && p.TimelineLimit == prev.Lists["a"].TimelineLimit && !p.FiltersChanged(vHPtr(prev.Lists["a"])) && !p.SortOrderChanged(vHPtr(prev.Lists["a"])), "the previous parameters are those of the last request")
		}
	}
	vCover("end")
}

func vHPtr(l RequestList) *RequestList { return &l }

// VStickyListSet: lists exist from their first mention until they are deleted.
func VStickyListSet() {
	keys := []string{"a", "b"}
	have := map[string]int{}
	var eff *Request
	n := vPick(3, 4)
	for i := 0; i < n; i++ {
		req := &Request{Lists: map[string]RequestList{}}
		had := map[string]int{}
		for _, k := range keys {
			if v, ok := have[k]; ok {
				had[k] = v
			}
			nk := 3
			if k == "b" && i == 1 {
				nk = 2
			}
			switch vChoose("what_"+k, nk) {
			case 1:
				req.Lists[k] = RequestList{RoomSubscription: RoomSubscription{TimelineLimit: int64(i + 1)}}
				have[k] = i + 1
			case 2:
				req.Lists[k] = RequestList{Deleted: true}
				delete(have, k)
			}
		}
		var d *RequestDelta
		eff, d = eff.ApplyDelta(req)
		for _, k := range keys {
			w, want := have[k]
			l, ok := eff.Lists[k]
			vAssert(ok == want, "a list exists from its first mention until it is deleted")
			vAssert(!ok || l.TimelineLimit == int64(w), "a list which is re-created starts afresh")
			dl, dok := d.Lists[k]
			_, was := had[k]
			vAssert(dok == (want || was), "every list before or after the request is in the delta")
			vAssert(!dok || ((dl.Curr != nil) == want && (dl.Prev != nil) == was), "a list delta has the parameters before and after")
		}
		vAssert(len(eff.ListKeys()) == len(have), "no other lists")
	}
	vCover("end")
}

// VStickySubs: room subscriptions last until unsubscribed; changes are reported.
func VStickySubs() {
	n := vPick(3, 4)
	var eff *Request
	rooms := []string{"!x", "!y"}
	have := map[string]RoomSubscription{}
	for i := 0; i < n; i++ {
		req := &Request{RoomSubscriptions: map[string]RoomSubscription{}}
		had := map[string]RoomSubscription{}
		for k, v := range have {
			had[k] = v
		}
		for _, r := range rooms {
			nk := 6
			if r == "!y" {
				if i == 2 {
					continue
				}
				nk = 4
			}
			switch vChoose("what_"+r, nk) {
			case 1:
				req.RoomSubscriptions[r] = RoomSubscription{TimelineLimit: 5}
				have[r] = req.RoomSubscriptions[r]
			case 2:
				req.UnsubscribeRooms = append(req.UnsubscribeRooms, r)
				delete(have, r)
			case 3: // both: unsubscribe wins
				req.RoomSubscriptions[r] = RoomSubscription{TimelineLimit: 5}
				req.UnsubscribeRooms = append(req.UnsubscribeRooms, r)
				delete(have, r)
			case 4:
				req.RoomSubscriptions[r] = RoomSubscription{TimelineLimit: 7}
				have[r] = req.RoomSubscriptions[r]
			case 5:
				req.RoomSubscriptions[r] = RoomSubscription{TimelineLimit: 5, RequiredState: [][2]string{{"a", "b"}}}
				have[r] = req.RoomSubscriptions[r]
			}
		}
		var d *RequestDelta
		eff, d = eff.ApplyDelta(req)
		for _, r := range rooms {
			w, want := have[r]
			o, was := had[r]
			g, ok := eff.RoomSubscriptions[r]
			vAssert(ok == want, "a room is subscribed iff its last mention was a subscription")
			vAssert(!ok || (g.TimelineLimit == w.TimelineLimit && len(g.RequiredState) == len(w.RequiredState)), "the subscription in force is the last one sent")
			isSub, isUnsub := 0, 0
			for _, x := range d.Subs {
				if x == r {
					isSub++
				}
			}
			for _, x := range d.Unsubs {
				if x == r {
					isUnsub++
				}
			}
			changed := want && (!was || o.TimelineLimit != w.TimelineLimit || len(o.RequiredState) != len(w.RequiredState))
			vAssert((isSub == 1) == changed && isSub <= 1, "new and changed subscriptions are reported, once")
			vAssert(isUnsub == 0 || !want, "a subscribed room is not reported as unsubscribed")
			_, re := req.RoomSubscriptions[r]
			vAssert((was && !want && !re) == (isUnsub == 1), "unsubscriptions are reported")
		}
		vAssert(len(eff.RoomSubscriptions) == len(have), "no other subscriptions")
	}
	vCover("end")
}

func vHExtReq(kind int, c extensions.Core, since string, limit int) extensions.Request {
	switch kind {
	case 0:
		return extensions.Request{ToDevice: &extensions.ToDeviceRequest{Core: c, Since: since, Limit: limit}}
	case 1:
		return extensions.Request{E2EE: &extensions.E2EERequest{Core: c}}
	case 2:
		return extensions.Request{AccountData: &extensions.AccountDataRequest{Core: c}}
	case 3:
		return extensions.Request{Typing: &extensions.TypingRequest{Core: c}}
	}
	return extensions.Request{Receipts: &extensions.ReceiptsRequest{Core: c}}
}

func vHExtGet(kind int, r extensions.Request) extensions.GenericRequest {
	switch kind {
	case 0:
		if r.ToDevice != nil {
			return r.ToDevice
		}
	case 1:
		if r.E2EE != nil {
			return r.E2EE
		}
	case 2:
		if r.AccountData != nil {
			return r.AccountData
		}
	case 3:
		if r.Typing != nil {
			return r.Typing
		}
	case 4:
		if r.Receipts != nil {
			return r.Receipts
		}
	}
	return nil
}

func vHSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// VStickyExtensions: extension parameters keep their last specified value, and scope defaults to everything.
func VStickyExtensions() {
	kind := vChoose("extension", 5)
	n := vPick(3, 3)
	var eff *Request
	seen := false
	var enabled *bool
	var lists, rooms []string
	since, limit := "", 0
	for i := 0; i < n; i++ {
		req := &Request{}
		if vChoose("present", 2) == 1 {
			var c extensions.Core
			switch vChoose("enabled", 3) {
			case 1:
				c.Enabled = vHTrue()
			case 2:
				c.Enabled = vHFalse()
			}
			switch vChoose("scope", 4) {
			case 1:
				c.Lists = []string{"l" + string(rune('0'+i))}
			case 2:
				c.Rooms = []string{"!r" + string(rune('0'+i))}
			case 3:
				c.Lists = []string{}
			}
			s, l := "", 0
			if kind == 0 && vChoose("since", 2) == 1 {
				s, l = string(rune('1'+i)), i+1
				since, limit = s, l
			}
			req.Extensions = vHExtReq(kind, c, s, l)
			if !seen {
				seen = true
				lists, rooms = []string{"*"}, []string{"*"}
			}
			if c.Enabled != nil {
				enabled = c.Enabled
			}
			if c.Lists != nil {
				lists = c.Lists
			}
			if c.Rooms != nil {
				rooms = c.Rooms
			}
		}
		eff, _ = eff.ApplyDelta(req)
		for k := 0; k < 5; k++ {
			g := vHExtGet(k, eff.Extensions)
			if k != kind || !seen {
				vAssert(g == nil, "an extension which was never requested stays off")
				continue
			}
			vAssert(g != nil, "a requested extension stays")
			vAssert(extensions.ExtensionEnabled(g) == (enabled != nil && *enabled), "an extension is on iff last switched on")
			vAssert(vHSame(g.OnlyLists(), lists) && vHSame(g.OnlyRooms(), rooms), "the scope of an extension is the last one sent")
			if k == 0 {
				td := eff.Extensions.ToDevice
				vAssert(td.Since == since && td.Limit == limit, "to-device parameters are sticky")
			}
		}
		on := 0
		if seen && enabled != nil && *enabled {
			on = 1
		}
		vAssert(len(eff.Extensions.EnabledExtensions()) == on, "exactly the switched-on extensions are processed")
	}
	vCover("end")
}
