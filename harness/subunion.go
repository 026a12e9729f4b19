package handler

import (
	"context"

	"github.com/matrix-org/sliding-sync/sync3"
)

// Subscriptions which overlap on a room are united.

var vHTuples = [3][2]string{{"m.room.name", ""}, {"m.room.topic", ""}, {"m.room.member", "$LAZY"}}

func vHHasTuple(l [][2]string, t [2]string) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// VSubUnionRooms: each room gets the union of what the subscriptions that cover it ask for, and only that.
func VSubUnionRooms() { vHSubUnion([]string{"!a", "!b"}, false) }

// VSubUnionOptions: likewise for the options, for one room.
func VSubUnionOptions() { vHSubUnion([]string{"!a"}, true) }

func vHSubUnion(rooms []string, opts bool) {
	nsubs := 3
	rb := NewRoomsBuilder()
	subs := make([]sync3.RoomSubscription, nsubs)
	for i := range subs {
		s := &subs[i]
		if opts || i > 0 {
			s.TimelineLimit = int64(vInt("timeline_limit", 0, 50))
		}
		// as decoded from JSON: spare capacity
		s.RequiredState = make([][2]string, 0, 4)
		s.RequiredState = append(s.RequiredState, vHTuples[i])
		k := 0
		if opts {
			k = vChoose("opts", 3)
		}
		switch k {
		case 1:
			b := vBool("heroes")
			s.Heroes = &b
		case 2:
			s.IncludeOldRooms = &sync3.RoomSubscription{TimelineLimit: int64(vInt("old_limit", 1, 50)), RequiredState: [][2]string{{"old", string(rune('0' + i))}}}
		}
		in := *s
		in.RequiredState = append(make([][2]string, 0, 4), s.RequiredState...)
		rb.AddSubscription(in)
	}
	ctx := context.Background()
	cover := [2][3]bool{}
	for r := range rooms {
		k := vChoose("covered_by", 8)
		for i := 0; i < nsubs; i++ {
			if k&(1<<i) != 0 {
				cover[r][i] = true
				rb.AddRoomsToSubscription(ctx, i, []string{rooms[r]})
			}
		}
	}
	built := rb.BuildSubscriptions()
	for r, id := range rooms {
		n := 0
		var got sync3.RoomSubscription
		for _, b := range built {
			for _, x := range b.RoomIDs {
				if x == id {
					n++
					got = b.RoomSubscription
				}
			}
		}
		any := cover[r][0] || cover[r][1] || cover[r][2]
		vAssert(rb.IncludesRoom(id) == any, "a room is included iff a subscription covers it")
		if !any {
			vAssert(n == 0, "a room without a subscription is not built")
			continue
		}
		vAssert(n == 1, "a room is built exactly once")
		var tl, otl int64
		heroes, old := false, false
		for i := 0; i < nsubs; i++ {
			c := cover[r][i]
			vAssert(vHHasTuple(got.RequiredState, vHTuples[i]) == c, "required state is the union over the covering subscriptions")
			if !c {
				continue
			}
			if subs[i].TimelineLimit > tl {
				tl = subs[i].TimelineLimit
			}
			heroes = heroes || subs[i].IncludeHeroes()
			if o := subs[i].IncludeOldRooms; o != nil {
				old = true
				if o.TimelineLimit > otl {
					otl = o.TimelineLimit
				}
				vAssert(got.IncludeOldRooms != nil && vHHasTuple(got.IncludeOldRooms.RequiredState, o.RequiredState[0]), "old rooms are included when one covering subscription asks for them")
			}
		}
		vAssert(got.TimelineLimit == tl, "the timeline limit is the largest asked for")
		vAssert(got.IncludeHeroes() == heroes, "heroes are included when one covering subscription asks for them")
		vAssert(got.LazyLoadMembers() == cover[r][2], "members are lazy-loaded when one covering subscription asks for it")
		vAssert((got.IncludeOldRooms != nil) == old, "old rooms are included only when asked for")
		vAssert(!old || got.IncludeOldRooms.TimelineLimit == otl, "the old-room timeline limit is the largest asked for")
	}
	vCover("end")
}

// VSubUnionMany: likewise when there are many subscriptions.
func VSubUnionMany() {
	rb := NewRoomsBuilder()
	const nsubs = 13
	for i := 0; i < nsubs; i++ {
		rb.AddSubscription(sync3.RoomSubscription{TimelineLimit: int64(100 - i), RequiredState: [][2]string{{"t", string(rune('a' + i))}}})
	}
	ctx := context.Background()
	ids := []int{1, 2, 11, 12}
	k := vChoose("covered_by", 16)
	max := int64(0)
	for j, id := range ids {
		if k&(1<<j) != 0 {
			rb.AddRoomsToSubscription(ctx, id, []string{"!a"})
			if int64(100-id) > max {
				max = int64(100 - id)
			}
		}
	}
	n := 0
	for _, b := range rb.BuildSubscriptions() {
		for _, x := range b.RoomIDs {
			vAssert(x == "!a", "only covered rooms are built")
			n++
			vAssert(b.RoomSubscription.TimelineLimit == max, "the timeline limit is the largest asked for")
			for i := 0; i < nsubs; i++ {
				want := false
				for j, id := range ids {
					want = want || (id == i && k&(1<<j) != 0)
				}
				vAssert(vHHasTuple(b.RoomSubscription.RequiredState, [2]string{"t", string(rune('a' + i))}) == want, "required state is the union over the covering subscriptions")
			}
		}
	}
	vAssert((n == 1) == (k != 0) && n <= 1, "a room is built exactly once")
	vCover("end")
}
