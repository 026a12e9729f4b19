package sync3

import (
	"context"
	"strings"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

// Filter semantics, list membership, sort order.

type vHFinder map[string]*RoomConnMetadata

func (f vHFinder) ReadOnlyRoom(id string) *RoomConnMetadata { return f[id] }

func vBoolPtr(name string) *bool {
	if vChoose(name+"_set", 2) == 0 {
		return nil
	}
	b := vBool(name)
	return &b
}

func vStrPtr(name string, pool ...string) *string {
	k := vChoose(name, len(pool)+1)
	if k == 0 {
		return nil
	}
	s := pool[k-1]
	return &s
}

func vHFilterRoom(name string) *RoomConnMetadata {
	r := &RoomConnMetadata{
		RoomMetadata: *internal.NewRoomMetadata(name),
		UserRoomData: caches.NewUserRoomData(),
	}
	r.JoinCount = 2
	r.NameEvent = vStr("name", "Alpha", "beta", "ALPHAbet")
	r.Encrypted = vBool("encrypted")
	r.IsDM = vBool("is_dm")
	r.IsInvite = vBool("is_invite")
	if vBool("tag_fav") {
		r.Tags["fav"] = 0.5
	}
	if vBool("tag_low") {
		r.Tags["low"] = 0.5
	}
	if vBool("space_1") {
		r.UserRoomData.Spaces["s1"] = struct{}{}
	}
	if vBool("space_2") {
		r.UserRoomData.Spaces["s2"] = struct{}{}
	}
	return r
}

// VFilterScalars: the boolean and name filters are a conjunction, combined with hiding replaced rooms.
func VFilterScalars() {
	r := vHFilterRoom("!r")
	finder := vHFinder{"!r": r}
	succ := vChoose("successor", 5)
	if succ > 0 {
		up := "!next"
		r.UpgradedRoomID = &up
		n := &RoomConnMetadata{RoomMetadata: *internal.NewRoomMetadata(up), UserRoomData: caches.NewUserRoomData()}
		switch succ {
		case 2:
			finder[up] = n
		case 3:
			n.IsInvite = true
			finder[up] = n
		case 4:
			n.HasLeft = true
			finder[up] = n
		}
	}
	f := &RequestFilters{
		IsDM:         vBoolPtr("f_dm"),
		IsEncrypted:  vBoolPtr("f_enc"),
		IsInvite:     vBoolPtr("f_inv"),
		IsTombstoned: vBoolPtr("f_tomb"),
	}
	f.RoomNameFilter = vStr("f_name", "", "alpha", "BET", "zzz")
	want := succ != 2
	if f.IsDM != nil {
		want = want && *f.IsDM == r.IsDM
	}
	if f.IsEncrypted != nil {
		want = want && *f.IsEncrypted == r.Encrypted
	}
	if f.IsInvite != nil {
		want = want && *f.IsInvite == r.IsInvite
	}
	if f.IsTombstoned != nil {
		want = want && *f.IsTombstoned == (succ != 0)
	}
	if f.RoomNameFilter != "" {
		want = want && strings.Contains(strings.ToLower(r.NameEvent), strings.ToLower(f.RoomNameFilter))
	}
	vAssert(f.Include(r, finder) == want, "a room is listed iff it satisfies every requested filter")
	if want {
		vCover("in")
	} else {
		vCover("out")
	}
}

func vHSubset(name string, opts ...string) []string {
	var out []string
	for _, o := range opts {
		if vBool(name + "_" + o) {
			out = append(out, o)
		}
	}
	return out
}

func vHTypeSubset(name string) []*string {
	var out []*string
	if vBool(name + "_null") {
		out = append(out, nil)
	}
	for _, o := range []string{"m.space", "other"} {
		if vBool(name + "_" + o) {
			o := o
			out = append(out, &o)
		}
	}
	return out
}

func vHHas(l []string, f func(string) bool) bool {
	for _, x := range l {
		if f(x) {
			return true
		}
	}
	return false
}

func vHTypeMatch(l []*string, t *string) bool {
	for _, x := range l {
		if (x == nil) != (t == nil) {
			continue
		}
		if x == nil || *x == *t {
			return true
		}
	}
	return false
}

func vHCheckSets(r *RoomConnMetadata, f *RequestFilters) {
	hasTag := func(t string) bool { _, ok := r.Tags[t]; return ok }
	inSpace := func(t string) bool { _, ok := r.UserRoomData.Spaces[t]; return ok }
	want := true
	if len(f.Tags) > 0 {
		want = want && vHHas(f.Tags, hasTag)
	}
	want = want && !vHHas(f.NotTags, hasTag)
	if len(f.RoomTypes) > 0 {
		want = want && vHTypeMatch(f.RoomTypes, r.RoomType)
	}
	want = want && !vHTypeMatch(f.NotRoomTypes, r.RoomType)
	if len(f.Spaces) > 0 {
		want = want && vHHas(f.Spaces, inSpace)
	}
	if f.IsDM != nil {
		want = want && *f.IsDM == r.IsDM
	}
	vAssert(f.Include(r, vHFinder{"!r": r}) == want, "a room is listed iff it satisfies every requested filter")
	if want {
		vCover("in")
	} else {
		vCover("out")
	}
}

// VFilterTags: any combination of tags and not_tags.
func VFilterTags() {
	r := vHFilterRoom("!r")
	vHCheckSets(r, &RequestFilters{
		Tags:    vHSubset("f_tags", "fav", "low"),
		NotTags: vHSubset("f_not_tags", "fav", "low"),
		IsDM:    vBoolPtr("f_dm"),
	})
}

// VFilterTypes: any combination of room_types and not_room_types.
func VFilterTypes() {
	r := vHFilterRoom("!r")
	r.RoomType = vStrPtr("room_type", "m.space", "other")
	vHCheckSets(r, &RequestFilters{
		RoomTypes:    vHTypeSubset("f_types"),
		NotRoomTypes: vHTypeSubset("f_not_types"),
	})
}

func vHMaybe(name, v string) []string {
	if vBool(name) {
		return []string{v}
	}
	return nil
}

// VFilterSets: tags, not_tags, room_types, not_room_types, spaces and is_dm all have to match.
func VFilterSets() {
	r := vHFilterRoom("!r")
	sp := "m.space"
	r.RoomType = vStrPtr("room_type", sp)
	f := &RequestFilters{
		Tags:    vHMaybe("f_tags", "fav"),
		NotTags: vHMaybe("f_not_tags", "low"),
		Spaces:  vHSubset("f_spaces", "s1", "s2"),
		IsDM:    vBoolPtr("f_dm"),
	}
	if vBool("f_types") {
		f.RoomTypes = []*string{&sp}
	}
	if vBool("f_not_types") {
		f.NotRoomTypes = []*string{nil}
	}
	vHCheckSets(r, f)
}

// VListMembership: after any sequence of room updates (joins, leaves, metadata changes), list
// creation and filter changes, each list holds exactly the rooms which match its filter and which the
// user has not left, each once, in sort order, and its index agrees with the order.
func VListMembership() {
	ctx := context.Background()
	l := NewInternalRequestLists()
	ids := []string{"!a", "!b", "!c"}
	type st struct {
		known, dm, left, inv bool
		ts                   uint64
	}
	rooms := map[string]*st{}
	set := func(i int) {
		id := ids[i]
		s := rooms[id]
		if s == nil {
			s = &st{}
			rooms[id] = s
		}
		s.known, s.dm, s.left = true, vBool("dm"), vBool("left")
		s.inv = vBool("invite")
		s.ts = uint64(vInt("ts", 1, 7))
		md := internal.NewRoomMetadata(id)
		md.LastMessageTimestamp = s.ts
		md.JoinCount = 1
		md.NameEvent = id
		urd := caches.NewUserRoomData()
		urd.IsDM, urd.HasLeft = s.dm, s.left
		urd.IsInvite = s.inv
		delta := l.SetRoom(RoomConnMetadata{RoomMetadata: *md, UserRoomData: urd, LastInterestedEventTimestamps: map[string]uint64{"x": s.ts}})
		for _, d := range delta.Lists {
			rl := &RequestList{Ranges: SliceRanges{{0, 20}}, Sort: []string{SortByRecency}}
			CalculateListOps(ctx, rl, l.Get(d.ListKey), id, d.Op)
		}
	}
	n0 := vChoose("initial_rooms", vPick(3, 4))
	for i := 0; i < n0; i++ {
		set(i)
	}
	yes, no := true, false
	filters := []*RequestFilters{nil, {IsDM: &yes}, {IsDM: &no}}
	fi := vChoose("filter", 3)
	l.AssignList(ctx, "x", filters[fi], []string{SortByRecency}, DoNotOverwrite)
	for k := 0; k < 2; k++ {
		switch vChoose("step", 3) {
		case 0:
			set(vChoose("room", vPick(2, 3)))
		case 1:
			fi = vChoose("filter2", 3)
			l.AssignList(ctx, "x", filters[fi], []string{SortByRecency}, Overwrite)
		}
	}
	list := l.Get("x")
	got := list.RoomIDs()
	vAssert(int(list.Len()) == len(got) && l.Count("x") == len(got), "the list count is the number of listed rooms")
	seen := map[string]bool{}
	var prev *st
	for i, id := range got {
		vAssert(!seen[id], "no room is listed twice")
		seen[id] = true
		idx, ok := list.IndexOf(id)
		vAssert(ok && idx == i, "the list index agrees with the order")
		s := rooms[id]
		if prev != nil {
			vAssert(prev.ts >= s.ts, "rooms are in recency order")
		}
		prev = s
	}
	for _, id := range ids {
		s := rooms[id]
		want := s != nil && !s.left && (fi == 0 || (fi == 1) == s.dm)
		vAssert(seen[id] == want, "a list holds exactly the matching rooms the user has not left")
		_, ok := list.IndexOf(id)
		vAssert(ok == want, "the index holds exactly the listed rooms")
	}
	vCover("end")
}

// vHBefore: must room a come before room b (1), after (-1), or don't care (0) under one sort criterion?
func vHBefore(by string, a, b *RoomConnMetadata) int {
	cmp := func(x, y bool) int {
		if x && !y {
			return 1
		}
		if y && !x {
			return -1
		}
		return 0
	}
	switch by {
	case SortByName:
		return cmp(a.CanonicalisedName < b.CanonicalisedName, b.CanonicalisedName < a.CanonicalisedName)
	case SortByRecency:
		x, y := a.LastInterestedEventTimestamps["x"], b.LastInterestedEventTimestamps["x"]
		return cmp(x > y, y > x)
	case SortByHighlightCount:
		return cmp(a.HighlightCount > b.HighlightCount, b.HighlightCount > a.HighlightCount)
	case SortByNotificationCount:
		return cmp(a.NotificationCount > b.NotificationCount, b.NotificationCount > a.NotificationCount)
	case SortByNotificationLevel:
		// highlights, then encrypted rooms with notifications, then other rooms with notifications, then the rest
		level := func(r *RoomConnMetadata) int {
			if r.HighlightCount > 0 {
				return 3
			}
			if r.NotificationCount > 0 && r.Encrypted {
				return 2
			}
			if r.NotificationCount > 0 {
				return 1
			}
			return 0
		}
		return cmp(level(a) > level(b), level(b) > level(a))
	}
	return 0
}

// VSortOrder: lists are in the requested order, whatever the combination of sort criteria.
func VSortOrder() {
	ctx := context.Background()
	l := NewInternalRequestLists()
	ids := []string{"!a", "!b", "!c"}
	orders := [][]string{{SortByName}, {SortByRecency}, {SortByHighlightCount}, {SortByNotificationCount}, {SortByNotificationLevel},
		{SortByNotificationLevel, SortByRecency}, {SortByHighlightCount, SortByNotificationCount, SortByRecency}, {SortByNotificationLevel, SortByName}}
	order := orders[vChoose("order", len(orders))]
	uses := map[string]bool{}
	for _, o := range order {
		uses[o] = true
	}
	mk := func(i int) RoomConnMetadata {
		md := internal.NewRoomMetadata(ids[i])
		md.JoinCount = 1
		md.NameEvent = ids[i]
		if uses[SortByName] {
			md.NameEvent = []string{"Ab", "aa", "#b"}[vChoose("name", 3)]
		}
		urd := caches.NewUserRoomData()
		if uses[SortByHighlightCount] || uses[SortByNotificationLevel] {
			urd.HighlightCount = vInt("highlights", 0, 3)
		}
		if uses[SortByNotificationCount] || uses[SortByNotificationLevel] {
			urd.NotificationCount = vInt("notifs", 0, 3)
		}
		if uses[SortByNotificationLevel] {
			md.Encrypted = vBool("encrypted")
		}
		ts := uint64(vInt("ts", 1, 7))
		md.LastMessageTimestamp = ts
		return RoomConnMetadata{RoomMetadata: *md, UserRoomData: urd, LastInterestedEventTimestamps: map[string]uint64{"x": ts}}
	}
	for i := range ids {
		l.SetRoom(mk(i))
	}
	l.AssignList(ctx, "x", nil, order, Overwrite)
	check := func() {
		got := l.Get("x").RoomIDs()
		vAssert(len(got) == len(ids), "every room is listed")
		for i := 0; i+1 < len(got); i++ {
			a, b := l.ReadOnlyRoom(got[i]), l.ReadOnlyRoom(got[i+1])
			for _, by := range order {
				c := vHBefore(by, a, b)
				vAssert(c >= 0, "rooms are in the requested order")
				if c != 0 {
					break
				}
			}
		}
	}
	check()
	// one room changes in any way
	k := vChoose("changed", vPick(1, 3))
	delta := l.SetRoom(mk(k))
	for _, d := range delta.Lists {
		CalculateListOps(ctx, &RequestList{Ranges: SliceRanges{{0, 20}}, Sort: order}, l.Get("x"), ids[k], d.Op)
	}
	check()
	vCover("end")
}
