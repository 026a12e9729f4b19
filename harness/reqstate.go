package sync3

import (
	"context"
	"encoding/json"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

// Which state events a subscription gets.

var vHRoomState = [][2]string{
	{"m.room.name", ""}, {"m.room.member", "@me"}, {"m.room.member", "@a"}, {"m.room.member", "@b"}, {"custom", "@a"}, {"custom", "x"},
}

// vMStateQuery: the storage contract. An empty query asks for everything, no state keys for every key.
func vMStateQuery(rooms []string, q map[string][]string) map[string][]state.Event {
	out := map[string][]state.Event{}
	for _, r := range rooms {
		for i, tk := range vHRoomState {
			keys, ok := q[tk[0]]
			match := len(q) == 0 || (ok && len(keys) == 0)
			for _, k := range keys {
				if k == tk[1] {
					match = true
				}
			}
			if match {
				out[r] = append(out[r], state.Event{NID: int64(i + 1), RoomID: r, Type: tk[0], StateKey: tk[1], JSON: []byte(r + string(rune('0'+i)))})
			}
		}
	}
	return out
}

func vHRequiredState(n int) {
	var gotPos int64
	state.VHookStorageRoomStateAfterEventPosition = func(s *state.Storage, ctx context.Context, rooms []string, pos int64, q map[string][]string) (map[string][]state.Event, error) {
		gotPos = pos
		return vMStateQuery(rooms, q), nil
	}
	var sub RoomSubscription
	keys := []string{"", "@a", "$ME", "$LAZY", "*"}
	types := []string{"m.room.name", "m.room.member", "custom", "*"}
	for i := 0; i < n; i++ {
		// one choice per tuple: type x key
		k := vChoose("tuple", 20)
		sub.RequiredState = append(sub.RequiredState, [2]string{types[k/5], keys[k%5]})
	}
	users := map[string][]string{"!r": nil}
	inTimeline := map[string]bool{}
	for _, u := range []string{"@a", "@b"} {
		if vBool("timeline_" + u) {
			users["!r"] = append(users["!r"], u)
			inTimeline[u] = true
		}
	}
	all, lazy := false, false
	for _, t := range sub.RequiredState {
		all = all || (t[0] == "*" && t[1] == "*")
		lazy = lazy || (t[0] == "m.room.member" && t[1] == "$LAZY")
	}
	gc := caches.NewGlobalCache(&state.Storage{})
	rsm := sub.RequiredStateMap("@me")
	got := gc.LoadRoomState(context.Background(), []string{"!r", "!s"}, 42, rsm, users)
	vAssert(n == 0 || gotPos == 42, "state is loaded as of the position of the connection")
	for _, room := range []string{"!r", "!s"} {
		for i, tk := range vHRoomState {
			match, specific := false, false
			for _, t := range sub.RequiredState {
				k := t[1]
				if k == "$ME" {
					k = "@me"
				}
				if t[0] == tk[0] && t[1] != "*" {
					specific = true
				}
				if (t[0] == "*" || t[0] == tk[0]) && (k == "*" || k == tk[1]) {
					if !(t[0] == "*" && k == "*") {
						match = true
					}
				}
			}
			want := match
			if all {
				// everything, except that entries naming a type restrict that type
				exact := false
				for _, t := range sub.RequiredState {
					k := t[1]
					if k == "$ME" {
						k = "@me"
					}
					if t[0] == tk[0] && k == tk[1] {
						exact = true
					}
				}
				want = !specific || exact
			}
			if lazy && tk[0] == "m.room.member" && room == "!r" && inTimeline[tk[1]] {
				want = true
			}
			cnt := 0
			for _, ev := range got[room] {
				if string(ev) == room+string(rune('0'+i)) {
					cnt++
				}
			}
			vAssert(cnt <= 1, "no state event is sent twice")
			vAssert((cnt == 1) == want, "exactly the state events selected by required_state are sent")
		}
	}
	vCover("end")
}

// VRequiredState1..3: required_state with so many entries.
func VRequiredState1() { vHRequiredState(vChoose("entries", 2)) }
func VRequiredState2() { vHRequiredState(2) }
func VRequiredState3() { vHRequiredState(3) }

var _ = internal.StateKeyLazy
var _ json.RawMessage
