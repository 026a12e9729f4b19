id='S12'; prop='P20'; pkg='tests-integration'; pg=True
edits=[('sync3/caches/user.go','''	if isDeleted {
		delete(childURD.Spaces, parentRoomID)
	} else {''','''	if isDeleted {
		childURD.Spaces = make(map[string]struct{})
	} else {''')]
needs='a room in two spaces, which is removed from one of them'
breaks='the room vanishes from lists of the other space'
demo='''package syncv3
import ("encoding/json";"testing";"time"
 "github.com/matrix-org/sliding-sync/sync2";"github.com/matrix-org/sliding-sync/sync3";"github.com/matrix-org/sliding-sync/testutils")
func TestDemo(t *testing.T) {
	pq := testutils.PrepareDBConnectionString()
	v2 := runTestV2Server(t); v3 := runTestServer(t, v2, pq)
	defer v2.close(); defer v3.close()
	v2.addAccount(t, alice, aliceToken)
	space := func(id string) roomEvents {
		st := createRoomStateWithCreateEvent(t, alice, testutils.NewStateEvent(t, "m.room.create", "", alice, map[string]interface{}{"creator": alice, "type": "m.space"}), time.Now())
		return roomEvents{roomID: id, state: st, events: []json.RawMessage{testutils.NewStateEvent(t, "m.space.child", "!r", alice, map[string]interface{}{"via": []string{"x"}})}}
	}
	v2.queueResponse(alice, sync2.SyncResponse{NextBatch: "1", Rooms: sync2.SyncRoomsResponse{Join: v2JoinTimeline(roomEvents{roomID: "!r", state: createRoomState(t, alice, time.Now()), events: []json.RawMessage{testutils.NewMessageEvent(t, alice, "a")}}, space("!s1"), space("!s2"))}})
	req := sync3.Request{Lists: map[string]sync3.RequestList{"a": {Ranges: sync3.SliceRanges{{0, 10}}, Filters: &sync3.RequestFilters{Spaces: []string{"!s2"}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: 1}}}}
	res := v3.mustDoV3Request(t, aliceToken, req)
	if res.Lists["a"].Count != 1 { t.Fatalf("count %d", res.Lists["a"].Count) }
	v2.queueResponse(alice, sync2.SyncResponse{NextBatch: "2", Rooms: sync2.SyncRoomsResponse{Join: v2JoinTimeline(roomEvents{roomID: "!s1", events: []json.RawMessage{testutils.NewStateEvent(t, "m.space.child", "!r", alice, map[string]interface{}{})}})}})
	v2.waitUntilEmpty(t, alice)
	time.Sleep(200 * time.Millisecond)
	res = v3.mustDoV3RequestWithPos(t, aliceToken, res.Pos, req)
	if res.Lists["a"].Count != 1 { t.Fatalf("count %d after removal from the other space", res.Lists["a"].Count) }
}
'''
