id='S11'; prop='P26'; pkg='tests-integration'; pg=True
edits=[('sync3/caches/user.go','''	for _, requestedRoomID := range roomIDs {
		latestEvents := roomIDToLatestEvents[requestedRoomID]
		if latestEvents != nil {
			latestEvents.DiscardIgnoredMessages(c.ShouldIgnore)
			result[requestedRoomID] = *latestEvents
		}
	}''','''	for _, requestedRoomID := range roomIDs {
		latestEvents := roomIDToLatestEvents[requestedRoomID]
		if latestEvents != nil {
			if len(latestEvents.Timeline) > 1 {
				// the last event decides where the room is in lists
				latestEvents.DiscardIgnoredMessages(c.ShouldIgnore)
			}
			result[requestedRoomID] = *latestEvents
		}
	}''')]
needs='an initial timeline of a single event, which a user sent who is ignored'
breaks='the message of the ignored user is shown'
demo='''package syncv3
import ("encoding/json";"testing";"time"
 "github.com/matrix-org/sliding-sync/sync2";"github.com/matrix-org/sliding-sync/sync3";"github.com/matrix-org/sliding-sync/testutils")
func TestDemo(t *testing.T) {
	pq := testutils.PrepareDBConnectionString()
	v2 := runTestV2Server(t); v3 := runTestServer(t, v2, pq)
	defer v2.close(); defer v3.close()
	v2.addAccount(t, alice, aliceToken)
	n := "@nigel:localhost"
	st := createRoomState(t, alice, time.Now())
	st = append(st, testutils.NewStateEvent(t, "m.room.member", n, n, map[string]interface{}{"membership": "join"}))
	v2.queueResponse(alice, sync2.SyncResponse{NextBatch: "1",
		AccountData: sync2.EventsResponse{Events: []json.RawMessage{testutils.NewAccountData(t, "m.ignored_user_list", map[string]any{"ignored_users": map[string]any{n: map[string]any{}}})}},
		Rooms: sync2.SyncRoomsResponse{Join: v2JoinTimeline(roomEvents{roomID: "!r", state: st, events: []json.RawMessage{testutils.NewMessageEvent(t, alice, "a"), testutils.NewMessageEvent(t, n, "naughty")}})}})
	for _, limit := range []int64{1, 5} {
		res := v3.mustDoV3Request(t, aliceToken, sync3.Request{Lists: map[string]sync3.RequestList{"a": {Ranges: sync3.SliceRanges{{0, 10}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: limit}}}})
		for _, ev := range res.Rooms["!r"].Timeline {
			var x struct{ Sender string }
			json.Unmarshal(ev, &x)
			if x.Sender == n { t.Fatalf("limit %d: ignored message shown", limit) }
		}
	}
}
'''
