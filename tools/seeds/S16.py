id='S16'; prop='P19'; pkg='tests-integration'; pg=True
edits=[('sync2/handler2/handler.go','''	if ok && entry.Highlight == hc && entry.Notif == nc {''','''	if ok && entry.Highlight+entry.Notif == hc+nc {''')]
needs='unread counts which change while their sum stays the same'
breaks='clients keep the old unread counts'
demo='''package syncv3
import ("encoding/json";"testing";"time"
 "github.com/matrix-org/sliding-sync/sync2";"github.com/matrix-org/sliding-sync/sync3";"github.com/matrix-org/sliding-sync/testutils")
func TestDemo(t *testing.T) {
	pq := testutils.PrepareDBConnectionString()
	v2 := runTestV2Server(t); v3 := runTestServer(t, v2, pq)
	defer v2.close(); defer v3.close()
	v2.addAccount(t, alice, aliceToken)
	resp := func(nb string, h, n int, re roomEvents) sync2.SyncResponse {
		j := v2JoinTimeline(re)
		x := j["!r"]
		x.UnreadNotifications = sync2.UnreadNotifications{HighlightCount: &h, NotificationCount: &n}
		j["!r"] = x
		return sync2.SyncResponse{NextBatch: nb, Rooms: sync2.SyncRoomsResponse{Join: j}}
	}
	v2.queueResponse(alice, resp("1", 2, 2, roomEvents{roomID: "!r", state: createRoomState(t, alice, time.Now()), events: []json.RawMessage{testutils.NewMessageEvent(t, alice, "a")}}))
	req := sync3.Request{Lists: map[string]sync3.RequestList{"a": {Ranges: sync3.SliceRanges{{0, 10}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: 1}}}}
	v3.mustDoV3Request(t, aliceToken, req)
	v2.queueResponse(alice, resp("2", 1, 3, roomEvents{roomID: "!r", events: []json.RawMessage{testutils.NewMessageEvent(t, "@bob:localhost", "b")}}))
	v2.waitUntilEmpty(t, alice)
	time.Sleep(200 * time.Millisecond)
	res := v3.mustDoV3Request(t, aliceToken, req)
	if r := res.Rooms["!r"]; r.HighlightCount != 1 || r.NotificationCount != 3 { t.Fatalf("counts %d %d", r.HighlightCount, r.NotificationCount) }
}
'''
