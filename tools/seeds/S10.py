id='S10'; prop='P10'; pkg='sync3'
edits=[('sync3/tracker.go','''	for _, userID := range userIDs {
		users[userID] = struct{}{}
	}
	t.roomIDToInvitedUsers[roomID] = users
}''','''	for _, userID := range userIDs {
		users[userID] = struct{}{}
		delete(t.roomIDToJoinedUsers[roomID], userID)
	}
	t.roomIDToInvitedUsers[roomID] = users
}''')]
needs='a duplicate invite event which arrives after the user has joined'
breaks='the joined user gets nothing more from the room'
demo='''package sync3
import ("context";"encoding/json";"testing")
func TestDemo(t *testing.T) {
	d := NewDispatcher()
	ev := func(m string) { d.OnNewEvent(context.Background(), "!r", json.RawMessage(`{"type":"m.room.member","state_key":"@a:x","sender":"@a:x","content":{"membership":"`+m+`"}}`), 1) }
	ev("invite"); ev("join"); ev("invite")
	if !d.IsUserJoined("@a:x", "!r") { t.Fatal("no longer joined") }
}
'''
