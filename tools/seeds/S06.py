id='S06'; prop='P06'; pkg='sync3/handler'
edits=[('sync3/handler/rooms_builder.go','''	return fmt.Sprintf("%v", subIDs)''','''	key := ""
	for _, id := range subIDs {
		key += fmt.Sprint(id)
	}
	return key''')]
needs='13 or more subscriptions in one request, and a room covered by subscriptions 1 and 2'
breaks='the combination of subscriptions 1 and 2 is confused with subscription 12: the room is served with the wrong parameters'
demo='''package handler
import ("context";"testing";"github.com/matrix-org/sliding-sync/sync3")
func TestDemo(t *testing.T) {
	rb := NewRoomsBuilder()
	for i := 0; i < 13; i++ { rb.AddSubscription(sync3.RoomSubscription{TimelineLimit: int64(100 - i)}) }
	rb.AddRoomsToSubscription(context.Background(), 1, []string{"!x"})
	rb.AddRoomsToSubscription(context.Background(), 2, []string{"!x"})
	for _, s := range rb.BuildSubscriptions() {
		if s.RoomSubscription.TimelineLimit != 99 { t.Fatalf("limit %d", s.RoomSubscription.TimelineLimit) }
	}
}
'''
