id='S15'; prop='P21'; pkg='sync3/caches'
edits=[('sync3/caches/global.go','''			if newRoomID == "" {
				metadata.UpgradedRoomID = nil
			} else {
				metadata.UpgradedRoomID = &newRoomID
			}''','''			if newRoomID != "" && metadata.UpgradedRoomID == nil {
				// rooms are upgraded once
				metadata.UpgradedRoomID = &newRoomID
			}''')]
needs='a second tombstone event which replaces the first one'
breaks='the room is taken to be replaced by the room of the first tombstone'
demo='''package caches
import ("context";"testing";"github.com/tidwall/gjson")
func TestDemo(t *testing.T) {
	c := NewGlobalCache(nil)
	k := ""
	for i, to := range []string{"!x", "!y"} {
		j := `{"type":"m.room.tombstone","state_key":"","event_id":"$` + to + `","content":{"replacement_room":"` + to + `"}}`
		c.OnNewEvent(context.Background(), &EventData{Event: []byte(j), RoomID: "!r", EventType: "m.room.tombstone", StateKey: &k, Content: gjson.Get(j, "content"), Timestamp: uint64(i), NID: int64(i + 1)})
	}
	m := c.LoadRooms(context.Background(), "!r")["!r"]
	if m == nil || m.UpgradedRoomID == nil || *m.UpgradedRoomID != "!y" { t.Fatal("replaced by the wrong room") }
}
'''
