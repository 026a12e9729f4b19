id='S03'; prop='P03'; pkg='sync3'
edits=[('sync3/request.go','if nextRoom != nil && !nextRoom.HasLeft && !nextRoom.IsInvite {','if nextRoom != nil && !nextRoom.HasLeft {')]
needs='an upgraded room whose successor the user has only been invited to'
breaks='the old room vanishes from every list although the user has not joined the new one'
demo='''package sync3
import ("testing";"github.com/matrix-org/sliding-sync/internal";"github.com/matrix-org/sliding-sync/sync3/caches")
type finder map[string]*RoomConnMetadata
func (f finder) ReadOnlyRoom(id string) *RoomConnMetadata { return f[id] }
func TestDemo(t *testing.T) {
	next := "!new"
	old := &RoomConnMetadata{RoomMetadata: internal.RoomMetadata{RoomID: "!old", UpgradedRoomID: &next}}
	inv := &RoomConnMetadata{RoomMetadata: internal.RoomMetadata{RoomID: "!new"}, UserRoomData: caches.UserRoomData{IsInvite: true}}
	if !(&RequestFilters{}).Include(old, finder{"!new": inv, "!old": old}) {
		t.Fatal("old room hidden although the successor was not joined")
	}
}
'''
