id='S04'; prop='P04'; pkg='sync3'
edits=[('sync3/lists.go','''		if shouldExist && r.HasLeft {
			shouldExist = false
		}''','''		if shouldExist && r.HasLeft && !r.IsInvite {
			shouldExist = false
		}''')]
needs='a room that was still an invite when the user left (rejected) it'
breaks='a rejected invite stays in lists forever'
demo='''package sync3
import ("context";"testing";"github.com/matrix-org/sliding-sync/internal";"github.com/matrix-org/sliding-sync/sync3/caches")
func TestDemo(t *testing.T) {
	l := NewInternalRequestLists()
	l.AssignList(context.Background(), "a", &RequestFilters{}, []string{SortByRecency}, Overwrite)
	mk := func(left bool) RoomConnMetadata {
		return RoomConnMetadata{RoomMetadata: internal.RoomMetadata{RoomID: "!r"}, UserRoomData: caches.UserRoomData{IsInvite: true, HasLeft: left}, LastInterestedEventTimestamps: map[string]uint64{"a": 1}}
	}
	d := l.SetRoom(mk(false))
	if len(d.Lists) != 1 || d.Lists[0].Op != ListOpAdd { t.Fatalf("%v", d) }
	l.Get("a").Add("!r")
	d = l.SetRoom(mk(true))
	if len(d.Lists) != 1 || d.Lists[0].Op != ListOpDel { t.Fatalf("left room not removed: %v", d) }
}
'''
