From 3e7b222236d421ae567fb35c97819749febdbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:45 +0000
Subject: [PATCH 01/38] fix: range deltas dropped single-position windows and
 emitted inverted ranges

SliceRanges.Delta ignored ranges such as [5,5] (the position was neither
added nor removed) and produced inverted ranges like [6,5] when one range was
replaced by two adjacent ones.
---
 sync3/range.go | 48 +++++++++++++++---------------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/sync3/range.go b/sync3/range.go
index d4823d4..7d031d3 100644
--- a/sync3/range.go
+++ b/sync3/range.go
@@ -185,7 +185,6 @@ func (r SliceRanges) Delta(next SliceRanges) (added SliceRanges, removed SliceRa
 	var openOldPoint *pointInfo
 	var openNewPoint *pointInfo
 	var lastPoint *pointInfo
-	var lastMergedRange *[2]int64
 	for i := range points {
 		point := points[i]
 		// e.g someone does [[0, 20] [0, 20]] in a single range which results in 0,0,20,20
@@ -211,18 +210,15 @@ func (r SliceRanges) Delta(next SliceRanges) (added SliceRanges, removed SliceRa
 			same = append(same, [2]int64{
 				lastPoint.x, point.x,
 			})
-			lastMergedRange = &same[len(same)-1]
 		} else if openNewPoint != nil { // N->S or N->[]
-			mergedRange := createRange(&point, lastPoint, lastMergedRange)
+			mergedRange := createRange(&point, lastPoint)
 			if mergedRange != nil {
 				added = append(added, *mergedRange)
-				lastMergedRange = &added[len(added)-1]
 			}
 		} else if openOldPoint != nil { // O->S or O->[]
-			mergedRange := createRange(&point, lastPoint, lastMergedRange)
+			mergedRange := createRange(&point, lastPoint)
 			if mergedRange != nil {
 				removed = append(removed, *mergedRange)
-				lastMergedRange = &removed[len(removed)-1]
 			}
 		}
 
@@ -282,40 +278,26 @@ func (r SliceRanges) SliceInto(slice Subslicer) []Subslicer {
 }
 
 // createRange returns a range by closing off an existing open point. Note the "point" may be
-// another open e.g in the case of [0,20] -> [15,25] we want to make the range [0,15] even though 15
+// another open e.g in the case of [0,20] -> [15,25] we want to make the range [0,14] even though 15
 // is an open not a close. We don't care if these points are old or new, as that just determines whether
-// they were added or removed, it doesn't change the range logic.
-func createRange(point, lastPoint *pointInfo, lastMergedRange *[2]int64) *[2]int64 {
-	if point.x <= lastPoint.x {
-		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`
-		return nil
-	}
-
-	// we assume we include the last point (i,e it's closing a range after all) but there are edge cases
-	// where we dont
+// they were added or removed, it doesn't change the range logic. Returns nil if there are no elements
+// between the two points.
+func createRange(point, lastPoint *pointInfo) *[2]int64 {
 	start := lastPoint.x
-	if lastMergedRange != nil && lastPoint.x <= lastMergedRange[1] {
-		// this can happen for cases like:
-		// [0,20] -> [0,20],[20,40] whereby [0,20] is a same range but [20,40] is new, but there is
-		// a 1 element overlap. In this scenario, when processing 40, lastPoint.x = 20 and lastMergedRange=[0,20]
-		// and lastPoint.isOpen so we won't add 1 to the start index of this range, and won't know that we have
-		// to without information on the last merged range.
-		start += 1
-	} else if !lastPoint.isOpen {
+	if !lastPoint.isOpen {
+		// a closed point is included in the range it closed, so we start after it
 		start += 1
 	}
-
+	end := point.x
 	if point.isOpen {
 		// do -1 if 'point' is an open as it will make its own range and we don't want dupes
-		return &[2]int64{
-			start, point.x - 1,
-		}
-	} else {
-		// 'point' is a close so needs to include itself
-		return &[2]int64{
-			start, point.x,
-		}
+		end -= 1
+	}
+	if end < start {
+		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`
+		return nil
 	}
+	return &[2]int64{start, end}
 }
 
 func sortPoints(points []pointInfo) {
-- 
2.43.0


From a60393eaa562a852e5686caa876dd6b0f14ea524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:46 +0000
Subject: [PATCH 02/38] fix: list operations for deleted rooms left clients
 with stale or unknown rooms

Deleting a room could emit a null operation, read past the end of the list,
leave a stale entry at the end of a window which starts after the deleted
room, or INSERT a room without ever sending its data.
---
 sync3/ops.go | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/sync3/ops.go b/sync3/ops.go
index 9f05119..f8cf908 100644
--- a/sync3/ops.go
+++ b/sync3/ops.go
@@ -57,12 +57,12 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 	case ListOpDel:
 		list.Remove(roomID)
 		// no need to resort here, everything is in the right order already and just needs a shift
-		// there will be no toIndex, set it to the end of the array
-		toIndex = int(list.Len()) - 1
-		if toIndex == -1 {
-			// we are removing the last element of the list
-			ops = append(ops, reqList.WriteDeleteOp(0))
-			return
+		// there will be no toIndex: deleting a room is the same as moving it to the end of the array and then
+		// forgetting about it, so use the position the last room used to be at. If the client isn't tracking
+		// that position then nothing needs to be removed from the end of a window, so use the current end.
+		toIndex = int(list.Len())
+		if _, inside := reqList.Ranges.Inside(int64(toIndex)); !inside && fromIndex < toIndex {
+			toIndex--
 		}
 	case ListOpChange:
 		// this should only move exactly 1 room at most as this is called for every single update
@@ -82,7 +82,13 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 	for _, listFromTo := range listFromTos {
 		listFromIndex := listFromTo[0]
 		listToIndex := listFromTo[1]
-		wasUpdatedRoomInserted := listToIndex == toIndex
+		// deleted rooms are never inserted: a different room shifts into its place
+		wasUpdatedRoomInserted := listOp != ListOpDel && listToIndex == toIndex
+		if listOp == ListOpDel && listToIndex >= int(list.Len()) {
+			// nothing is at this position any more, so there is nothing to INSERT: the window just shrinks.
+			ops = append(ops, reqList.WriteDeleteOp(listFromIndex))
+			continue
+		}
 		toRoomID := list.Get(listToIndex)
 		if toRoomID == roomID && listFromIndex == listToIndex && listOp == ListOpChange && wasInsideRange && len(listFromTos) == 1 {
 			// DELETE/INSERT have the same index, we're INSERTing the room that was updated, it was a Change not Add/Delete, it
@@ -91,21 +97,6 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 			continue // no-op move
 		}
 
-		if wasUpdatedRoomInserted && listOp == ListOpDel {
-			// ignore this insert, as deletions algorithmically just jump to the end of the array.
-			// we do this so we can calculate jumps over ranges using the same codepaths as moves.
-			isInsertingDeletedRoom := toRoomID == roomID
-			// The algorithm needs to know if it should issue an INSERT for the `to` room. The whole
-			// "treat deletes as inserts at the end of the array" thing makes it hard to know if it
-			// should or should not. This check ensures that we only skip the INSERT if the to-be shifted
-			// room was not already sent to the client.
-			_, isShiftedRoomAlreadySent := reqList.Ranges.Inside(list.Len())
-			if isInsertingDeletedRoom || (listToIndex == int(list.Len()-1) && isShiftedRoomAlreadySent) {
-				ops = append(ops, reqList.WriteDeleteOp(listFromIndex))
-				continue
-			}
-		}
-
 		swapOp := reqList.WriteSwapOp(toRoomID, listFromIndex, listToIndex)
 		ops = append(ops, swapOp...)
 
-- 
2.43.0


From b92415bed3cfb3a52d246a4e8715657d2c7e3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 03/38] fix: room_types filter disabled the spaces filter

A list which filters on both room_types and spaces returned rooms of the right
type in any space: the room type check returned before spaces were considered.
---
 sync3/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/request.go b/sync3/request.go
index 618e970..dfdf605 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -549,9 +549,9 @@ func (rf *RequestFilters) Include(r *RoomConnMetadata, finder RoomFinder) bool {
 	if nullableStringExists(rf.NotRoomTypes, r.RoomType) {
 		return false // explicitly excluded
 	}
-	if len(rf.RoomTypes) > 0 {
+	if len(rf.RoomTypes) > 0 && !nullableStringExists(rf.RoomTypes, r.RoomType) {
 		// either explicitly included or implicitly excluded
-		return nullableStringExists(rf.RoomTypes, r.RoomType)
+		return false
 	}
 	if len(rf.Spaces) > 0 {
 		// ensure this room is a member of one of these spaces
-- 
2.43.0


From 7bace2cb7bef8ea77cdf5fe2a1344a8f29fca5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 04/38] fix: rooms which were left reappeared in new or
 re-filtered lists

AssignList used every room the connection has ever known, including rooms the
user has left since, so adding a list or changing filters sent left rooms back
to the client.
---
 sync3/lists.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sync3/lists.go b/sync3/lists.go
index 823637b..5c8d760 100644
--- a/sync3/lists.go
+++ b/sync3/lists.go
@@ -233,11 +233,12 @@ func (s *InternalRequestLists) AssignList(ctx context.Context, listKey string, f
 			return s.lists[listKey], false
 		}
 	}
-	roomIDs := make([]string, len(s.allRooms))
-	i := 0
-	for roomID := range s.allRooms {
-		roomIDs[i] = roomID
-		i++
+	roomIDs := make([]string, 0, len(s.allRooms))
+	for roomID, room := range s.allRooms {
+		if room.HasLeft {
+			continue // we remember left rooms but they don't belong to any list.
+		}
+		roomIDs = append(roomIDs, roomID)
 	}
 
 	roomList := NewFilteredSortableRooms(s, listKey, roomIDs, filters)
-- 
2.43.0


From 47f64cf84728f1f02b29c7994445953b255cae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:26 +0000
Subject: [PATCH 05/38] fix: deleting an unknown list created it

---
 sync3/request.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sync3/request.go b/sync3/request.go
index dfdf605..d2f5fbd 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -346,6 +346,11 @@ func (r *Request) ApplyDelta(nextReq *Request) (result *Request, delta *RequestD
 			calculatedLists[listKey] = existingList
 			continue
 		}
+		// check for deletions, whether or not the list exists: deleting an unknown list must not create it.
+		if nextList.Deleted {
+			// do not add the list to `lists` so it disappears
+			continue
+		}
 		if !existingOk {
 			// we added a list
 			// default to recency sort order if missing and there isn't a previous list value to draw from
@@ -355,13 +360,7 @@ func (r *Request) ApplyDelta(nextReq *Request) (result *Request, delta *RequestD
 			calculatedLists[listKey] = nextList
 			continue
 		}
-		// both existing and next exist, check for deletions
-		if nextList.Deleted {
-			// do not add the list to `lists` so it disappears
-			continue
-		}
-
-		// apply the delta
+		// both existing and next exist, apply the delta
 		rooms := nextList.Ranges
 		if rooms == nil {
 			rooms = existingList.Ranges
-- 
2.43.0


From 29172769b24ef24d389b69649bfa17ecc3f3a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:14 +0000
Subject: [PATCH 06/38] fix: combining room subscriptions lost include_heroes
 and include_old_rooms and clobbered required_state

---
 sync3/request.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sync3/request.go b/sync3/request.go
index d2f5fbd..7576a05 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -611,13 +611,21 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 		result.TimelineLimit = other.TimelineLimit
 	}
 	// combine together required_state fields, we'll union them later
-	result.RequiredState = append(rs.RequiredState, other.RequiredState...)
+	// (copy them, as appending in-place could overwrite the backing array of another combined subscription)
+	result.RequiredState = append(append([][2]string(nil), rs.RequiredState...), other.RequiredState...)
+	// include heroes if either subscription wants them
+	result.Heroes = rs.Heroes
+	if result.Heroes == nil || other.IncludeHeroes() {
+		result.Heroes = other.Heroes
+	}
 
 	if checkOldRooms {
 		// set include_old_rooms if it is unset
 		if rs.IncludeOldRooms == nil {
 			result.IncludeOldRooms = other.IncludeOldRooms
-		} else if other.IncludeOldRooms != nil {
+		} else if other.IncludeOldRooms == nil {
+			result.IncludeOldRooms = rs.IncludeOldRooms
+		} else {
 			// 2 subs have include_old_rooms set, union them. Don't check them for old rooms though as that's silly
 			ior := rs.IncludeOldRooms.combineRecursive(*other.IncludeOldRooms, false)
 			result.IncludeOldRooms = &ior
-- 
2.43.0


From fa77c8fb645d1304ff8a909043121f5cee175a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:50 +0000
Subject: [PATCH 07/38] fix: lazy-loading members also returned other state
 keyed by timeline senders

---
 sync3/caches/global.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync3/caches/global.go b/sync3/caches/global.go
index e448c83..143b232 100644
--- a/sync3/caches/global.go
+++ b/sync3/caches/global.go
@@ -207,7 +207,7 @@ func (c *GlobalCache) LoadRoomState(ctx context.Context, roomIDs []string, loadP
 		for _, ev := range stateEvents {
 			if requiredStateMap.Include(ev.Type, ev.StateKey) {
 				result = append(result, ev.JSON)
-			} else if requiredStateMap.IsLazyLoading() {
+			} else if requiredStateMap.IsLazyLoading() && ev.Type == "m.room.member" {
 				usersInTimeline := roomToUsersInTimeline[roomID]
 				for _, userID := range usersInTimeline {
 					if ev.StateKey == userID {
-- 
2.43.0


From e5662991eb12882f09e9ce03f4740a236d628331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:18 +0000
Subject: [PATCH 08/38] fix: late expiry of a connection removed its
 replacement from the connection maps

---
 sync3/connmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sync3/connmap.go b/sync3/connmap.go
index 287770f..3701b82 100644
--- a/sync3/connmap.go
+++ b/sync3/connmap.go
@@ -228,12 +228,15 @@ func (m *ConnMap) closeConn(conn *Conn) {
 
 	connKey := conn.ConnID.String()
 	logger.Trace().Str("conn", connKey).Msg("closing connection")
-	// remove conn from all the maps
-	delete(m.connIDToConn, connKey)
+	// remove conn from all the maps. Expiry callbacks are asynchronous, so by now there may be a new
+	// connection with the same ConnID: leave that one alone.
+	if m.connIDToConn[connKey] == conn {
+		delete(m.connIDToConn, connKey)
+	}
 	h := conn.handler
 	conns := m.userIDToConn[conn.UserID]
 	for i := 0; i < len(conns); i++ {
-		if conns[i].DeviceID == conn.DeviceID && conns[i].CID == conn.CID {
+		if conns[i] == conn {
 			// delete without preserving order
 			conns[i] = nil // allow GC
 			conns = slices.Delete(conns, i, i+1)
-- 
2.43.0


From 519ea45b7804e1053fb34c2ca8995885b1366305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:36 +0000
Subject: [PATCH 09/38] fix: filtered room state contained message events and
 repeated initial state

RoomStateAfterEventPosition appended the latest event of the room whenever its
type matched the filter, even if it is not a state event (any user can send a
message event of any type) and even if the snapshot contains it already.
---
 state/storage.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/state/storage.go b/state/storage.go
index 0d0faa7..c2c094a 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -682,7 +682,17 @@ func (s *Storage) RoomStateAfterEventPosition(ctx context.Context, roomIDs []str
 			// handle the most recent events which won't be in the snapshot but may need to be.
 			// we handle the replace case but don't handle brand new state events
 			for i := range latestEvents {
-				if latestEvents[i].ReplacesNID == 0 {
+				// only state events can be part of the room state: beware that message events can have any type
+				isState := gjson.GetBytes(latestEvents[i].JSON, "state_key").Exists()
+				// if this event is part of the initial state then it is already in the snapshot
+				alreadyExists := false
+				for _, ev := range roomToEvents[latestEvents[i].RoomID] {
+					if ev.NID == latestEvents[i].NID {
+						alreadyExists = true
+						break
+					}
+				}
+				if latestEvents[i].ReplacesNID == 0 && isState && !alreadyExists {
 					// check if we should include it
 					for evType, stateKeys := range eventTypesToStateKeys {
 						if evType != latestEvents[i].Type {
-- 
2.43.0


From 8a7a816cca5cd03c102ef78f9f6aa57cb55cdcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:12 +0000
Subject: [PATCH 10/38] fix: room state at a position inside the initial state
 included later events

RoomStateAfterEventPosition used the current snapshot for positions which belong
to the initial state of the room, so when the database is ahead of the position
it returned state from after the position, or two events for one state key.
---
 state/event_table.go | 13 +++++++++++++
 state/storage.go     | 12 +++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index 33c5c6c..7d578c2 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -312,6 +312,19 @@ func (t *EventTable) UpdateBeforeSnapshotID(txn *sqlx.Tx, eventNID, snapID, repl
 	return err
 }
 
+// SelectNextBeforeSnapshotID returns the state snapshot before the first timeline event in this room which comes after
+// the given NID, or 0 if there is no such event.
+func (t *EventTable) SelectNextBeforeSnapshotID(txn *sqlx.Tx, roomID string, eventNID int64) (snapID int64, err error) {
+	err = txn.QueryRow(
+		`SELECT before_state_snapshot_id FROM syncv3_events WHERE room_id=$1 AND event_nid > $2 AND before_state_snapshot_id != 0 ORDER BY event_nid ASC LIMIT 1`,
+		roomID, eventNID,
+	).Scan(&snapID)
+	if err == sql.ErrNoRows {
+		err = nil
+	}
+	return
+}
+
 // LatestEventInRooms queries the latest events in each of the room IDs given, using highestNID as the highest event.
 //
 // The following query does:
diff --git a/state/storage.go b/state/storage.go
index c2c094a..b35a4f5 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -556,12 +556,18 @@ func (s *Storage) RoomStateAfterEventPosition(ctx context.Context, roomIDs []str
 			roomIndex[ev.RoomID] = i
 			if ev.BeforeStateSnapshotID == 0 {
 				// if there is no before snapshot then this last event NID is _part of_ the initial state,
-				// ergo the state after this == the current state and we can safely ignore the lastEventNID
-				ev.BeforeStateSnapshotID = 0
-				ev.BeforeStateSnapshotID, err = s.Accumulator.roomsTable.CurrentAfterSnapshotID(txn, ev.RoomID)
+				// ergo the state after this == the state before the next timeline event. If there isn't one
+				// then it is the current state. Either way we can safely ignore the lastEventNID.
+				ev.BeforeStateSnapshotID, err = s.Accumulator.eventsTable.SelectNextBeforeSnapshotID(txn, ev.RoomID, ev.NID)
 				if err != nil {
 					return err
 				}
+				if ev.BeforeStateSnapshotID == 0 {
+					ev.BeforeStateSnapshotID, err = s.Accumulator.roomsTable.CurrentAfterSnapshotID(txn, ev.RoomID)
+					if err != nil {
+						return err
+					}
+				}
 				latestEvents[i] = ev
 			}
 		}
-- 
2.43.0


From ff8f4fe40567b9720fb372d8edec323014e09071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:21 +0000
Subject: [PATCH 11/38] fix: first to-device request of a device was not
 recognised if another user has the same device ID

Device IDs are only unique per user. Taking the request for a later one means
that a stale since token deletes messages which were never sent.
---
 sync3/extensions/todevice.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sync3/extensions/todevice.go b/sync3/extensions/todevice.go
index 430c3da..3094d44 100644
--- a/sync3/extensions/todevice.go
+++ b/sync3/extensions/todevice.go
@@ -16,7 +16,8 @@ import (
 // when the response is genuinely lost, but then we would expect the Conn cache to pick it up based
 // on resending the `?pos=`, so it could mean they really aren't incrementing it and it's a client bug,
 // which is bad because it can result in duplicate to-device events which breaks the encryption state machine
-var deviceIDToSinceDebugOnly = map[string]int64{}
+// Device IDs are only unique per user, so this is keyed on both.
+var deviceIDToSinceDebugOnly = map[[2]string]int64{}
 var mapMu = &sync.Mutex{}
 
 // Client created request params
@@ -67,7 +68,7 @@ func (r *ToDeviceRequest) ProcessInitial(ctx context.Context, res *Response, ext
 	l := logger.With().Str("user", extCtx.UserID).Str("device", extCtx.DeviceID).Logger()
 
 	mapMu.Lock()
-	lastSentPos, exists := deviceIDToSinceDebugOnly[extCtx.DeviceID]
+	lastSentPos, exists := deviceIDToSinceDebugOnly[[2]string{extCtx.UserID, extCtx.DeviceID}]
 	internal.Logf(ctx, "to_device", "since=%v limit=%v last_sent=%v", r.Since, r.Limit, lastSentPos)
 	isFirstRequest := !exists
 	mapMu.Unlock()
@@ -129,7 +130,7 @@ func (r *ToDeviceRequest) ProcessInitial(ctx context.Context, res *Response, ext
 		return
 	}
 	mapMu.Lock()
-	deviceIDToSinceDebugOnly[extCtx.DeviceID] = upTo
+	deviceIDToSinceDebugOnly[[2]string{extCtx.UserID, extCtx.DeviceID}] = upTo
 	mapMu.Unlock()
 	// we don't need to aggregate here as we're pulling from the DB and not relying on in-memory structs
 	res.ToDevice = &ToDeviceResponse{
-- 
2.43.0


From abddeff95cbe207f3aa94cbb9fb8e25e63c70a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:20 +0000
Subject: [PATCH 12/38] fix: key request cancellations removed to-device
 messages they do not cancel

A cancellation also swallowed requests which came after it in the same batch,
earlier cancellations which had not been delivered yet, and requests with other
IDs which look alike once joined with dashes.
---
 state/to_device_table.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/state/to_device_table.go b/state/to_device_table.go
index 8035dd7..c967a35 100644
--- a/state/to_device_table.go
+++ b/state/to_device_table.go
@@ -128,8 +128,6 @@ func (t *ToDeviceTable) InsertMessages(userID, deviceID string, msgs []json.RawM
 		// Some of these events may be "cancel" actions. If we find events for the unique key of this event, then delete them
 		// and ignore the "cancel" action.
 		cancels := []string{}
-		allRequests := make(map[string]struct{})
-		allCancels := make(map[string]struct{})
 
 		rows := make([]ToDeviceRow, len(msgs))
 		for i := range msgs {
@@ -154,21 +152,19 @@ func (t *ToDeviceTable) InsertMessages(userID, deviceID string, msgs []json.RawM
 					rows[i].Action = ActionCancel
 				}
 				// "the same request_id and requesting_device_id fields, sent by the same user."
-				key := fmt.Sprintf("%s-%s-%s-%s", rows[i].Type, rows[i].Sender, m.Get("content.requesting_device_id").Str, m.Get("content.request_id").Str)
+				// 0x1f = unit separator: clients choose the IDs so they can contain any printable separator
+				key := fmt.Sprintf("%s\x1f%s\x1f%s\x1f%s", rows[i].Type, rows[i].Sender, m.Get("content.requesting_device_id").Str, m.Get("content.request_id").Str)
 				rows[i].UniqueKey = &key
 			}
 			if rows[i].Action == ActionCancel && rows[i].UniqueKey != nil {
 				cancels = append(cancels, *rows[i].UniqueKey)
-				allCancels[*rows[i].UniqueKey] = struct{}{}
-			} else if rows[i].Action == ActionRequest && rows[i].UniqueKey != nil {
-				allRequests[*rows[i].UniqueKey] = struct{}{}
 			}
 		}
 		if len(cancels) > 0 {
 			var cancelled []string
 			// delete action: request events which have the same unique key, for this device inbox, only if they are not sent to the client already (unacked)
-			err = txn.Select(&cancelled, `DELETE FROM syncv3_to_device_messages WHERE unique_key = ANY($1) AND user_id = $2 AND device_id = $3 AND position > $4 RETURNING unique_key`,
-				pq.StringArray(cancels), userID, deviceID, unackPos)
+			err = txn.Select(&cancelled, `DELETE FROM syncv3_to_device_messages WHERE unique_key = ANY($1) AND user_id = $2 AND device_id = $3 AND position > $4 AND action = $5 RETURNING unique_key`,
+				pq.StringArray(cancels), userID, deviceID, unackPos, ActionRequest)
 			if err != nil {
 				return fmt.Errorf("failed to delete cancelled events: %s", err)
 			}
@@ -176,19 +172,25 @@ func (t *ToDeviceTable) InsertMessages(userID, deviceID string, msgs []json.RawM
 			for _, ukey := range cancelled {
 				cancelledInDBSet[ukey] = struct{}{}
 			}
-			// do not insert the cancelled unique keys
+			// do not insert the cancelled requests, nor the cancellations which cancelled something.
+			// The order matters: a cancellation only affects requests which came before it.
 			newRows := make([]ToDeviceRow, 0, len(rows))
 			for i := range rows {
-				if rows[i].UniqueKey != nil {
+				if rows[i].Action == ActionCancel {
 					ukey := *rows[i].UniqueKey
-					_, exists := cancelledInDBSet[ukey]
-					if exists {
-						continue // the request was deleted so don't insert the cancel
-					}
+					_, didCancel := cancelledInDBSet[ukey] // the request was deleted so don't insert the cancel
+					delete(cancelledInDBSet, ukey)
 					// we may be requesting and cancelling in one go, check it and ignore if so
-					_, reqExists := allRequests[ukey]
-					_, cancelExists := allCancels[ukey]
-					if reqExists && cancelExists {
+					keepRows := newRows[:0]
+					for _, row := range newRows {
+						if row.Action == ActionRequest && *row.UniqueKey == ukey {
+							didCancel = true
+							continue
+						}
+						keepRows = append(keepRows, row)
+					}
+					newRows = keepRows
+					if didCancel {
 						continue
 					}
 				}
-- 
2.43.0


From 19eea85cd2cb1d211e30329fa21e325e7132a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:47 +0000
Subject: [PATCH 13/38] fix: the closest pagination token was not necessarily
 the closest one

Without ORDER BY the database may return any later prev_batch token.
---
 state/event_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index 7d578c2..d4f9544 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -538,7 +538,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 	err = t.db.QueryRow(
 		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= (
 			SELECT event_nid FROM syncv3_events WHERE event_id = $2
-		) LIMIT 1`, roomID, eventID,
+		) ORDER BY event_nid ASC LIMIT 1`, roomID, eventID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
@@ -550,7 +550,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 // is no closest.
 func (t *EventTable) SelectClosestPrevBatch(txn *sqlx.Tx, roomID string, eventNID int64) (prevBatch string, err error) {
 	err = txn.QueryRow(
-		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 LIMIT 1`, roomID, eventNID,
+		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 ORDER BY event_nid ASC LIMIT 1`, roomID, eventNID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
-- 
2.43.0


From 87058c669ac8411a345e78ff2800805aad8914d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 14/38] fix: rooms stayed in lists after leaving them, and out
 of lists after rejoining them

The user's own leave event reached connections without marking the room as left,
so it stayed in lists unless the user was kicked. Rejoining without an invite
never cleared the mark, so the room was missing from the lists of every
connection. Kicks were sent to room subscriptions twice, and a leave which is
processed after another poller has seen the user rejoin hid the room.
---
 sync3/caches/user.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index fa21cfa..4cd04e7 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -593,11 +593,21 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	// add this to our tracked timelines if we have one
 	urd := c.LoadRoomData(eventData.RoomID)
-	// reset the IsInvite field when the user actually joins/rejects the invite
-	if urd.IsInvite && eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
-		urd.IsInvite = eventData.Content.Get("membership").Str == "invite"
-		if !urd.IsInvite {
-			urd.HighlightCount = 0
+	if eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
+		membership := eventData.Content.Get("membership").Str
+		// reset the IsInvite field when the user actually joins/rejects the invite
+		if urd.IsInvite {
+			urd.IsInvite = membership == "invite"
+			if !urd.IsInvite {
+				urd.HighlightCount = 0
+			}
+		}
+		// the room must drop out of lists when the user leaves, and come back when they rejoin
+		switch membership {
+		case "join":
+			urd.HasLeft = false
+		case "leave", "ban":
+			urd.HasLeft = true
 		}
 	}
 	if eventData.EventType == "m.space.child" && eventData.StateKey != nil {
@@ -650,6 +660,12 @@ func (c *UserCache) OnInvite(ctx context.Context, roomID string, inviteStateEven
 func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent json.RawMessage) {
 	urd := c.LoadRoomData(roomID)
 	wasInvite := urd.IsInvite
+	if !wasInvite && !urd.HasLeft && c.joinChecker.IsUserJoined(c.UserID, roomID) {
+		// another poller has already told us that the user has since rejoined, so this leave is stale.
+		return
+	}
+	// OnNewEvent has already told clients about the leave event if it is in the events table
+	alreadyLeft := urd.HasLeft
 	urd.IsInvite = false
 	urd.HasLeft = true
 	urd.Invite = nil
@@ -688,7 +704,7 @@ func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent js
 			Sender:    sender,
 			// if this is an invite rejection/a kick we need to make sure we tell the client, and not
 			// skip it because of the lack of a NID (this event may not be in the events table)
-			AlwaysProcess: wasInvite || isKick,
+			AlwaysProcess: wasInvite || (isKick && !alreadyLeft),
 		},
 	}
 	c.emitOnRoomUpdate(ctx, up)
-- 
2.43.0


From 99f1d6d0730ed60798e02af0f528f7e7038a2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 15/38] fix: a ban did not retire an invite to a room unknown
 to the proxy

---
 sync2/poller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index e3e4839..ed35409 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -900,7 +900,8 @@ func (p *poller) parseRoomsResponse(ctx context.Context, res *SyncResponse) erro
 		var leaveEvent json.RawMessage
 		for _, ev := range roomData.Timeline.Events {
 			leaveEv := gjson.ParseBytes(ev)
-			if leaveEv.Get("content.membership").Str == "leave" && leaveEv.Get("state_key").Str == p.userID {
+			membership := leaveEv.Get("content.membership").Str
+			if (membership == "leave" || membership == "ban") && leaveEv.Get("state_key").Str == p.userID {
 				leaveEvent = ev
 				break
 			}
-- 
2.43.0


From 55ca1039db1f59de22d179acefffc4056fc6621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 16/38] fix: client applied a DELETE before shifting for the
 previous one

---
 client/sync.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/sync.js b/client/sync.js
index e2ef47f..b61ac37 100644
--- a/client/sync.js
+++ b/client/sync.js
@@ -307,11 +307,12 @@ export class SlidingSync {
                     switch (op.op) {
                         case "DELETE": {
                             console.log("DELETE", listKey, op.index, ";");
-                            delete this.lists[listKey].roomIndexToRoomId[op.index];
                             if (gapIndex !== -1) {
-                                // we already have a DELETE operation to process, so process it.
+                                // we already have a DELETE operation to process, so process it
+                                // before this one, as it moves the room this one is about.
                                 this.removeEntry(listKey, gapIndex);
                             }
+                            delete this.lists[listKey].roomIndexToRoomId[op.index];
                             gapIndex = op.index;
                             break;
                         }
-- 
2.43.0


From 201d8e2d648c6e4775005ed60d6e7924db6bcb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:15 +0000
Subject: [PATCH 17/38] fix: rooms coming into a list's window were sent
 without what their subscription asked for

---
 sync3/handler/connstate.go      | 11 +++++++++++
 sync3/handler/connstate_live.go |  1 +
 2 files changed, 12 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index c71a86d..75779c0 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -216,6 +216,7 @@ func (s *ConnState) onIncomingRequest(reqCtx context.Context, req *sync3.Request
 	s.buildRoomSubscriptions(reqCtx, builder, delta.Subs, delta.Unsubs)
 	// works out how rooms get moved about but doesn't pull room data
 	respLists := s.buildListSubscriptions(reqCtx, builder, delta.Lists)
+	s.addExistingSubscriptions(reqCtx, builder)
 
 	// pull room data and set changes on the response
 	response := &sync3.Response{
@@ -465,6 +466,16 @@ func (s *ConnState) buildRoomSubscriptions(ctx context.Context, builder *RoomsBu
 	}
 }
 
+// addExistingSubscriptions makes sure that rooms which will be sent in full again (e.g they have come into the window of
+// a list) include what the client has asked for when subscribing to them, else the client would lose that data.
+func (s *ConnState) addExistingSubscriptions(ctx context.Context, builder *RoomsBuilder) {
+	for roomID, sub := range s.roomSubscriptions {
+		if builder.IncludesRoom(roomID) {
+			builder.AddRoomsToSubscription(ctx, builder.AddSubscription(sub), []string{roomID})
+		}
+	}
+}
+
 func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscription) map[string]sync3.Room {
 	ctx, span := internal.StartSpan(ctx, "buildRooms")
 	defer span.End()
diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 70da78d..ef49d63 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -184,6 +184,7 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 	// add in initial rooms FIRST as we replace whatever is in the rooms key for these rooms.
 	// If we do it after appending live updates then we can lose updates because we replace what
 	// we accumulated.
+	s.addExistingSubscriptions(ctx, builder)
 	rooms := s.buildRooms(ctx, builder.BuildSubscriptions())
 	for roomID, room := range rooms {
 		response.Rooms[roomID] = room
-- 
2.43.0


From 6ac6fa255b52f306b494d98b68a476cf517ca08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:47 +0000
Subject: [PATCH 18/38] fix: keep the display names of heroes up to date in
 rooms with six heroes or more

---
 sync3/caches/global.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/caches/global.go b/sync3/caches/global.go
index 143b232..93015c3 100644
--- a/sync3/caches/global.go
+++ b/sync3/caches/global.go
@@ -346,7 +346,7 @@ func (c *GlobalCache) OnNewEvent(
 					metadata.RemoveHero(*ed.StateKey)
 				}
 			}
-			if len(metadata.Heroes) < 6 && (membership == "join" || membership == "invite") {
+			if membership == "join" || membership == "invite" {
 				// try to find the existing hero e.g they changed their display name
 				found := false
 				for i := range metadata.Heroes {
@@ -357,7 +357,7 @@ func (c *GlobalCache) OnNewEvent(
 						break
 					}
 				}
-				if !found {
+				if !found && len(metadata.Heroes) < 6 {
 					metadata.Heroes = append(metadata.Heroes, internal.Hero{
 						ID:     *ed.StateKey,
 						Name:   ed.Content.Get("displayname").Str,
-- 
2.43.0


From b02c04570e1c0d81ca0c0c0dd3b16ca2678d24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:17 +0000
Subject: [PATCH 19/38] fix: do not treat message events as room encryption,
 tombstone or creation when storing room info

---
 state/accumulator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/accumulator.go b/state/accumulator.go
index 678ef4e..65f2912 100644
--- a/state/accumulator.go
+++ b/state/accumulator.go
@@ -107,6 +107,9 @@ func (a *Accumulator) roomInfoDelta(roomID string, events []Event) RoomInfo {
 	var roomType *string
 	var pred *string
 	for _, ev := range events {
+		if !gjson.GetBytes(ev.JSON, "state_key").Exists() {
+			continue // only state events define the room, whatever the type of the event
+		}
 		if ev.Type == "m.room.encryption" && ev.StateKey == "" {
 			isEncrypted = true
 		}
-- 
2.43.0


From 0ccac8f5e1d558121a350b39216d37c4ffd95bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:21 +0000
Subject: [PATCH 20/38] fix: do not add the events of a space to the timelines
 of its children

---
 sync3/caches/user.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 4cd04e7..da5021b 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -582,9 +582,14 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 	// now we need to notify connections for the _child_
 	// but only if they are allowed to see the child event (i.e they are joined to the child room)
 	if c.joinChecker.IsUserJoined(c.UserID, childRoomID) {
+		// the event belongs to the timeline of the parent, not the child, so do not include it here: this is
+		// only to update lists which filter on spaces.
+		childEventData := *eventData
+		childEventData.Event = nil
+		childEventData.AlwaysProcess = true
 		roomUpdate := &RoomEventUpdate{
 			RoomUpdate: c.newRoomUpdate(ctx, childRoomID),
-			EventData:  eventData,
+			EventData:  &childEventData,
 		}
 		c.emitOnRoomUpdate(ctx, roomUpdate)
 	}
-- 
2.43.0


From 32fd1904a8b2dfbc9e9692fae88a53c4076560f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:07 +0000
Subject: [PATCH 21/38] fix: do not loop forever when including old rooms whose
 predecessors form a cycle

---
 sync3/handler/connstate.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 75779c0..ab5ecba 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -497,17 +497,21 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 				if currRoom != nil {
 					prevRoomID = currRoom.PredecessorRoomID
 				}
-				for prevRoomID != nil { // <- the chain of old rooms
+				// predecessors are under control of whoever made the room, so they may not form a chain
+				seen := map[string]bool{currRoomID: true}
+				for prevRoomID != nil && !seen[*prevRoomID] { // <- the chain of old rooms
 					// if not joined, bail
 					if !s.joinChecker.IsUserJoined(s.userID, *prevRoomID) {
 						break
 					}
+					seen[*prevRoomID] = true
 					oldRoomIDs = append(oldRoomIDs, *prevRoomID)
 					// keep checking
 					prevRoom := s.lists.ReadOnlyRoom(*prevRoomID)
-					if prevRoom != nil {
-						prevRoomID = prevRoom.PredecessorRoomID
+					if prevRoom == nil {
+						break
 					}
+					prevRoomID = prevRoom.PredecessorRoomID
 				}
 			}
 
-- 
2.43.0


From 6f77029b776f90ce2ceba96c517720aee5bf14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:24 +0000
Subject: [PATCH 22/38] fix: update lists when the user joins or leaves the
 replacement of a room

---
 sync3/handler/connstate_live.go | 12 +++++++++++
 sync3/lists.go                  | 38 ++++++++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index ef49d63..c7b4e03 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -181,6 +181,18 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 		response.Lists[listKey] = resList
 	}
 
+	// joining or leaving a room hides or shows the rooms which it replaced
+	for oldRoomID, listDeltas := range delta.ReplacedRooms {
+		for _, listDelta := range listDeltas {
+			listKey := listDelta.ListKey
+			reqList := s.muxedReq.Lists[listKey]
+			resList := response.Lists[listKey]
+			ops, _ := s.resort(ctx, builder, &reqList, s.lists.Get(listKey), oldRoomID, listDelta.Op)
+			resList.Ops = append(resList.Ops, ops...)
+			response.Lists[listKey] = resList
+		}
+	}
+
 	// add in initial rooms FIRST as we replace whatever is in the rooms key for these rooms.
 	// If we do it after appending live updates then we can lose updates because we replace what
 	// we accumulated.
diff --git a/sync3/lists.go b/sync3/lists.go
index 5c8d760..1ff0434 100644
--- a/sync3/lists.go
+++ b/sync3/lists.go
@@ -39,6 +39,9 @@ type RoomDelta struct {
 	NotificationCountChanged bool
 	HighlightCountChanged    bool
 	Lists                    []RoomListDelta
+	// Rooms which have been replaced by this room, and the lists which they have to leave or rejoin because the user
+	// has joined or left this room.
+	ReplacedRooms map[string][]RoomListDelta
 }
 
 // InternalRequestLists is a list of lists which matches each index position in the request
@@ -121,35 +124,60 @@ func (s *InternalRequestLists) SetRoom(r RoomConnMetadata) (delta RoomDelta) {
 	// filter.Include may call on this room ID in the RoomFinder, so make sure it finds it.
 	s.allRooms[r.RoomID] = &r
 
+	delta.Lists = s.listDeltas(&r)
+
+	// Replaced rooms are only in lists if the user isn't joined to the replacement, see RequestFilters.Include.
+	wasJoined := exists && !existing.HasLeft && !existing.IsInvite
+	if isJoined := !r.HasLeft && !r.IsInvite; wasJoined != isJoined {
+		for _, oldRoom := range s.allRooms {
+			if oldRoom.UpgradedRoomID == nil || *oldRoom.UpgradedRoomID != r.RoomID || oldRoom.RoomID == r.RoomID {
+				continue
+			}
+			for _, listDelta := range s.listDeltas(oldRoom) {
+				if listDelta.Op == ListOpChange {
+					continue
+				}
+				if delta.ReplacedRooms == nil {
+					delta.ReplacedRooms = make(map[string][]RoomListDelta)
+				}
+				delta.ReplacedRooms[oldRoom.RoomID] = append(delta.ReplacedRooms[oldRoom.RoomID], listDelta)
+			}
+		}
+	}
+	return delta
+}
+
+// listDeltas works out which lists this room has to be added to, removed from or is in already.
+func (s *InternalRequestLists) listDeltas(r *RoomConnMetadata) (deltas []RoomListDelta) {
 	for listKey, list := range s.lists {
 		_, alreadyExists := list.roomIDToIndex[r.RoomID]
-		shouldExist := list.filter.Include(&r, s)
+		shouldExist := list.filter.Include(r, s)
 		if shouldExist && r.HasLeft {
 			shouldExist = false
 		}
 		// weird nesting ensures we handle all 4 cases
 		if alreadyExists {
 			if shouldExist { // could be a change
-				delta.Lists = append(delta.Lists, RoomListDelta{
+				deltas = append(deltas, RoomListDelta{
 					ListKey: listKey,
 					Op:      ListOpChange,
 				})
 			} else { // removal
-				delta.Lists = append(delta.Lists, RoomListDelta{
+				deltas = append(deltas, RoomListDelta{
 					ListKey: listKey,
 					Op:      ListOpDel,
 				})
 			}
 		} else {
 			if shouldExist { // addition
-				delta.Lists = append(delta.Lists, RoomListDelta{
+				deltas = append(deltas, RoomListDelta{
 					ListKey: listKey,
 					Op:      ListOpAdd,
 				})
 			} // else it doesn't exist and it shouldn't exist, so do nothing e.g room isn't relevant to this list
 		}
 	}
-	return delta
+	return deltas
 }
 
 // Remove a room from all lists e.g retired an invite, left a room
-- 
2.43.0


From 8c1866d9bde401a856e21f5dc7ea38a848294480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:13 +0000
Subject: [PATCH 23/38] fix: remember transaction IDs which arrive together
 with ones already known

---
 state/txn_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state/txn_table.go b/state/txn_table.go
index 8120c19..c9149af 100644
--- a/state/txn_table.go
+++ b/state/txn_table.go
@@ -48,7 +48,8 @@ func (t *TransactionsTable) Insert(userID, deviceID string, eventIDToTxnID map[s
 	}
 	result, err := t.db.NamedQuery(`
 		INSERT INTO syncv3_txns (user_id, device_id, event_id, txn_id, ts)
-        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)`, rows)
+        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)
+        ON CONFLICT (user_id, device_id, event_id) DO UPDATE SET txn_id = EXCLUDED.txn_id, ts = EXCLUDED.ts`, rows)
 	if err == nil {
 		result.Close()
 	}
-- 
2.43.0


From d3ab8b1eb08d1a7b2b98b5c0011578e3c1d32768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 24/38] fix: lazy-load members when the timeline limit or the
 required state of a list changes

Raising the timeline limit of a list added events to the timelines of its rooms without the members who sent them, and
asking for lazy-loaded members only did so for events to come.
---
 sync3/handler/connstate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index ab5ecba..6a14127 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -392,6 +392,13 @@ func (s *ConnState) onIncomingListRequest(ctx context.Context, builder *RoomsBui
 			if reqStateChanged {
 				newRS.RequiredState = nextReqList.RequiredState
 			}
+			// which members to lazy-load depends on both the timeline and the required state.
+			if nextReqList.LazyLoadMembers() {
+				newRS.TimelineLimit = nextReqList.TimelineLimit
+				if !reqStateChanged {
+					newRS.RequiredState = [][2]string{{"m.room.member", sync3.StateKeyLazy}}
+				}
+			}
 			newSubID := builder.AddSubscription(newRS)
 			// all the current rooms need to be added to this subscription
 			subslice := nextReqList.Ranges.SliceInto(roomList)
-- 
2.43.0


From bbdfe911e6616823c4d557d07b256c7028d12247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:33 +0000
Subject: [PATCH 25/38] fix: transaction IDs were sent to devices which did not
 send the event

---
 sync3/caches/user.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index da5021b..3b44085 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -452,6 +452,16 @@ func (c *UserCache) AnnotateWithTransactionIDs(ctx context.Context, userID strin
 			ev := gjson.ParseBytes(evJSON)
 			evID := ev.Get("event_id").Str
 			sender := ev.Get("sender").Str
+			if ev.Get("unsigned.transaction_id").Exists() {
+				// the event was stored as seen by the device which sent it, which may not be the one we're returning it to.
+				newJSON, err := sjson.DeleteBytes(evJSON, "unsigned.transaction_id")
+				if err != nil {
+					logger.Err(err).Str("user", c.UserID).Msg("AnnotateWithTransactionIDs: sjson failed")
+					internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
+				} else {
+					events[i] = newJSON
+				}
+			}
 			if sender != userID {
 				// don't ask for txn IDs for events which weren't sent by us.
 				// If we do, we'll needlessly hit the database, increasing latencies when
-- 
2.43.0


From 171154a81ae4198a260ed51052280eb87b54a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 26/38] fix: global account data was sent as that of a room
 without ID if any room was out of scope

---
 sync3/extensions/account_data.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index a84d7f2..9d9bfd9 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -92,12 +92,10 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 }
 
 func (r *AccountDataRequest) ProcessInitial(ctx context.Context, res *Response, extCtx Context) {
-	roomIDs := make([]string, len(extCtx.RoomIDToTimeline))
-	i := 0
+	roomIDs := make([]string, 0, len(extCtx.RoomIDToTimeline))
 	for roomID := range extCtx.RoomIDToTimeline {
 		if r.RoomInScope(roomID, extCtx) {
-			roomIDs[i] = roomID
-			i++
+			roomIDs = append(roomIDs, roomID)
 		}
 	}
 	extRes := &AccountDataResponse{
-- 
2.43.0


From d1173ac53f90bf58509912d1e17d39ebd02ad1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 27/38] fix: account data which changed while its room was out
 of the window was lost if it returned in the same response

---
 sync3/extensions/account_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index 9d9bfd9..b488aa4 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -50,6 +50,9 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 	case *caches.RoomAccountDataUpdate:
 		if r.RoomInScope(update.RoomID(), extCtx) {
 			roomToMsgs[update.RoomID()] = accountEventsAsJSON(update.AccountData)
+		} else if res.AccountData != nil {
+			// what was loaded for this room is out of date if the room comes into scope again
+			delete(res.AccountData.loadedRooms, update.RoomID())
 		}
 	case caches.RoomUpdate:
 		if !r.RoomInScope(update.RoomID(), extCtx) {
-- 
2.43.0


From 99b04ee9fc98dc7b1867cfff349f746203a75c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:56 +0000
Subject: [PATCH 28/38] fix: events were lost if the database failed while
 loading the state of their room

The error was turned into a DataError, which makes pollers skip the response rather than retry it.
---
 state/event_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/state/event_table.go b/state/event_table.go
index d4f9544..aa758e9 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -205,6 +205,10 @@ func (t *EventTable) selectAny(txn *sqlx.Tx, numWanted int, queryStr string, pqA
 	} else {
 		err = t.db.Select(&events, queryStr, pqArray)
 	}
+	if err != nil {
+		// not a DataError: trying again may help
+		return nil, err
+	}
 	if numWanted > 0 {
 		if numWanted != len(events) {
 			return nil, internal.NewDataError("events table query %s got %d events wanted %d. err=%s", queryStr, len(events), numWanted, err)
-- 
2.43.0


From 251415a7ee514078b7c02adfcc5db54ecd9285fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:56 +0000
Subject: [PATCH 29/38] fix: account data was lost if storing it failed, as it
 was taken for a duplicate when retried

---
 sync2/handler2/handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 7b6ecf5..e4ef5f7 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -488,6 +488,7 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 	// duplicate suppression for multiple devices on the same account.
 	// We suppress by remembering the last bytes for a given account data, and if they match we ignore.
 	dedupedEvents := make([]json.RawMessage, 0, len(events))
+	newHashes := make(map[string]uint64, len(events))
 	for i := range events {
 		evType := gjson.GetBytes(events[i], "type").Str
 		key := fmt.Sprintf("%s|%s|%s", userID, roomID, evType)
@@ -500,7 +501,7 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 			}
 		}
 		dedupedEvents = append(dedupedEvents, events[i])
-		h.accountDataMap.Store(key, thisHash)
+		newHashes[key] = thisHash
 	}
 	if len(dedupedEvents) == 0 {
 		return nil
@@ -512,6 +513,10 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 		sentry.CaptureException(err)
 		return err
 	}
+	// only remember what we have stored, else we would ignore it when it is retried
+	for key, hash := range newHashes {
+		h.accountDataMap.Store(key, hash)
+	}
 	var types []string
 	for _, d := range data {
 		types = append(types, d.Type)
-- 
2.43.0


From 2177a21d1061ce3d2f9f1874dd077e2217211266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:56 +0000
Subject: [PATCH 30/38] fix: unread counts which could not be stored were never
 stored, as they were taken for duplicates

---
 sync2/handler2/handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index e4ef5f7..56e7694 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -475,6 +475,8 @@ func (h *Handler) UpdateUnreadCounts(ctx context.Context, roomID, userID string,
 	if err != nil {
 		logger.Err(err).Str("user", userID).Str("room", roomID).Msg("failed to update unread counters")
 		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
+		// we will see the same counts again, don't take them for duplicates then
+		delete(h.unreadMap, key)
 	}
 	h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2UnreadCounts{
 		RoomID:            roomID,
-- 
2.43.0


From 4cc39a2c27e27b274a93ac6a7cc1ce9e48fe549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:41 +0000
Subject: [PATCH 31/38] fix: a gap in the timeline of a space made it lose its
 rooms, and upgrades within gaps were missed

---
 state/storage.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/state/storage.go b/state/storage.go
index b35a4f5..5aa6eda 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -322,8 +322,9 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 	FROM syncv3_events JOIN snapshot ON (
 		event_nid = ANY (ARRAY_CAT(events, membership_events))
 	)
-	WHERE (event_type IN ('m.room.name', 'm.room.avatar', 'm.room.canonical_alias', 'm.room.encryption') AND state_key = '')
+	WHERE (event_type IN ('m.room.name', 'm.room.avatar', 'm.room.canonical_alias', 'm.room.encryption', 'm.room.tombstone') AND state_key = '')
 	   OR (event_type = 'm.room.member' AND membership IN ('join', '_join', 'invite', '_invite'))
+	   OR event_type = 'm.space.child'
 	ORDER BY event_nid ASC
 	;`, metadata.RoomID)
 	if err != nil {
@@ -357,8 +358,14 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 			case "_invite":
 				metadata.InviteCount++
 			}
+		case "m.room.tombstone":
+			if newRoomID := gjson.GetBytes(ev.JSON, "content.replacement_room").Str; newRoomID != "" {
+				metadata.UpgradedRoomID = &newRoomID
+			}
 		case "m.space.child":
-			metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			if gjson.GetBytes(ev.JSON, "content.via").IsArray() {
+				metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			}
 		}
 	}
 
@@ -373,8 +380,8 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 		metadata.Heroes = append(metadata.Heroes, hero)
 	}
 
-	// For now, don't bother reloading PredecessorID and UpgradedRoomID.
-	// These shouldn't be changing during a room's lifetime in normal operation.
+	// For now, don't bother reloading PredecessorID.
+	// This shouldn't be changing during a room's lifetime in normal operation.
 
 	// We haven't updated LatestEventsByType because that's not part of the timeline.
 	return nil
-- 
2.43.0


From 7c4cbc4321bc1649f682db67a600d8864f3b45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:41 +0000
Subject: [PATCH 32/38] fix: events were sent twice if a room came into view by
 an event older than those loaded for it

---
 sync3/handler/connstate_live.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index c7b4e03..6f9f00a 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -240,8 +240,9 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				if roomEventUpdate.EventData.NID <= s.loadPositions[roomEventUpdate.RoomID()] {
 					// this update has been accounted for by the initial:true room snapshot
 					advancedPastEvent = true
+				} else {
+					s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 				}
-				s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 			}
 			// we only append to the timeline if we haven't already got this event. This can happen when:
 			// - 2 live events for a room mid-connection
-- 
2.43.0


From ef64efbd5a5077d8cc387a5fc5abbfc5c27e03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:17 +0000
Subject: [PATCH 33/38] fix: a larger timeline limit or more required state had
 no effect on lists with slow_get_all_rooms

---
 sync3/handler/connstate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 6a14127..49c98c1 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -401,7 +401,12 @@ func (s *ConnState) onIncomingListRequest(ctx context.Context, builder *RoomsBui
 			}
 			newSubID := builder.AddSubscription(newRS)
 			// all the current rooms need to be added to this subscription
-			subslice := nextReqList.Ranges.SliceInto(roomList)
+			currRanges := nextReqList.Ranges
+			if nextReqList.ShouldGetAllRooms() {
+				// there are no ranges in this mode, every room in the list is visible
+				currRanges = sync3.SliceRanges{{0, roomList.Len()}}
+			}
+			subslice := currRanges.SliceInto(roomList)
 			for _, ss := range subslice {
 				sortableRooms := ss.(*sync3.SortableRooms)
 				roomIDs := sortableRooms.RoomIDs()
-- 
2.43.0


From 0bb2e6fc2c812ebf43be68fec03adbb61751ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 34/38] fix: clients waiting for another client's poller were
 not told that its token is invalid

---
 sync2/poller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync2/poller.go b/sync2/poller.go
index ed35409..8ab42e4 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -269,6 +269,9 @@ func (h *PollerMap) EnsurePolling(pid PollerID, accessToken, v2since string, isS
 		// this existing poller may not have completed the initial sync yet, so we need to make sure
 		// it has before we return.
 		poller.WaitUntilInitialSync()
+		if poller.terminated.Load() {
+			return false, fmt.Errorf("PollerMap.EnsurePolling: poller terminated after intial sync")
+		}
 		return false, nil
 	}
 	// check if we need to wait at all: we don't need to if this user is already syncing on a different device
-- 
2.43.0


From c71063cb75b5b81208c9f412c05975d557b2cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 35/38] fix: a request was answered before the first sync of
 its device's poller, or refused for another's, if tokens expired meanwhile

---
 sync3/handler/ensure_polling.go | 39 ++++++++++++++-------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/sync3/handler/ensure_polling.go b/sync3/handler/ensure_polling.go
index 24a54ca..f1ae3fc 100644
--- a/sync3/handler/ensure_polling.go
+++ b/sync3/handler/ensure_polling.go
@@ -32,7 +32,7 @@ type EnsurePoller struct {
 	// mu guards reads and writes to pendingPolls.
 	mu *sync.Mutex
 	// pendingPolls tracks the status of pollers that we are waiting to start.
-	pendingPolls map[sync2.PollerID]pendingInfo
+	pendingPolls map[sync2.PollerID]*pendingInfo
 	notifier     pubsub.Notifier
 	// the total number of outstanding ensurepolling requests.
 	numPendingEnsurePolling prometheus.Gauge
@@ -42,7 +42,7 @@ func NewEnsurePoller(notifier pubsub.Notifier, enablePrometheus bool) *EnsurePol
 	p := &EnsurePoller{
 		chanName:     pubsub.ChanV3,
 		mu:           &sync.Mutex{},
-		pendingPolls: make(map[sync2.PollerID]pendingInfo),
+		pendingPolls: make(map[sync2.PollerID]*pendingInfo),
 		notifier:     notifier,
 	}
 	if enablePrometheus {
@@ -65,27 +65,20 @@ func (p *EnsurePoller) EnsurePolling(ctx context.Context, pid sync2.PollerID, to
 	defer region.End()
 	p.mu.Lock()
 	// do we need to wait? Expired devices ALWAYS need a fresh poll
-	expired := p.pendingPolls[pid].expired
-	if !expired && p.pendingPolls[pid].done {
+	pending := p.pendingPolls[pid]
+	if pending != nil && !pending.expired && pending.done {
 		internal.Logf(ctx, "EnsurePolling", "user %s device %s already done", pid.UserID, pid.DeviceID)
 		p.mu.Unlock()
-		return expired // always false
+		return false
 	}
 
 	// either we have expired or we haven't expired and are still waiting on the initial sync.
-	// If we have expired, nuke the pid from the map now so we will use the same code path as a fresh device sync
-	if expired {
-		// close any existing channel
-		if p.pendingPolls[pid].ch != nil {
-			close(p.pendingPolls[pid].ch)
-		}
-		delete(p.pendingPolls, pid)
-		// at this point, ch == nil so we will do an initial sync
-	}
+	// If we have expired, ignore the existing entry so we will use the same code path as a fresh device sync,
+	// unless we're still waiting on that sync: its outcome must not be mistaken for that of a fresh one.
 
 	// have we called EnsurePolling for this user/device before?
-	ch := p.pendingPolls[pid].ch
-	if ch != nil {
+	if pending != nil && pending.ch != nil {
+		ch := pending.ch
 		p.mu.Unlock()
 		// we already called EnsurePolling on this device, so just listen for the close
 		// TODO: several times there have been problems getting the response back from the poller
@@ -95,17 +88,19 @@ func (p *EnsurePoller) EnsurePolling(ctx context.Context, pid sync2.PollerID, to
 		_, r2 := internal.StartSpan(ctx, "waitForExistingChannelClose")
 		<-ch
 		r2.End()
+		// NB: not p.pendingPolls[pid], which may have been replaced by now.
 		p.mu.Lock()
-		expired := p.pendingPolls[pid].expired
+		expired := pending.expired
 		p.mu.Unlock()
 		return expired
 	}
 	// Make a channel to wait until we have done an initial sync
-	ch = make(chan struct{})
-	p.pendingPolls[pid] = pendingInfo{
+	ch := make(chan struct{})
+	pending = &pendingInfo{
 		done: false,
 		ch:   ch,
 	}
+	p.pendingPolls[pid] = pending
 	p.calculateNumOutstanding() // increment total
 	p.mu.Unlock()
 	// ask the pollers to poll for this device
@@ -122,7 +117,7 @@ func (p *EnsurePoller) EnsurePolling(ctx context.Context, pid sync2.PollerID, to
 	r2.End()
 
 	p.mu.Lock()
-	expired = p.pendingPolls[pid].expired
+	expired := pending.expired
 	p.mu.Unlock()
 	return expired
 }
@@ -139,7 +134,7 @@ func (p *EnsurePoller) OnInitialSyncComplete(payload *pubsub.V2InitialSyncComple
 		// This can happen when the v2 poller spontaneously starts polling even without us asking it to
 		// e.g from the database
 		log.Trace().Msg("OnInitialSyncComplete: we weren't waiting for this")
-		p.pendingPolls[pid] = pendingInfo{
+		p.pendingPolls[pid] = &pendingInfo{
 			done:    true,
 			expired: !payload.Success,
 		}
@@ -160,7 +155,6 @@ func (p *EnsurePoller) OnInitialSyncComplete(payload *pubsub.V2InitialSyncComple
 	if !pending.expired {
 		pending.expired = !payload.Success
 	}
-	p.pendingPolls[pid] = pending
 	p.calculateNumOutstanding() // decrement total
 	log.Trace().Msg("OnInitialSyncComplete: closing channel")
 	close(ch)
@@ -176,7 +170,6 @@ func (p *EnsurePoller) OnExpiredToken(payload *pubsub.V2ExpiredToken) {
 		return
 	}
 	pending.expired = true
-	p.pendingPolls[pid] = pending
 
 	// We used to delete the entry from the map at this point to force the next
 	// EnsurePolling call to do a fresh EnsurePolling request, but now we do that
-- 
2.43.0


From 5d623834effc30b304d10585c61d4cfa12e4b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:00 +0000
Subject: [PATCH 36/38] fix: no pollers were started if the last of the stored
 tokens could not be decrypted

---
 sync2/tokens_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync2/tokens_table.go b/sync2/tokens_table.go
index 961e7bd..d651bad 100644
--- a/sync2/tokens_table.go
+++ b/sync2/tokens_table.go
@@ -160,11 +160,12 @@ func (t *TokensTable) TokenForEachDevice(txn *sqlx.Tx) (tokens []TokenForPoller,
 		return
 	}
 	for _, token := range tokens {
-		token.AccessToken, err = t.decrypt(token.AccessTokenEncrypted)
-		if err != nil {
+		accessToken, decryptErr := t.decrypt(token.AccessTokenEncrypted)
+		if decryptErr != nil {
 			// Ignore decryption failure.
 			continue
 		}
+		token.AccessToken = accessToken
 		token.AccessTokenHash = hashToken(token.AccessToken)
 	}
 	return
-- 
2.43.0


From e0d7b51b717a18ba9847a1e4f4ec64f3d6995ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 37/38] fix: requests of a device blocked forever if its token
 was expired before its poller was started

---
 sync2/handler2/handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 56e7694..1f8e654 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -578,6 +578,13 @@ func (h *Handler) EnsurePolling(p *pubsub.V3EnsurePolling) {
 	if err != nil {
 		log.Err(err).Msg("V3Sub: EnsurePolling unknown device")
 		sentry.CaptureException(err)
+		// e.g. the token was expired after the request looked it up. Someone is waiting for an answer, as
+		// will be everyone who asks for this device from now on.
+		h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2InitialSyncComplete{
+			UserID:   p.UserID,
+			DeviceID: p.DeviceID,
+			Success:  false,
+		})
 		return
 	}
 	// don't block us from consuming more pubsub messages just because someone wants to sync
-- 
2.43.0


From 6245b1263ee48c1718b344e32b804974a10ed705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:46 +0000
Subject: [PATCH 38/38] fix: events in one room could redact events in another

---
 state/event_table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state/event_table.go b/state/event_table.go
index aa758e9..1b63abf 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -415,6 +415,11 @@ func (t *EventTable) Redact(txn *sqlx.Tx, roomVer string, redacteeEventIDToRedac
 		)
 	}
 	for i := range eventsToRedact {
+		if redactEvent := redacteeEventIDToRedactEvent[eventsToRedact[i].ID]; redactEvent.RoomID != "" && redactEvent.RoomID != eventsToRedact[i].RoomID {
+			// events can only be redacted by events in the same room.
+			logger.Warn().Str("redactee", eventsToRedact[i].ID).Str("room", redactEvent.RoomID).Msg("Redact: ignoring redaction of an event in another room")
+			continue
+		}
 		eventsToRedact[i].JSON, err = rv.RedactEventJSON(eventsToRedact[i].JSON)
 		if err != nil {
 			return fmt.Errorf("RedactEventJSON[%s]: %w", eventsToRedact[i].ID, err)
-- 
2.43.0

