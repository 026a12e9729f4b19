package handler

import (
	"context"
	"encoding/json"
	"sync"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/pubsub"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/sync3/caches"
	"github.com/matrix-org/sliding-sync/sync3/extensions"
)

// Read receipts, from the homeserver's notices to what a client is told.

type vRcptConn struct {
	user string
	ext  *extensions.Handler
	ex   extensions.Request
	ectx extensions.Context
	res  extensions.Response
}

func (c *vRcptConn) OnRoomUpdate(ctx context.Context, up caches.RoomUpdate) {
	c.ext.HandleLiveUpdate(ctx, up, c.ex, &c.res, c.ectx)
}
func (c *vRcptConn) OnUpdate(ctx context.Context, up caches.Update) {
	c.ext.HandleLiveUpdate(ctx, up, c.ex, &c.res, c.ectx)
}

type vRcptInfo struct {
	TS       int64  `json:"ts"`
	ThreadID string `json:"thread_id"`
}

type vRcptEDU struct {
	Type    string                                     `json:"type"`
	Content map[string]map[string]map[string]vRcptInfo `json:"content"`
}

// vShown checks one room's receipts against those expected.
func vShown(res extensions.Response, room string, want []internal.Receipt, what string) {
	var edu vRcptEDU
	if res.Receipts != nil && res.Receipts.Rooms[room] != nil {
		vAssert(json.Unmarshal(res.Receipts.Rooms[room], &edu) == nil, "the receipts are a JSON object")
		vAssert(edu.Type == "m.receipt", "the receipts are an m.receipt event")
	}
	n := 0
	for _, byType := range edu.Content {
		for t, byUser := range byType {
			vAssert(t == "m.read" || t == "m.read.private", "receipts have a known type")
			n += len(byUser)
		}
	}
	seen := 0
	for i, r := range want {
		typ := "m.read"
		if r.IsPrivate {
			typ = "m.read.private"
		}
		got, ok := edu.Content[r.EventID][typ][r.UserID]
		vAssert(ok, what+": every receipt is shown")
		same, first, threadless := false, true, false
		for j, q := range want {
			if q.EventID == r.EventID && q.UserID == r.UserID && q.IsPrivate == r.IsPrivate {
				if j < i {
					first = false
				}
				if q.ThreadID == "" {
					threadless = true
				}
				if got.ThreadID == q.ThreadID && got.TS == q.TS {
					same = true
				}
			}
		}
		vAssert(same, what+": receipts are shown as received")
		vAssert(!threadless || got.ThreadID == "", what+": a threadless receipt is preferred")
		if first {
			seen++
		}
	}
	vAssert(n == seen, what+": no other receipts are shown")
}

func vhReceipts() {
	ctx := context.Background()
	const r1, r2 = "!1:h", "!2:h"
	store := state.NewStorageWithDB(vDB(), false)
	gc := caches.NewGlobalCache(store)
	h := &SyncLiveHandler{Storage: store, userCaches: &sync.Map{}, Dispatcher: sync3.NewDispatcher(), GlobalCache: gc}
	ext := &extensions.Handler{Store: store, GlobalCache: gc}
	on := true
	users := []string{vA, vB}
	// A is in room 1 only, B in both; C reads room 1 and has no connection
	vAssert(h.Dispatcher.Startup(map[string][]string{r1: {vA, vB, vC}, r2: {vB}}) == nil, "startup")
	conns := map[string]*vRcptConn{}
	for _, u := range users {
		c := &vRcptConn{user: u, ext: ext, ex: extensions.Request{Receipts: &extensions.ReceiptsRequest{Core: extensions.Core{Enabled: &on, Rooms: []string{"*"}}}}}
		c.ectx = extensions.Context{Handler: ext, UserID: u, AllSubscribedRooms: []string{r1, r2}}
		uc := caches.NewUserCache(u, gc, store, nil, nil)
		uc.Subscribe(c)
		h.userCaches.Store(u, uc)
		vAssert(h.Dispatcher.Register(ctx, u, uc) == nil, "register")
		conns[u] = c
	}
	var latest []internal.Receipt // one per room, user, thread and kind
	n := vPick(3, 4)
	
	for i := 0; i < n; i++ {
		room := []string{r1, r2}[vChoose("room", 2)]
		ts := int64(10 + i)
		if i == n-1 {
			ts = int64(vInt("ts", 1, 1000))
		}
		// a notice with up to two receipts of different users
		first := internal.Receipt{RoomID: room, UserID: users[vChoose("user", 2)], EventID: []string{"$1", "$2"}[vChoose("event", 2)], TS: ts, ThreadID: []string{"", "T"}[vChoose("thread", 2)], IsPrivate: vChoose("private", 2) == 1}
		in := []internal.Receipt{first}
		if i == 0 && vChoose("two", 2) == 1 {
			in = append(in, internal.Receipt{RoomID: room, UserID: vC, EventID: "$1", TS: 7})
		}
		content := map[string]map[string]map[string]vRcptInfo{}
		var fresh []internal.Receipt
		for _, r := range in {
			typ := "m.read"
			if r.IsPrivate {
				typ = "m.read.private"
			}
			ev := r.EventID
			if content[ev] == nil {
				content[ev] = map[string]map[string]vRcptInfo{}
			}
			if content[ev][typ] == nil {
				content[ev][typ] = map[string]vRcptInfo{}
			}
			content[ev][typ][r.UserID] = vRcptInfo{TS: r.TS, ThreadID: r.ThreadID}
			at := -1
			for j, q := range latest {
				if q.RoomID == r.RoomID && q.UserID == r.UserID && q.ThreadID == r.ThreadID && q.IsPrivate == r.IsPrivate {
					at = j
				}
			}
			if at < 0 {
				latest = append(latest, r)
				fresh = append(fresh, r)
			} else if latest[at].EventID != r.EventID {
				latest[at] = r
				fresh = append(fresh, r)
			} else {
				vCover("repeat")
			}
		}
		edu, err := json.Marshal(vRcptEDU{Type: "m.receipt", Content: content})
		vAssert(err == nil, "marshal")
		for _, c := range conns {
			c.res = extensions.Response{}
		}
		got, err := store.ReceiptTable.Insert(room, edu)
		vAssert(err == nil, "receipts are stored")
		vAssert(len(got) == len(fresh), "only new receipts are announced")
		h.OnReceipt(&pubsub.V2Receipt{RoomID: room, Receipts: got})
		// what connected clients are told at once
		for _, u := range users {
			var want []internal.Receipt
			for _, r := range fresh {
				if r.IsPrivate && r.UserID != u {
					continue
				}
				if !r.IsPrivate && u == vA && r.RoomID == r2 {
					continue
				}
				want = append(want, r)
			}
			vShown(conns[u].res, room, want, "live")
			vAssert(conns[u].res.Receipts == nil || len(conns[u].res.Receipts.Rooms) == 1, "live: receipts are shown in their room")
			if len(want) > 0 {
				vCover("live")
			}
		}
	}
	// what a client is told when the rooms are first sent, with an event each
	for _, u := range users {
		c := conns[u]
		ectx := c.ectx
		ectx.RoomIDToTimeline = map[string][]string{r1: {"$1"}}
		if u == vB {
			ectx.RoomIDToTimeline[r2] = []string{"$2"}
		}
		res := ext.Handle(ctx, c.ex, ectx)
		for _, room := range []string{r1, r2} {
			ev := ectx.RoomIDToTimeline[room]
			var want []internal.Receipt
			for _, r := range latest {
				if r.RoomID != room || ev == nil {
					continue
				}
				if r.UserID == u || (!r.IsPrivate && r.EventID == ev[0]) {
					want = append(want, r)
				}
			}
			vShown(res, room, want, "initial")
		}
	}
	vCover("done")
}
