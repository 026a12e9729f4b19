package sync3

import (
	"context"
	"encoding/json"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

// Who is told about what happens in a room.

type vHRecv struct {
	name   string
	log    *[]string
	events []*caches.EventData
	eph    []string
	rcpt   []internal.Receipt
}

func (r *vHRecv) OnNewEvent(ctx context.Context, ed *caches.EventData) {
	*r.log = append(*r.log, r.name)
	r.events = append(r.events, ed)
}
func (r *vHRecv) OnReceipt(ctx context.Context, receipt internal.Receipt) {
	*r.log = append(*r.log, r.name)
	r.rcpt = append(r.rcpt, receipt)
}
func (r *vHRecv) OnEphemeralEvent(ctx context.Context, roomID string, ev json.RawMessage) {
	*r.log = append(*r.log, r.name)
	r.eph = append(r.eph, roomID)
}
func (r *vHRecv) OnRegistered(ctx context.Context) error { return nil }

func vHMember(user, membership string) json.RawMessage {
	return vObj(vKV("type", "m.room.member"), vKV("state_key", user), vKV("sender", user), vKV("origin_server_ts", 5), vKV("content", vObj(vKV("membership", membership))))
}

func vHCount(l []string, x string) int {
	n := 0
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

// VDispatch: after any membership history, events, receipts and typing reach the joined users only, once each.
func VDispatch() {
	ctx := context.Background()
	d := NewDispatcher()
	var log []string
	users := []string{"@a", "@b", "@c"}
	recv := map[string]*vHRecv{}
	for _, u := range []string{DispatcherAllUsers, "@a", "@b"} { // @c has no active connection
		recv[u] = &vHRecv{name: u, log: &log}
		_ = d.Register(ctx, u, recv[u])
	}
	joined := map[string]bool{}
	invited := map[string]bool{}
	_ = d.Startup(map[string][]string{"!other": {"@b"}})
	check := func(target string, targetToo bool, what string) {
		vAssert(len(log) > 0 && log[0] == DispatcherAllUsers && vHCount(log, DispatcherAllUsers) == 1, "the global caches are told first, once")
		for _, u := range users {
			want := 0
			if recv[u] != nil && (joined[u] || (u == target && targetToo)) {
				want = 1
			}
			vAssert(vHCount(log, u) == want, what)
		}
	}
	msg := vObj(vKV("type", "m.room.message"), vKV("sender", "@a"), vKV("content", vObj(vKV("body", "x"))))
	n := vPick(3, 4)
	nid := int64(10)
	started, odd := false, false
	for i := 0; i < n; i++ {
		log = nil
		nid++
		k := vChoose("what", 14)
		if k < 12 {
			u := users[k%3]
			ms := []string{"invite", "join", "leave", "ban"}[k/3]
			dup := ms == "invite" && joined[u] // a repeated invite does not undo a join
			odd = odd || dup
			wasJoined, wasKnown := joined[u], joined[u] || invited[u]
			switch ms {
			case "invite":
				if !dup {
					invited[u] = true
				}
			case "join":
				joined[u] = true
				delete(invited, u)
			default:
				delete(joined, u)
				delete(invited, u)
			}
			d.OnNewEvent(ctx, "!r", vHMember(u, ms), nid)
			check(u, wasKnown && (ms == "leave" || ms == "ban"), "a membership change reaches the joined users, and the target of a leave who knew the room")
			for _, v := range users {
				if r := recv[v]; r != nil && vHCount(log, v) == 1 {
					ed := r.events[len(r.events)-1]
					vAssert(ed.NID == nid && ed.RoomID == "!r" && ed.StateKey != nil && *ed.StateKey == u, "the event delivered is the event received")
					vAssert(ed.ForceInitial == (v == u && ms == "join" && !wasJoined), "a user who just joined gets the room from scratch, nobody else")
				}
			}
			g := recv[DispatcherAllUsers].events
			ed := g[len(g)-1]
			vAssert(ed.JoinCount == len(joined) && (odd || ed.InviteCount == len(invited)), "membership counts follow the membership events")
			started = true
			continue
		}
		if k == 12 { // the memberships are reloaded from storage
			vAssume(vTier() == 0 || i == 1)
			joined, invited = map[string]bool{}, map[string]bool{}
			var js, is []string
			for _, u := range users {
				switch vChoose("reload_"+u, 3) {
				case 1:
					joined[u] = true
					js = append(js, u)
				case 2:
					invited[u] = true
					is = append(is, u)
				}
			}
			d.OnInvalidateRoom("!r", js, is)
			started = true
			continue
		}
		// the room is new to the proxy
		vAssume(!started)
		started = true
		joined["@a"], invited["@c"] = true, true
		d.OnNewInitialRoomState(ctx, "!r", []json.RawMessage{vHMember("@a", "join"), vHMember("@c", "invite"), vHMember("@b", "leave")})
		vAssert(vHCount(log, "@a") == 3 && vHCount(log, "@b") == 0 && vHCount(log, DispatcherAllUsers) == 3, "the initial state of a room reaches its joined users")
		for _, ed := range recv[DispatcherAllUsers].events {
			vAssert(ed.JoinCount == 1 && ed.InviteCount == 1, "membership counts follow the initial state")
		}
	}
	for _, u := range users {
		vAssert(d.IsUserJoined(u, "!r") == joined[u], "joined users are those whose last membership is join")
		rooms := map[string]bool{}
		for _, r := range d.jrt.JoinedRoomsForUser(u) {
			rooms[r] = true
		}
		vAssert(rooms["!r"] == joined[u] && rooms["!other"] == (u == "@b"), "the rooms of a user are those joined")
	}
	log = nil
	d.OnNewEvent(ctx, "!r", msg, 100)
	check("", false, "a message reaches exactly the joined users, once")
	log = nil
	d.OnEphemeralEvent(ctx, "!r", msg)
	check("", false, "typing reaches exactly the joined users, once")
	log = nil
	d.OnReceipt(ctx, internal.Receipt{RoomID: "!r", UserID: "@a"})
	check("", false, "a receipt reaches exactly the joined users, once")
	log = nil
	joined = map[string]bool{"@b": true}
	d.OnNewEvent(ctx, "!other", msg, 101)
	check("", false, "rooms do not affect each other")
	vCover("end")
}

// VDispatchUnregistered: users who disconnected are not told any more.
func VDispatchUnregistered() {
	ctx := context.Background()
	d := NewDispatcher()
	var log []string
	recv := map[string]*vHRecv{}
	_ = d.Startup(map[string][]string{"!r": {"@a", "@b"}})
	reg := map[string]bool{}
	for i := 0; i < vPick(3, 4); i++ {
		u := []string{"@a", "@b"}[vChoose("user", 2)]
		switch vChoose("op", 3) {
		case 0:
			recv[u] = &vHRecv{name: u, log: &log}
			_ = d.Register(ctx, u, recv[u])
			reg[u] = true
		case 1:
			d.Unregister(u)
			delete(reg, u)
		case 2:
			got := d.UnregisterBulk([]string{u, "@x"})
			vAssert((len(got) == 1) == reg[u], "the users unregistered are reported")
			delete(reg, u)
		}
		log = nil
		d.OnNewEvent(ctx, "!r", vHMember("@a", "join"), int64(i+1))
		for _, v := range []string{"@a", "@b"} {
			want := 0
			if reg[v] {
				want = 1
			}
			vAssert(vHCount(log, v) == want, "exactly the connected users are told")
			vAssert((d.ReceiverForUser(v) != nil) == reg[v], "connected users are known")
		}
	}
	vCover("end")
}
