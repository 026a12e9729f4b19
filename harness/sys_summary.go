package handler

import (
	"encoding/json"
	"fmt"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// vSumWorld: one room's summary, as it has to be.
type vSumWorld struct {
	s       *vSys
	c       *vClient
	ts      int
	name    string
	alias   string
	avatar  string
	dm      bool
	member  map[string]string
	display map[string]string
	pic     map[string]string
	notif   int
	high    int
	sub     bool
	two     bool
}

func (w *vSumWorld) id() string { w.ts++; return fmt.Sprintf("$e%d", w.ts) }

// mem makes a membership event: as homeservers do, it comes with the content it replaces.
func (w *vSumWorld) mem(user, sender, membership, display, pic string) json.RawMessage {
	prev := w.member[user]
	had := prev != ""
	was := vObj(vKV("membership", prev), vKVIf(w.display[user] != "", "displayname", w.display[user]), vKVIf(w.pic[user] != "", "avatar_url", w.pic[user]))
	w.member[user], w.display[user], w.pic[user] = membership, display, pic
	id := w.id()
	return vObj(vKV("event_id", id), vKV("type", "m.room.member"), vKV("state_key", user), vKV("sender", sender), vKV("origin_server_ts", w.ts),
		vKV("content", vObj(vKV("membership", membership), vKVIf(display != "", "displayname", display), vKVIf(pic != "", "avatar_url", pic))),
		vKVIf(had, "unsigned", vObj(vKV("prev_content", was))))
}

func (w *vSumWorld) st(typ string, k, v string) json.RawMessage {
	id := w.id()
	return sStateEv(id, typ, "", sB, w.ts, vObj(vKVIf(v != "", k, v)))
}

func (w *vSumWorld) deliver(evs ...json.RawMessage) {
	r := sJoin(s1, nil, evs...)
	w.counts(r)
	w.s.respond(sA, "D", r)
	if w.two && w.member[sB] == "join" {
		w.s.respond(sB, "D", sJoin(s1, nil, evs...))
	}
}

func (w *vSumWorld) counts(r *sync2.SyncResponse) {
	n, h := w.notif, w.high
	j := r.Rooms.Join[s1]
	j.UnreadNotifications = sync2.UnreadNotifications{NotificationCount: &n, HighlightCount: &h}
	r.Rooms.Join[s1] = j
}

func (w *vSumWorld) req() *sync3.Request {
	t := true
	rs := sync3.RoomSubscription{TimelineLimit: 1, Heroes: &t}
	if w.sub {
		return &sync3.Request{RoomSubscriptions: map[string]sync3.RoomSubscription{s1: rs}}
	}
	return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: rs, Sort: []string{sync3.SortByRecency}}}}
}

// check compares what a client which has caught up holds with the room.
func (w *vSumWorld) check(c *vClient, live bool) {
	r := c.room[s1]
	vAssert(r != nil && r.initials > 0, "the room was sent")
	joined, invited := 0, 0
	var others []string
	for _, u := range []string{sA, sB, sC} {
		switch w.member[u] {
		case "join":
			joined++
		case "invite":
			invited++
		default:
			continue
		}
		if u != sA {
			others = append(others, u)
		}
	}
	vAssert(r.joined == joined, "the number of joined members")
	vAssert(r.invited == invited, "the number of invited members")
	label := func(u string) string {
		if w.display[u] != "" {
			return w.display[u]
		}
		return u
	}
	calculated := false
	switch {
	case w.name != "":
		vAssert(r.name == w.name, "the room is called by its name")
	case w.alias != "":
		vAssert(r.name == w.alias, "a room without name is called by its alias")
	case len(others) == 0:
		vAssert(r.name == "Empty Room", "a room without name or other members is empty")
	case len(others) == 1:
		calculated = true
		vAssert(r.name == label(others[0]), "a room without name is called by its members")
	default:
		calculated = true
		x, y := label(others[0]), label(others[1])
		if x == y {
			x, y = x+" ("+others[0]+")", y+" ("+others[1]+")"
		}
		vAssert(r.name == x+" and "+y || r.name == y+" and "+x, "a room without name is called by its members")
	}
	if calculated {
		vAssert(len(r.heroes) == len(others), "the heroes are the other members")
		for _, h := range r.heroes {
			vAssert(h.ID != sA && (w.member[h.ID] == "join" || w.member[h.ID] == "invite"), "a hero is another member")
			vAssert(h.Name == w.display[h.ID], "a hero has its current name")
		}
	}
	want := w.avatar
	if want == "" && w.dm && len(others) == 1 {
		want = w.pic[others[0]]
	}
	vAssert(r.avatar == sync3.NewAvatarChange(want), "the avatar of the room")
	vAssert(r.notif == w.notif && r.high == w.high, "the unread counts")
	vAssert(r.dm == w.dm, "a direct chat is marked as one")
}

func vSummary() *vSumWorld {
	s := vNewSys(vDB())
	w := &vSumWorld{s: s, ts: 10, member: map[string]string{}, display: map[string]string{}, pic: map[string]string{}, two: vChoose("polled", 2) == 1}
	first := &sync2.SyncResponse{}
	w.dm = vChoose("dm", 2) == 1
	if w.dm {
		first.AccountData.Events = []json.RawMessage{vObj(vKV("type", "m.direct"), vKV("content", vObj(vKV(sB, []string{s1}))))}
	}
	s.poller(sA, "D", first)
	if w.two {
		s.poller(sB, "D", &sync2.SyncResponse{})
	}
	s.respond(sA, "D", sJoin(s1, []json.RawMessage{sCreate("$c", 1), w.mem(sA, sA, "join", "Ann", ""), w.mem(sB, sB, "join", "Bob", "mxc://b")}, sMsg(w.id(), sB, w.ts)))
	s.boot()
	w.c = s.connect(sA, "D")
	return w
}

func (w *vSumWorld) step() {
	switch vChoose("step", 12) {
	case 0:
		w.name = []string{"N", ""}[vChoose("name", 2)]
		w.deliver(w.st("m.room.name", "name", w.name))
		vCover("name")
	case 1:
		w.alias = []string{"#n:h", ""}[vChoose("alias", 2)]
		w.deliver(w.st("m.room.canonical_alias", "alias", w.alias))
		vCover("alias")
	case 2:
		w.avatar = []string{"mxc://r", ""}[vChoose("avatar", 2)]
		w.deliver(w.st("m.room.avatar", "url", w.avatar))
		vCover("avatar")
	case 3:
		vAssume(w.member[sC] != "join" && w.member[sC] != "invite" && w.member[sC] != "ban")
		w.deliver(w.mem(sC, sB, "invite", "", ""))
		vCover("invite")
	case 4:
		vAssume(w.member[sC] != "join" && w.member[sC] != "ban")
		w.deliver(w.mem(sC, sC, "join", "Bob", "mxc://c"))
		vCover("join")
	case 5:
		vAssume(w.member[sC] == "join" || w.member[sC] == "invite")
		w.deliver(w.mem(sC, sB, []string{"leave", "ban"}[vChoose("out", 2)], "", ""))
		vCover("out")
	case 6:
		vAssume(w.member[sB] == "join")
		w.deliver(w.mem(sB, sB, "leave", "", ""))
		vCover("leave")
	case 7:
		vAssume(w.member[sB] == "join")
		w.deliver(w.mem(sB, sB, "join", []string{"Bee", ""}[vChoose("display", 2)], w.pic[sB]))
		vCover("display name")
	case 8:
		vAssume(w.member[sB] == "join")
		w.deliver(w.mem(sB, sB, "join", w.display[sB], []string{"mxc://bb", ""}[vChoose("pic", 2)]))
		vCover("picture")
	case 9:
		w.notif++
		w.deliver(sMsg(w.id(), sB, w.ts))
		vCover("message")
	case 10:
		switch vChoose("unread", 3) {
		case 0:
			w.notif, w.high = 0, 0
		case 1:
			w.notif, w.high = 2, 1
		case 2:
			w.notif, w.high = 3, 0
		}
		w.deliver()
		vCover("unread")
	case 11:
		w.c.settle(w.req)
		w.check(w.c, true)
	}
}

// vhSysSummary: what a client is told about a room follows the room.
func vhSysSummary() {
	w := vSummary()
	w.sub = vChoose("sub", 2) == 1
	w.c.sync(w.req())
	w.check(w.c, true)
	for i := 0; i < vPick(2, 3); i++ {
		w.step()
	}
	w.c.settle(w.req)
	w.check(w.c, true)
	c2 := w.s.connect(sA, "E")
	c2.settle(w.req)
	w.check(c2, false)
	w.s.boot()
	c3 := w.s.connect(sA, "F")
	c3.settle(w.req)
	w.check(c3, false)
	vCover("done")
}

// vhSysHeroes: rooms with many members are called by some of them.
func vhSysHeroes() {
	s := vNewSys(vDB())
	w := &vSumWorld{s: s, ts: 10, member: map[string]string{}, display: map[string]string{}, pic: map[string]string{}}
	s.poller(sA, "D", &sync2.SyncResponse{})
	us := []string{sA, sB, sC, "@d:h", "@e:h", "@f:h", "@g:h", "@i:h", "@j:h"}
	n := 5 + vChoose("members", 3)
	state := []json.RawMessage{sCreate("$c", 1)}
	for _, u := range us[:n] {
		state = append(state, w.mem(u, u, "join", "n"+u[1:2], ""))
	}
	s.respond(sA, "D", sJoin(s1, state, sMsg(w.id(), sB, w.ts)))
	if vChoose("known", 2) == 0 {
		s.boot()
		vCover("restart")
	} else {
		// the room becomes known while the client side runs
		s2 := vNewSys(vDB())
		w.s, s = s2, s2
		s.boot()
		s.poller(sA, "D", &sync2.SyncResponse{})
		s.respond(sA, "D", sJoin(s1, state, sMsg(w.id(), sB, w.ts)))
		vCover("live")
	}
	w.c = s.connect(sA, "D")
	w.c.sync(w.req())
	w.checkMany(w.c, us)
	for i := 0; i < vPick(2, 3); i++ {
		switch vChoose("step", 4) {
		case 0:
			u := us[[]int{1, 2, n - 1}[vChoose("who", 3)]]
			vAssume(w.member[u] == "join")
			w.deliver(w.mem(u, u, "join", fmt.Sprintf("x%d", w.ts), ""))
			vCover("display name")
		case 1:
			u := us[[]int{1, n - 1}[vChoose("who", 2)]]
			vAssume(w.member[u] == "join")
			w.deliver(w.mem(u, u, "leave", "", ""))
			vCover("leave")
		case 2:
			u := us[n]
			vAssume(w.member[u] != "join")
			w.deliver(w.mem(u, u, "join", "new", ""))
			vCover("join")
		case 3:
			w.c.settle(w.req)
			w.checkMany(w.c, us)
		}
	}
	w.c.settle(w.req)
	w.checkMany(w.c, us)
	s.boot()
	c3 := s.connect(sA, "F")
	c3.settle(w.req)
	w.checkMany(c3, us)
	vCover("done")
}

func (w *vSumWorld) checkMany(c *vClient, us []string) {
	r := c.room[s1]
	vAssert(r != nil && r.initials > 0, "the room was sent")
	joined := 0
	for _, u := range us {
		if w.member[u] == "join" {
			joined++
		}
	}
	vAssert(r.joined == joined, "the number of joined members")
	want := 3
	if joined-1 < want {
		want = joined - 1
	}
	vAssert(len(r.heroes) >= want && len(r.heroes) <= 6 && len(r.heroes) < joined, "some other members are heroes")
	name := ""
	shown := 0
	for i, h := range r.heroes {
		vAssert(h.ID != sA && w.member[h.ID] == "join", "a hero is another member")
		vAssert(h.Name == w.display[h.ID], "a hero has its current name")
		for _, o := range r.heroes[:i] {
			vAssert(o.ID != h.ID, "a hero is listed once")
		}
		if i < 5 || len(r.heroes) >= joined-1 {
			if i > 0 {
				if len(r.heroes) >= joined-1 && i == len(r.heroes)-1 {
					name += " and "
				} else {
					name += ", "
				}
			}
			name += h.Name
			shown++
		}
	}
	if len(r.heroes) < joined-1 {
		name += fmt.Sprintf(" and %d others", joined-1-shown)
	}
	vAssert(r.name == name, "the name lists heroes and counts the other members")
}
