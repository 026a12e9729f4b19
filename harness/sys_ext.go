package handler

import (
	"encoding/json"
	"fmt"

	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/sync3/extensions"
)

// vXWorld: account data and typing users as they are, and as a client knows them.
type vXWorld struct {
	s      *vSys
	c      *vClient
	ts     int
	window sync3.SliceRanges
	scope  extensions.Core
	sub    string
	lazy   bool
	order  []string // rooms, most recent last
	acc    map[string]map[string]string
	typing map[string]string // room -> who
	// what the client knows
	cacc    map[string]map[string]string
	ctyping map[string]string
	members map[string]map[string]bool
	live    map[string]bool // explicitly monitored rooms with changes since connecting
}

func (w *vXWorld) reset(device string) {
	w.c = w.s.connect(sA, device)
	w.cacc = map[string]map[string]string{}
	w.ctyping = map[string]string{}
	w.members = map[string]map[string]bool{}
	w.live = map[string]bool{}
}

func (w *vXWorld) req() *sync3.Request {
	yes := true
	core := w.scope
	core.Enabled = &yes
	rs := sync3.RoomSubscription{TimelineLimit: 1}
	if w.lazy {
		rs.RequiredState = [][2]string{{"m.room.member", sync3.StateKeyLazy}}
	}
	r := &sync3.Request{
		Lists:      map[string]sync3.RequestList{"l": {Ranges: w.window, RoomSubscription: rs, Sort: []string{sync3.SortByRecency}}},
		Extensions: extensions.Request{AccountData: &extensions.AccountDataRequest{Core: core}, Typing: &extensions.TypingRequest{Core: core}},
	}
	if w.sub != "" {
		r.RoomSubscriptions = map[string]sync3.RoomSubscription{w.sub: rs}
	}
	return r
}

func (w *vXWorld) pull() {
	for i := 0; i < 8; i++ {
		if !w.once() {
			return
		}
	}
	vAssert(false, "the client catches up")
}

// once makes one request, and says whether there was anything in the response.
func (w *vXWorld) once() bool {
	res := w.c.sync(w.req())
	for id, r := range res.Rooms {
		if w.members[id] == nil {
			w.members[id] = map[string]bool{}
		}
		for _, ev := range append(append([]json.RawMessage{}, r.RequiredState...), r.Timeline...) {
			if j := gjson.ParseBytes(ev); j.Get("type").Str == "m.room.member" {
				w.members[id][j.Get("state_key").Str] = true
			}
		}
	}
	if x := res.Extensions.AccountData; x != nil {
		w.take("", x.Global)
		for id, evs := range x.Rooms {
			vAssert(w.known(id), "room account data is about a room")
			vAssert(w.wanted(id), "no account data of rooms not asked for")
			w.take(id, evs)
		}
	}
	if x := res.Extensions.Typing; x != nil {
		for id, ev := range x.Rooms {
			vAssert(w.known(id), "typing users are those of a room")
			vAssert(w.wanted(id), "no typing users of rooms not asked for")
			w.ctyping[id] = gjson.GetBytes(ev, "content.user_ids.0").Str
		}
	}
	return res.ListOps() > 0 || len(res.Rooms) > 0 || res.Extensions.HasData(false)
}

func (w *vXWorld) take(room string, evs []json.RawMessage) {
	if w.cacc[room] == nil {
		w.cacc[room] = map[string]string{}
	}
	for _, ev := range evs {
		w.cacc[room][gjson.GetBytes(ev, "type").Str] = gjson.GetBytes(ev, "content.v").Str
	}
}

func (w *vXWorld) known(id string) bool {
	for _, r := range w.order {
		if r == id {
			return true
		}
	}
	return false
}

// wanted: can the room be in the scope of the extensions at all?
func (w *vXWorld) wanted(id string) bool {
	if w.scope.Lists == nil || len(w.scope.Lists) > 0 {
		return true
	}
	return w.monitored(id)
}

// monitored: is the room in scope whether or not it is in a list's window?
func (w *vXWorld) monitored(id string) bool {
	if w.scope.Rooms == nil {
		return id == w.sub
	}
	for _, r := range w.scope.Rooms {
		if r == id || (r == "*" && id == w.sub) {
			return true
		}
	}
	return false
}

func (w *vXWorld) check() {
	w.compare("", true)
	for i, id := range w.order {
		pos := int64(len(w.order) - 1 - i)
		visible := false
		for _, rg := range w.window {
			visible = visible || (pos >= rg[0] && pos <= rg[1])
		}
		sent := visible || id == w.sub
		inScope := w.monitored(id) || (visible && (w.scope.Lists == nil || len(w.scope.Lists) > 0))
		if !inScope {
			continue
		}
		w.compare(id, sent)
		if sent || w.live[id] {
			vAssert(w.ctyping[id] == w.typing[id], "the typing users of a room are known")
			if w.typing[id] != "" && w.lazy && sent {
				vAssert(w.members[id][w.typing[id]], "a typing user is known")
			}
		}
	}
}

func (w *vXWorld) compare(id string, all bool) {
	for typ, v := range w.acc[id] {
		if all {
			vAssert(w.cacc[id][typ] == v, "account data is known and current")
		} else if w.cacc[id][typ] != "" {
			vAssert(w.cacc[id][typ] == v, "no account data is outdated")
		}
	}
	for typ := range w.cacc[id] {
		vAssert(w.acc[id][typ] != "", "no account data is known which does not exist")
	}
}

func (w *vXWorld) account(id, typ string) {
	w.ts++
	if w.acc[id] == nil {
		w.acc[id] = map[string]string{}
	}
	v := fmt.Sprintf("v%d", w.ts)
	w.acc[id][typ] = v
	ev := vObj(vKV("type", typ), vKV("content", vObj(vKV("v", v))))
	r := &sync2.SyncResponse{}
	if id == "" {
		r.AccountData.Events = []json.RawMessage{ev}
	} else {
		r = sJoin(id, nil)
		j := r.Rooms.Join[id]
		j.AccountData.Events = []json.RawMessage{ev}
		r.Rooms.Join[id] = j
	}
	w.s.respond(sA, "D", r)
}

func (w *vXWorld) types(id, who string) {
	w.typing[id] = who
	w.live[id] = true
	ids := vArr()
	if who != "" {
		ids = vArr(who)
	}
	r := sJoin(id, nil)
	j := r.Rooms.Join[id]
	j.Ephemeral.Events = []json.RawMessage{vObj(vKV("type", "m.typing"), vKV("content", vObj(vKV("user_ids", ids))))}
	r.Rooms.Join[id] = j
	w.s.respond(sA, "D", r)
}

func (w *vXWorld) message(id string) {
	w.ts++
	for i, r := range w.order {
		if r == id {
			w.order = append(append(append([]string{}, w.order[:i]...), w.order[i+1:]...), id)
			break
		}
	}
	w.s.respond(sA, "D", sJoin(id, nil, sMsg(fmt.Sprintf("$m%d", w.ts), sB, w.ts)))
}

func vExtWorld() *vXWorld {
	s := vNewSys(vDB())
	w := &vXWorld{s: s, ts: 10, acc: map[string]map[string]string{}, typing: map[string]string{}, live: map[string]bool{}, window: sync3.SliceRanges{{0, 0}}}
	s.poller(sA, "D", &sync2.SyncResponse{})
	for _, id := range []string{s1, s2} {
		n := id[1:2]
		w.order = append(w.order, id)
		s.respond(sA, "D", sJoin(id, []json.RawMessage{sCreate("$c"+n, 1), sMember("$a"+n, sA, "join", 2), sMember("$b"+n, sB, "join", 3), sMember("$x"+n, sC, "join", 4)}, sMsg("$i"+n, sB, 5+len(w.order))))
	}
	w.account("", "g")
	w.account(s1, "t")
	w.account(s2, "t")
	return w
}

// vhSysExt: account data and typing users, in the rooms which the client asks for.
func vhSysExt() {
	w := vExtWorld()
	switch vChoose("scope", 5) {
	case 1:
		w.scope.Rooms = []string{}
	case 2:
		w.scope.Lists, w.scope.Rooms = []string{}, []string{s1}
	case 3:
		w.scope.Lists, w.scope.Rooms = []string{}, []string{"*"}
		w.sub = s1
	case 4:
		w.sub = s1
		w.lazy = true
	}
	if vChoose("window", 2) == 1 {
		w.window = sync3.SliceRanges{{0, 1}}
	}
	w.s.boot()
	w.reset("D")
	w.once()
	w.check()
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 5) {
		case 0:
			w.message([]string{s1, s2}[vChoose("room", 2)])
			vCover("message")
		case 1:
			w.account([]string{s1, s2}[vChoose("room", 2)], "t")
			vCover("room account data")
		case 2:
			w.account("", "g")
			vCover("account data")
		case 3:
			id := s1
			if w.scope.Lists != nil {
				id = []string{s1, s2}[vChoose("room", 2)]
			}
			if w.typing[id] == "" {
				w.types(id, sC)
			} else {
				w.types(id, "")
			}
			vCover("typing")
		case 4:
			w.pull()
			w.check()
		}
	}
	w.pull()
	w.check()
	w.reset("E")
	w.pull()
	w.check()
	vCover("done")
}

// vhSysExtBurst: the same, for rooms which come and go before the client asks again.
func vhSysExtBurst() {
	w := vExtWorld()
	w.lazy = vChoose("lazy", 2) == 1
	w.s.boot()
	w.reset("D")
	w.once()
	for i := 0; i < vPick(4, 6); i++ {
		id := []string{s1, s2}[vChoose("room", 2)]
		switch vChoose("step", 3) {
		case 0:
			w.message(id)
			vCover("message")
		case 1:
			w.account(id, "t")
			vCover("room account data")
		case 2:
			vAssume(id == s1)
			if w.typing[s1] == "" {
				w.types(s1, sC)
			} else {
				w.types(s1, "")
			}
			vCover("typing")
		}
	}
	w.pull()
	w.check()
	vCover("done")
}

// vhSysTyping: several users' pollers report who is typing; whatever becomes of them, the client learns it.
func vhSysTyping() {
	s := vNewSys(vDB())
	s.v2store.TokensTable = sync2.NewTokensTable(s.db, "secret")
	w := &vXWorld{s: s, ts: 10, acc: map[string]map[string]string{}, typing: map[string]string{}, live: map[string]bool{}, window: sync3.SliceRanges{{0, 0}}}
	w.order = []string{s1}
	room := func() *sync2.SyncResponse {
		return sJoin(s1, []json.RawMessage{sCreate("$c", 1), sMember("$a", sA, "join", 2), sMember("$b", sB, "join", 3), sMember("$x", sC, "join", 4)}, sMsg("$i", sB, 5))
	}
	polls := [][2]string{{sA, "D"}, {sB, "D"}}
	if vChoose("same device of another user", 2) == 1 {
		polls[1][1] = "E"
	}
	for _, p := range polls {
		s.poller(p[0], p[1], room())
	}
	s.boot()
	w.reset("D")
	w.once()
	gone := [2]bool{}
	notice := func(i int, who string) {
		ids := vArr()
		if who != "" {
			ids = vArr(who)
		}
		r := sJoin(s1, nil)
		j := r.Rooms.Join[s1]
		j.Ephemeral.Events = []json.RawMessage{vObj(vKV("type", "m.typing"), vKV("content", vObj(vKV("user_ids", ids))))}
		r.Rooms.Join[s1] = j
		s.respond(polls[i][0], polls[i][1], r)
	}
	for i := 0; i < vPick(3, 4); i++ {
		switch k := vChoose("step", 5); k {
		case 0:
			notice(0, sC)
		case 1:
			vAssume(!gone[1])
			notice(1, sC)
		case 2: // the other user's token expires
			vAssume(!gone[1])
			s.pm.ExpirePollers([]sync2.PollerID{{UserID: polls[1][0], DeviceID: polls[1][1]}})
			s.hs.feed[polls[1][0]+"|"+polls[1][1]] <- nil
			vSettle()
			gone[1] = true
			vCover("expired")
		case 3: // the other user leaves
			vAssume(!gone[1])
			w.ts++
			s.respond(polls[1][0], polls[1][1], sLeave(s1, sMember(fmt.Sprintf("$l%d", w.ts), sB, "leave", w.ts)))
			gone[1] = true
			vCover("left")
		case 4:
			w.pull()
			vCover("caught up")
		}
	}
	// now everyone who is still there reports the same
	who := []string{"", sC, sA}[vChoose("who", 3)]
	for i := range polls {
		if !gone[i] {
			notice(i, who)
		}
	}
	w.pull()
	vAssert(w.ctyping[s1] == who, "the typing users of a room are known, whichever poller reports them")
	vCover("done")
}
