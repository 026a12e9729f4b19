package handler

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
)

type vTxnEvent struct {
	id   string
	from string // the poller of the device which sent it, or ""
	who  string
	ts   int
	late bool // the wait for the transaction ID was given up
	seen bool // some poller has received it
}

// vTxnWorld: events which one device of a user sends, and what the pollers make of them.
type vTxnWorld struct {
	s     *vSys
	evs   []*vTxnEvent
	got   map[string]int // poller -> how many of the events it has received
	ts    int
	polls [][2]string
}

func (w *vTxnWorld) send(who, from string) {
	w.ts++
	w.evs = append(w.evs, &vTxnEvent{id: fmt.Sprintf("$m%d", w.ts), from: from, who: who, ts: w.ts})
}

// receive lets a poller have its next events, repeating some which it has had.
func (w *vTxnWorld) receive(p [2]string, n, again int) {
	key := p[0] + p[1]
	lo, hi := w.got[key]-again, w.got[key]+n
	if lo < 0 {
		lo = 0
	}
	if hi > len(w.evs) {
		hi = len(w.evs)
	}
	w.got[key] = hi
	var tl []json.RawMessage
	for _, e := range w.evs[lo:hi] {
		e.seen = true
		mine := e.from == key
		tl = append(tl, vObj(vKV("event_id", e.id), vKV("type", "m.room.message"), vKV("sender", e.who), vKV("origin_server_ts", e.ts), vKV("content", vObj(vKV("body", "x"))),
			vKVIf(mine, "unsigned", vObj(vKV("transaction_id", "t"+e.id)))))
	}
	w.s.respond(p[0], p[1], sJoin(s1, nil, tl...))
}

func (w *vTxnWorld) fire() {
	vFireTimers()
	vSettle()
	for _, e := range w.evs {
		if e.seen && e.from != "" && w.got[e.from] <= w.index(e) {
			e.late = true
		}
	}
}

func (w *vTxnWorld) index(e *vTxnEvent) int {
	for i := range w.evs {
		if w.evs[i] == e {
			return i
		}
	}
	return -1
}

func vTxnReq() *sync3.Request {
	return &sync3.Request{Lists: map[string]sync3.RequestList{"l": {Ranges: sync3.SliceRanges{{0, 9}}, RoomSubscription: sync3.RoomSubscription{TimelineLimit: 1}, Sort: []string{sync3.SortByRecency}}}}
}

type vTxnClient struct {
	*vClient
	key string
	tl  []json.RawMessage
}

func (w *vTxnWorld) pull(c *vTxnClient) {
	for i := 0; i < 8; i++ {
		res := c.sync(vTxnReq())
		if res.ListOps() == 0 && len(res.Rooms) == 0 {
			return
		}
		c.tl = append(c.tl, res.Rooms[s1].Timeline...)
	}
}

// vhSysTxn: the device which sent an event recognises it.
func vhSysTxn() {
	s := vNewSys(vDB())
	s.delay = 2 * time.Second
	w := &vTxnWorld{s: s, ts: 10, got: map[string]int{}, polls: [][2]string{{sA, "D"}, {sB, "D"}, {sA, "E"}}}
	for _, p := range w.polls {
		s.poller(p[0], p[1], &sync2.SyncResponse{})
	}
	s.respond(sA, "D", sJoin(s1, []json.RawMessage{sCreate("$c", 1), sMember("$a", sA, "join", 2), sMember("$b", sB, "join", 3)}, sMsg("$m0", sB, 4)))
	s.boot()
	var cs []*vTxnClient
	for _, p := range w.polls[:2] {
		c := &vTxnClient{vClient: s.connect(p[0], p[1]), key: p[0] + p[1]}
		c.sync(vTxnReq())
		cs = append(cs, c)
	}
	first := vChoose("first", 2) == 0
	w.send(sA, sA+"D")
	if first {
		w.send(sB, sB+"D")
	}
	w.send(sA, sA+"D")
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 4) {
		case 0:
			p := w.polls[vChoose("poller", 3)]
			w.receive(p, 1+vChoose("n", 2), 0)
			vCover("received")
		case 1:
			w.receive(w.polls[0], 1, 1)
			vCover("repeated")
		case 2:
			w.pull(cs[vChoose("client", 2)])
		case 3:
			w.fire()
			vCover("waited")
		}
	}
	for _, p := range w.polls {
		w.receive(p, 9, 0)
	}
	w.fire()
	for _, c := range cs {
		w.pull(c)
		vAssert(len(c.tl) == len(w.evs), "every event is sent once")
		for i, e := range w.evs {
			vAssert(gjson.GetBytes(c.tl[i], "event_id").Str == e.id, "the events are sent in order")
			txn := gjson.GetBytes(c.tl[i], "unsigned.transaction_id").Str
			if c.key == e.from && !e.late {
				vAssert(txn == "t"+e.id, "the device which sent an event gets it with its transaction ID")
				vCover("recognised")
			}
			vAssert(txn == "" || txn == "t"+e.id, "no event has a foreign transaction ID")
			vAssert(txn == "" || c.key == e.from, "no other device gets the transaction ID")
		}
	}
	vCover("done")
}
