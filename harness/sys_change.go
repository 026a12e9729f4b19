package handler

import (
	"encoding/json"

	"github.com/matrix-org/sliding-sync/sync3"
)

// vChList: a list as the client last asked for it.
type vChList struct {
	window sync3.SliceRanges
	filter *sync3.RequestFilters
	sort   []string
	limit  int64
	gone   bool
	fresh  bool // asked for since the last request
}

type vChWorld struct {
	*vLWorld
	lists map[string]*vChList
	terse bool // the client repeats nothing which it has said before
}

func (w *vChWorld) req() *sync3.Request {
	req := &sync3.Request{Lists: map[string]sync3.RequestList{}}
	for k, l := range w.lists {
		if l.gone {
			if l.fresh {
				req.Lists[k] = sync3.RequestList{Deleted: true}
			}
		} else if l.fresh || !w.terse {
			req.Lists[k] = sync3.RequestList{Ranges: l.window, Filters: l.filter, Sort: l.sort, RoomSubscription: sync3.RoomSubscription{TimelineLimit: l.limit}}
		}
		l.fresh = false
	}
	return req
}

func (w *vChWorld) verify(c *vClient) {
	for k, l := range w.lists {
		if l.gone {
			continue
		}
		w.key, w.window, w.filter, w.sort, w.limit = k, l.window, l.filter, l.sort, l.limit
		w.check(c)
		for i := range c.list[k] {
			in := false
			for _, rg := range l.window {
				in = in || (int64(i) >= rg[0] && int64(i) <= rg[1])
			}
			vAssert(in, "nothing is known of positions outside the window")
		}
	}
}

func (w *vChWorld) send() {
	for k, l := range w.lists {
		if l.gone && l.fresh {
			delete(w.c.list, k)
			delete(w.c.ranges, k)
		}
	}
	res := w.c.sync(w.req())
	for k, l := range w.lists {
		if l.gone {
			_, ok := res.Lists[k]
			vAssert(!ok, "a list which the client has removed is not sent")
		}
	}
}

// vhSysChange: a client changes what its lists are.
func vhSysChange() {
	w := &vChWorld{vLWorld: vListWorld(), lists: map[string]*vChList{}}
	w.newRoom(s3, "", "gamma")
	w.rooms[1].enc = true
	w.deliver(w.rooms[1], w.st(w.rooms[1], "m.room.encryption", "", vObj(vKV("algorithm", "x"))))
	w.accountData(nil, vObj(vKV("type", "m.direct"), vKV("content", vObj(vKV(sB, []string{s1})))))
	w.terse = vChoose("terse", 2) == 1
	w.s.boot()
	w.c = w.s.connect(sA, "D")
	l := &vChList{window: sync3.SliceRanges{{0, 0}}, sort: []string{sync3.SortByRecency}, limit: 1, fresh: true}
	w.lists["l"] = l
	w.send()
	w.verify(w.c)
	for i := 0; i < vPick(3, 4); i++ {
		switch vChoose("step", 7) {
		case 0:
			r := w.rooms[vChoose("room", 3)]
			vAssume(!r.unknown)
			w.deliver(r, w.msg(r))
		case 1:
			r := w.rooms[vChoose("room", 3)]
			vAssume(!r.unknown)
			id := w.id()
			r.unknown = true
			sk := sA
			w.s.respond(sA, "D", sLeave(r.id, sEvent(id, "m.room.member", sA, &sk, w.ts, vObj(vKV("membership", "leave")))))
			vCover("left")
		case 2:
			vAssume(!l.gone)
			if l.sort[0] == sync3.SortByName {
				l.sort = []string{sync3.SortByRecency}
			} else {
				l.sort = []string{sync3.SortByName}
			}
			l.fresh = true
			w.send()
			vCover("sort")
		case 3:
			vAssume(!l.gone)
			b := vChoose("want", 2) == 1
			l.filter = &sync3.RequestFilters{IsEncrypted: &b}
			l.fresh = true
			w.send()
			vCover("filter")
		case 4:
			vAssume(!l.gone)
			l.window = []sync3.SliceRanges{{{1, 1}}, {{0, 1}}}[vChoose("window", 2)]
			l.fresh = true
			w.send()
			vCover("window")
		case 5:
			l.gone = !l.gone
			if !l.gone {
				l.window = sync3.SliceRanges{{0, 1}}
				l.sort = []string{sync3.SortByName}
				l.filter = nil
				vCover("list again")
			}
			l.fresh = true
			w.send()
			vCover("list removed")
		case 6:
			vAssume(w.lists["m"] == nil)
			w.lists["m"] = &vChList{window: sync3.SliceRanges{{0, 1}}, sort: []string{sync3.SortByName}, limit: 2, fresh: true}
			w.send()
			vCover("two lists")
		}
	}
	w.c.settle(w.req)
	w.verify(w.c)
	vCover("done")
}

var _ json.RawMessage
