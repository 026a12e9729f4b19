package handler

import (
	"context"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync3/caches"
	"github.com/matrix-org/sliding-sync/sync3/extensions"
)

const (
	vA = "@a:h"
	vB = "@b:h"
	vC = "@c:h"
)

// vDev is the oracle: the latest data of a device and what its client has got so far.
type vDev struct {
	want, got map[string]int // target user -> latest change
	otk       int            // -1: none yet
	gotOTK    int
	fb        int // -1: none yet, 0: empty, 1: one
	gotFB     int
	dirty     bool // something was upserted since the last response which was computed
}

func (d *vDev) receive(e *extensions.E2EEResponse) {
	if e == nil {
		return
	}
	if e.OTKCounts != nil {
		n, ok := e.OTKCounts["k"]
		vAssert(ok && len(e.OTKCounts) == 1, "key counts are those of the device")
		d.gotOTK = n
	}
	if e.FallbackKeyTypes != nil {
		d.gotFB = len(*e.FallbackKeyTypes)
	}
	if e.DeviceLists != nil {
		for _, u := range e.DeviceLists.Changed {
			vAssert(d.want[u] != 0, "only users whose devices changed are announced")
			d.got[u] = internal.DeviceListChanged
			for _, v := range e.DeviceLists.Left {
				vAssert(u != v, "a user is not announced as changed and left at once")
			}
		}
		for _, u := range e.DeviceLists.Left {
			vAssert(d.want[u] != 0, "only users whose devices changed are announced")
			d.got[u] = internal.DeviceListLeft
		}
	}
}

func vhE2EE() {
	store := state.NewStorageWithDB(vDB(), false)
	h := &SyncLiveHandler{Storage: store}
	eh := &extensions.Handler{Store: store, E2EEFetcher: h}
	d := &vDev{want: map[string]int{}, got: map[string]int{}, otk: -1, gotOTK: -1, fb: -1, gotFB: -1}
	otherUser, otherDev := vB, "D"
	if vBool("sameuser") {
		otherUser, otherDev = vA, "E"
	}
	// the data of another device
	vAssert(store.DeviceDataTable.Upsert(otherUser, otherDev, internal.DeviceKeyData{OTKCounts: map[string]int{"k": 77}}, map[string]int{vC: internal.DeviceListLeft}) == nil, "upsert")

	on := true
	ex := extensions.Request{E2EE: &extensions.E2EERequest{Core: extensions.Core{Enabled: &on}}}
	upserts := 0
	upsert := func() {
		upserts++
		var keys internal.DeviceKeyData
		changes := map[string]int{}
		what := vChoose("what", 4)
		if what == 0 {
			d.otk = vInt("otk", 0, 1000)
			keys.OTKCounts = map[string]int{"k": d.otk}
		}
		if what == 1 {
			d.fb = vChoose("fallback", 2)
			keys.FallbackKeyTypes = []string{"f"}[:d.fb]
		}
		if what >= 2 {
			st := vInt("change", 1, 2)
			changes[vB] = st
			d.want[vB] = st
			if what == 3 {
				changes[vC] = 3 - st
				d.want[vC] = 3 - st
			}
		}
		vAssert(store.DeviceDataTable.Upsert(vA, "D", keys, changes) == nil, "upsert")
	}
	ctx := func(initial bool) extensions.Context {
		return extensions.Context{UserID: vA, DeviceID: "D", IsInitial: initial, Handler: eh}
	}
	// sync is one request; the data may change while it waits, and the response may get lost.
	initial := true
	sync := func(live, lost bool) {
		res := eh.Handle(context.Background(), ex, ctx(initial))
		if live {
			upsert()
			eh.HandleLiveUpdate(context.Background(), caches.DeviceDataUpdate{}, ex, &res, ctx(false))
			vCover("live")
		}
		if lost {
			initial = true // the client starts over
			vCover("lost")
			return
		}
		d.receive(res.E2EE)
		initial = false
	}
	steps, max := vPick(4, 5), vPick(3, 3)
	for i := 0; i < steps; i++ {
		switch vChoose("step", 3) {
		case 0:
			if upserts < max {
				upsert()
			}
		case 1:
			sync(upserts < max && vBool("live"), false)
		case 2:
			sync(false, true)
		}
	}
	sync(false, false)
	sync(false, false)
	sync(false, false)
	for u, st := range d.want {
		vAssert(d.got[u] == st, "the latest change of every device list arrives")
	}
	vAssert(d.gotOTK == d.otk, "the latest key counts arrive")
	vAssert(d.gotFB == d.fb, "the latest fallback keys arrive")
	res := eh.Handle(context.Background(), ex, ctx(false))
	vAssert(res.E2EE == nil, "what was acknowledged is not sent again")
	// the other device still gets its own
	o := extensions.Context{UserID: otherUser, DeviceID: otherDev, IsInitial: false, Handler: eh}
	res = eh.Handle(context.Background(), ex, o)
	vAssert(res.E2EE != nil && res.E2EE.OTKCounts["k"] == 77 && res.E2EE.DeviceLists != nil && len(res.E2EE.DeviceLists.Left) == 1 && len(res.E2EE.DeviceLists.Changed) == 0, "another device gets its own data")
	vCover("done")
}
