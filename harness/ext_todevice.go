package extensions

import (
	"context"
	"encoding/json"

	"github.com/matrix-org/sliding-sync/state"
)

const (
	vA = "@a:h"
	vB = "@b:h"
)

type vM struct {
	id   string
	kind int // 0 plain, 1 key request, 2 cancellation
	key  int
	json json.RawMessage
}

func vToDevMsg(i int, confus *int) vM {
	id := "m" + string(rune('0'+i))
	m := vM{id: id, kind: vChoose("kind", 3)}
	if m.kind == 0 {
		m.json = vObj(vKV("type", "m.room_key_share"), vKV("sender", vB), vKV("content", vObj(vKV("id", id))))
		return m
	}
	m.key = vChoose("key", 2)
	dev, req := "D", "r-"
	if m.key == 1 {
		if *confus < 0 {
			*confus = vChoose("confusable", 3)
		}
		switch *confus {
		case 0:
			dev, req = "D-r", "" // another device and request, though the names joined look alike
		case 1:
			dev = "E"
		case 2:
			req = "s"
		}
	}
	act := "request"
	if m.kind == 2 {
		act = "request_cancellation"
	}
	m.json = vObj(vKV("type", "m.room_key_request"), vKV("sender", vB), vKV("content",
		vObj(vKV("action", act), vKV("requesting_device_id", dev), vKV("request_id", req), vKV("id", id))))
	return m
}

// vInbox is the oracle of one device's inbox.
type vInbox struct {
	user, dev string
	q         []vM // not acknowledged yet, in order
	sent      int  // how many of q have been sent to the device
	since     string
	req       *ToDeviceRequest
	got       []string // what the device has received, acknowledged or not
	acked     int
	fresh     bool // no request since the server started
}

func (b *vInbox) insert(ms []vM) {
	for _, m := range ms {
		if m.kind == 2 {
			hit := false
			for i := len(b.q) - 1; i >= b.sent; i-- {
				if b.q[i].kind == 1 && b.q[i].key == m.key {
					b.q = append(append([]vM{}, b.q[:i]...), b.q[i+1:]...)
					hit = true
				}
			}
			if hit {
				continue
			}
		}
		b.q = append(b.q, m)
	}
}

// sync is one request of the device; ack: it confirms what it got in the last response.
func (b *vInbox) sync(store *state.Storage, ack bool, limit int, live bool) {
	next := &ToDeviceRequest{Limit: limit}
	if ack {
		next.Since = b.since
	}
	if b.req == nil {
		b.req = next
	} else {
		b.req.ApplyDelta(next)
	}
	if ack && b.since != "" && !b.fresh {
		b.q = append([]vM{}, b.q[b.sent:]...)
		b.sent = 0
	}
	b.fresh = false
	res := &Response{}
	ec := Context{UserID: b.user, DeviceID: b.dev, IsInitial: !live, Handler: &Handler{Store: store}}
	b.req.ProcessInitial(context.Background(), res, ec)
	vAssert(res.ToDevice != nil, "the device gets an answer")
	n := len(b.q)
	if n > limit {
		n = limit
	}
	vAssert(len(res.ToDevice.Events) == n, "exactly the pending messages are sent, up to the limit")
	for i := 0; i < n; i++ {
		vAssert(vMsgID(res.ToDevice.Events[i]) == b.q[i].id, "pending messages are sent in order")
	}
	if n > b.sent {
		b.sent = n
	}
	b.since = res.ToDevice.NextBatch
}

func vMsgID(j json.RawMessage) string {
	var e struct {
		Content struct {
			ID string `json:"id"`
		} `json:"content"`
	}
	json.Unmarshal(j, &e)
	return e.Content.ID
}

// vhToDevice: messages for two inboxes arrive in batches while the devices sync, acknowledge or repeat requests.
func vhToDevice() {
	store := state.NewStorageWithDB(vDB(), false)
	limit := 1 + vChoose("limit", 2)*9
	b := &vInbox{user: vA, dev: "X", fresh: true}
	other := &vInbox{user: vB, dev: "X", fresh: true}
	if vBool("samuser") {
		other.user, other.dev = vA, "Y"
	} else {
		b.since = "9" // a token from before the server started
	}
	om := vM{id: "o", kind: 1, json: vObj(vKV("type", "m.room_key_request"), vKV("sender", vB), vKV("content",
		vObj(vKV("action", "request"), vKV("requesting_device_id", "D"), vKV("request_id", "r"), vKV("id", "o"))))}
	_, err := store.ToDeviceTable.InsertMessages(other.user, other.dev, []json.RawMessage{om.json})
	vAssert(err == nil, "insert")
	other.insert([]vM{om})
	k := 0
	confus := -1
	steps, max := vPick(4, 5), vPick(3, 4)
	for i := 0; i < steps; i++ {
		const deliver, ack, repeat = 0, 1, 2
		var opts []int
		if k < max {
			opts = append(opts, deliver)
		}
		opts = append(opts, ack)
		if b.req != nil {
			opts = append(opts, repeat)
		}
		switch opts[vChoose("step", len(opts))] {
		case deliver:
			n := 1 + vChoose("n", max-k)
			var ms []vM
			var raw []json.RawMessage
			for j := 0; j < n; j++ {
				m := vToDevMsg(k, &confus)
				k++
				ms = append(ms, m)
				raw = append(raw, m.json)
			}
			_, err := store.ToDeviceTable.InsertMessages(b.user, b.dev, raw)
			vAssert(err == nil, "insert")
			b.insert(ms)
		case ack:
			b.sync(store, true, limit, false)
			vCover("ack")
		case repeat:
			b.sync(store, false, limit, false)
			vCover("repeat")
		}
	}
	b.sync(store, true, 100, false)
	other.since = "9"
	other.sync(store, true, 100, false)
	vCover("done")
}
