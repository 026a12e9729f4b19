package sync3

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/matrix-org/sliding-sync/sync3/caches"
	"github.com/matrix-org/sliding-sync/sync3/extensions"
)

// Connection positions, retries and linearisation.

type vHHandler struct {
	calls, ok  int
	bodies     []string
	inside     bool
	overlapped bool
	faulty     bool
	yield      *sync.Mutex
	destroyed  int
	dead       bool
}

func (h *vHHandler) OnIncomingRequest(ctx context.Context, cid ConnID, req *Request, isInitial bool, start time.Time) (*Response, error) {
	h.calls++
	if h.inside {
		h.overlapped = true
	}
	h.inside = true
	if h.yield != nil {
		h.yield.Lock()
		h.yield.Unlock()
	}
	h.inside = false
	if h.faulty {
		switch vChoose("handler", vPick(2, 3)) {
		case 1:
			return nil, fmt.Errorf("handler failed")
		case 2:
			panic("handler panicked")
		}
	}
	h.ok++
	h.bodies = append(h.bodies, vHBody(req))
	return &Response{Lists: map[string]ResponseList{"chunk": {Count: h.ok}}}, nil
}
func (h *vHHandler) OnUpdate(ctx context.Context, update caches.Update) {}
func (h *vHHandler) PublishEventsUpTo(roomID string, nid int64)         {}
func (h *vHHandler) Destroy()                                           { h.destroyed++ }
func (h *vHHandler) Alive() bool                                        { return !h.dead }
func (h *vHHandler) SetCancelCallback(cancel context.CancelFunc)        {}

// vHVariant: the part of the request by which different bodies differ.
var vHVariant int

const vHVariants = 6

func vHReq(pos int, body, txn string) *Request {
	r := &Request{TxnID: txn}
	switch vHVariant {
	case 0:
		r.UnsubscribeRooms = []string{body}
	case 1:
		r.Lists = map[string]RequestList{"l": {Sort: []string{body}}}
	case 2:
		r.Lists = map[string]RequestList{"l": {Ranges: SliceRanges{{0, int64(body[0])}}}}
	case 3:
		r.RoomSubscriptions = map[string]RoomSubscription{"!r": {TimelineLimit: int64(body[0])}}
	case 4:
		r.Extensions.ToDevice = &extensions.ToDeviceRequest{Since: body}
	case 5:
		on := body != "A"
		r.Extensions.Typing = &extensions.TypingRequest{Core: extensions.Core{Enabled: &on}}
	}
	r.SetPos(int64(pos))
	return r
}

func vHBody(r *Request) string {
	switch vHVariant {
	case 0:
		return r.UnsubscribeRooms[0]
	case 1:
		return r.Lists["l"].Sort[0]
	case 2:
		return string(rune(r.Lists["l"].Ranges[0][1]))
	case 3:
		return string(rune(r.RoomSubscriptions["!r"].TimelineLimit))
	case 4:
		return r.Extensions.ToDevice.Since
	}
	if *r.Extensions.Typing.Enabled {
		return "B"
	}
	return "A"
}

// VConnRetries: whatever is lost, repeated or changed, a client at position p gets the response after p,
// once processed data is never processed again for a mere retry, and unknown positions are refused.
func VConnRetries() {
	ctx := context.Background()
	SpamProtectionInterval = 0
	vHVariant = vChoose("variant", vHVariants)
	h := &vHHandler{}
	c := NewConn(ConnID{UserID: "@u", DeviceID: "D"}, h)
	resp, herr := c.OnIncomingRequest(ctx, vHReq(0, "A", "t0"), time.Now())
	vAssert(herr == nil && resp != nil && resp.Pos == "1", "the first request gets position 1")
	h.faulty = true
	p := 1                            // last position the client received
	lastPos, lastBody := 0, "A"       // last request that was processed
	n := vPick(5, 6)
	if vHVariant != 0 {
		n = 3
	}
	for i := 0; i < n; i++ {
		calls, ok := h.calls, h.ok
		body := "A"
		pos := p
		k := vChoose("send", 4)
		if k == 1 {
			body = "B"
		}
		switch k {
		case 2: // a position of the past
			vAssume(p > 1)
			pos = vConcrete(vInt("pos", 1, p-1))
		case 3: // made up
			pos = vInt("bogus", h.ok+1, 1000000)
		}
		txn := "t" + string(rune('1'+i))
		resp, herr = c.OnIncomingRequest(ctx, vHReq(pos, body, txn), time.Now())
		vAssert((resp == nil) == (herr != nil), "a request gets a response or an error")
		vAssert(h.calls-calls <= 1, "a request is processed at most once")
		failed := h.calls > calls && h.ok == ok
		if pos > ok {
			vAssert(herr != nil && h.calls == calls, "a position which was never sent out is refused")
			vAssert(herr == nil || (herr.StatusCode == 400 && herr.ErrCode == "M_UNKNOWN_POS"), "an unknown position is answered with M_UNKNOWN_POS")
			continue
		}
		if herr != nil {
			vAssert(failed || pos != p, "a request at the current position fails only if processing it failed")
			vAssert(!failed || herr.StatusCode == 500, "a processing failure is an internal error")
			continue
		}
		vAssert(!failed, "failures are reported")
		vAssert(int(resp.PosInt()) > pos && resp.Lists["chunk"].Count == int(resp.PosInt()), "a response is the one which was produced for its position")
		if pos < p {
			// a stale copy of an earlier request: nobody is waiting for the answer
			if h.ok > ok {
				lastPos, lastBody = pos, body
			}
			continue
		}
		vAssert(int(resp.PosInt()) == pos+1, "the response after position p has position p+1")
		vAssert(resp.Lists["chunk"].Count == pos+1, "the same position always yields the same response")
		if pos == lastPos && body == lastBody {
			vAssert(h.calls == calls, "a retry is not processed again")
			vCover("retry")
		}
		if body != lastBody {
			vAssert(h.ok == ok+1 && h.bodies[ok] == body, "changed request data is always processed")
		}
		if h.ok > ok {
			lastPos, lastBody = pos, body
			vAssert(pos+1 != h.ok || resp.TxnID == txn, "a fresh response carries the transaction ID of its request")
		}
		if pos == p && vChoose("delivered", 2) == 1 {
			p = pos + 1
		}
	}
	vCover("end")
}

// VConnLinear: requests on one connection are processed one at a time, and all of them are answered.
func VConnLinear() {
	ctx := context.Background()
	SpamProtectionInterval = 0
	h := &vHHandler{}
	c := NewConn(ConnID{UserID: "@u", DeviceID: "D"}, h)
	_, herr := c.OnIncomingRequest(ctx, vHReq(0, "A", ""), time.Now())
	vAssert(herr == nil, "first")
	h.yield = &sync.Mutex{}
	done := make(chan int)
	same := vBool("same_body")
	for g := 0; g < 2; g++ {
		body := "X"
		if g == 1 && !same {
			body = "Y"
		}
		go func() {
			resp, herr := c.OnIncomingRequest(ctx, vHReq(1, body, ""), time.Now())
			if herr != nil || resp == nil || resp.Lists["chunk"].Count != 2 || resp.Pos != "2" {
				done <- 1
				return
			}
			done <- 0
		}()
	}
	bad := <-done + <-done
	vAssert(bad == 0, "concurrent requests at one position get the same next response")
	vAssert(!h.overlapped, "requests of a connection are processed one at a time")
	vAssert(h.ok == 2 || !same, "concurrent copies of a request are processed once")
	vAssert(h.ok == 3 || same, "concurrent different requests are each processed")
	vCover("end")
}
