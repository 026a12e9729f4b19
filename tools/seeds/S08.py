id='S08'; prop='P08'; pkg='sync3'
edits=[('sync3/request.go',"""	rCopy.TxnID = ""
	otherCopy.TxnID = ""
""","""	rCopy.TxnID = ""
	otherCopy.TxnID = ""
	if len(otherCopy.Lists) == 0 && len(otherCopy.RoomSubscriptions) == 0 {
		// nothing new is asked for
		rCopy.Extensions, otherCopy.Extensions = extensions.Request{}, extensions.Request{}
	}
""")]
needs='a client which resends a position with only its extension parameters changed (its response got lost)'
breaks='the changed request is taken for a retry and its extension parameters are never processed'
demo='''package sync3
import ("context";"testing";"time";"github.com/matrix-org/sliding-sync/sync3/caches";"github.com/matrix-org/sliding-sync/sync3/extensions")
type dh struct{ n int }
func (h *dh) OnIncomingRequest(ctx context.Context, cid ConnID, req *Request, isInitial bool, start time.Time) (*Response, error) { h.n++; return &Response{}, nil }
func (h *dh) OnUpdate(ctx context.Context, up caches.Update) {}
func (h *dh) PublishEventsUpTo(roomID string, nid int64) {}
func (h *dh) Destroy() {}
func (h *dh) Alive() bool { return true }
func (h *dh) SetCancelCallback(cancel context.CancelFunc) {}
func TestDemo(t *testing.T) {
	h := &dh{}
	c := NewConn(ConnID{UserID: "u", DeviceID: "d"}, h)
	do := func(pos int64, since string) {
		if _, err := c.OnIncomingRequest(context.Background(), &Request{pos: pos, Extensions: extensions.Request{ToDevice: &extensions.ToDeviceRequest{Since: since}}}, time.Now()); err != nil { t.Fatal(err) }
	}
	do(0, ""); do(1, "1"); do(1, "2")
	if h.n != 3 { t.Fatalf("changed request was not processed: %d", h.n) }
}
'''
