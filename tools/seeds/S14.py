id='S14'; prop='P32'; pkg='sync3/handler'
edits=[('sync3/handler/ensure_polling.go','''			done:    true,
			expired: !payload.Success,
''','''			done: true,
''')]
needs="a poller which cannot be started at startup because the token has become invalid, and then a request with that token"
breaks="the request is answered although nobody polls for the device"
demo='''package handler
import ("context";"testing";"time";"github.com/matrix-org/sliding-sync/pubsub";"github.com/matrix-org/sliding-sync/sync2")
type dn struct { p *EnsurePoller; n int }
func (d *dn) Close() error { return nil }
func (d *dn) Notify(c string, pl pubsub.Payload) error {
	d.n++
	e := pl.(*pubsub.V3EnsurePolling)
	d.p.OnInitialSyncComplete(&pubsub.V2InitialSyncComplete{UserID: e.UserID, DeviceID: e.DeviceID, Success: true})
	return nil
}
func TestDemo(t *testing.T) {
	d := &dn{}
	d.p = NewEnsurePoller(d, false)
	d.p.OnInitialSyncComplete(&pubsub.V2InitialSyncComplete{UserID: "@a:h", DeviceID: "D", Success: false})
	ch := make(chan bool, 1)
	go func() { ch <- d.p.EnsurePolling(context.Background(), sync2.PollerID{UserID: "@a:h", DeviceID: "D"}, "x") }()
	select { case <-ch: case <-time.After(5 * time.Second): t.Fatal("stuck") }
	if d.n != 1 { t.Fatal("the pollers were not asked") }
}
'''
