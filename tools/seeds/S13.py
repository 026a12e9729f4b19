id='S13'; prop='P31'; pkg='sync2'
edits=[('sync2/poller.go','''	p.trackRequestDuration(timeSince(start), s.since == "", s.firstTime)
	if p.terminated.Load() {
		return fmt.Errorf("poller terminated")
	}
''','''	p.trackRequestDuration(timeSince(start), s.since == "", s.firstTime)
''')]
needs='a poller which is ended while its request to the homeserver is outstanding'
breaks='the response is still processed, concurrently with that of the poller which has replaced it'
demo='''package sync2
import ("context";"encoding/json";"testing";"time";"github.com/rs/zerolog")
type dcl struct { in, out chan int; n int }
func (c *dcl) Versions(ctx context.Context) ([]string, error) { return nil, nil }
func (c *dcl) WhoAmI(ctx context.Context, t string) (string, string, error) { return "", "", nil }
func (c *dcl) DoSyncV2(ctx context.Context, t, since string, f, d bool) (*SyncResponse, int, error) {
	c.n++
	if c.n > 1 { c.in <- 1; <-c.out }
	return &SyncResponse{NextBatch: "x", ToDevice: EventsResponse{Events: []json.RawMessage{[]byte(`{"type":"a"}`)}}}, 200, nil
}
type drc struct { V2DataReceiver; got int; done chan int }
func (d *drc) AddToDeviceMessages(ctx context.Context, u, dev string, m []json.RawMessage) error { d.got++; return nil }
func (d *drc) UpdateDeviceSince(ctx context.Context, u, dev, s string) {}
func (d *drc) OnE2EEData(ctx context.Context, u, dev string, o map[string]int, f []string, c map[string]int) error { return nil }
func (d *drc) OnExpiredToken(ctx context.Context, h, u, dev string) {}
func (d *drc) OnTerminated(ctx context.Context, p PollerID) { close(d.done) }
func TestDemo(t *testing.T) {
	c := &dcl{in: make(chan int), out: make(chan int)}
	r := &drc{done: make(chan int)}
	pm := NewPollerMap(c, false); pm.SetCallbacks(r)
	pid := PollerID{UserID: "@a:h", DeviceID: "D"}
	if _, err := pm.EnsurePolling(pid, "tok", "", false, zerolog.Nop()); err != nil { t.Fatal(err) }
	<-c.in
	before := r.got
	pm.ExpirePollers([]PollerID{pid})
	select { case c.out <- 1: case <-time.After(5 * time.Second): t.Fatal("stuck") }
	select { case <-r.done: case <-time.After(5 * time.Second): t.Fatal("stuck") }
	if r.got != before { t.Fatal("response processed after the poller was ended") }
}
'''
