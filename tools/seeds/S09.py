id='S09'; prop='P09'; pkg='sync3'
edits=[('sync3/connmap.go','''		if c.DeviceID == deviceID {
			connIDs''','''		if c.DeviceID == deviceID || c.CID == deviceID {
			connIDs''')]
needs='a connection of another device whose connection name equals the device ID being closed'
breaks='closing one device also closes a connection of a different device of the user'
demo='''package sync3
import ("context";"testing";"time";"github.com/matrix-org/sliding-sync/sync3/caches")
type dh struct{}
func (h *dh) OnIncomingRequest(ctx context.Context, cid ConnID, req *Request, isInitial bool, start time.Time) (*Response, error) { return &Response{}, nil }
func (h *dh) OnUpdate(ctx context.Context, up caches.Update) {}
func (h *dh) PublishEventsUpTo(roomID string, nid int64) {}
func (h *dh) Destroy() {}
func (h *dh) Alive() bool { return true }
func (h *dh) SetCancelCallback(cancel context.CancelFunc) {}
func TestDemo(t *testing.T) {
	m := NewConnMap(false, time.Hour)
	defer m.Teardown()
	cid := ConnID{UserID: "u", DeviceID: "PHONE", CID: "LAPTOP"}
	m.CreateConn(cid, func() {}, func() ConnHandler { return &dh{} })
	m.CloseConnsForDevice("u", "LAPTOP")
	time.Sleep(50 * time.Millisecond)
	if m.Conn(cid) == nil { t.Fatal("connection of the other device was closed") }
}
'''
