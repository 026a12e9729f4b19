package sync2

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/rs/zerolog"
	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/internal"
)

// The poll loop against a homeserver which may answer anything, and a receiver which may fail.

// vPoll is both.
type vPoll struct {
	n        int // how many polls there may be
	calls    int
	busy     int
	since    string // what the next request has to say
	first    bool
	todev    bool
	fail     int // which section of the response fails, and how
	data     bool
	got      map[string]bool // which parts of the response were received
	batch    string
	devices  bool // the response has to-device messages
	stored   string
	expired  int
	ended    int
	stop     bool
	want     []string // every batch which was processed
	answered bool
}

func (v *vPoll) Versions(ctx context.Context) ([]string, error) { return nil, nil }
func (v *vPoll) WhoAmI(ctx context.Context, accessToken string) (string, string, error) {
	return "", "", HTTP401
}

var vParts = []string{"e2ee", "global", "join", "join2", "leave", "left", "invite", "todevice"}

// settle accounts for the response before: it counts if and only if nothing failed for a passing reason.
func (v *vPoll) settle() {
	if !v.answered {
		return
	}
	v.answered = false
	if v.fail > 0 && !v.data {
		vAssert(v.stored != v.batch, "a response which has to be repeated is not taken for processed")
		return
	}
	for i, p := range vParts {
		if p == "todevice" && !v.devices {
			continue
		}
		if v.fail == i+1 && v.data {
			continue
		}
		if p == "left" && v.fail == 5 {
			continue // the same room
		}
		vAssert(v.got[p], "everything in a response is processed: "+p)
	}
	v.since = v.batch
	v.first = false
	v.want = append(v.want, v.batch)
	if v.devices {
		vAssert(v.stored == v.batch, "the position is stored once to-device messages are")
	}
}

func (v *vPoll) DoSyncV2(ctx context.Context, accessToken, since string, isFirst bool, toDeviceOnly bool) (*SyncResponse, int, error) {
	v.settle()
	vAssert(!v.stop, "there are no requests with an invalid token")
	vAssert(accessToken == "tok", "the request is made with the device's token")
	vAssert(since == v.since, "a request asks for what comes after the last response processed")
	vAssert(isFirst == v.first, "a request is the first until a response has been processed")
	vAssert(!toDeviceOnly || v.todev, "only to-device messages are asked for only as long as there has been no response")
	v.calls++
	if v.calls > v.n {
		v.stop = true
		return nil, 401, HTTP401
	}
	switch vChoose("answer", 5) {
	case 0:
		vCover("temporary error")
		return nil, []int{0, 502, 429}[vChoose("code", 3)], fmt.Errorf("temporary")
	case 1:
		v.stop = true
		vCover("invalid token")
		return nil, []int{401, 403}[vChoose("code", 2)], fmt.Errorf("M_UNKNOWN_TOKEN")
	case 2:
		v.fail = 0
		vCover("processed")
	case 3:
		v.fail, v.data = 1+vChoose("part", len(vParts)), false
		vCover("passing failure")
	case 4:
		v.fail, v.data = 1+vChoose("part", len(vParts)), true
		vCover("bad data")
	}
	v.todev = false
	v.answered = true
	v.devices = v.fail == 8 || vChoose("to-device", 2) == 1
	v.batch = fmt.Sprintf("b%d", v.calls)
	v.got = map[string]bool{}
	ev := func(id string) json.RawMessage { return vObj(vKV("event_id", id), vKV("type", "m.x")) }
	sk := "@a:h"
	leave := vObj(vKV("event_id", "leave"), vKV("type", "m.room.member"), vKV("state_key", sk), vKV("content", vObj(vKV("membership", "leave"))))
	r := &SyncResponse{NextBatch: v.batch}
	r.AccountData.Events = []json.RawMessage{ev("global")}
	r.DeviceLists.Changed = []string{"@b:h"}
	r.Rooms.Join = map[string]SyncV2JoinResponse{"!1": {Timeline: TimelineResponse{Events: []json.RawMessage{ev("join")}}}, "!2": {State: EventsResponse{Events: []json.RawMessage{ev("join2")}}}}
	r.Rooms.Leave = map[string]SyncV2LeaveResponse{"!3": {Timeline: TimelineResponse{Events: []json.RawMessage{leave}}}}
	r.Rooms.Invite = map[string]SyncV2InviteResponse{"!4": {InviteState: EventsResponse{Events: []json.RawMessage{ev("invite")}}}}
	if v.devices {
		r.ToDevice.Events = []json.RawMessage{ev("todevice")}
	}
	return r, 200, nil
}

func (v *vPoll) take(part string) error {
	vAssert(v.answered, "nothing is received twice")
	if v.fail > 0 && vParts[v.fail-1] == part {
		if v.data {
			return internal.NewDataError("bad data")
		}
		return fmt.Errorf("database is gone")
	}
	if part == "todevice" {
		vAssert(!v.got[part], "to-device messages are received once")
		vAssert(v.fail == 0 || v.data, "to-device messages are not received if the response will be repeated")
	}
	v.got[part] = true
	return nil
}

func (v *vPoll) UpdateDeviceSince(ctx context.Context, userID, deviceID, since string) {
	vAssert(v.fail == 0 || v.data, "a response which has to be repeated is not taken for processed")
	for i, p := range vParts {
		if (p == "todevice" && !v.devices) || (v.fail == i+1) || (p == "left" && v.fail == 5) {
			continue
		}
		vAssert(v.got[p], "a position is stored after everything before it: "+p)
	}
	vAssert(since == v.batch, "the position which is stored is that of the response")
	vAssert(userID == "@a:h" && deviceID == "D", "the position is that of the device")
	v.stored = since
}
func (v *vPoll) Accumulate(ctx context.Context, userID, deviceID, roomID string, timeline TimelineResponse) error {
	id := gjson.GetBytes(timeline.Events[0], "event_id").Str
	vAssert(roomID == map[string]string{"join": "!1", "leave": "!3"}[id], "events are those of their room")
	return v.take(id)
}
func (v *vPoll) Initialise(ctx context.Context, roomID string, state []json.RawMessage) error {
	vAssert(roomID == "!2", "state is that of its room")
	return v.take(gjson.GetBytes(state[0], "event_id").Str)
}
func (v *vPoll) SetTyping(ctx context.Context, pollerID PollerID, roomID string, ephEvent json.RawMessage) {
}
func (v *vPoll) OnReceipt(ctx context.Context, userID, roomID, ephEventType string, ephEvent json.RawMessage) {
}
func (v *vPoll) AddToDeviceMessages(ctx context.Context, userID, deviceID string, msgs []json.RawMessage) error {
	vAssert(userID == "@a:h" && deviceID == "D", "to-device messages are for the device")
	return v.take("todevice")
}
func (v *vPoll) UpdateUnreadCounts(ctx context.Context, roomID, userID string, highlightCount, notifCount *int) {
}
func (v *vPoll) OnAccountData(ctx context.Context, userID, roomID string, events []json.RawMessage) error {
	return v.take("global")
}
func (v *vPoll) OnInvite(ctx context.Context, userID, roomID string, inviteState []json.RawMessage) error {
	vAssert(roomID == "!4" && userID == "@a:h", "an invite is the user's")
	return v.take("invite")
}
func (v *vPoll) OnLeftRoom(ctx context.Context, userID, roomID string, leaveEvent json.RawMessage) error {
	vAssert(roomID == "!3" && userID == "@a:h", "it is the user who left")
	return v.take("left")
}
func (v *vPoll) OnE2EEData(ctx context.Context, userID, deviceID string, otkCounts map[string]int, fallbackKeyTypes []string, deviceListChanges map[string]int) error {
	vAssert(userID == "@a:h" && deviceID == "D", "keys are those of the device")
	return v.take("e2ee")
}
func (v *vPoll) OnTerminated(ctx context.Context, pollerID PollerID) { v.ended++ }
func (v *vPoll) OnExpiredToken(ctx context.Context, accessTokenHash, userID, deviceID string) {
	vAssert(v.stop, "a token which works does not expire")
	vAssert(accessTokenHash == hashToken("tok"), "it is the device's token which expires")
	v.expired++
}

// VPollLoop: one device's poll loop.
func VPollLoop() {
	timeSleep = func(time.Duration) {}
	v := &vPoll{n: vPick(2, 3), first: true}
	v.since = []string{"", "s0"}[vChoose("since", 2)]
	v.todev = vChoose("only to-device", 2) == 1
	p := newPoller(PollerID{UserID: "@a:h", DeviceID: "D"}, "tok", v, v, zerolog.Nop(), v.todev)
	p.Poll(v.since)
	vAssert(v.stop && v.expired == 1, "the poller stops when the token is invalid, which is reported once")
	vAssert(v.ended == 1, "the end of the poller is reported once")
	vAssert(p.terminated.Load(), "a poller which has stopped counts as stopped")
	p.WaitUntilInitialSync()
	if len(v.want) > 1 {
		vCover("more than one")
	}
	vCover("done")
}
