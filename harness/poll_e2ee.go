package sync2

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/rs/zerolog"

	"github.com/matrix-org/sliding-sync/internal"
)

// Encryption data on its way through the poller: only changes are passed on, but all of them, whatever fails.

type vPollE struct {
	vPoll
	res   *SyncResponse // the response which is (being) processed
	again bool          // it has to be repeated
	not   int
	failE bool // passing on encryption data fails
	failG bool // something after it fails
	otk   map[string]int
	fall  []string
	known bool // the fallback keys are known
	lists map[string]int
	wantL map[string]int
}

func (v *vPollE) check() {
	if v.res == nil || v.again {
		return
	}
	if len(v.res.DeviceListsOTKCount) > 0 {
		vAssert(len(v.otk) == len(v.res.DeviceListsOTKCount), "the key counts are known")
		for k, n := range v.res.DeviceListsOTKCount {
			vAssert(v.otk[k] == n, "the key counts are known")
		}
	}
	if f := v.res.DeviceUnusedFallbackKeyTypes; f != nil {
		vAssert(v.known && len(f) == len(v.fall), "the fallback keys are known")
		for i := range f {
			vAssert(f[i] == v.fall[i], "the fallback keys are known")
		}
	}
	for u, n := range v.wantL {
		vAssert(v.lists[u] == n, "the last change of each device list is known")
	}
	for u := range v.lists {
		_, ok := v.wantL[u]
		vAssert(ok, "only changes of device lists are passed on")
	}
}

func (v *vPollE) DoSyncV2(ctx context.Context, accessToken, since string, isFirst bool, toDeviceOnly bool) (*SyncResponse, int, error) {
	v.check()
	v.calls++
	if v.calls > v.n {
		return nil, 401, HTTP401
	}
	if !v.again {
		r := &SyncResponse{NextBatch: fmt.Sprintf("b%d", v.calls)}
		one := func(dim int, what string, n int) int {
			if v.not == dim {
				return 0
			}
			return vChoose(what, n)
		}
		switch one(0, "counts", 3) {
		case 1:
			r.DeviceListsOTKCount = map[string]int{"a": vInt("count", 0, 2)}
		case 2:
			r.DeviceListsOTKCount = map[string]int{"a": vInt("count", 0, 2), "b": vInt("count", 0, 1)}
			vCover("counts")
		}
		switch one(1, "fallback", vPick(3, 4)) {
		case 1:
			r.DeviceUnusedFallbackKeyTypes = []string{}
		case 2:
			r.DeviceUnusedFallbackKeyTypes = []string{"a"}
			vCover("fallback keys")
		case 3:
			r.DeviceUnusedFallbackKeyTypes = []string{"b"}
		}
		switch one(2, "device lists", 3) {
		case 1:
			r.DeviceLists.Changed = []string{"@b:h"}
			v.wantL["@b:h"] = internal.DeviceListChanged
		case 2:
			r.DeviceLists.Left = []string{"@b:h"}
			r.DeviceLists.Changed = []string{"@c:h"}
			v.wantL["@b:h"] = internal.DeviceListLeft
			v.wantL["@c:h"] = internal.DeviceListChanged
			vCover("device lists")
		}
		v.res = r
	}
	v.again = false
	v.failE, v.failG = false, false
	switch vChoose("failure", 3) {
	case 1:
		v.failE = true
	case 2:
		v.failG = true
		v.again = true
		v.res.AccountData.Events = append(v.res.AccountData.Events[:0], vObj(vKV("type", "x")))
		vCover("repeated")
	}
	return v.res, 200, nil
}

func (v *vPollE) OnE2EEData(ctx context.Context, userID, deviceID string, otkCounts map[string]int, fallbackKeyTypes []string, deviceListChanges map[string]int) error {
	if v.failE {
		v.again = true
		vCover("failed")
		return fmt.Errorf("database is gone")
	}
	if otkCounts != nil {
		v.otk = otkCounts
	}
	if fallbackKeyTypes != nil {
		v.fall, v.known = fallbackKeyTypes, true
	}
	for u, n := range deviceListChanges {
		v.lists[u] = n
	}
	return nil
}

func (v *vPollE) UpdateDeviceSince(ctx context.Context, userID, deviceID, since string) {}

func (v *vPollE) OnExpiredToken(ctx context.Context, accessTokenHash, userID, deviceID string) {}

func (v *vPollE) OnAccountData(ctx context.Context, userID, roomID string, events []json.RawMessage) error {
	if v.failG {
		return fmt.Errorf("database is gone")
	}
	return nil
}

// VPollE2EE: one device's poll loop.
func VPollE2EE() {
	timeSleep = func(time.Duration) {}
	v := &vPollE{vPoll: vPoll{n: vPick(3, 4)}, not: vChoose("without", 3), lists: map[string]int{}, wantL: map[string]int{}}
	p := newPoller(PollerID{UserID: "@a:h", DeviceID: "D"}, "tok", v, v, zerolog.Nop(), false)
	p.Poll("")
	vAssert(v.ended == 1, "the poller ends")
	vCover("done")
}
