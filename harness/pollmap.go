package sync2

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/rs/zerolog"
)

// The pollers of several devices, as asked for concurrently.

type vMap struct {
	vPoll
	pm      *PollerMap
	busy    map[string]int
	gone    map[string]bool // expired tokens
	calls   map[string]int
	bad     map[string]int // 1: the token is invalid, 2: the first answer is a temporary error, 3: the first response cannot be processed at once
	first   map[string]bool
	forever chan int
}

func (v *vMap) DoSyncV2(ctx context.Context, tok, since string, isFirst bool, toDeviceOnly bool) (*SyncResponse, int, error) {
	vAssert(v.busy[tok] == 0, "there is one poller for each device")
	v.busy[tok]++
	n := v.calls[tok]
	v.calls[tok]++
	if (n > 1 && v.bad[tok] != 1) || (n == 1 && v.bad[tok] == 0) {
		<-v.forever
	}
	v.busy[tok]--
	switch v.bad[tok] {
	case 1:
		return nil, 401, HTTP401
	case 2:
		if n == 0 {
			return nil, 502, fmt.Errorf("bad gateway")
		}
	}
	return &SyncResponse{NextBatch: "x"}, 200, nil
}
func (v *vMap) UpdateDeviceSince(ctx context.Context, userID, deviceID, since string) {
	v.first[userID+deviceID] = true
}
func (v *vMap) OnExpiredToken(ctx context.Context, accessTokenHash, userID, deviceID string) {
	v.gone[userID+deviceID] = true
}
func (v *vMap) OnTerminated(ctx context.Context, pollerID PollerID) {}

// VEnsure: two requests for pollers at the same time, and one later.
func VEnsure() {
	timeSleep = func(time.Duration) {}
	v := &vMap{busy: map[string]int{}, gone: map[string]bool{}, calls: map[string]int{}, bad: map[string]int{}, first: map[string]bool{}, forever: make(chan int)}
	v.pm = NewPollerMap(v, false)
	v.pm.SetCallbacks(v)
	pids := []PollerID{{UserID: "@a:h", DeviceID: "D"}, {UserID: "@a:h", DeviceID: "E"}, {UserID: "@b:h", DeviceID: "D"}}
	tok := func(p PollerID) string { return p.UserID + p.DeviceID }
	two := pids[vChoose("device", 3)]
	v.bad[tok(pids[0])] = vChoose("homeserver", 3)
	startup := vChoose("startup", 2) == 1
	created := 0
	ensure := func(p PollerID, alone bool) {
		c, err := v.pm.EnsurePolling(p, tok(p), "", startup, zerolog.Nop())
		if c {
			created++
			vAssert(err == nil, "a poller which has stopped is not reported as new")
		}
		if v.bad[tok(p)] == 1 {
			if alone {
				vAssert(err != nil, "whoever waits for a poller is told that its token is invalid")
				vCover("invalid")
			}
		} else {
			vAssert(err == nil, "there is a poller")
			if alone {
				vAssert(v.first[tok(p)], "a response has been processed by the time the poller is reported")
				vCover("waited")
			}
		}
	}
	done := make(chan int)
	go func() {
		ensure(two, two.UserID != pids[0].UserID || two == pids[0])
		done <- 1
	}()
	ensure(pids[0], two.UserID != pids[0].UserID || two == pids[0])
	<-done
	if two == pids[0] && v.bad[tok(two)] != 1 {
		vAssert(created == 1, "a poller is made once")
		vCover("same device")
	}
	before := created
	ensure(two, two.UserID != pids[0].UserID || two == pids[0])
	if v.bad[tok(two)] != 1 {
		vAssert(created == before, "a poller which runs is kept")
	}
	n := v.pm.NumPollers()
	want := 2
	if two == pids[0] {
		want = 1
	}
	if v.bad[tok(pids[0])] == 1 {
		want--
	}
	if two.UserID != pids[0].UserID || two == pids[0] {
		vAssert(n == want, "every device with a valid token is polled for")
	}
	vCover("done")
}

type vExp struct {
	vPoll
	expired int
	ended   int
	calls   int
	over    bool
	got     []string
	late    chan int
	forever chan int
}

func (v *vExp) DoSyncV2(ctx context.Context, tok, since string, isFirst bool, toDeviceOnly bool) (*SyncResponse, int, error) {
	switch since {
	case "":
		v.calls++
		return &SyncResponse{NextBatch: []string{"", "first", "new"}[v.calls]}, 200, nil
	case "first":
		// the response to this arrives when the poller is not wanted any more
		<-v.late
		r := &SyncResponse{NextBatch: "late"}
		r.ToDevice.Events = []json.RawMessage{vObj(vKV("type", "x"))}
		return r, 200, nil
	}
	<-v.forever
	return nil, 0, nil
}
func (v *vExp) UpdateDeviceSince(ctx context.Context, userID, deviceID, since string) {
	vAssert(since != "late", "a poller which was ended does not store its position")
	v.got = append(v.got, since)
}
func (v *vExp) AddToDeviceMessages(ctx context.Context, userID, deviceID string, msgs []json.RawMessage) error {
	vAssert(false, "a poller which was ended does not process anything more")
	return nil
}
func (v *vExp) OnExpiredToken(ctx context.Context, accessTokenHash, userID, deviceID string) {
	v.expired++
}
func (v *vExp) OnTerminated(ctx context.Context, pollerID PollerID) { v.ended++ }

// VExpire: a poller is ended because its device was not used for long, and asked for again.
func VExpire() {
	timeSleep = func(time.Duration) {}
	v := &vExp{late: make(chan int), forever: make(chan int)}
	pm := NewPollerMap(v, false)
	pm.SetCallbacks(v)
	pid := PollerID{UserID: "@a:h", DeviceID: "D"}
	ensure := func() (bool, error) { return pm.EnsurePolling(pid, "tok", "", false, zerolog.Nop()) }
	c, err := ensure()
	vAssert(c && err == nil, "there is a poller")
	ids := []PollerID{pid, {UserID: "@a:h", DeviceID: "E"}}
	done := make(chan int)
	go func() {
		vAssert(pm.ExpirePollers(ids) == 1, "only pollers which there are end")
		done <- 1
	}()
	made := false
	if vChoose("at once", 2) == 1 {
		made, err = ensure()
		vAssert(err == nil || !made, "there is a poller, or not")
		vCover("at once")
	}
	<-done
	vAssert(v.expired == 1, "the end of the poller is reported")
	if !made {
		vAssert(pm.NumPollers() == 0 && len(pm.DeviceIDs("@a:h")) == 0, "a poller which was ended does not count")
	}
	c, err = ensure()
	vAssert(err == nil, "there is a poller again")
	vAssert(c != made, "it is a new one")
	vAssert(pm.NumPollers() == 1 && len(pm.DeviceIDs("@a:h")) == 1, "there is one poller")
	close(v.late)
	vSettle()
	vAssert(v.ended == 1, "the old poller has ended")
	vCover("done")
}
