package handler

import (
	"context"

	"github.com/matrix-org/sliding-sync/pubsub"
	"github.com/matrix-org/sliding-sync/sync2"
)

// Requests which wait for the poller of a device, with the pollers' side as it answers: each time it is asked to
// poll it reports, in order, that the token has expired (if so) and then the outcome.

type vEns struct {
	p     *EnsurePoller
	asked chan *pubsub.V3EnsurePolling
	valid map[string]bool
	live  bool // a poller runs, and has done its first sync
	polls int
}

func (v *vEns) Notify(chanName string, p pubsub.Payload) error {
	if e, ok := p.(*pubsub.V3EnsurePolling); ok {
		v.asked <- e
	}
	return nil
}
func (v *vEns) Close() error { return nil }

func (v *vEns) serve() {
	for e := range v.asked {
		v.polls++
		ok := v.live || v.valid[e.AccessTokenHash]
		if ok {
			v.live = true
		} else {
			v.p.OnExpiredToken(&pubsub.V2ExpiredToken{UserID: e.UserID, DeviceID: e.DeviceID})
		}
		v.p.OnInitialSyncComplete(&pubsub.V2InitialSyncComplete{UserID: e.UserID, DeviceID: e.DeviceID, Success: ok})
	}
}

func vEnsurePoller() {
	ctx := context.Background()
	v := &vEns{asked: make(chan *pubsub.V3EnsurePolling, 8), valid: map[string]bool{"new": true}}
	v.p = NewEnsurePoller(v, false)
	go v.serve()
	v.valid["old"] = vChoose("the first token is valid", 2) == 1
	pids := []sync2.PollerID{{UserID: "@a:h", DeviceID: "D"}, {UserID: "@b:h", DeviceID: "D"}}
	call := func(tok string) {
		expired := v.p.EnsurePolling(ctx, pids[0], tok)
		if v.valid[tok] {
			vAssert(!expired, "a request with a valid token is not refused")
			vAssert(v.live, "a request is answered once its device is polled for")
			vCover("answered")
		} else {
			vAssert(expired, "a request with an invalid token is refused")
			vCover("refused")
		}
	}
	n := vPick(2, 3)
	done := make(chan int, n)
	for i := 0; i < n; i++ {
		go func() {
			call("old")
			done <- 1
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	if v.valid["old"] {
		vAssert(v.polls == 1, "the pollers are asked once")
		// another sync completes by itself; the token is then invalidated
		if vChoose("expires", 2) == 1 {
			v.live = false
			v.valid["old"] = false
			v.p.OnExpiredToken(&pubsub.V2ExpiredToken{UserID: pids[0].UserID, DeviceID: pids[0].DeviceID})
			vCover("expired")
			if vChoose("again", 2) == 1 {
				call("old")
			}
		}
	}
	was := v.valid["old"]
	for i := 0; i < vPick(0, 1); i++ {
		go func() {
			call("new")
			done <- 1
		}()
	}
	call("new")
	for i := 0; i < vPick(0, 1); i++ {
		<-done
	}
	vAssert(v.live, "a device with a new token is polled for")
	if was {
		vAssert(v.polls == 1, "the pollers are not asked again")
	}
	vCover("done")
}

func VEnsurePoller() { vEnsurePoller() }
