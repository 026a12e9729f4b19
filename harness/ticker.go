package sync2

import (
	"time"

	"github.com/matrix-org/sliding-sync/pubsub"
)

// Device data: whatever is stored is announced after it was stored.

func VTicker() {
	pids := []PollerID{{UserID: "@a:h", DeviceID: "X"}, {UserID: "@a:h", DeviceID: "Y"}, {UserID: "@b:h", DeviceID: "X"}}
	stored := map[PollerID]int{}
	shown := map[PollerID]int{}
	d := time.Hour
	batched := vChoose("batched", 2) == 1
	if !batched {
		d = 0
	}
	t := NewDeviceDataTicker(d)
	t.SetCallback(func(p *pubsub.V2DeviceData) {
		got := map[PollerID]bool{}
		vAssert(len(p.UserIDToDeviceIDs) > 0, "announcements are about something")
		for u, devs := range p.UserIDToDeviceIDs {
			for _, dev := range devs {
				pid := PollerID{UserID: u, DeviceID: dev}
				vAssert(!got[pid], "an announcement has each device once")
				vAssert(stored[pid] > 0, "only devices with new data are announced")
				got[pid] = true
			}
		}
		for pid := range got {
			shown[pid] = stored[pid]
		}
	})
	go t.Run()
	done := 0
	n := vPick(2, 3)
	for g := 0; g < 2; g++ {
		g := g
		go func() {
			for i := 0; i < n-g; i++ {
				pid := pids[vChoose("device", 3)]
				stored[pid]++
				t.Remember(pid)
			}
			done++
		}()
	}
	for i := 0; i < 2; i++ {
		if vChoose("wait", 2) == 1 {
			vSettle()
		}
		vFireTimers()
		vCover("tick")
	}
	vSettle()
	vFireTimers()
	vSettle()
	vAssert(done == 2, "remembering does not block")
	for pid, v := range stored {
		vAssert(shown[pid] == v, "everything stored is announced afterwards")
		vCover("announced")
	}
	t.Stop()
	vSettle()
	vCover("done")
}
