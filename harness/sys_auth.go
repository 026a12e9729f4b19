package handler

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/pubsub"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync2/handler2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// Requests with access tokens: whose connection they get, and whether the device is polled for.

type vAToken struct {
	text    string
	user    string
	device  string
	invalid bool
	refused bool // the homeserver has told the proxy that it is invalid
	waits   chan bool
}

// vAHS is the homeserver: it knows whose the tokens are.
type vAHS struct {
	toks    map[string]*vAToken
	down    bool
	polls   map[string]int
	sinces  map[string][]string
	synced  map[string]bool // user|device: the first response has been given
	forever chan int
}

func (hs *vAHS) Versions(ctx context.Context) ([]string, error) { return nil, nil }
func (hs *vAHS) WhoAmI(ctx context.Context, accessToken string) (string, string, error) {
	if hs.down {
		return "", "", fmt.Errorf("bad gateway")
	}
	t := hs.toks[accessToken]
	if t == nil || t.invalid {
		return "", "", sync2.HTTP401
	}
	return t.user, t.device, nil
}
func (hs *vAHS) DoSyncV2(ctx context.Context, accessToken, since string, isFirst bool, toDeviceOnly bool) (*sync2.SyncResponse, int, error) {
	t := hs.toks[accessToken]
	vAssert(t != nil, "the homeserver is asked with a token which a client has used")
	key := t.user + "|" + t.device
	hs.sinces[key] = append(hs.sinces[key], since)
	if !t.invalid && hs.polls[accessToken] > 0 {
		// nothing new, until the token is invalidated
		<-t.waits
	}
	hs.polls[accessToken]++
	if t.invalid {
		t.refused = true
		return nil, 401, sync2.HTTP401
	}
	hs.synced[key] = true
	return &sync2.SyncResponse{NextBatch: "after " + key}, 200, nil
}

type vAuth struct {
	*vSys
	hs    *vAHS
	store *sync2.Storage
}

func vAuthHooks() {
	sync2.VHookTokensTableencrypt = func(t *sync2.TokensTable, token string) string {
		return "enc " + token
	}
	sync2.VHookdecrypt = func(s string, key []byte) (string, error) {
		return strings.TrimPrefix(s, "enc "), nil
	}
}

func vNewAuth(toks ...*vAToken) *vAuth {
	vAuthHooks()
	a := &vAuth{vSys: &vSys{db: vDB()}}
	a.hs = &vAHS{toks: map[string]*vAToken{}}
	for _, t := range toks {
		t.waits = make(chan bool)
		a.hs.toks[t.text] = t
	}
	a.start()
	return a
}

// start (re)starts the whole proxy.
func (a *vAuth) start() {
	a.hs.polls, a.hs.sinces, a.hs.synced = map[string]int{}, map[string][]string{}, map[string]bool{}
	a.ps = &vPubSub{fn: map[string]func(p pubsub.Payload){}}
	a.vSys.store = state.NewStorageWithDB(a.db, false)
	a.store = sync2.NewStoreWithDB(a.db, "secret")
	a.pm = sync2.NewPollerMap(a.hs, false)
	v2, err := handler2.NewHandler(a.pm, a.store, a.vSys.store, a.ps, a.ps, false, time.Hour)
	vAssert(err == nil, "the poller side starts")
	a.v2 = v2
	a.pm.SetCallbacks(v2)
	vAssert(pubsub.NewV3Sub(a.ps, a.v2).Listen() == nil, "listen")
	vNewSession(a.db)
	snap, err := a.vSys.store.GlobalSnapshot()
	vAssert(err == nil, "snapshot at startup")
	h, err := NewSync3Handler(a.vSys.store, a.store, a.hs, "", a.ps, a.ps, false, 100, 0)
	vAssert(err == nil, "client side starts")
	vAssert(h.Startup(&snap) == nil, "client side starts")
	vAssert(h.V2Sub.Listen() == nil, "listen")
	a.h = h
}

// request makes a request; the answer is that of the connection.
func (a *vAuth) request(header string, withPos bool) (*sync3.Conn, *internal.HandlerError) {
	req := &http.Request{Header: http.Header{}}
	if header != "" {
		req.Header["Authorization"] = []string{header}
	}
	_, conn, herr := a.h.setupConnection(req, func() {}, &sync3.Request{}, withPos)
	vAssert((conn == nil) == (herr != nil), "a request is either answered or refused")
	return conn, herr
}

// invalidate makes a token invalid; a poller which uses it finds out, if now is set.
func (a *vAuth) invalidate(t *vAToken, now bool) {
	t.invalid = true
	if now {
		select {
		case t.waits <- true:
		default:
		}
		vSettle()
	}
}

func vhSysAuth() {
	toks := []*vAToken{{text: "ta", user: sA, device: "D"}, {text: "tb", user: sB, device: "D"}, {text: "ta2", user: sA, device: "D"}}
	a := vNewAuth(toks...)
	_, none := a.request("", true)
	vAssert(none != nil && none.StatusCode == 401, "a request without a token is refused")
	conns := map[string]*sync3.Conn{}
	polled := map[string]string{} // whose poller uses which token
	var stored = map[string]bool{}
	for i := 0; i < vPick(4, 5); i++ {
		t := toks[0]
		if i > 0 {
			t = toks[vChoose("token", 3)]
		}
		key := t.user + "|" + t.device
		op := vChoose("op", 5)
		switch op {
		case 0, 1, 2: // a request
			withPos := op == 1
			late := op == 2
			known := stored[t.text]
			if late {
				// the token is invalidated meanwhile, which the poller finds out first
				if t.invalid || polled[key] != t.text {
					vAssume(false)
				}
				a.hs.down = false
				// a poller which has expired is asked for again
				u := t
				a.invalidate(u, true)
				polled[key] = ""
				stored[u.text] = false
				for c := range conns {
					if strings.HasPrefix(c, key) {
						delete(conns, c)
					}
				}
				known = false
				vCover("invalidated")
			}
			conn, herr := a.request("Bearer "+t.text, withPos)
			switch {
			case !known && a.hs.down:
				vAssert(herr != nil && herr.StatusCode == 502, "while the homeserver cannot be reached a new token is not refused as invalid")
				vCover("down")
			case !known && t.invalid:
				vAssert(herr != nil && herr.StatusCode == 401 && herr.ErrCode == "M_UNKNOWN_TOKEN", "a token which the homeserver does not know is refused")
				vCover("unknown")
			case withPos:
				stored[t.text] = true
				if conns[key] == nil {
					vAssert(herr != nil && herr.StatusCode == 400 && herr.ErrCode == "M_UNKNOWN_POS", "a request for a connection which does not exist is told that the session has expired")
					vCover("no connection")
				} else {
					vAssert(conn == conns[key], "a connection is its owner's")
					vCover("same connection")
				}
			default:
				stored[t.text] = true
				if polled[key] == "" && t.invalid {
					vAssert(herr != nil && herr.StatusCode == 401 && herr.ErrCode == "M_UNKNOWN_TOKEN", "a token with which the device cannot be polled for is refused")
					stored[t.text] = false
					vCover("refused by the pollers")
					break
				}
				vAssert(herr == nil, "a request with a valid token is answered")
				if polled[key] == "" {
					polled[key] = t.text
				}
				vAssert(conn.UserID == t.user && conn.DeviceID == t.device, "a request is answered for the token's owner")
				vAssert(a.hs.synced[key], "by then the device has been polled for")
				conns[key] = conn
				vCover("answered")
			}
		case 3:
			if t.invalid {
				vAssume(false)
			}
			now := vChoose("now", 2) == 1
			a.invalidate(t, now)
			if now && polled[key] == t.text {
				polled[key] = ""
				stored[t.text] = false
				delete(conns, key)
				vCover("expired")
			}
		case 4:
			a.hs.down = !a.hs.down
		}
		vSettle()
		n := 0
		for _, tok := range polled {
			if tok != "" {
				n++
			}
		}
		vAssert(a.pm.NumPollers() == n, "every device which has made a request with a valid token is polled for")
	}
	if vChoose("restart", 2) == 0 {
		vCover("done")
		return
	}
	had := map[string]bool{}
	count := map[string]int{}
	for _, t := range toks {
		key := t.user + "|" + t.device
		had[key] = had[key] || a.hs.synced[key]
		if stored[t.text] {
			count[key]++
		}
	}
	a.start()
	a.v2.StartV2Pollers()
	vSettle()
	a.hs.down = false
	n := 0
	for _, t := range toks {
		key := t.user + "|" + t.device
		if !stored[t.text] || count[key] > 1 {
			continue
		}
		since := ""
		if had[key] {
			since = "after " + key
		}
		vAssert(len(a.hs.sinces[key]) > 0 && a.hs.sinces[key][0] == since, "after a restart a device is polled for from where it left off")
		vCover("restarted")
		if !t.invalid {
			n++
		}
		conn, herr := a.request("Bearer "+t.text, false)
		if t.invalid {
			vAssert(herr != nil && herr.StatusCode == 401, "an invalid token is refused after a restart")
			vCover("invalid after restart")
		} else {
			vAssert(herr == nil && conn.UserID == t.user && conn.DeviceID == t.device, "a request is answered for the token's owner after a restart")
			vAssert(a.hs.synced[key], "by then the device has been polled for")
		}
	}
	// devices log in again
	for _, t := range toks {
		key := t.user + "|" + t.device
		if stored[t.text] || t.invalid || count[key] > 1 {
			continue
		}
		if a.hs.synced[key] == false {
			n++
			vCover("logged in after restart")
		}
		conn, herr := a.request("Bearer "+t.text, false)
		vAssert(herr == nil && conn.UserID == t.user && conn.DeviceID == t.device, "a device can log in again after a restart")
		vAssert(a.hs.synced[key], "by then the device has been polled for")
	}
	if count[sA+"|D"] < 2 {
		vAssert(a.pm.NumPollers() == n, "every device is polled for after a restart, and only those")
	}
	vCover("done")
}

func VSysAuth() { vhSysAuth() }

// vhSysAuthRace: requests with the same token at the same time.
func vhSysAuthRace() {
	t := &vAToken{text: "ta", user: sA, device: "D"}
	u := &vAToken{text: "ta2", user: sA, device: "D"}
	a := vNewAuth(t, u)
	if vChoose("stored", 2) == 1 {
		_, herr := a.request("Bearer "+t.text, true)
		vAssert(herr != nil && herr.ErrCode == "M_UNKNOWN_POS", "a request for a connection which does not exist is told that the session has expired")
	}
	t.invalid = vChoose("invalid", 2) == 1
	done := make(chan *sync3.Conn, 2)
	call := func() {
		conn, herr := a.request("Bearer "+t.text, false)
		if t.invalid {
			vAssert(herr != nil && herr.StatusCode == 401 && herr.ErrCode == "M_UNKNOWN_TOKEN", "an invalid token is refused")
			vCover("invalid")
		} else {
			vAssert(herr == nil, "a request with a valid token is answered")
			vAssert(a.hs.synced[t.user+"|"+t.device], "by then the device has been polled for")
			vCover("valid")
		}
		done <- conn
	}
	go call()
	call()
	c1 := <-done
	c2 := <-done
	if !t.invalid {
		vAssert(c1 != nil && c2 != nil && c1.ConnID == c2.ConnID, "both are answered for the device")
	}
	conn, herr := a.request("Bearer "+u.text, false)
	vAssert(herr == nil && conn.UserID == t.user && conn.DeviceID == t.device, "the device can log in again")
	vAssert(a.pm.NumPollers() == 1, "it is polled for")
	vCover("done")
}

func VSysAuthRace() { vhSysAuthRace() }
