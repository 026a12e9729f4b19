package handler

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/jmoiron/sqlx"
	"github.com/rs/zerolog"
	"github.com/tidwall/gjson"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/pubsub"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync2/handler2"
	"github.com/matrix-org/sliding-sync/sync3"
)

// The whole proxy between the homeserver's sync responses and the client's: poller side handler,
// storage, notifications (delivered at once and in order), caches, dispatcher, connections.

const (
	sA = "@a:h"
	sB = "@b:h"
	sC = "@c:h"
	s1 = "!1:h"
	s2 = "!2:h"
	s3 = "!3:h"
)

type vPubSub struct {
	fn   map[string]func(p pubsub.Payload)
	hold bool // the client side lags behind: notifications wait
	wait []vNote
}

type vNote struct {
	ch string
	pl pubsub.Payload
}

// release delivers the first n of the notifications which wait; all of them if n < 0.
func (p *vPubSub) release(n int) {
	for len(p.wait) > 0 && n != 0 {
		x := p.wait[0]
		p.wait = p.wait[1:]
		n--
		if f := p.fn[x.ch]; f != nil {
			f(x.pl)
		}
	}
}

func (p *vPubSub) Notify(ch string, pl pubsub.Payload) error {
	if p.hold && ch == pubsub.ChanV2 {
		p.wait = append(p.wait, vNote{ch, pl})
		return nil
	}
	if f := p.fn[ch]; f != nil {
		f(pl)
	}
	return nil
}
func (p *vPubSub) Listen(ch string, fn func(p pubsub.Payload)) error {
	p.fn[ch] = fn
	return nil
}
func (p *vPubSub) Close() error { return nil }

// vHS is the homeserver: it answers each poller with the responses which the harness provides.
type vHS struct {
	asked map[string]chan string
	feed  map[string]chan *sync2.SyncResponse
}

func (hs *vHS) Versions(ctx context.Context) ([]string, error) { return nil, nil }
func (hs *vHS) WhoAmI(ctx context.Context, accessToken string) (string, string, error) {
	return "", "", sync2.HTTP401
}
func (hs *vHS) DoSyncV2(ctx context.Context, accessToken, since string, isFirst bool, toDeviceOnly bool) (*sync2.SyncResponse, int, error) {
	hs.asked[accessToken] <- since
	r := <-hs.feed[accessToken]
	if r == nil {
		return nil, 502, fmt.Errorf("bad gateway")
	}
	return r, 200, nil
}

type vSys struct {
	db    *sqlx.DB
	ps    *vPubSub
	store *state.Storage
	hs    *vHS
	pm    *sync2.PollerMap
	v2    *handler2.Handler
	h     *SyncLiveHandler
	delay time.Duration

	v2store *sync2.Storage
	batch   int
}

// vNewSys starts the poller side on the database.
func vNewSys(db *sqlx.DB) *vSys {
	s := &vSys{db: db, ps: &vPubSub{fn: map[string]func(p pubsub.Payload){}}}
	s.hs = &vHS{asked: map[string]chan string{}, feed: map[string]chan *sync2.SyncResponse{}}
	s.store = state.NewStorageWithDB(db, false)
	s.pm = sync2.NewPollerMap(s.hs, false)
	s.v2store = &sync2.Storage{DevicesTable: sync2.NewDevicesTable(db), DB: db}
	v2, err := handler2.NewHandler(s.pm, s.v2store, s.store, s.ps, s.ps, false, time.Hour)
	vAssert(err == nil, "the poller side starts")
	s.v2 = v2
	s.pm.SetCallbacks(s.v2)
	return s
}

// poller starts polling for a device; the response is that of its first request.
func (s *vSys) poller(user, device string, first *sync2.SyncResponse) {
	tok := user + "|" + device
	s.hs.asked[tok] = make(chan string)
	s.hs.feed[tok] = make(chan *sync2.SyncResponse)
	go s.pm.EnsurePolling(sync2.PollerID{UserID: user, DeviceID: device}, tok, "", false, zerolog.Nop())
	<-s.hs.asked[tok]
	s.respond(user, device, first)
}

// respond answers a device's request; the response has been processed when the device asks again.
func (s *vSys) respond(user, device string, r *sync2.SyncResponse) (since string) {
	tok := user + "|" + device
	if r != nil && r.NextBatch == "" {
		s.batch++
		r.NextBatch = fmt.Sprintf("s%d", s.batch)
	}
	s.hs.feed[tok] <- r
	since = <-s.hs.asked[tok]
	return since
}

func sJoin(room string, state []json.RawMessage, timeline ...json.RawMessage) *sync2.SyncResponse {
	return &sync2.SyncResponse{Rooms: sync2.SyncRoomsResponse{Join: map[string]sync2.SyncV2JoinResponse{room: {State: sync2.EventsResponse{Events: state}, Timeline: sync2.TimelineResponse{Events: timeline}}}}}
}

func sLeave(room string, timeline ...json.RawMessage) *sync2.SyncResponse {
	return &sync2.SyncResponse{Rooms: sync2.SyncRoomsResponse{Leave: map[string]sync2.SyncV2LeaveResponse{room: {Timeline: sync2.TimelineResponse{Events: timeline}}}}}
}

// boot (re)starts the client side.
func (s *vSys) boot() {
	vNewSession(s.db)
	snap, err := s.store.GlobalSnapshot()
	vAssert(err == nil, "snapshot at startup")
	h, err := NewSync3Handler(s.store, nil, nil, "", s.ps, s.ps, false, 100, s.delay)
	vAssert(err == nil, "client side starts")
	vAssert(h.Startup(&snap) == nil, "client side starts")
	vAssert(h.V2Sub.Listen() == nil, "listen")
	s.h = h
}

func sEvent(id, typ, sender string, stateKey *string, ts int, content json.RawMessage) json.RawMessage {
	sk := ""
	if stateKey != nil {
		sk = *stateKey
	}
	return vObj(vKV("event_id", id), vKV("type", typ), vKVIf(stateKey != nil, "state_key", sk), vKV("sender", sender), vKV("origin_server_ts", ts), vKV("content", content))
}
func sStateEv(id, typ, sk, sender string, ts int, content json.RawMessage) json.RawMessage {
	return sEvent(id, typ, sender, &sk, ts, content)
}
func sMsg(id, sender string, ts int) json.RawMessage {
	return sEvent(id, "m.room.message", sender, nil, ts, vObj(vKV("body", "x")))
}
func sMember(id, user, membership string, ts int) json.RawMessage {
	return sStateEv(id, "m.room.member", user, user, ts, vObj(vKV("membership", membership)))
}
func sCreate(id string, ts int) json.RawMessage {
	return sStateEv(id, "m.room.create", "", sA, ts, vObj(vKV("room_version", "10")))
}

// vClient is a client's connection and what the client makes of the responses.
type vClient struct {
	s      *vSys
	user   string
	id     sync3.ConnID
	conn   *sync3.Conn
	pos    int
	list   map[string]map[int]string // list -> index -> room
	n      map[string]int
	ranges map[string]sync3.SliceRanges
	room   map[string]*vCRoom
	seen   map[string]bool // every event the client has been given
}

type vCRoom struct {
	name     string
	avatar   sync3.AvatarChange
	heroes   []internal.Hero
	dm       bool
	timeline []string
	initials int
	joined   int
	invited  int
	notif    int
	high     int
	last     sync3.Room
}

func (s *vSys) connect(user, device string) *vClient {
	sync3.SpamProtectionInterval = 0
	c := &vClient{s: s, user: user, id: sync3.ConnID{UserID: user, DeviceID: device}}
	c.open()
	return c
}

func (c *vClient) open() {
	h := c.s.h
	uc, err := h.userCache(c.user)
	vAssert(err == nil, "user cache loads")
	c.conn = h.ConnMap.CreateConn(c.id, func() {}, func() sync3.ConnHandler {
		return NewConnState(c.user, c.id.DeviceID, uc, h.GlobalCache, h.Extensions, h.Dispatcher, h.setupHistVec, h.histVec, h.maxPendingEventUpdates, h.maxTransactionIDDelay)
	})
	c.pos = 0
	c.list = map[string]map[int]string{}
	c.n = map[string]int{}
	c.ranges = map[string]sync3.SliceRanges{}
	c.room = map[string]*vCRoom{}
	c.seen = map[string]bool{}
}

// sync makes one request and applies the response.
func (c *vClient) sync(req *sync3.Request) *sync3.Response {
	req.SetPos(int64(c.pos))
	req.SetTimeoutMSecs(1)
	res, herr := c.conn.OnIncomingRequest(context.Background(), req, time.Now())
	vAssert(herr == nil, "the request succeeds")
	vAssert(res.PosInt() == int64(c.pos+1), "the position advances")
	c.pos++
	for key, l := range req.Lists {
		if l.Ranges != nil {
			c.ranges[key] = l.Ranges
		}
	}
	for key, l := range res.Lists {
		if c.list[key] == nil {
			c.list[key] = map[int]string{}
		}
		c.n[key] = l.Count
		c.apply(key, l.Ops)
	}
	for id, r := range res.Rooms {
		cr := c.room[id]
		if cr == nil {
			cr = &vCRoom{}
			c.room[id] = cr
		}
		if r.Initial {
			cr.initials++
			cr.timeline = nil
			cr.name = ""
			cr.avatar = ""
			cr.heroes = nil
			cr.joined, cr.invited = 0, 0
			cr.dm = r.IsDM
		}
		for _, ev := range r.Timeline {
			id := gjson.GetBytes(ev, "event_id").Str
			cr.timeline = append(cr.timeline, id)
			c.seen[id] = true
		}
		if r.Name != "" {
			cr.name = r.Name
		}
		if r.AvatarChange != sync3.UnchangedAvatar {
			cr.avatar = r.AvatarChange
		}
		if len(r.Heroes) > 0 {
			cr.heroes = r.Heroes
		}
		if r.JoinedCount != 0 {
			cr.joined = r.JoinedCount
		}
		if r.InvitedCount != nil {
			cr.invited = *r.InvitedCount
		}
		cr.notif, cr.high = int(r.NotificationCount), int(r.HighlightCount)
		cr.last = r
	}
	return res
}

// apply applies the operations of a list as the reference client (client/sync.js) does.
// settle makes requests until there is nothing new.
func (c *vClient) settle(req func() *sync3.Request) {
	for i := 0; i < 8; i++ {
		res := c.sync(req())
		if res.ListOps() == 0 && len(res.Rooms) == 0 {
			return
		}
	}
	vAssert(false, "the client catches up")
}

func (c *vClient) apply(key string, ops []sync3.ResponseOp) {
	gap := -1
	l := c.list[key]
	for _, op := range ops {
		switch o := op.(type) {
		case *sync3.ResponseOpRange:
			lo, hi := int(o.Range[0]), int(o.Range[1])
			switch o.Operation {
			case sync3.OpSync:
				vAssert(len(o.RoomIDs) == hi-lo+1, "a SYNC has a room for every position")
				for i := lo; i <= hi; i++ {
					l[i] = o.RoomIDs[i-lo]
				}
			case sync3.OpInvalidate:
				for i := lo; i <= hi; i++ {
					delete(l, i)
				}
			default:
				vAssert(false, "known operation")
			}
		case *sync3.ResponseOpSingle:
			i := *o.Index
			switch o.Operation {
			case sync3.OpDelete:
				if gap != -1 {
					c.removeEntry(key, gap)
				}
				delete(l, i)
				gap = i
			case sync3.OpInsert:
				if l[i] != "" {
					if gap < 0 {
						c.shiftRight(key, vMax(l)+1, i)
					} else if gap > i {
						c.shiftRight(key, gap, i)
					} else if gap < i {
						c.shiftLeft(key, i, gap)
					}
				}
				gap = -1
				l[i] = o.RoomID
			default:
				vAssert(false, "known operation")
			}
		default:
			vAssert(false, "known operation")
		}
	}
	if gap != -1 {
		c.removeEntry(key, gap)
	}
}

func vMax(l map[int]string) int {
	m := -1
	for i := range l {
		if i > m {
			m = i
		}
	}
	return m
}

// move puts the room at one position at another, if that is one the client tracks.
func (c *vClient) move(key string, to, from int) {
	inside := c.ranges[key] == nil
	for _, r := range c.ranges[key] {
		inside = inside || (int64(to) >= r[0] && int64(to) <= r[1])
	}
	l := c.list[key]
	if inside && l[from] != "" {
		l[to] = l[from]
	} else if inside {
		delete(l, to)
	}
}

func (c *vClient) shiftRight(key string, hi, low int) {
	for i := hi; i > low; i-- {
		c.move(key, i, i-1)
	}
}

func (c *vClient) shiftLeft(key string, hi, low int) {
	for i := low; i < hi; i++ {
		c.move(key, i, i+1)
	}
}

func (c *vClient) removeEntry(key string, i int) {
	m := vMax(c.list[key])
	if m < 0 || i > m {
		return
	}
	c.shiftLeft(key, m, i)
	delete(c.list[key], m)
}

func (c *vClient) sees(key, room string) bool {
	for _, r := range c.list[key] {
		if r == room {
			return true
		}
	}
	return false
}
