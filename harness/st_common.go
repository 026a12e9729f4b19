package state

import (
	"encoding/json"

	"github.com/jmoiron/sqlx"

	"github.com/matrix-org/sliding-sync/sync2"
)

var _ *sqlx.DB

const (
	vRoom  = "!a:h"
	vRoom2 = "!b:h"
	vA     = "@a:h"
	vB     = "@b:h"
	vC     = "@c:h"
)

func vState(id, typ, sk string, content json.RawMessage) json.RawMessage {
	return vObj(vKV("event_id", id), vKV("type", typ), vKV("state_key", sk), vKV("sender", vA), vKV("origin_server_ts", 1), vKV("content", content))
}

func vMsg(id, typ, sender string, content json.RawMessage) json.RawMessage {
	return vObj(vKV("event_id", id), vKV("type", typ), vKV("sender", sender), vKV("origin_server_ts", 1), vKV("content", content))
}

func vMember(id, user, membership string) json.RawMessage {
	return vState(id, "m.room.member", user, vObj(vKV("membership", membership)))
}

func vCreate(id string) json.RawMessage {
	return vState(id, "m.room.create", "", vObj(vKV("room_version", "10")))
}

func vTimeline(evs ...json.RawMessage) sync2.TimelineResponse {
	return sync2.TimelineResponse{Events: evs}
}

func vMust(err error, what string) {
	vAssert(err == nil, "the operation succeeds: "+what)
}
