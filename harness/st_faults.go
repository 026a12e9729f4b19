package state

import (
	"context"
	"encoding/json"
	"errors"

	"github.com/jmoiron/sqlx"
	"github.com/matrix-org/sliding-sync/sqlutil"
)

// vView is what a reader sees: the room state, the timeline, invites, account data, to-device messages.
type vView struct {
	state, timeline, inbox []string
	invite, accs           int
	ackpos                 int
}

func vLook(s *Storage) vView {
	var v vView
	top, err := s.LatestEventNID()
	vMust(err, "latest position")
	st, err := s.RoomStateAfterEventPosition(context.Background(), []string{vRoom}, top, nil)
	vMust(err, "state")
	for _, e := range st[vRoom] {
		v.state = append(v.state, vIDOf(e.JSON))
	}
	tl, err := s.LatestEventsInRooms(vA, []string{vRoom}, top, 10)
	vMust(err, "timeline")
	if tl[vRoom] != nil {
		for _, e := range tl[vRoom].Timeline {
			v.timeline = append(v.timeline, vIDOf(e))
		}
	}
	inv, err := s.InvitesTable.SelectInviteState(vB, vRoom)
	vMust(err, "invites")
	v.invite = len(inv)
	acc, err := s.AccountDatas(vA)
	vMust(err, "account data")
	v.accs = len(acc)
	msgs, _, err := s.ToDeviceTable.Messages(vA, "D", 0, 10)
	vMust(err, "to-device")
	for _, m := range msgs {
		v.inbox = append(v.inbox, vIDOf(m))
	}
	return v
}

func vSameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vSameView(a, b vView) bool {
	return vSameList(a.state, b.state) && vSameList(a.timeline, b.timeline) && vSameList(a.inbox, b.inbox) && a.invite == b.invite && a.accs == b.accs
}

func vKeyReq(id, action string) json.RawMessage {
	return vObj(vKV("event_id", id), vKV("type", "m.room_key_request"), vKV("sender", vB), vKV("content",
		vObj(vKV("action", action), vKV("requesting_device_id", "D"), vKV("request_id", "r"))))
}

// vOps are the writes that consist of several statements.
func vOp(s *Storage, op int) error {
	switch op {
	case 0: // state, membership of an invited user, message, state again
		_, err := s.Accumulate(vA, vRoom, vTimeline(
			vState("$n1", "m.room.name", "", vObj(vKV("name", "x"))),
			vMember("$jb", vB, "join"),
			vMsg("$m1", "m.room.message", vA, vObj()),
			vState("$n2", "m.room.name", "", vObj(vKV("name", "y"))),
			vState("$sc", "m.space.child", "!x:h", vObj(vKV("via", vArr("h"))))))
		return err
	case 1:
		_, err := s.Initialise(vRoom, []json.RawMessage{vMember("$jb", vB, "join"), vState("$n1", "m.room.name", "", vObj()),
			vState("$sc", "m.space.child", "!x:h", vObj(vKV("via", vArr("h"))))})
		return err
	case 2:
		_, err := s.ToDeviceTable.InsertMessages(vA, "D", []json.RawMessage{vKeyReq("q2", "request_cancellation"), vMsg("q3", "x", vB, vObj())})
		return err
	case 3:
		_, err := s.InsertAccountData(vA, AccountDataGlobalRoom, []json.RawMessage{vObj(vKV("type", "a"), vKV("content", vObj())), vObj(vKV("type", "b"), vKV("content", vObj()))})
		return err
	}
	// a new room
	_, err := s.Initialise("!new:h", []json.RawMessage{vCreate("$cc"), vMember("$ca", vA, "join")})
	return err
}

// vhAtomic: any one statement of a write fails, including begin and commit.
func vhAtomic() {
	s := NewStorageWithDB(vDB(), false)
	_, err := s.Initialise(vRoom, []json.RawMessage{vCreate("$c"), vMember("$ja", vA, "join")})
	vMust(err, "initialise")
	_, err = s.Accumulate(vA, vRoom, vTimeline(vMember("$ja2", vA, "join"), vMsg("$m0", "m.room.message", vA, vObj())))
	vMust(err, "accumulate")
	vMust(s.InvitesTable.InsertInvite(vB, vRoom, []json.RawMessage{vObj()}), "invite")
	_, err = s.ToDeviceTable.InsertMessages(vA, "D", []json.RawMessage{vKeyReq("q1", "request")})
	vMust(err, "to-device")
	op := vChoose("op", 5)
	before := vLook(s)
	vSQLFaults(1)
	err = vOp(s, op)
	vSQLFaults(0)
	if err != nil {
		vCover("failed")
		vAssert(vSameView(before, vLook(s)), "a write which failed left nothing behind")
		vMust(vOp(s, op), "the write succeeds when it is repeated")
	}
	// what the write is for is there, completely
	v := vLook(s)
	switch op {
	case 0:
		vAssert(vSameList(v.timeline, []string{"$ja2", "$m0", "$n1", "$jb", "$m1", "$n2", "$sc"}), "the timeline is complete")
		vAssert(len(v.state) == 5 && v.invite == 0, "the state is complete")
	case 1:
		vAssert(len(v.state) == 5 && v.invite == 0, "the state is complete")
	case 2:
		vAssert(vSameList(v.inbox, []string{"q3"}), "the inbox is complete")
	case 3:
		vAssert(v.accs == 2, "the account data is complete")
	case 4:
		top, _ := s.LatestEventNID()
		st, err := s.RoomStateAfterEventPosition(context.Background(), []string{"!new:h"}, top, nil)
		vMust(err, "state")
		vAssert(len(st["!new:h"]) == 2, "the new room is complete")
	}
	vCover("done")
}

// vhWithTransaction: the block of a transaction writes, then fails, panics or succeeds.
func vhWithTransaction() {
	db := vDB()
	_, err := db.Exec(`CREATE TABLE verif_t(a BIGINT NOT NULL)`)
	vMust(err, "create")
	how := vChoose("how", 4)
	fail := errors.New("no")
	vSQLFaults(vChoose("faults", 2))
	ran := 0
	err = sqlutil.WithTransaction(db, func(txn *sqlx.Tx) error {
		if _, err := txn.Exec(`INSERT INTO verif_t(a) VALUES($1)`, 1); err != nil {
			return err
		}
		ran++
		switch how {
		case 1:
			return fail
		case 2:
			panic("ouch")
		case 3:
			txn.Exec(`INSERT INTO verif_t(a) VALUES($1)`, nil) // the error goes unnoticed
		}
		if _, err := txn.Exec(`INSERT INTO verif_t(a) VALUES($1)`, 2); err != nil {
			return err
		}
		ran++
		return nil
	})
	vSQLFaults(0)
	var n int
	vMust(db.Get(&n, `SELECT COUNT(*) FROM verif_t`), "count")
	if err != nil {
		vAssert(n == 0, "a failed transaction leaves nothing behind")
	} else {
		vAssert(n == 2 && ran == 2, "a transaction which reports success is complete")
		vCover("committed")
	}
	if how == 1 || how == 2 || how == 3 {
		vAssert(err != nil, "a block which failed or panicked is reported")
	}
	if how == 1 && ran == 1 {
		vAssert(errors.Is(err, fail), "the error of the block is reported")
	}
	// the connection is usable again
	vMust(sqlutil.WithTransaction(db, func(txn *sqlx.Tx) error {
		_, err := txn.Exec(`INSERT INTO verif_t(a) VALUES($1)`, 3)
		return err
	}), "another transaction")
	vMust(db.Get(&n, `SELECT COUNT(*) FROM verif_t WHERE a = 3`), "count")
	vAssert(n == 1, "another transaction is committed")
	vCover("done")
}
