package sync2

import (
	"database/sql"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/jmoiron/sqlx"

	"github.com/matrix-org/sliding-sync/sqlutil"
)

// The access tokens and devices which the proxy has stored.

func vTokInit() {
	VHookTokensTableencrypt = func(t *TokensTable, token string) string {
		return hex.EncodeToString(t.key256) + " " + token
	}
	VHookdecrypt = func(s string, key []byte) (string, error) {
		k := hex.EncodeToString(key) + " "
		if !strings.HasPrefix(s, k) {
			return "", fmt.Errorf("cipher: message authentication failed")
		}
		return strings.TrimPrefix(s, k), nil
	}
}

type vTok struct {
	text   string
	dev    PollerID
	stored bool
	seen   int // nanoseconds ago
	lost   bool
}

func VTokens() {
	vClock()
	vTokInit()
	db := vDB()
	st := NewStoreWithDB(db, "secret")
	other := NewStoreWithDB(db, "another secret")
	now := time.Now()
	devs := []PollerID{{UserID: "@a:h", DeviceID: "D"}, {UserID: "@a:h", DeviceID: "E"}, {UserID: "@b:h", DeviceID: "D"}}
	toks := []*vTok{{text: "t0", dev: devs[0]}, {text: "t1", dev: devs[vChoose("owner", 3)]}, {text: "t2", dev: devs[vPick(2, 0)]}}
	if vTier() > 0 {
		toks[2].dev = devs[vChoose("owner", 3)]
	}
	since := map[PollerID]string{}
	known := map[PollerID]bool{}
	day := 24 * time.Hour
	batch := 0
	for i := 0; i < vPick(3, 4); i++ {
		k := 0
		if i > 0 {
			k = vChoose("token", 3)
		}
		t := toks[k]
		op := 0
		if i > 0 {
			op = vChoose("op", 4)
		}
		switch op {
		case 0: // the homeserver has said whose token it is
			if t.stored {
				vAssume(false)
			}
			t.seen = vInt("ago", 0, int(60*day))
			t.lost = vChoose("key", 2) == 1
			use := st
			if t.lost {
				use = other
			}
			err := sqlutil.WithTransaction(db, func(txn *sqlx.Tx) error {
				got, err := use.TokensTable.Insert(txn, t.text, t.dev.UserID, t.dev.DeviceID, now.Add(-time.Duration(t.seen)))
				if err != nil {
					return err
				}
				vAssert(got.UserID == t.dev.UserID && got.DeviceID == t.dev.DeviceID && got.AccessToken == t.text, "a new token is its owner's")
				return use.DevicesTable.InsertDevice(txn, t.dev.UserID, t.dev.DeviceID)
			})
			vAssert(err == nil, "tokens can be stored")
			t.stored = true
			known[t.dev] = true
		case 1: // a request is made with it
			got, err := st.TokensTable.Token(t.text)
			if !t.stored {
				vAssert(err == sql.ErrNoRows, "a token which is not stored is not recognised")
				vAssume(false)
			}
			vAssert(err == nil, "a stored token is recognised")
			vAssert(st.TokensTable.MaybeUpdateLastSeen(got, now) == nil, "the time of the request is stored")
			if t.seen >= int(day) {
				t.seen = 0
			}
			vCover("seen")
		case 2:
			if !t.stored {
				vAssume(false)
			}
			vAssert(st.TokensTable.Delete(hashToken(t.text)) == nil, "a token can be removed")
			t.stored = false
			vCover("deleted")
		case 3:
			batch++
			vAssert(st.DevicesTable.UpdateDeviceSince(t.dev.UserID, t.dev.DeviceID, fmt.Sprintf("s%d", batch)) == nil, "a position can be stored")
			if known[t.dev] {
				since[t.dev] = fmt.Sprintf("s%d", batch)
			}
		}
	}
	// whose is it?
	for _, t := range toks {
		got, err := st.TokensTable.Token(t.text)
		if !t.stored {
			vAssert(err == sql.ErrNoRows, "a removed token is not recognised")
		} else {
			vAssert(err == nil && got.UserID == t.dev.UserID && got.DeviceID == t.dev.DeviceID, "a token belongs to its owner")
			vAssert(got.AccessTokenHash == hashToken(t.text), "hash")
		}
		for _, d := range devs {
			tok, pos, err := st.TokensTable.GetTokenAndSince(d.UserID, d.DeviceID, hashToken(t.text))
			if t.stored && d == t.dev && !t.lost {
				vAssert(err == nil && tok == t.text && pos == since[d], "the pollers use the device's token and position")
				vCover("poll")
			} else {
				vAssert(err != nil, "the pollers use no token for another device, and none which is gone")
			}
		}
	}
	// at startup
	all, err := st.TokensTable.TokenForEachDevice(nil)
	vAssert(err == nil, "the pollers are started")
	n := 0
	for _, d := range devs {
		has := false
		for _, t := range toks {
			has = has || t.stored && t.dev == d
		}
		if has {
			n++
		}
	}
	vAssert(len(all) == n, "there is one poller for each device with a token")
	for _, a := range all {
		ok := false
		for _, t := range toks {
			if !t.stored || t.dev.UserID != a.UserID || t.dev.DeviceID != a.DeviceID {
				continue
			}
			latest := true
			for _, o := range toks {
				if o.stored && o.dev == t.dev && o.seen < t.seen {
					latest = false
				}
			}
			if t.lost {
				ok = ok || latest && a.AccessToken == ""
			} else {
				ok = ok || latest && a.AccessToken == t.text && a.AccessTokenHash == hashToken(t.text)
			}
		}
		vAssert(ok, "a device is polled with its most recently used token")
		vAssert(a.Since == since[PollerID{UserID: a.UserID, DeviceID: a.DeviceID}], "a device is polled from where it left off")
		vCover("startup")
	}
	// which devices are not used any more?
	old, err := st.DevicesTable.FindOldDevices(30 * day)
	vAssert(err == nil, "unused devices are found")
	for _, d := range devs {
		has, unused := false, true
		for _, t := range toks {
			if t.stored && t.dev == d {
				has = true
				if t.seen <= int(30*day) {
					unused = false
				}
			}
		}
		found := false
		for _, o := range old {
			if o.UserID == d.UserID && o.DeviceID == d.DeviceID {
				vAssert(!found, "once")
				found = true
			}
		}
		vAssert(found == (has && unused), "the unused devices are those which have made no request for the period")
		if found {
			vCover("unused")
		}
	}
	vCover("done")
}
