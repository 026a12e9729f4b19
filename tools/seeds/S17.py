id='S17'; prop='P13'; pkg='state'; pg=True
edits=[('state/to_device_table.go','''	DO UPDATE SET unack_pos=excluded.unack_pos`, userID, deviceID, pos)''','''	DO UPDATE SET unack_pos=LEAST(syncv3_to_device_ack_pos.unack_pos, excluded.unack_pos)`, userID, deviceID, pos)''')]
needs='a key request which is sent to the client after earlier messages, and cancelled before the client has acknowledged it'
breaks='the client has the request but never gets the cancellation'
demo='''package state
import ("encoding/json";"testing")
func TestDemo(t *testing.T) {
	db, close := connectToDB(t)
	defer close()
	tb := NewToDeviceTable(db)
	req := json.RawMessage(`{"type":"m.room_key_request","sender":"@b:h","content":{"action":"request","request_id":"1","requesting_device_id":"X"}}`)
	can := json.RawMessage(`{"type":"m.room_key_request","sender":"@b:h","content":{"action":"request_cancellation","request_id":"1","requesting_device_id":"X"}}`)
	u, d := "@demo-s17:h", "DEV"
	if err := tb.SetUnackedPosition(u, d, 0); err != nil { t.Fatal(err) }
	if _, err := tb.InsertMessages(u, d, []json.RawMessage{req}); err != nil { t.Fatal(err) }
	msgs, pos, err := tb.Messages(u, d, 0, 10)
	if err != nil || len(msgs) != 1 { t.Fatal(err, len(msgs)) }
	if err := tb.SetUnackedPosition(u, d, pos); err != nil { t.Fatal(err) }
	if _, err := tb.InsertMessages(u, d, []json.RawMessage{can}); err != nil { t.Fatal(err) }
	msgs, _, err = tb.Messages(u, d, pos, 10)
	if err != nil || len(msgs) != 1 { t.Fatal("cancellation lost", err, len(msgs)) }
}
'''
