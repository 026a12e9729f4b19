id='S05'; prop='P05'; pkg='sync3'
edits=[('sync3/request.go','''		if bumpEventTypes == nil {''','''		if len(bumpEventTypes) == 0 {''')]
needs='a follow-up request which resets the bump event types of a list with an explicitly empty list'
breaks='the explicitly supplied empty value does not replace the earlier one: it can never be reset'
demo='''package sync3
import "testing"
func TestDemo(t *testing.T) {
	r1, _ := (*Request)(nil).ApplyDelta(&Request{Lists: map[string]RequestList{"a": {BumpEventTypes: []string{"m.room.message"}}}})
	r2, _ := r1.ApplyDelta(&Request{Lists: map[string]RequestList{"a": {BumpEventTypes: []string{}}}})
	if len(r2.Lists["a"].BumpEventTypes) != 0 { t.Fatal("bump_event_types not reset") }
}
'''
