prop('P01', 'Changing list windows sends exactly the newly visible positions',
 'For any previously requested windows and any newly requested windows of a list, the positions are split into newly visible, unchanged and no-longer-visible ones, and these three are exactly the set differences and intersection of the two requests. In particular no requested position is forgotten and no position is announced that was not requested.',
 ['inputs'], 'every pair of old and new window sets (overlapping, nested, adjacent, single-position, unsorted)',
 'The tests list a few dozen range pairs; correctness depends on all endpoint orderings and coincidences.',
 ['sync3/range.go', 'sync3/handler/connstate.go'],
 [('SliceRanges.Delta sweep over range endpoints', 'sync3/range.go')], ['ops in the lists section of the response'])

prop('P02', 'List operations keep the client list equal to the server list',
 'Starting from a client whose windows show the server order, applying the operations the server emits for any single room addition, removal or move leaves the client showing exactly the server order in every requested window. No operation carries a missing room, refers to positions outside the list, or is malformed.',
 ['inputs', 'histories'], 'every list length, every window set, every from/to position and change kind within the bounds',
 'Tests replay selected examples of windows and moves; off-by-one errors at window edges, list ends and multi-window interactions need every position combination.',
 ['sync3/ops.go', 'sync3/lists.go', 'sync3/sort.go', 'sync3/range.go', 'client/sync.js'],
 [('CalculateListOps / moveRoom / ClosestInDirection', 'sync3/ops.go')], ['response.lists.*.ops'])

prop('P03', 'A room passes a filter exactly when every requested criterion holds',
 'A room is listed if and only if it satisfies every filter criterion that the client supplied (DM, encrypted, invite, tombstoned, name, tags, excluded tags, room types, excluded room types, spaces), and it has not been replaced by a successor room which the user has joined. Criteria the client did not supply never exclude a room.',
 ['inputs'], 'every combination of filter criteria and room attributes within the bounds',
 'Tests exercise filters one or two at a time; interactions between criteria (early returns, wrong conjunction) only show in combinations.',
 ['sync3/request.go', 'sync3/lists.go'],
 [('RequestFilters.Include', 'sync3/request.go')], ['response.lists.*.count', 'ops'])

prop('P04', 'Lists hold exactly the matching rooms, once each, in order, at all times',
 'After any sequence of room updates, leaves, re-joins, list creations and filter changes, each list contains exactly the rooms the user has not left and which match its filter, each once and in the requested sort order. Position lookups by room and the announced count always agree with the order itself.',
 ['histories', 'inputs'], 'every update/list-change sequence within the bounds, symbolic timestamps and flags',
 'Tests walk a handful of fixed histories; membership drift needs particular sequences such as leave followed by a filter change.',
 ['sync3/lists.go', 'sync3/sort.go', 'sync3/ops.go'],
 [('InternalRequestLists.SetRoom/AssignList/DeleteList', 'sync3/lists.go'), ('FilteredSortableRooms Add/Remove, SortableRooms index', 'sync3/sort.go')])

prop('P05', 'Request parameters stay in force until the client changes them',
 'After any sequence of requests, every list, room subscription and extension behaves according to the most recently supplied value of each of its parameters: a parameter left out keeps its earlier value, one supplied replaces it. Lists that were deleted are gone, deleting an unknown list creates nothing, and subscribed and unsubscribed rooms are exactly those the requests asked for.',
 ['histories', 'inputs'], 'every sequence of requests within the bounds, every parameter present or absent in each',
 'The number of parameter/absence combinations over several requests is far beyond what table tests list; merging bugs only show in particular combinations.',
 ['sync3/request.go', 'sync3/extensions/extensions.go', 'sync3/extensions/todevice.go'],
 [('Request.ApplyDelta and extension ApplyDelta', 'sync3/request.go')], ['behaviour of follow-up responses'])

prop('P06', 'Overlapping subscriptions to a room are combined as a union',
 'A room covered by several subscriptions (lists and direct subscriptions) is served with the union of what they ask for: the largest timeline limit, every required state entry, heroes and old rooms when any of them asks. Combining never changes what another room or a later response is served with and does not depend on the order in which subscriptions are considered.',
 ['inputs', 'histories'], 'every overlap of subscriptions and rooms, every map iteration order within the bounds',
 'Depends on map iteration order and on slice aliasing between subscriptions, which tests do not control.',
 ['sync3/room.go', 'sync3/handler/rooms_builder.go', 'sync3/request.go'],
 [('RoomSubscription.Combine, RoomsBuilder.BuildSubscriptions', 'sync3/handler/rooms_builder.go')], ['response.rooms'])

prop('P07', 'A room is served exactly the state events its subscription requires',
 'For every required_state specification, including wildcards, the placeholder for the requesting user and lazily loaded members, each room is served exactly its current state events that match it: none missing, none extra, none from another room. Lazily loaded members are exactly the senders of the timeline being sent.',
 ['inputs'], 'every required_state specification, room state and timeline senders within the bounds',
 'Interactions between wildcards, placeholders and lazy loading are combinatorial; tests pick a few.',
 ['sync3/room.go', 'sync3/caches/global.go', 'internal/required_state_map.go'],
 [('RoomSubscription.RequiredStateMap', 'sync3/room.go'), ('RequiredStateMap.Include/QueryStateMap', 'internal/required_state_map.go'), ('GlobalCache.LoadRoomState', 'sync3/caches/global.go')], ['response.rooms.*.required_state'])

prop('P08', 'Retried requests get the same response, and no response is lost',
 'For any history of requests on a connection, with responses lost, requests retried or changed and the processing failing, each request is processed at most once, a retry of an unacknowledged request gets the identical stored response, acknowledged positions cannot be reused, and unknown positions are refused as expired. Concurrent requests on one connection are processed as if one after the other.',
 ['histories', 'schedules', 'fault_sequences'], 'every sequence of client requests, lost responses and failures, and every interleaving of two requests, within the bounds',
 'Tests follow a few fixed retry scripts; buffering errors need particular sequences of losses and retries.',
 ['sync3/conn.go'],
 [('Conn.OnIncomingRequest, isOutstanding, serverResponses', 'sync3/conn.go')], ['pos and body of responses', 'M_UNKNOWN_POS errors'])

prop('P09', 'Open connections are found under their own identity until closed or expired',
 'At any time a device finds exactly the connection most recently created for its user, device and connection name, or none once it was closed, expired, or overflowed. A late expiry of a closed connection never disturbs the one which replaced it, closing or expiring destroys each connection exactly once, and closing one device leaves all others alone.',
 ['histories', 'schedules'], 'every sequence of creations, closings and expirations and every arrival time of asynchronous expiry callbacks within the bounds',
 'The expiry callback runs in its own goroutine; the failing schedules are not reachable deterministically from tests.',
 ['sync3/connmap.go'],
 [('ConnMap create/delete paths, closeConnExpires', 'sync3/connmap.go')], ['M_UNKNOWN_POS, connection teardown'])

prop('P10', 'Room data is delivered live only to users joined to that room',
 'After any sequence of membership changes, reloads and initial states, each new message, typing notification and receipt of a room is delivered to every connected user who is joined to it at that time, once, and to nobody else; the event which makes a user leave still reaches that user. A user no longer registered receives nothing.',
 ['histories'], 'every membership history within the bounds',
 'Leaks depend on particular membership histories (rejoin, kick, replayed or stale joins).',
 ['sync3/dispatcher.go', 'sync3/tracker.go'],
 [('Dispatcher.OnNewEvent / notifyListeners, JoinedRoomsTracker', 'sync3/dispatcher.go')], ['rooms in live responses'])

prop('P11', 'Room state at a position is the fold of the events received up to it',
 'For any sequence of state blocks and timelines received for a room, including repeated and overlapping deliveries, the state of the room after a position consists of exactly the latest accepted state event for each type and state key, each once; message events never count as state, whatever their type. Events received before are not accepted again, a room never starts without its create event, and other rooms are unaffected.',
 ['histories', 'inputs'], 'every sequence of deliveries within the bounds, every position and several state filters',
 'Tests check a few deliveries; wrong folds need particular overlaps, redeliveries, filters and positions.',
 ['state/accumulator.go', 'state/storage.go', 'state/event_table.go', 'state/snapshot_table.go', 'state/rooms_table.go'],
 [('Accumulator.Initialise / Accumulate / calculateNewSnapshot', 'state/accumulator.go'), ('Storage.RoomStateAfterEventPosition', 'state/storage.go')], ['required_state of rooms', 'memberships'])

prop('P12', 'A write which fails leaves nothing behind and can be repeated',
 'When any database statement, transaction begin or commit fails during a multi-statement write (timeline, state block, to-device batch, account data), or the code panics in a transaction, the error is reported and no part of the write is visible. Repeating the write then has its full effect, and a write reported as successful is complete.',
 ['crash_points', 'fault_sequences'], 'every single failing statement of every write within the bounds',
 'Fault injection at each statement is not part of any test; swallowed errors and writes outside the transaction only show then.',
 ['sqlutil/sql.go', 'state/accumulator.go', 'state/to_device_table.go', 'state/account_data.go', 'state/storage.go'],
 [('WithTransaction', 'sqlutil/sql.go'), ('Accumulate / Initialise in one transaction', 'state/accumulator.go')], ['errors returned to the poller', 'database contents'])

prop('P13', 'To-device messages arrive in order and none is lost before it is acknowledged',
 'Each message queued for a device is sent to that device of that user only, in the order received, and again in every response until the device acknowledges it; after that, never. A key request which was never sent is withdrawn together with a later cancellation of exactly that request, and nothing else is ever dropped.',
 ['histories', 'inputs'], 'every interleaving of deliveries, responses, acknowledgements and repeated requests within the bounds',
 'Loss shows only for particular interleavings of batches, acknowledgements and cancellations; losing one message breaks decryption for good.',
 ['sync3/extensions/todevice.go', 'state/to_device_table.go'],
 [('ToDeviceRequest.ProcessInitial', 'sync3/extensions/todevice.go'), ('ToDeviceTable.InsertMessages/Messages/DeleteMessagesUpToAndIncluding', 'state/to_device_table.go')], ['extensions.to_device'])

prop('P14', 'Timelines show the latest visible events in order and without gaps',
 "For any membership history and any deliveries, the timeline served for a room up to a position consists of the most recent events, in order and no more than asked for, of the user's last stay in the room (or the invitation after it), and never reaches back across a point where earlier events are unknown. The pagination token served with it is the closest one at or after its first event, and no other room's events appear.",
 ['histories', 'inputs'], 'every membership history, gap, overlap, end position and limit within the bounds',
 'Visibility errors need particular join/leave/limit combinations; ordering errors depend on the database plan.',
 ['state/storage.go', 'state/event_table.go', 'state/accumulator.go'],
 [('Storage.LatestEventsInRooms, visibleEventNIDsWithData', 'state/storage.go'), ('SelectLatestEventsBetween, SelectClosestPrevBatch', 'state/event_table.go')], ['response.rooms.*.timeline', 'prev_batch'])

prop('P15', 'Device list changes and key counts are never lost on the way to a device',
 'For any interleaving of incoming encryption data, requests and lost responses (after which the client starts a new connection), the last change of each user\'s device list, the last one-time key counts and the last fallback key types received for a device reach its client; what was acknowledged is not sent again. No user is announced whose devices did not change, and other devices\' data is unaffected.',
 ['histories', 'fault_sequences'], 'every interleaving of data, requests and lost responses within the bounds',
 'A lost device list change silently breaks encryption; the failing interleavings of swap, loss and new data are not in any test.',
 ['state/device_data_table.go', 'state/device_list_table.go', 'sync2/device_data_ticker.go', 'sync3/extensions/e2ee.go', 'sync3/handler/handler.go', 'internal/device_data.go'],
 [('DeviceDataTable.Select/Upsert, DeviceListTable buckets', 'state/device_list_table.go'), ('E2EERequest.ProcessInitial/AppendLive', 'sync3/extensions/e2ee.go')], ['extensions.e2ee'])

prop('P16', 'Read receipts reach exactly the users entitled to them, latest first',
 'Of each user, thread and kind a room keeps the last receipt received, and only receipts which changed are announced. A private receipt is never shown to anyone but the user who made it; a public one is announced live to the users joined to its room, and a room sent for the first time comes with the public receipts on the events sent and all of the user\'s own. Where a user has both a threadless and a threaded receipt on an event, the threadless one is shown.',
 ['histories', 'inputs'], 'every sequence of receipt notices within the bounds, for every user of the room',
 'A private receipt which leaks, or a receipt shown in the wrong room or dropped, depends on the combination of kind, thread, room and earlier receipts; tests try a few.',
 ['state/receipt_table.go', 'sync3/extensions/receipts.go', 'sync3/handler/handler.go', 'sync3/dispatcher.go', 'sync3/caches/user.go'],
 [('ReceiptTable.Insert, SelectReceiptsForEvents, SelectReceiptsForUser, PackReceiptsIntoEDU', 'state/receipt_table.go'), ('SyncLiveHandler.OnReceipt', 'sync3/handler/handler.go'), ('ReceiptsRequest.ProcessInitial/AppendLive', 'sync3/extensions/receipts.go')], ['extensions.receipts'],
 'Assumes that one notice of the homeserver carries at most one receipt per user, thread and kind.')

prop('P17', 'A room is shown to a user exactly while they are in it or invited to it',
 'Whatever sequence of joins, leaves, kicks, bans, invites, rejections and rejoins the homeserver reports, and whichever of the polled members it reports them to first, a client which has caught up has the room in its lists exactly if the user is in it or invited to it, new connections and a restarted server agree, and the counts match. Everything sent since the user joined is shown, once and in order; nothing sent while they were away is; invites come with their state, and joined rooms are not shown as invites.',
 ['histories', 'schedules'], 'every sequence of membership changes, delivery order and catch-up point within the bounds, end to end',
 'Membership is kept in four places (events, joined-room tracker, user cache, connection) which tests exercise for a few transitions; particular sequences leave them disagreeing until a restart.',
 ['sync2/poller.go', 'sync2/handler2/handler.go', 'state/accumulator.go', 'state/invites_table.go', 'sync3/caches/user.go', 'sync3/dispatcher.go', 'sync3/tracker.go', 'sync3/lists.go', 'sync3/handler/connstate.go', 'sync3/handler/connstate_live.go'],
 [('poller.parseRoomsResponse', 'sync2/poller.go'), ('UserCache.OnNewEvent/OnInvite/OnLeftRoom', 'sync3/caches/user.go'), ('Dispatcher.OnNewEvent', 'sync3/dispatcher.go'), ('InternalRequestLists.SetRoom', 'sync3/lists.go'), ('ConnState.load, processLiveUpdate', 'sync3/handler/connstate_live.go'), ('Storage.LatestEventsInRooms', 'state/storage.go')], ['lists and rooms of responses'],
 'A client applies the operations of a list one after another, as client/sync.js does. Users act upon an invite only after the proxy has processed it.')

prop('P18', "Lists and timelines a client has caught up with match the server's, gapless",
 'Whatever the interleaving of new events, window and limit changes, subscriptions, waiting requests and lost responses, a client which has caught up holds in each window of a list the rooms at those positions in the order of latest activity, with the right total, and for each room it is entitled to a timeline without gaps, duplicates or reordering that ends with the latest event. A room newly sent comes with at least as many of the latest events as asked for and exist.',
 ['histories', 'schedules'], 'every interleaving of events, requests and lost responses within the bounds, end to end',
 'Each layer is tested for itself; a gap or a wrong position needs a particular interleaving of live updates with window or subscription changes across pollers, caches and connection.',
 ['sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/lists.go', 'sync3/sort.go', 'sync3/room.go', 'sync3/conn.go', 'sync3/caches/user.go', 'sync3/caches/global.go', 'state/storage.go', 'sync2/poller.go'],
 [('ConnState.onIncomingRequest, buildListSubscriptions, getInitialRoomData', 'sync3/handler/connstate.go'), ('connStateLive.processLiveUpdate', 'sync3/handler/connstate_live.go'), ('Conn.OnIncomingRequest', 'sync3/conn.go')], ['lists and rooms of responses'],
 'A client applies the operations of a list one after another, as client/sync.js does.')

prop('P19', 'What a client is told about a room follows the room, live and after restarts',
 'Whatever sequence of name, alias, avatar, membership, display name, direct-chat and unread count changes reaches the proxy, a client which has caught up is told the current name of the room (given, alias, or made from its other members), its avatar, the numbers of joined and invited members, the members it is named after with their current names, whether it is a direct chat, and its unread counts. New connections and a restarted server tell the same.',
 ['histories'], 'every sequence of changes and catch-up points within the bounds, end to end',
 'The summary is kept by three caches, from live events and from the database; tests compare single changes, and the two ways of computing it drift apart for particular sequences.',
 ['sync3/caches/global.go', 'sync3/caches/user.go', 'internal/roomname.go', 'sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/room.go', 'state/storage.go', 'sync2/poller.go'],
 [('GlobalCache.OnNewEvent', 'sync3/caches/global.go'), ('CalculateRoomName, RoomMetadata.DeltaAvatar', 'internal/roomname.go'), ('Storage.MetadataForAllRooms', 'state/storage.go'), ('SetRoom deltas', 'sync3/lists.go')], ['response.rooms.*'],
 'Membership events carry the content they replace, as homeservers send them to the proxy.')

prop('P20', 'Lists show exactly the rooms which match their filter, in the order asked for',
 "Whatever sequence of changes to encryption, tombstones, tags, direct chats, names, spaces and unread counts reaches the proxy, a client which has caught up sees in its list exactly the rooms which match the list's filter, in the order of the sort asked for, each with its own latest events; the total matches. New connections and a restarted server agree.",
 ['histories', 'configurations'], 'every filter and sort order considered, every sequence of changes and catch-up points within the bounds, end to end',
 'Filters depend on data kept by several caches and tables, updated by different events; a stale entry shows only for particular sequences, often only before or only after a restart.',
 ['sync3/request.go', 'sync3/lists.go', 'sync3/sort.go', 'sync3/room.go', 'sync3/caches/user.go', 'sync3/caches/global.go', 'state/accumulator.go', 'state/rooms_table.go', 'state/spaces_table.go', 'sync3/handler/connstate.go', 'sync3/handler/connstate_live.go'],
 [('RequestFilters.Include', 'sync3/request.go'), ('InternalRequestLists.SetRoom', 'sync3/lists.go'), ('UserCache.OnAccountData/OnSpaceUpdate/OnUnreadCounts', 'sync3/caches/user.go'), ('Accumulator.roomInfoDelta', 'state/accumulator.go')], ['lists of responses'],
 'Changes of direct chats are shown from the next event in the room on, as the code documents.')

prop('P21', 'Upgraded rooms give way to their replacement, and old rooms are found again',
 'A room which has been replaced is left out of lists exactly while the user is in the replacement, whatever the order of replacing, joining, leaving and restarting. A client which asks for old rooms gets the rooms before those listed, as far as the user is in them, and whatever rooms claim to come before which, every request is answered.',
 ['histories', 'inputs'], 'every order of upgrades, joins and leaves and every predecessor relation within the bounds, end to end',
 'The relation between rooms is under the control of room creators and arrives in any order; tests use one well-formed chain.',
 ['sync3/lists.go', 'sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/caches/global.go', 'internal/roomname.go', 'state/rooms_table.go'],
 [('InternalRequestLists.SetRoom, Include', 'sync3/lists.go'), ('ConnState.buildRooms (old rooms)', 'sync3/handler/connstate.go')], ['lists and rooms of responses'])

prop('P22', 'The sending device recognises its events; every event arrives once, in order',
 "Whichever poller receives an event first, with or without its transaction ID, and however deliveries overlap, the device which sent an event gets it with its transaction ID if that arrives before the wait for it is over, and no other device does. Every event reaches every client once and in order, and none is held back for longer than the wait.",
 ['histories', 'schedules'], 'every order and batching of deliveries and expiry of the wait within the bounds, end to end',
 'The delay machinery reorders deliveries of several pollers; duplicates, swaps and stuck events need particular overlaps of batches and timers.',
 ['sync3/handler/txn_id_waiter.go', 'sync3/handler/connstate_live.go', 'sync2/handler2/handler.go', 'state/txn_table.go', 'sync3/caches/user.go'],
 [('TxnIDWaiter.Ingest/PublishUpToNID', 'sync3/handler/txn_id_waiter.go'), ('Handler.Accumulate (transaction IDs)', 'sync2/handler2/handler.go'), ('TransactionsTable.Insert/Select', 'state/txn_table.go')], ['timelines of responses'],
 'Clients connected before the event is sent.')

prop('P23', 'The room state a client asks for is complete, current and never outdated',
 'Whatever state a client asks for (kinds, keys, wildcards, its own membership, members on demand), by list or by subscription, and however it changes what it asks for, once caught up it holds the current event of all of it, no outdated or invented state, and where it asked for members on demand, the membership of the sender of every event it was shown. Lost responses, new connections and restarts make no difference.',
 ['histories', 'configurations'], 'every selection considered, every sequence of state changes, requests and lost responses within the bounds, end to end',
 'Which state has to be sent depends on what was sent before, on the timeline and on the request; tests check single responses.',
 ['sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/handler/rooms_builder.go', 'sync3/handler/lazy_member.go', 'internal/required_state_map.go', 'sync3/caches/global.go', 'sync3/room.go', 'state/storage.go'],
 [('ConnState.onIncomingListRequest, getInitialRoomData', 'sync3/handler/connstate.go'), ('RequiredStateMap', 'internal/required_state_map.go'), ('LazyCache', 'sync3/handler/lazy_member.go'), ('GlobalCache.LoadRoomState', 'sync3/caches/global.go')], ['response.rooms.*.required_state', 'response.rooms.*.timeline'])

prop('P24', 'Account data and typing users reach the client, current and only as asked for',
 "Whatever the order in which account data, typing notices and messages arrive, and however rooms move in and out of the client's windows meanwhile, a client which has caught up knows the current account data of the user and of each room in the scope it asked for, and who is typing in these rooms. It is sent nothing about rooms outside that scope, nothing outdated, and where it asked for members on demand, it knows the members who are typing.",
 ['histories', 'configurations'], 'every scope considered, every sequence of changes, window moves and catch-up points within the bounds, end to end',
 'What has to be sent depends on which rooms were visible before and are now, and on what arrived in the same response; tests send one change at a time.',
 ['sync3/extensions/account_data.go', 'sync3/extensions/typing.go', 'sync3/extensions/core.go', 'sync3/extensions/extensions.go', 'sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/caches/user.go', 'sync3/caches/global.go', 'state/accountdata_table.go'],
 [('AccountDataRequest.ProcessInitial/AppendLive', 'sync3/extensions/account_data.go'), ('TypingRequest.ProcessInitial/AppendLive', 'sync3/extensions/typing.go'), ('Core.RoomInScope', 'sync3/extensions/core.go'), ('connStateLive.processLiveUpdate', 'sync3/handler/connstate_live.go')], ['extensions.account_data', 'extensions.typing'])

prop('P25', 'Nothing the homeserver reports is lost or repeated when the database fails',
 "Whichever database statement fails while a response of the homeserver is processed, and whether the process goes on or crashes and restarts, the response is either processed or asked for again: in the end every event, invite, leave, piece of account data, to-device message, key count and device list change in it is stored and shown to clients. If the process goes on, that is exactly once; a process which was ended may store to-device messages again, but never loses one.",
 ['crash_points', 'fault_sequences'], 'every position of the failing statements within the bounds, every kind of response considered, with and without a crash, end to end',
 'An error swallowed at one of several dozen statements, or a duplicate filter which remembers what was not stored, loses data for good; tests run on a database which works.',
 ['sync2/poller.go', 'sync2/handler2/handler.go', 'state/accumulator.go', 'state/storage.go', 'state/event_table.go', 'state/accountdata_table.go', 'state/to_device_table.go', 'state/device_data_table.go', 'state/invites_table.go', 'sqlutil/sql.go', 'internal/errors.go'],
 [('poller.poll, parseRoomsResponse', 'sync2/poller.go'), ('Handler.Accumulate/Initialise/OnAccountData/UpdateUnreadCounts', 'sync2/handler2/handler.go'), ('WithTransaction', 'sqlutil/sql.go'), ('Accumulator.Initialise/Accumulate', 'state/accumulator.go')], ['database contents', 'responses'],
 'Receipts, typing notices and transaction IDs are best effort by design and not included; unread counts are right again when they next come.')

prop('P26', 'Messages of ignored users are not shown; everything else is',
 "Whatever the order of messages, state changes and changes of the list of ignored users, a message sent by a user ignored at that time is never shown, in live updates or in initial timelines; state changes made by ignored users and all messages of other users are shown, once and in order. New connections and a restarted server agree.",
 ['histories'], 'every sequence of messages, state changes and ignoring within the bounds, end to end',
 'Ignoring is applied separately to live updates and to timelines read from the database; tests check one of each.',
 ['sync3/caches/user.go', 'sync3/handler/connstate_live.go', 'sync3/handler/connstate.go', 'sync3/handler/handler.go', 'state/accountdata_table.go'],
 [('UserCache.ShouldIgnore, OnAccountData', 'sync3/caches/user.go'), ('connStateLive.processLiveUpdate', 'sync3/handler/connstate_live.go'), ('ConnState.getInitialRoomData', 'sync3/handler/connstate.go')], ['timelines of responses'])

prop('P27', 'State changes hidden by a gap in the events are made up for',
 "If the homeserver skips events of a room and sends the state they left instead, a client which has caught up knows the room's current name, members, encryption, replacement and, of spaces, their rooms, lists follow suit, and its timeline does not reach across the gap. This holds whether the change comes in the events, in the state, or has been seen by another poller before, and new connections and a restarted server agree.",
 ['histories', 'schedules'], 'every sequence of changes, ways of delivery and catch-up points within the bounds, end to end',
 'State which arrives without events takes a path of its own through storage, caches and connections, which must agree with what events would have done; tests check single cases.',
 ['sync2/poller.go', 'sync2/handler2/handler.go', 'state/accumulator.go', 'state/storage.go', 'sync3/caches/global.go', 'sync3/handler/handler.go', 'sync3/dispatcher.go', 'sync3/tracker.go'],
 [('Accumulator.Initialise', 'state/accumulator.go'), ('Storage.ResetMetadataState, FetchMemberships', 'state/storage.go'), ('SyncLiveHandler.OnInvalidateRoom', 'sync3/handler/handler.go'), ('GlobalCache.OnInvalidateRoom', 'sync3/caches/global.go'), ('JoinedRoomsTracker.ReloadMembershipsForRoom', 'sync3/tracker.go')], ['lists and rooms of responses'])

prop('P28', 'Nothing is lost, repeated or leaked while notifications lag behind',
 "However far the client side lags behind what the pollers have stored, and wherever in between a client connects, sends a request, subscribes or moves its window, a client which has caught up has each room's timeline without gaps or repeats, its lists in order, and the rooms the user is in and no others. At no time is it shown events sent while the user was not in the room.",
 ['schedules', 'histories'], 'every way in which notifications are delayed relative to changes and requests, within the bounds, end to end',
 'Initial data is read from the database, which is ahead of the caches that live updates come from; whether the two overlap, or leave a gap, depends on how far ahead. Tests wait until everything has arrived.',
 ['sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/handler/handler.go', 'sync3/caches/user.go', 'sync3/caches/global.go', 'sync3/tracker.go', 'sync3/dispatcher.go', 'pubsub/v2.go', 'sync2/handler2/handler.go'],
 [('loadPositions', 'sync3/handler/connstate.go'), ('connStateLive.processLiveUpdate', 'sync3/handler/connstate_live.go'), ('joinChecker', 'sync3/tracker.go')], ['lists and rooms of responses'])

prop('P29', 'Lists are in the order of the last event of the kinds which count',
 "If a client says which kinds of events count, its lists are always in the order of the last such event in each room since the user joined, or else of their joining, and rooms come with the time of that event. Other events do not move rooms; of several lists, each goes by its own kinds of events.",
 ['histories', 'configurations'], 'every sequence of events and choice of kinds within the bounds, end to end',
 'The times are kept per list and kind of event, found in the database for initial lists and tracked separately in live ones; tests check single events.',
 ['sync3/lists.go', 'sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/caches/user.go', 'sync3/caches/global.go', 'state/event_table.go', 'state/storage.go'],
 [('InternalRequestLists.SetRoom', 'sync3/lists.go'), ('ConnState.load', 'sync3/handler/connstate.go'), ('LatestEventNIDInRooms, bump types', 'state/storage.go')], ['response.lists.*.ops', 'response.rooms.*.timestamp'],
 'Timestamps of later events are taken to be later; kinds of events are given with the first request.')

prop('P30', 'Whatever a client changes about its lists, it ends up with what it asked for',
 "However a client changes sort orders, filters and windows, adds, removes or adds back lists, and whether it repeats all parameters or only the changed ones, while messages arrive and the user leaves rooms, once caught up each list shows the matching rooms in the order asked for, within its window and nowhere else. Each room shown has been sent with its timeline, without gaps or repeats; lists which were removed are not sent.",
 ['histories', 'inputs'], 'every sequence of changes by the client and in the rooms within the bounds, end to end',
 'Each change of parameters invalidates some positions and rooms and not others, and mixes with live updates in the same response; tests try single changes.',
 ['sync3/request.go', 'sync3/lists.go', 'sync3/filters.go', 'sync3/sort.go', 'sync3/range.go', 'sync3/ops.go', 'sync3/handler/connstate.go', 'sync3/handler/connstate_live.go', 'sync3/handler/rooms_builder.go'],
 [('ConnState.onIncomingListRequest', 'sync3/handler/connstate.go'), ('Request.ApplyDelta', 'sync3/request.go'), ('InternalRequestLists.AssignList/DeleteList', 'sync3/lists.go'), ('CalculateListOps', 'sync3/ops.go')], ['response.lists', 'response.rooms'])

prop('P31', 'Each device is polled once, from where it left off, until its token expires',
 "Whatever the homeserver answers, and however requests for devices coincide, there is one poller for each device; it asks for what follows the last response it has processed completely, repeats it after errors, and stores its position only after processing, and always once to-device messages were in it. Whoever waits for a poller is told once its first response has been processed, or that its token is invalid, and a poller which was ended processes nothing more.",
 ['schedules', 'fault_sequences'], 'every sequence of answers of the homeserver and every schedule of concurrent requests within the bounds',
 'Order of processing and storing, waiting, and termination interleave; tests run single sequences with one device at a time.',
 ['sync2/poller.go', 'sync2/handler2/handler.go'],
 [('poller.Poll/poll', 'sync2/poller.go'), ('PollerMap.EnsurePolling, ExpirePollers', 'sync2/poller.go')], ['requests to the homeserver', 'stored positions'])

prop('P32', "Requests are answered only for their token's owner, once the device is polled",
 "Whatever tokens are used, in whatever order, while tokens are invalidated, the homeserver cannot be reached or the server restarts: a request gets the connection of the owner of its token and no other, and only once that device's first sync is done; invalid tokens are refused, valid ones are not. No request waits forever, devices with valid tokens are polled with their latest one from where they left off after a restart, and unused devices are those without requests for the given period.",
 ['histories', 'schedules', 'inputs'], 'every sequence of requests, invalidations, failures and restarts, and every schedule of concurrent requests, within the bounds',
 'Whether a request is answered depends on what other requests, pollers and the homeserver did before and meanwhile; tests check one request after the other.',
 ['sync3/handler/handler.go', 'sync3/handler/ensure_polling.go', 'sync2/tokens_table.go', 'sync2/devices_table.go', 'sync2/handler2/handler.go', 'sync2/poller.go', 'internal/request.go'],
 [('SyncLiveHandler.setupConnection, identifyUnknownAccessToken', 'sync3/handler/handler.go'), ('EnsurePoller', 'sync3/handler/ensure_polling.go'), ('TokensTable', 'sync2/tokens_table.go'), ('Handler.EnsurePolling, StartV2Pollers, OnExpiredToken', 'sync2/handler2/handler.go')], ['HTTP status and error code', 'requests to the homeserver'],
 'Concurrent requests use the same token; encryption of stored tokens is not part of it.')

prop('P33', 'Redacted content is not shown, and redactions affect nothing else',
 "Once an event has been redacted by an event in the same room, its content is not sent to any client any more: not in timelines of new connections, not as state, not after a restart, and also if both came at once. Redactions change no event of another room and none but the one they name; names and timelines are otherwise complete and in order.",
 ['histories', 'inputs'], 'every sequence of messages, names and redactions, within and across rooms, within the bounds, end to end',
 'A redaction rewrites stored events by the ID its content gives, which anyone may choose; tests redact one message in one room.',
 ['state/event_table.go', 'state/accumulator.go', 'sync2/handler2/handler.go', 'sync3/handler/handler.go', 'sync3/caches/global.go'],
 [('EventTable.Redact', 'state/event_table.go'), ('Accumulator.Accumulate', 'state/accumulator.go')], ['timelines, state and names of responses', 'events table'])

prop('P34', 'The regular clean-up of the database goes unnoticed',
 "Whenever the hourly clean-up runs in between messages, state changes and gaps, connected clients miss nothing, and new connections and a restarted server show each room's current state, all of it and nothing else, and its latest events. It leaves transaction IDs less than an hour old alone, removes older ones and states which are not needed any more, and runs again the next hour.",
 ['histories'], 'every sequence of events in two rooms and clean-ups within the bounds, end to end',
 'The clean-up deletes states by their rank among those of a room, on the assumption that these cannot be needed any more; a test looks at single rooms right afterwards.',
 ['state/storage.go', 'state/snapshot_table.go', 'state/txn_table.go', 'state/accumulator.go'],
 [('Storage.Cleaner, RemoveInaccessibleStateSnapshots', 'state/storage.go'), ('TransactionsTable.Clean', 'state/txn_table.go')], ['state and timelines of responses', 'snapshots and transaction IDs stored'])
