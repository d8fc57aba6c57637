#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step.
BUILT lists the properties that have a registered check."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "lib-secs2-hsms-go/pkg/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))

prop("P01", "Items and messages survive encoding and decoding",
 "Every SECS-II item tree the library can build (all formats, any nesting, any legal size) inside any data message, and every HSMS control message, encodes to exactly the bytes SEMI E5/E37 prescribe. Decoding those bytes, or the same value written with a longer legal length field, gives back the same header fields and item values and re-encodes to the canonical bytes.",
 ["inputs"], "all item trees, header field values and length encodings",
 "The tests encode and decode a few dozen short hand-written items; sizes past one length byte, extreme values and arbitrary nesting are not sampled.",
 [L+"ast/*.go", L+"parser/hsms/parser.go"],
 [("ToBytes / getHeaderBytes", L+"ast/interface.go, *.go"), ("Parse", L+"parser/hsms/parser.go")],
 ["bytes returned by ToBytes", "message returned by Parse", "values read through the accessors"],
 "runtime oracle: independent SECS-II codec compared on seeded item trees and a ladder of boundary sizes",
 "Differential monitor against an independently written codec; values and sizes are sampled around every format boundary, not enumerated.")

prop("P02", "The message decoder accepts exactly well-formed frames, within bounds",
 "Given any byte sequence, the HSMS decoder either reports failure or returns the one message those bytes denote: it never panics, never accepts truncated, over-long, badly formatted or trailing-garbage text, and never rejects a well-formed frame. Its memory use and its time stay proportional to the input it was given, whatever lengths or nesting the bytes announce.",
 ["inputs"], "all byte strings",
 "Tests feed a handful of malformed frames; hostile lengths, deep nesting and every truncation point are not reachable by examples.",
 [L+"parser/hsms/parser.go"], [("Parse", L+"parser/hsms/parser.go")],
 ["verdict and value of Parse", "bytes allocated during Parse"],
 "runtime oracle: mutation fuzzing judged by a reference decoder, with allocation monitoring",
 "Accept/reject verdict and value compared with a reference decoder on mutated, truncated and hostile frames; allocation measured per call.")

prop("P03", "The stream codec delivers the message sequence whatever the segmentation",
 "A byte stream carrying a sequence of HSMS messages yields exactly those messages in order however the transport splits or joins the bytes, with each delivered message independent of later traffic, and ends with an error - never a partial, merged or invented message - if the stream stops or turns undecodable within a message. A length field that announces a huge message does not make the receiver reserve memory for bytes that never arrive, and the intercharacter timeout fires on a stall inside a message but never on an idle line between messages.",
 ["inputs", "schedules", "fault_sequences"], "all message sequences, segmentations, truncation points and stalls",
 "The tests push whole messages through an in-memory buffer; segmentation, truncation at each offset and stalls are never exercised.",
 ["codec/secs2.go", "codec/bufio.go"], [("secsIICodec.Receive/Send", "codec/secs2.go"), ("bufioStream, intercharReader", "codec/bufio.go")],
 ["messages and errors returned by Receive", "bytes written by Send", "memory reserved"],
 "runtime oracle: recorded message sequence compared with the sent one under random segmentation, truncation and stalls",
 "Exactly-once, in-order and content oracles over seeded segmentations including single-byte and every truncation offset.")

prop("P04", "The fixed-length, JSON and byte codecs preserve packets and refuse bad ones",
 "Through the fixed-length-header codec (1, 2, 4 or 8 byte heads, either byte order) over a JSON or byte codec, alone or with buffering, every packet sent within the configured limits is received once, in order and unchanged, whatever the segmentation. A packet over the send or receive limit, a truncated stream, or a body that is not the JSON it should be is reported as an error, and never delivered in part or turned into a panic; values of registered types arrive as those types.",
 ["inputs", "configurations"], "all packet sequences, size limits, header widths, byte orders and segmentations",
 "Each codec is tested with one message type and default limits.",
 ["codec/fixlen.go", "codec/json.go", "codec/byte.go", "codec/bufio.go"], [("fixlenCodec", "codec/fixlen.go"), ("jsonCodec", "codec/json.go")],
 ["values and errors returned by Send and Receive"],
 "runtime oracle: packet log compared with the sent log over all head widths, limits and segmentations",
 "All head widths and byte orders, limits at and around each boundary, seeded packets and segmentations.")

prop("P05", "Concurrent senders never interleave, lose or duplicate messages",
 "When any number of goroutines send on one session, synchronous or asynchronous, each message accepted by a send that reported success while the session stays up appears on the wire exactly once and as one contiguous unit, and the messages of one sender appear in the order it sent them. A send either succeeds, or reports that the session is closed or its queue is full - it never blocks for ever and never panics, also when the session closes or the transport fails during the send. Concurrent receives on one session each get whole messages, every message once.",
 ["schedules", "fault_sequences"], "all interleavings of senders with each other, the writer and a close",
 "The session test sends from one goroutine over loopback; interleavings with close and a slow peer are not covered.",
 ["session.go"], [("Session.Send, sendLoop, sendMutex", "session.go")],
 ["bytes read by the peer", "results of Send"],
 "runtime monitor: wire-log conservation/FIFO checker under concurrent stress, slow peers and races with close, race detector on",
 "Offline checker over the peer's byte log; schedules come from stress and injected delays.")

prop("P06", "A session closes once and runs its close callbacks exactly once",
 "Whatever mix of concurrent closes, receive errors and callback (de)registrations happens, a session is closed exactly once and its transport with it, exactly one close call reports success, and every later send or receive fails. Each close callback registered before the close and not removed runs exactly once, a removed one never runs, callbacks may themselves use the session, and none of this deadlocks.",
 ["schedules", "histories"], "all interleavings of close, registration, removal, send and receive",
 "One sequential callback test exists; concurrent close and re-entrant callbacks are untested.",
 ["session.go"], [("Session.Close, invokeCloseCallbacks, AddCloseCallback, RemoveCloseCallback", "session.go")],
 ["number of callback runs", "results of Close/Send/Receive"],
 "runtime monitor: exactly-once counters over stressed close/registration histories, race detector on",
 "Counts callback executions per registration over seeded concurrent histories.")

prop("P07", "Managers, channels and servers track exactly the live sessions",
 "A manager finds a session by its ID from its creation until it closes, and no longer once the close has completed; a channel holds exactly the last live session put under each key, and a session leaves it when it closes, is removed or is replaced, without an old session's end ever evicting its successor. Disposing a manager or stopping a server closes every session it holds and every one created later, closing a channel empties it, and no interleaving of these operations deadlocks, also when a close callback uses the channel or the session. A server goes on serving new connections after one for which no codec could be made and after a temporary accept failure.",
 ["schedules", "histories"], "all histories of create, put, get, remove, close, dispose, accept and stop",
 "The existing tests cover one server echo; manager/channel bookkeeping under concurrency is not tested at all.",
 ["manager.go", "channel.go", "server.go", "api.go"], [("Manager.putSession/delSession/Dispose", "manager.go"), ("Channel.Put/Remove/Close", "channel.go"), ("Server.Serve/Stop", "server.go")],
 ["lookup results", "Len/Fetch contents", "closed state of sessions"],
 "runtime monitor: sequential model comparison plus quiescent-state checks after concurrent stress, race detector on",
 "Model-based oracle on sequential histories; invariants at quiescence on concurrent ones.")

prop("P08", "Item factories hold every legal value and refuse every other",
 "An item built from Go values (numbers of any Go integer or float type, booleans, binary literals, text) contains exactly those values (numbers given to a float format are rounded to its precision), and building panics with a description when a value cannot be represented in the item's format, a size limit is exceeded or a variable name is malformed or repeated - no value is silently wrapped, truncated or replaced. Items and messages never change once built: encoding, filling variables or setting message fields returns new values and leaves the original as it was.",
 ["inputs"], "all Go argument types and values for every item format",
 "Tests list a few overflow examples per type.",
 [L+"ast/*.go"], [("NewIntNode, NewUintNode, NewFloatNode, NewBinaryNode, NewASCIINode, NewListNode and their checkRep", L+"ast")],
 ["panic or returned item", "Values(), Size(), ToBytes()"],
 "runtime oracle: range model for every Go type x item format over boundary and random values",
 "Boundary values of each Go type crossed with each format, plus seeded random values.")

prop("P09", "Filling a message template gives exactly the message it describes",
 "Filling variables replaces exactly the named variables with the given values, keeps every other part and every unnamed variable in place and order, and fails only when a value is not acceptable for its place; filling variables in several steps gives the same result as filling them at once. Filling an ellipsis with n repeats the items before it n more times with the documented index suffixes on repeated variables, nested ellipses included, and a message has an encoding exactly when nothing is left to fill.",
 ["inputs"], "all templates, partitions of the assignment and repetition counts",
 "Tests show a dozen templates; nesting, partial fills and orderings are combinatorial.",
 [L+"ast/list.go", L+"ast/*.go"], [("ListNode.FillVariables/fillEllipsis", L+"ast/list.go"), ("FillVariables", L+"ast/*.go")],
 ["String(), Variables() and ToBytes() of the filled message"],
 "runtime oracle: independent template expander compared on generated templates and fill orders",
 "Differential monitor against an independent expander over seeded nested templates.")

prop("P10", "Printed SML parses back to the same message",
 "The text form of any data message parses, without errors, to a message with the same header and the same item (same encoding once filled; same variables and ellipses otherwise), and several messages printed one after another parse to the same sequence (message and variable names being ones the grammar can read as names, not its keywords). Comments, blank space, letter case of keywords and the different notations for a number do not change what is parsed.",
 ["inputs"], "all messages and layouts",
 "Parser tests use fixed snippets; strings with quotes, backslashes and control characters and arbitrary layouts are not generated.",
 [L+"ast/*.go", L+"parser/sml/*.go"], [("String methods", L+"ast"), ("Parse", L+"parser/sml/parser.go"), ("lexer", L+"parser/sml/lexer.go")],
 ["messages, errors and warnings returned by Parse"],
 "runtime oracle: print/parse round trip and metamorphic layout changes on generated messages",
 "Seeded messages of all formats with templates, metamorphic re-layouts.")

prop("P11", "The SML parser survives and correctly refuses any text",
 "For any input text the SML parser returns: it never panics, hangs, exhausts memory or writes to the process's output. It returns messages only when it reports no error, every error names a position inside the input, and a text whose values do not fit their item type or declared size, or that breaks the grammar, is reported rather than parsed to some other value.",
 ["inputs"], "all texts",
 "Tests cover about forty malformed snippets.",
 [L+"parser/sml/*.go"], [("Parse, parseDataItem", L+"parser/sml/parser.go"), ("lexer state functions", L+"parser/sml/lexer.go")],
 ["return values of Parse", "process output"],
 "runtime oracle: mutation fuzzing of SML text, with crash, hang, output and value-range monitors",
 "Seeded mutations, token soup, deep nesting, and known-bad values with a required error.")

prop("P12", "Every reply reaches exactly the request it answers",
 "Under any number of concurrent requests and any order, duplication or unrelated traffic from the peer, a request returns the reply that carries its own system bytes, unchanged, and never a reply meant for another request or a primary the peer started with the same system bytes. The system bytes of simultaneously open transactions differ, and a late, duplicated or unknown reply never completes another transaction.",
 ["schedules", "histories"], "all interleavings of requests, replies and unrelated traffic",
 "Tests run one request at a time against a well-behaved peer.",
 ["hsms/protocol.go", "utils/queue.go"], [("SendAndWait, createQueue/fetchQueue/removeQueue", "hsms/protocol.go"), ("handleDataMessage", "hsms/protocol.go")],
 ["values returned by SendAndWait", "wire log at the peer"],
 "runtime monitor: request/reply matching checker over wire and call logs with an adversarial peer, race detector on",
 "Offline checker over call and wire logs; the peer reorders, duplicates, delays and collides system bytes.")

prop("P13", "An unanswered request times out once, with S9F9, and only then",
 "A request that gets no reply within T3 fails with the timeout error no earlier than T3, and exactly one S9F9 carrying the request's ten header bytes is sent for it; an answered, refused or fire-and-forget message causes neither. When the connection ends while requests are open, none of them returns a reply it did not get, every one of them returns, and the endpoint stays usable.",
 ["schedules", "fault_sequences"], "all mixes of answered, late and unanswered requests and connection losses",
 "One timeout is tested in isolation.",
 ["hsms/protocol.go", "hsms/protocol_s9_helpers.go", "hsms/error_messages.go"], [("SendAndWait", "hsms/protocol.go"), ("sendS9F9TransactionTimeout", "hsms/protocol_s9_helpers.go")],
 ["results of SendAndWait", "S9 messages seen by the peer"],
 "runtime monitor: per-transaction accounting of timeouts and S9F9 messages over concurrent mixes",
 "Counts and contents of S9F9 per transaction; only lower time bounds are asserted.")

prop("P14", "Each primary is handled once, in order, and answered only as asked",
 "While selected, every data message from the peer that answers no open transaction is passed exactly once and in arrival order to the handler registered for it, else to the default handler, and a handler's reply goes out once with the primary's system bytes if and only if the primary asked for a reply. A primary nobody handles is answered by S9F3 for an unknown stream or S9F5 for an unknown function of a known one, a stream-9 message is never answered, and received S9 messages are reported to the S9 callback exactly once.",
 ["inputs", "schedules", "histories"], "all sequences of data messages and handler registrations",
 "A few stream/function pairs are tested one by one.",
 ["hsms/protocol.go", "hsms/protocol_s9_helpers.go"], [("handleDataMessage, invokeHandler, lookupHandler", "hsms/protocol.go"), ("sendS9ErrorForUnrecognized", "hsms/protocol_s9_helpers.go")],
 ["handler invocations", "wire log at the peer"],
 "runtime monitor: handler-call log checked against the wire log for every stream/function",
 "Full 128x256 stream/function sweep plus seeded sequences; exact expected wire log.")

prop("P15", "Select, deselect, separate and linktest follow HSMS",
 "For every sequence of control messages from the peer, the endpoint answers each request exactly once with a response of the right type, session ID, system bytes and status, ignores unsolicited responses, and its reported state is the one the HSMS state machine prescribes. Data messages flow in both directions exactly while selected, and deselect, separate or a connection loss end that immediately, in the passive and in the active role.",
 ["histories", "configurations"], "all sequences of control messages, in both roles",
 "The tests check single messages against the state machine object, not sequences over a connection.",
 ["hsms/protocol.go", "hsms/connection.go", "hsms/connectionStateMachine.go", L+"ast/hsms.go"],
 [("handleHsmsRequests", "hsms/protocol.go"), ("ConnectionStateMachine", "hsms/connectionStateMachine.go"), ("control message constructors", L+"ast/hsms.go")],
 ["control messages on the wire", "CurrentState()", "results of send calls"],
 "runtime monitor: HSMS reference state machine run in lockstep over seeded control sequences",
 "Lockstep model comparison over seeded and exhaustive short control sequences in both roles.")

prop("P16", "Connection timers fire when due and only then",
 "A connected but unselected endpoint drops the connection after T7 and a selected one never does for that reason; an active endpoint whose select request stays unanswered drops the connection, by T7 at the latest, and a select response after T6 selects nothing; linktest requests go out once per interval and stop with the connection; a peer that stalls inside a message beyond T8 is dropped while an idle line never is. No timer acts before its time, or on a connection other than the one it was started for.",
 ["schedules", "histories"], "all orders of timer expiries and messages, over successive connections",
 "Timers are tested singly if at all; their interaction with reconnects is not.",
 ["hsms/protocol.go", "hsms/connection.go", "codec/bufio.go"], [("startT7Timer, startLinktestTimer", "hsms/protocol.go"), ("sendSelectReq", "hsms/connection.go")],
 ["closing and traffic seen by the peer with timestamps"],
 "runtime monitor: lower time bounds and eventual firing checked on the peer's timestamped log",
 "Asserts lower bounds exactly and upper bounds only with generous watchdogs.")

prop("P17", "The endpoint reconnects as configured, and never when told not to",
 "After any loss of connection an enabled endpoint with automatic reconnection comes back and is fully usable (select, data in both directions) as soon as the peer is reachable, however often and at whatever moment connections break, with at most one live connection and with the configured separation and back-off between active attempts respected. With automatic reconnection off, after the configured number of failed attempts, or once disabled, it makes no further attempt.",
 ["fault_sequences", "schedules"], "all sequences of connection losses, refusals and re-enables",
 "One reconnect is tested; losses at arbitrary moments are not.",
 ["hsms/protocol.go", "hsms/reconnection.go", "hsms/reconnection_config.go"], [("connectLoop, activeConnect, passiveConnect", "hsms/protocol.go"), ("calculateBackoffDelay", "hsms/reconnection.go")],
 ["connections accepted by the peer", "Connected(), CurrentState()"],
 "runtime monitor: connection history checker under injected connection faults",
 "Faults injected at random points of the conversation in both roles.")

prop("P18", "No peer can crash or wedge the endpoint",
 "Whatever bytes a peer sends, in whatever state, the process does not crash and other connections and API calls stay live; undecodable traffic ends that connection only, and a later well-behaved connection is served normally. Panics do not escape to the process for any decodable message of any stream and function, including to the GEM handlers.",
 ["inputs", "fault_sequences"], "all byte streams and message sequences a peer may send",
 "Tests talk to a cooperative peer.",
 ["hsms/*.go", "codec/*.go", "gem/*.go", L+"parser/hsms/parser.go"], [("OnConnectionEstablishedAndStartReceiver", "hsms/protocol.go"), ("message parsing in the handlers", "gem/*.go")],
 ["process liveness", "behaviour of the next connection"],
 "runtime monitor: hostile-peer fuzzing of live endpoints with crash, hang and recovery oracles",
 "Seeded byte-level and item-level fuzzing of every GEM stream/function on live endpoints, followed by a conformance probe.")

prop("P19", "Disable stops the endpoint completely and Enable brings it back",
 "Disabling returns promptly whatever the endpoint is doing, after which the connection is closed, the listening port is released, nothing more is sent, pending and later requests fail, and no goroutine of the endpoint is left running. Enabling and disabling any number of times in any order and from any goroutine is safe, and after a final enable the endpoint works as if new.",
 ["schedules", "histories"], "all interleavings of enable, disable, traffic and connection events",
 "Tests enable once and disable at the end.",
 ["hsms/protocol.go", "gem/handler.go"], [("Enable, Disable, connectLoop", "hsms/protocol.go"), ("GemHandler.Enable/Disable", "gem/handler.go")],
 ["goroutines alive", "port bindability", "wire log"],
 "runtime monitor: resource-leak and liveness checks over enable/disable histories, race detector on",
 "Goroutine, port and traffic checks after quiescence over seeded histories.")

prop("P22", "Communication is established exactly when both sides agree",
 "The communicating state is reported exactly while a selected connection exists on which an S1F13/S1F14 exchange with COMMACK 0, started by either side, has completed; a refusal, a lost reply or an exchange from an earlier connection never establishes it, and it is lost with the selected connection or on disable. An unanswered or refused attempt is repeated (by the host not before the configured wait), S1F13 is always answered with a well-formed S1F14, and waiters for communication are released when it is established and only then.",
 ["histories", "fault_sequences"], "all interleavings of handshakes, refusals, timeouts and connection losses, for host and equipment",
 "The tests run the sunny-day handshake.",
 ["gem/handler.go", "gem/communication_state.go"], [("initiateHandshake, setCommunicating, onS1F13, onS1F14", "gem/handler.go"), ("stateMachine", "gem/communication_state.go")],
 ["State()", "WaitForCommunicating()", "S1F13/S1F14 on the wire"],
 "runtime monitor: state trace checked against the wire log under scripted and random handshake faults",
 "Peer scripts refusals, silence, stale replies and disconnects; state compared with the model at barriers.")

prop("P23", "The control state follows the GEM control model",
 "For every sequence of operator switches, S1F15/S1F17 requests, attempt-online outcomes and communication losses, the equipment's control state is the one the E30 model prescribes, replies carry the acknowledge code for the state they found, and an operation the model does not allow changes nothing and reports it. Each change of state is reported once to the transition callback with its true previous and next state, also under concurrent requests.",
 ["histories", "schedules", "configurations"], "all operation sequences from every initial state and mode",
 "Tests walk a few transitions of the state machine object.",
 ["gem/control_state_machine.go", "gem/handler.go"], [("ControlStateMachine", "gem/control_state_machine.go"), ("transitionControl, onS1F15, onS1F17, initiateAttemptOnline", "gem/handler.go")],
 ["ControlState()", "ControlStateChanged events", "S1F16/S1F18 codes"],
 "runtime monitor: E30 control-model lockstep over seeded operation sequences, and a chain check of concurrent transitions",
 "Lockstep with an independent model; concurrent histories must form a chain of legal transitions.")

prop("P24", "Status and constant queries report exactly the registered items, in order",
 "S1F3, S1F11, S2F13 and S2F29 (and the host calls that send them) return for each requested identifier, in request order and with repeats kept, that item's current value or description, an explicit empty entry for an unknown identifier or a failing value source, and every registered item for an empty request. Identifiers of every integer size and text form are matched by value, and the host side returns what the equipment sent.",
 ["inputs", "histories"], "all registries, request lists and identifier encodings",
 "Tests query one or two known identifiers.",
 ["gem/status_equipment_handlers.go", "gem/status_equipment_messages.go", "gem/status_equipment_client.go", "gem/id_utils.go"],
 [("resolveStatusValues, resolveStatusInfo, resolveEquipmentConstantValues, resolveEquipmentConstantInfo", "gem/status_equipment_handlers.go"), ("newIDInfo, newIDInfoFromNode", "gem/id_utils.go")],
 ["replies on the wire", "results of the host calls"],
 "runtime oracle: registry model compared with replies for generated registries and request lists",
 "Seeded registries and requests, identifiers in every encoding, raw peer and library host.")

prop("P25", "Equipment constants change all together or not at all",
 "An S2F15 (or a host update call) is applied completely and acknowledged 0, or refused with the documented code - unknown constant, malformed entry, value rejected by a validator or updater - leaving every constant as it was. Later queries show exactly the accepted values, also those set locally, and the updater of a constant sees each accepted change exactly once and in order.",
 ["inputs", "schedules", "histories"], "all update lists, validators and concurrent queries",
 "One accepted and one rejected update are tested.",
 ["gem/equipment_constants.go", "gem/status_equipment_handlers.go"], [("applyEquipmentConstantUpdates", "gem/status_equipment_handlers.go"), ("EquipmentConstant.validate/store", "gem/equipment_constants.go")],
 ["S2F16 codes", "S2F14 values", "updater calls"],
 "runtime oracle: constant-store model compared after every update, with rejected lists mixed in",
 "Seeded histories with validators that fail at every list position.")

prop("P26", "Report, link and enable definitions change exactly as acknowledged",
 "S2F33, S2F35 and S2F37 are applied completely and acknowledged 0, or refused with the standard's code for a fault they contain, changing nothing; empty lists and empty entries delete or address everything they should. Deleting or redefining a report never leaves an event referring to a missing report, and S6F15 always shows exactly the definitions acknowledged so far.",
 ["inputs", "histories"], "all histories of definitions, links, enables and deletions",
 "A single define-link-enable path is tested.",
 ["gem/collection_event_handlers.go", "gem/collection_events.go"], [("handleReportDefinitions, handleEventReportLinks, setCollectionEventState", "gem/collection_event_handlers.go")],
 ["S2F34/36/38 codes", "S6F16 contents"],
 "runtime oracle: definition-store model run in lockstep over seeded request histories",
 "Lockstep model of reports, links and enables; state observed through S6F15 after every step.")

prop("P27", "A triggered event sends one complete and consistent report",
 "Triggering an enabled, known event while communicating sends exactly one S6F11 holding exactly its linked reports in link order, each with its variables' values in definition order; a disabled, unlinked or unknown event sends nothing. Under concurrent triggers and redefinitions every event report matches one definition set that was in force, and the host side delivers each received report exactly once with the same content.",
 ["inputs", "schedules", "histories"], "all definition states, trigger orders and concurrent redefinitions",
 "One trigger with one report is tested.",
 ["gem/collection_event_handlers.go"], [("TriggerCollectionEvent, buildCollectionEventPayload, resolveVIDValue, onS6F11", "gem/collection_event_handlers.go")],
 ["S6F11 messages on the wire", "EventReportReceived events"],
 "runtime monitor: S6F11 log matched with triggers and with the definition model, also under concurrent redefinition",
 "Exactly-once and content oracles over seeded triggers; snapshot consistency under concurrency.")

prop("P28", "Alarms are reported, listed and enabled exactly as set",
 "Raising or clearing an enabled alarm sends exactly one S5F1 with its code, identifier and text, and a disabled or unknown one sends none; S5F3 enables or disables exactly the named alarms and refuses unknown ones without change. S5F5 lists exactly the registered and S5F7 exactly the enabled alarms with their true state, and the host side delivers each well-formed alarm report exactly once with the same content.",
 ["inputs", "histories"], "all alarm sets, identifiers and operation histories",
 "One alarm with a small identifier is tested.",
 ["gem/alarm.go", "gem/alarm_handlers.go", "gem/alarm_client.go"], [("RaiseAlarm, ClearAlarm, buildS5F1", "gem/alarm.go"), ("onS5F3, onS5F5, onS5F7", "gem/alarm_handlers.go")],
 ["S5 messages on the wire", "AlarmReceived events", "results of the host calls"],
 "runtime oracle: alarm-table model in lockstep over seeded histories, raw peer and library host",
 "Lockstep model over seeded operation histories with boundary identifiers.")

prop("P29", "Process programs come back exactly as stored",
 "A process program accepted by S7F3 or registered locally is returned by S7F5 byte for byte under the same identifier until replaced, and one that was refused, or never stored, is reported as not available and changes nothing stored. Upload and request handlers decide exactly the requests they are given, and their codes reach the requester.",
 ["inputs", "histories"], "all identifiers, bodies and upload/request histories",
 "One upload and one download are tested.",
 ["gem/process_program_handlers.go", "gem/process_programs.go", "gem/status_equipment_client.go"], [("onS7F3, onS7F5", "gem/process_program_handlers.go")],
 ["S7F4/S7F6 on the wire", "ListProcessPrograms()"],
 "runtime oracle: store model compared over seeded upload/request histories",
 "Seeded bodies (all 7-bit text, large) and identifiers in every encoding.")

prop("P30", "Remote commands reach the handler once with exact parameters",
 "Each S2F41 is passed exactly once to the command handler with the command and the parameters as sent, in order and with their values, and its result codes and per-parameter codes come back to the requester unchanged; without a handler, or when it fails, the documented refusal is sent. A malformed command is refused without reaching the handler.",
 ["inputs"], "all commands, parameter lists and handler results",
 "One command with one parameter is tested.",
 ["gem/remote_command.go", "gem/handler.go"], [("parseRemoteCommand, buildS2F42, parseRemoteCommandAck", "gem/remote_command.go"), ("onS2F41", "gem/handler.go")],
 ["handler arguments", "S2F42 on the wire", "result of the host call"],
 "runtime oracle: command log and acknowledgements compared for generated commands",
 "Seeded commands and handler results, raw peer and library host.")

prop("P31", "The equipment clock is reported and set exactly",
 "S2F17 returns the time provider's time in the SEMI 16-digit form, and S2F31 passes exactly the instant named by a valid time text to the clock handler once and returns its verdict; any text that is not a valid time is refused without reaching the handler. What one side sends as time is what the other side reads.",
 ["inputs"], "all instants, time texts and handler results",
 "A few fixed times are tested.",
 ["gem/clock.go", "gem/clock_handlers.go", "gem/status_equipment_client.go"], [("GetFormattedTime, ParseSEMITime, HandleTimeSet", "gem/clock.go"), ("onS2F17, onS2F31", "gem/clock_handlers.go")],
 ["S2F18/S2F32 on the wire", "handler arguments"],
 "runtime oracle: independent time formatter/parser compared for generated instants and texts",
 "Seeded instants across the calendar and malformed texts.")

prop("P32", "The library is free of data races in every documented use",
 "No two goroutines access the same memory without synchronisation, one of them writing, when applications use sessions, endpoints and GEM handlers concurrently from any goroutines: sending, requesting, registering handlers and items, reading state, changing logging, triggering events and alarms, enabling and disabling, while traffic flows and connections come and go.",
 ["schedules"], "all interleavings of API calls, timers and traffic",
 "The test suite is not run under the race detector and hardly uses concurrency.",
 ["*.go", "codec/*.go", "hsms/*.go", "gem/*.go", "utils/queue.go", "common/*.go"], [("mutexes and atomics of each type", "all packages")],
 ["race detector reports naming two accesses in the library"],
 "Go race detector over a concurrent stress of the whole public API",
 "Reports only races the detector observes on real executions; both accesses must lie in the library.")

prop("P33", "The reply queue loses nothing and wakes its waiter",
 "Items put into a queue by any number of goroutines are taken out exactly once and in the order they were put, by any number of takers; a taker that waits is woken by an item that arrives within its time limit and never returns empty-handed while an item it could take is there. A taker with nothing to take fails no earlier than its time limit, and leaves nothing behind.",
 ["schedules"], "all interleavings of putters, takers and timeouts",
 "No test covers the queue.",
 ["utils/queue.go"], [("Deque.Put, Deque.Get", "utils/queue.go")],
 ["values and errors returned by Get"],
 "runtime monitor: FIFO/linearizability and lost-wakeup checker over recorded queue histories, race detector on",
 "Recorded histories checked for conservation, order and missed wake-ups.")

prop("P34", "Events call exactly their current callbacks, in order",
 "Firing an event calls every callback registered at that moment exactly once per registration and in registration order with the given data; a removed callback is never called by a later firing, and removing one leaves all others in place. Callbacks may add, remove and fire themselves, and concurrent use neither deadlocks nor loses a registration.",
 ["histories", "schedules"], "all histories of add, remove and fire, nested and concurrent",
 "No test covers the event type.",
 ["common/events.go"], [("Event.AddCallback, RemoveCallback, Fire", "common/events.go")],
 ["callback invocations"],
 "runtime oracle: list model compared over seeded add/remove/fire histories, nested and concurrent",
 "Sequential lockstep model plus invariants for concurrent histories.")

prop("P35", "GEM calls succeed only in their role and only as answered",
 "A GEM operation of the other role, or one that needs communication while there is none, fails and sends nothing, and a host or equipment serves exactly the requests of its role and those the application registered a handler for. A host call whose transaction is aborted, times out, loses its connection or gets an answer of another shape returns an error, never a made-up value or acknowledge code, whatever other calls are open. A correctly answered call returns its own answer.",
 ["inputs", "schedules", "fault_sequences"], "all GEM calls of both roles, communication states, answers and concurrent calls",
 "Tests call each operation in its right role with a cooperative peer; aborted, lost, misshapen and crossing answers and calls of the wrong role are not sampled.",
 ["gem/*.go", "hsms/protocol.go"], [("host calls", "gem/status_equipment_client.go, alarm_client.go, handler.go"), ("role checks, RegisterStreamFunctionHandler, RegisterDefaultStreamHandler", "gem/*.go")],
 ["results of every GEM call", "frames on the wire", "handler and event invocations"],
 "runtime oracle: every GEM call driven in each role and state against a raw peer that answers rightly, wrongly, late, crosswise or not at all",
 "Table of all role-bound calls; answers, faults and concurrent mixes are sampled.")

BUILT = open(os.path.join(ROOT, "tools", "built.list")).read().split()
NORACE = set(re.findall(r'"(P\d+)"', open(os.path.join(ROOT, "harness", "norace.list")).read()))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = len(re.findall(r'[.!?](?:\s|$)', p["statement"]))
        assert n <= 3, (p["id"], n)
        a = {"files": p["files"], "mechanism": [{"name": m, "where": w} for m, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": None}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in BUILT:
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
            "level_note": p["note"] + " Runs the real code" + ("" if p["id"] in NORACE else " under the Go race detector") + "; trusts the harness's reference model and the Go runtime."})
    else:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "hooks": {"guard": "verif", "enable": "go build -tags verif (no hook is needed: all monitors observe through the public API and the wire)", "source_commits": []},
  "notes": "Every check is ./run.sh <property> <tier>: it rebuilds harness/ against /repo's working tree and runs the monitors. See DESIGN.md."},
  open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
