#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the statements are readable here).
import json
AST="lib-secs2-hsms-go/pkg/ast/"; PH="lib-secs2-hsms-go/pkg/parser/hsms/parser.go"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every complete SECS-II item encodes to exactly its SEMI E5 byte form",
 "A data item without variables encodes as one format byte (six-bit format code followed by the number of length bytes), the shortest big-endian length that holds the payload length (the element count for a list), and then the payload: each number in big-endian at its declared width (two's complement for signed, IEEE-754 for floats), each boolean as 0 or 1, each text character or binary value as one byte, and each list element's own encoding in order. An item that still contains a variable, at any depth, encodes to nothing at all rather than to a partial form.",
 ["inputs"],"Every item kind, every byte width, every number of elements up to the 16,777,215-byte limit, every element value, every nesting of lists.",
 "The tests encode a few dozen literal items of a handful of elements; lengths that need two or three length bytes, and most widths with extreme values, are sampled at best once.",
 [AST+f for f in ("interface.go","list.go","ascii.go","binary.go","boolean.go","int.go","uint.go","float.go")],
 [("getHeaderBytes / getDataByteLength","interface.go"),("ToBytes of each node type","list.go, ascii.go, binary.go, boolean.go, int.go, uint.go, float.go")])

p("C02","Item construction accepts exactly the representable values and keeps them",
 "Building an integer, unsigned, binary, boolean, text, float or list item succeeds exactly when the width is legal, every given value is representable in that width (or is a well-formed unused variable name) and the total payload fits the 16,777,215-byte limit; otherwise construction panics. A constructed item holds exactly the given values in the given order: no value is ever silently wrapped, truncated or replaced.",
 ["inputs"],"Every width, every Go integer, float, boolean or string argument of every accepted type, every number of arguments.",
 "Tests try a few boundary values per width, mostly of one Go type; the product of argument type, width and sign is far larger, and a wrap-around conversion only shows for particular combinations.",
 [AST+f for f in ("int.go","uint.go","binary.go","boolean.go","ascii.go","float.go","list.go","interface.go")],
 [("NewIntNode, NewUintNode, NewBinaryNode, NewBooleanNode, NewASCIINode, NewFloatNode, NewListNode","their files"),("checkRep of each node type","their files")])

p("C03","Data messages are well-formed and encode to the exact HSMS frame",
 "A data message can be created only with stream 0-127, function 0-255, session -1..65535, a known direction, and the wait bit set only on odd functions; it keeps what it was given. A complete message encodes to a four-byte big-endian length equal to ten plus the item length, then session, wait-bit-and-stream, function, two zero bytes and the four system bytes, then the item; a message with an optional wait bit, an unset session or an unfilled variable encodes to nothing.",
 ["inputs"],"Every combination of stream, function, wait bit, direction, session, system bytes and item.",
 "Tests build a few fixed messages; field placement errors that only show for large sessions, high system bytes or bodies above 255 bytes need values they do not use.",
 [AST+"ast.go"],
 [("NewDataMessage, NewHSMSDataMessage, SetSessionIDAndSystemBytes, SetWaitBit, checkRep","ast.go"),("ToBytes","ast.go")])

p("C04","Decoding arbitrary bytes never crashes and accepts only well-formed frames",
 "For any byte string whatsoever, decoding returns either a message or a failure indication and never panics. It succeeds exactly when the string is one complete frame: the four length bytes equal the number of bytes that follow, the header is a known message type (and a data message does not ask for a reply on an even function), and a data message's text is empty or is exactly one well-formed item that ends at the last byte, whose every length matches its element width and lies within the frame, with 7-bit text, finite floating point values and at most 4096 nested lists. The message returned then carries the header fields and the item that the bytes encode.",
 ["inputs"],"Every finite byte string.",
 "Tests decode a few dozen valid strings and a handful of broken ones; the space of truncations, oversized lengths, unknown formats and trailing bytes is unbounded.",
 [PH],[("Parse, parseMessageLength, parseMessage","parser.go"),("parseMessageText, parseInt, parseUint, parseFloat","parser.go")])

p("C05","Encoding then decoding a complete message gives the same message back",
 "If a complete data message whose lists are nested at most 4096 deep and whose frame length fits four bytes (or any control message of a known type) is encoded and the bytes are decoded, decoding succeeds and yields the same stream, function, wait bit, session, system bytes and the same item: same kind, width, length, and element values at every depth; a four-byte float comes back as the nearest number of that format. Encoding the result again gives the same bytes.",
 ["inputs"],"Every complete message: all header fields, all item kinds, widths, values, lengths and nestings.",
 "Round trips in the tests use short items; lengths of 256 and more, where the length field needs several bytes, are not decoded in any test.",
 [PH]+[AST+f for f in ("ast.go","list.go","ascii.go","binary.go","boolean.go","int.go","uint.go","float.go","interface.go")],
 [("ToBytes of messages and items","ast package"),("Parse and parseMessageText","parser.go")])

p("C06","Control messages carry the exact header, and responses echo their request",
 "Each control-message constructor yields a 14-byte frame with length ten, the right session (or 0xFFFF for linktest requests and responses), status or reason byte, type byte and system bytes, and a message built from raw header bytes reproduces those ten bytes. A select, deselect, or linktest response, or a reject, built from a received message carries that message's system bytes, and all but the linktest response its session; a response built from the wrong kind of message is refused by a panic.",
 ["inputs"],"Every session, system bytes, status, type byte and reason code; every received header.",
 "Tests construct one or two fixed headers per type and never a reject built from a received message.",
 [AST+"hsms.go"],
 [("NewHSMSMessage* constructors and NewHSMSControlMessage","hsms.go"),("ControlMessage.Type, ToBytes, SystemBytes, SessionID, Status","hsms.go")])

p("C07","Items and messages are immutable values",
 "No operation on an existing item or message (filling variables, setting the session and system bytes or the wait bit, encoding, decoding further frames, reading) changes what that item or message is or encodes to. A message keeps its system bytes when the buffer it was built or decoded from is overwritten later.",
 ["inputs","histories"],"Every item and message, every sequence of library calls and every later content of the caller's or the receive buffer.",
 "Tests check results of single calls and never re-inspect the original after the source buffer has been reused, which the transport does for every frame.",
 [AST+f for f in ("ast.go","list.go","ascii.go","binary.go","boolean.go","int.go","uint.go","float.go","hsms.go")]+[PH,"codec/secs2.go"],
 [("defensive copies in constructors and setters","ast.go, hsms.go"),("FillVariables building new nodes","node files")])

p("C08","Filling variables replaces exactly the named variables",
 "Filling a set of name/value pairs into an item or message replaces each variable that is named and representable by its value (or renames it, when the value is a name), leaves every other variable with its name and place, and leaves every non-variable value, the width, the element order and the message header as they were. Names that do not occur have no effect. Repetition counts for '...' are covered only by bounded runs.",
 ["inputs"],"Every item with variables, every assignment of values to names (without '...' counts).",
 "Tests fill one or two variables of small items; which positions are kept when only some names are supplied depends on map contents and order.",
 [AST+f for f in ("ascii.go","binary.go","boolean.go","int.go","uint.go","float.go","list.go","ast.go")],
 [("FillVariables","node files"),("getVariableNames","interface.go")])

p("C09","HSMS stream framing delivers exactly the bytes of each frame",
 "Receiving consumes exactly one frame from the connection, four length bytes and as many bytes as they announce, and returns the message that exactly those bytes encode; a frame announcing fewer than ten bytes, or a connection that ends early, is an error and never a message. Sending writes exactly the given frame and reports a failed write as an error.",
 ["inputs","fault_sequences"],"Every byte stream, every splitting into reads, every point at which the connection fails.",
 "Tests exchange a few short frames over a loopback connection that never fails or truncates.",
 ["codec/secs2.go"],[("Receive and Send","codec/secs2.go")])

p("C10","Length-prefixed codecs never exceed their configured packet limits",
 "A length-prefixed codec never sends a packet larger than its send limit or one whose length does not fit its header, and never accepts one larger than its receive limit; what is accepted is exactly as many bytes as the header announces. Both limits (up to what memory can hold) are enforced as errors, never as a crash, for every header width and byte order.",
 ["inputs","configurations"],"Every header width, byte order, limit, payload length and header value received from the peer.",
 "Tests use one header width and payloads far below the limit.",
 ["codec/fixlen.go","codec/byte.go"],[("FixLen Send / Receive","codec/fixlen.go")])

p("C11","A session closes exactly once and runs each close callback once",
 "However many goroutines close a session, exactly one close takes effect and every other one reports that the session is already closed; after that the session stays closed and sending is refused with an error. Every callback whose registration was complete, and whose removal had not begun, when the close takes effect runs exactly once, in registration order.",
 ["schedules","histories"],"Every interleaving of closers and senders, every sequence of adding and removing callbacks.",
 "Tests close sessions from one goroutine at a time.",
 ["session.go"],[("Close, AddCloseCallback, RemoveCloseCallback, invokeCloseCallbacks, Send","session.go")])

p("C12","Connection state follows the HSMS state model",
 "The connection state is always one of not-connected, connected-not-selected or connected-selected, starts not-connected, and changes only along the HSMS transitions: connect, select, deselect, timeout, disconnect. An event not allowed in the current state leaves the state unchanged.",
 ["histories"],"Every sequence of connection events from the initial state.",
 "Tests drive the usual connect-select-disconnect order only.",
 ["hsms/connectionStateMachine.go"],[("NewConnectionStateMachine event table","connectionStateMachine.go")])

p("C13","Every incoming control request is answered as the HSMS state model requires",
 "A select, deselect or linktest request from the peer is answered by exactly one response of the matching kind that carries the request's session and system bytes and, for select and deselect, the status that the connection state calls for; a separate request ends the selected state without a response. A control response completes the waiting transaction with the same system bytes and never triggers another message.",
 ["inputs","histories"],"Every control header (session, status, system bytes) in every connection state.",
 "Tests perform one select and one linktest with fixed headers.",
 ["hsms/protocol.go","hsms/connection.go",AST+"hsms.go"],[("handleHsmsRequests and send*Rsp helpers","protocol.go, connection.go")])

p("C14","A transaction completes only with the reply that carries its system bytes",
 "A caller that sends a primary message and waits receives only a message whose system bytes equal those of its own request, or an error; concurrent transactions never receive each other's replies and each outstanding transaction has system bytes no other one has. When the wait ends, in any way, the transaction leaves no trace that could capture a later message.",
 ["inputs","schedules","histories"],"Every set of concurrent transactions, every arrival order, every incoming message.",
 "Tests run one transaction at a time, or a few in lock step.",
 ["hsms/protocol.go","hsms/SecsTimeout.go"],[("SendAndWait, queue registry, getNextSystemCounter, message routing","protocol.go")])

p("C15","Handlers are chosen by stream and function, and replies mirror the request",
 "An incoming primary data message is given to the handler registered for its stream and function, and to no other. A reply sent for it carries the request's session and system bytes and is sent only if the request asked for one.",
 ["inputs","histories"],"Every registered handler table, every incoming message, every handler result.",
 "Tests register a few handlers and always set the wait bit.",
 ["hsms/protocol.go"],[("handleDataMessage, invokeHandler, SendResponse, RegisterHandler","protocol.go")])

p("C16","Stream 9 error messages name the offending message and its exact fault",
 "A data message no handler accepts, and a transaction whose reply does not come in time, is reported with the matching stream 9 function: unknown stream (S9F3), unknown function (S9F5), transaction timeout (S9F9). Every such report is a single primary message without wait bit whose text is the offending message's ten header bytes, byte for byte; stream 9 messages never provoke another stream 9 message.",
 ["inputs"],"Every incoming message header, every registered handler table, every error callback outcome.",
 "Tests check a handful of headers with small sessions and system bytes.",
 ["hsms/error_messages.go","hsms/protocol_s9_helpers.go","hsms/protocol.go"],[("BuildS9F*, sendS9*, handleDataMessage checks","error_messages.go, protocol_s9_helpers.go, protocol.go")])

p("C17","Reconnect delays grow but stay within their configured bounds",
 "For any sane configuration (an initial delay of at least one second and not above the maximum) the delay before each retry of a failed connection attempt is never negative, never shorter than the initial delay, never longer than the maximum, and never shorter than the one before it until a successful connection resets it to the initial delay.",
 ["configurations","histories"],"Every configuration accepted by the library and every number of failed attempts.",
 "Tests step a default configuration a few times.",
 ["hsms/reconnection.go","hsms/reconnection_config.go"],[("nextDelay/reset","reconnection.go")])

p("C18","The control state changes only as the GEM control model allows",
 "The control state is always one of equipment-offline, attempt-online, host-offline, online-local or online-remote, and every operation moves it only along the GEM control state transitions; a request for which the model has no transition in the current state leaves the state and the online mode unchanged (the state machine refuses it; S1F17 is answered 2 when already online and 1 when it is not possible). Concurrent operations behave as if executed one after another, and a state-change notification reports exactly the states before and after.",
 ["histories","schedules","configurations"],"Every sequence and interleaving of operator switches and host requests from every initial configuration.",
 "Tests walk a few transitions from the default configuration in one goroutine.",
 ["gem/control_state_machine.go"],[("the switch, remote online and remote offline operations","control_state_machine.go")])

p("C19","Communication is established only by an accepted exchange",
 "The communication state becomes communicating only when this side answers an establish-communications request with acceptance, or receives a reply that accepts its own request (COMMACK 0); a denial, a malformed reply or no reply never makes it communicating. Each acknowledgement reports acceptance exactly when the state was entered. Disabling the handler always leaves it not communicating, whatever is received meanwhile, and so does a connection found lost, or lost and replaced by another, when it is next looked at.",
 ["histories","inputs"],"Every sequence of enable, disable, connect, disconnect and establish requests and replies.",
 "Tests perform one successful handshake.",
 ["gem/communication_state.go","gem/handler.go"],[("communication state and S1F13/S1F14 handling","communication_state.go, handler.go")])

p("C20","Alarm reports and alarm queries match the alarm table",
 "An alarm report (S5F1) is sent exactly when the application raises or clears a known alarm whose reporting is enabled while the host is connected, and carries the alarm's code with the set bit as the new state, its identifier and its text. An enable or disable request (S5F3) changes the reporting of exactly the addressed alarms, to enabled when its code is 128 and to disabled otherwise, and is refused for unknown alarms and malformed requests, which change nothing. S5F5 lists every alarm, and S5F7 every enabled one, exactly once with its current code (128 when set, plus 64 when enabled), identifier and text.",
 ["inputs","histories","schedules"],"Every registry of alarms, every sequence of set, clear, enable, disable and query.",
 "Tests register one or two alarms with small identifiers.",
 ["gem/alarm.go","gem/alarm_handlers.go","gem/handler.go"],[("alarm manager and S5 handlers","alarm.go, alarm_handlers.go")])

p("C21","Report definition, linking and enabling are all-or-nothing",
 "A define-report, link-report or enable-event request either is acknowledged as accepted and takes full effect, or is answered with a non-zero code naming the reason and changes nothing. After it, the report, link and enable tables are exactly what the accepted request describes: a report is defined with exactly the listed variables, which all exist, and is not redefined while it exists; an event is linked to exactly the listed reports, which all exist; and only linked events are enabled or disabled. Deleting reports removes them from every link.",
 ["inputs","histories"],"Every configuration of events, variables and reports, every request content.",
 "Tests send one valid request of each kind and a few invalid ones that fail at the first element.",
 ["gem/collection_event_handlers.go"],[("S2F33, S2F35, S2F37 handlers and their state","collection_event_handlers.go")])

p("C22","Event reports carry exactly the linked reports with current values",
 "An event report is sent only for a known and enabled event, and contains a data identifier, the event's identifier, and for each linked report, in link order, the report identifier and the current value of each of its variables in definition order. A request for an event's report is answered with the same content, or with an empty report list when the event is unknown, not linked or not enabled.",
 ["inputs","histories"],"Every configuration of events, reports and variables.",
 "Tests send one event with one report of one variable.",
 ["gem/collection_event_handlers.go","gem/collection_events.go"],[("buildCollectionEventPayload / TriggerCollectionEvent","collection_event_handlers.go")])

p("C23","Status queries answer each requested identifier in order",
 "A status variable request is answered with one value per requested identifier, in request order, or with all variables in registration order when none is named; an unknown or malformed identifier, or a variable whose value cannot be obtained, is answered by an empty list in its place. The name-list query gives identifier, name and unit likewise, with empty name and unit for an unknown identifier.",
 ["inputs","histories"],"Every registry, every list of requested identifiers of any accepted item type, known or not, repeated or not.",
 "Tests ask for one or two known identifiers.",
 ["gem/status_equipment_handlers.go","gem/status_variables.go","gem/status_equipment_messages.go"],[("S1F3/S1F11 handlers","status_equipment_handlers.go")])

p("C24","Equipment constant requests apply entirely or not at all",
 "A new-constants request is acknowledged as accepted only if every named constant exists and its validator and updater, where there are any, agree to the value; then each constant without a value provider holds the value requested for it (the last one, if it is named several times). A refused request changes no constant, apart from what the application's updaters did themselves. A constants query answers one value per requested identifier in order, or all in registration order when none is named; an unknown identifier is answered by an empty list in its place.",
 ["inputs","histories"],"Every registry of constants with any validators, every request.",
 "Tests update one constant at a time.",
 ["gem/status_equipment_handlers.go","gem/equipment_constants.go"],[("S2F13/S2F15/S2F29 handlers","status_equipment_handlers.go")])

p("C25","Remote commands are answered with the outcome the application reported",
 "A host command is parsed into its name and its well-formed parameters in order and handed to the application handler exactly once; the answer carries the acknowledge code and the parameter acknowledges the handler returned (an acknowledge code outside the SEMI range becomes 1; a handler that reports an error is never answered with acceptance; a result whose parameter names are no identifiers is answered with code 1). Without a handler, or for a malformed command, the answer is a refusal and no handler is called. No command content crashes the equipment.",
 ["inputs"],"Every command body and every handler result.",
 "Tests send one well-formed command with a result of zero.",
 ["gem/remote_command.go"],[("S2F41 handling","remote_command.go")])

p("C26","Process programs are stored and returned unaltered",
 "An uploaded process program is stored under its identifier with exactly the bytes received (as ASCII or binary) exactly when the answer acknowledges acceptance, and a later request for that identifier returns exactly the stored content; a request for an unknown identifier is answered as not found, and no other operation changes what is stored. Handlers the application installs replace this behaviour and are outside the statement. No request content crashes the equipment.",
 ["inputs","histories"],"Every identifier type, every content, every sequence of uploads and requests.",
 "Tests store and fetch one program with a text identifier.",
 ["gem/process_program_handlers.go","gem/process_programs.go","gem/id_utils.go"],[("S7F3/S7F5 handling","process_program_handlers.go")])

p("C27","Identifiers mean the same in every integer or text encoding",
 "An identifier received as an integer item of any width denotes the registered identifier with that number (its first value), and one received as text denotes the registered one with that text; different numbers or texts never denote the same entry, and the application registers the same entry with any Go integer type of that value. An item that is no non-negative integer and no text denotes nothing and is refused. No identifier item crashes the equipment, whatever its kind, width, value or length.",
 ["inputs"],"Every item kind, width, sign, value and length used as an identifier.",
 "Tests use small identifiers of one width.",
 ["gem/id_utils.go"],[("newIDInfo and item-to-identifier conversion","id_utils.go")])

p("C28","The message queue delivers each message once, in order, without losing wake-ups",
 "Every message put into a queue is taken out exactly once and in the order in which it was put. A waiting consumer receives a message that is put before its deadline.",
 ["schedules"],"Every interleaving of producers and a consumer.",
 "A lost wake-up needs a particular interleaving between the emptiness test and the wait; tests rarely hit it, and when they do it looks like a flaky timeout.",
 ["utils/queue.go"],[("Put, Get","queue.go")])

p("C29","SML text and messages convert to each other without loss",
 "Printing a message as SML and parsing the text gives back an equal message, and parsing any text gives either messages or reported errors, never a crash.",
 ["inputs"],"Every message, every text.",
 "Tests parse a fixed set of example texts.",
 ["lib-secs2-hsms-go/pkg/parser/sml/parser.go","lib-secs2-hsms-go/pkg/parser/sml/lexer.go"]+[AST+f for f in ("ascii.go","list.go")],[("lexer and parser","sml")])

p("C30","Clock requests use the configured format and set exactly what was sent",
 "A time request is answered with the time the application's time provider gives, as YYYYMMDDhhmmss followed by centiseconds 00. A time-set request whose text is fourteen or sixteen digits forming a calendar time (with optional centiseconds) hands exactly that time, once, to the application's handler and is acknowledged with the code the handler returns; any other text is refused and does not reach the application, and without a handler every request is refused.",
 ["inputs"],"Every time value, every text sent as time.",
 "Tests use one instant and one invalid text.",
 ["gem/clock.go","gem/clock_handlers.go"],[("format, parse, S2F17/S2F31 handlers","clock.go, clock_handlers.go")])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
