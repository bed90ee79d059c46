CLAIMED={
"C30":"Proved for every text, time and configuration of the clock, no bound: ParseSEMITime accepts exactly the 14/16-digit calendar times and returns that time, the S2F31 answer and the single call of the application with that time, the S2F17 text. time.Parse and time.Time.Format carry assumed contracts (which texts are calendar times, the digits written).",
"C18":"Proved for every state, mode and interleaving, no bound: each operation of the state machine as a function of the state at its own lock (monitor invariant: one of the five states), each operator switch, S1F15, S1F17, the attempt to go online and each communication change as one step under the handler's lock, the notification fired (exactly the states before and after), and that no other code touches the state. Mutual exclusion of sync.Mutex is assumed; the application does not drive the exposed machine directly while a handler operation runs.",
"C12":"Proved for all event sequences, no bound: the transition table handed to looplab/fsm is exactly the HSMS one over the real state names, each event method moves accordingly, the callbacks change no state, and every control message causes exactly its transition. The fsm library carries an assumed contract.",
"C13":"Proved for every control message in every state, no bound, over a ghost record of what is sent: kind, session, status, system bytes of the single answer, resulting state, and which transaction a response completes. Interference between goroutines inside one step is not modelled; fsm and session carry assumed contracts.",
"C14":"Proved for every message, state of the transaction table and outcome of the wait, no bound: the reply returned has the system bytes sent, numbers are drawn by one atomic increment each (so two outstanding transactions differ, before 2^32 draws), the transaction's queue is gone on every exit including panics and no other queue is touched, and every received data message goes to exactly the queue of its system bytes or to the handlers. Interference between goroutines inside one step is not modelled (distinctness of atomic draws is assumed); session and fsm carry assumed contracts.",
"C15":"Proved for every handler table, message and handler result, no bound: key injectivity over all stream/function pairs, which handler is called, whether and with what bytes a reply is sent. Handlers are assumed not to touch the connection's own state.",
"C16":"Proved for every message header, handler table and callback, no bound: exact bytes of each report, none for stream 9. S9F1, S9F7 and S9F11 are never sent by the library and are outside the statement.",
"C11":"Proved for every interleaving of the atomic close flag (other goroutines may set it at any step) and every callback list, no bound: one Close wins, its effects happen exactly once, losers report and do nothing, Send on a closed session is refused, and the callbacks run are exactly the list kept under the lock, in order; Add appends and Remove unlinks the first match. Induction facts on linked lists are axioms; one session's list nodes are assumed not shared with another session's; Manager.delSession is trusted. The interleaving of a queued Send with the closing of its channel is exercised by bounded race-detector runs only.",
"C28":"Proved for all inputs and schedules, no bound: Put adds exactly its value at one end under the lock, Get returns with exactly one value taken, the oldest, under the lock, or with an error and nothing taken after having seen the queue empty under the lock at or after its deadline. container/list, the clock and mutual exclusion of sync.RWMutex carry assumed contracts. Prompt wake-up before the deadline is exercised by bounded runs only.",
"C17":"Proved for every sane configuration and every number of failures, no bound: the exact delay, and a ghost-state contract on the retry loop (delay slept before each retry). activeConnect/passiveConnect are assumed not to touch the retry counter; float powers of two carry assumed IEEE facts.",
"C01":"Proved for all items and sizes, no bound: every ToBytes refines the abstract E5 encoding. Assumes the node invariants (proved in C02's constructors), float bit conversion as uninterpreted functions, item trees finite, recursion terminates.",
"C02":"Proved for all argument lists, no bound: every constructor panics exactly on the listed conditions and stores exactly the given values. Floats are uninterpreted; regexp and ParseInt are uninterpreted functions.",
"C03":"Proved for all messages, no bound: constructors, setters and the frame bytes of ToBytes. Relies on ItemNode.ToBytes (C01) and Variables (C02).",
"C06":"Proved for all inputs, no bound: every control-message constructor and accessor, byte by byte.",
"C04":"Proved for all byte strings, no bound: Parse succeeds exactly on the well-formed frames (decoding written as an independent recursive function over the bytes) and returns the fields and the item those bytes encode. Two facts about that function that follow by induction (an item takes at least two bytes; ends are monotone) are axioms. Termination and stack use are not proved.",
"C09":"Proved for all byte streams, no bound, over a ghost model of the connection: io.ReadFull and the connection's Write carry assumed contracts (ReadFull delivers the next bytes of the stream or fails before completing). Parsing is the contract proved in C04.",
"C10":"Proved for all widths, byte orders, limits up to 2^40 and inputs, over ghost state for the connection and the codec's buffers. io.ReadFull, bytes.Buffer, bytes.Reader, binary.ByteOrder and the wrapped codec (assumed to append to its writer) carry assumed contracts.",
"C08":"Proved for all items and all assignments without ... counts, no bound: result of every FillVariables refines the fills relation. The expansion of ... by counts is not specified; it is exercised by bounded runs only (elements before ... repeated up to 5 times).",
"C07":"Proved for all items, messages and calls, no bound: no function of the ast package writes storage reachable from an existing item or message (frame conditions), items and messages own their storage exclusively from construction on (ownership obligations), and every slice handed out is fresh. Storage reached through unsafe or reflection is out of scope (none is used).",
}
CLAIMED.update({
"C23":"Proved for every registry, request and identifier item, no bound: the answer to S1F3 and S1F11 entry by entry, against the registry as it was when its lock was taken and the values the variables gave afterwards. Application values are assumed to be plain items, names and units short ASCII texts.",
"C24":"Proved for every registry, validators, updaters and request, no bound: S2F15 accepted only if all constants exist and all agree, all values then stored, nothing stored otherwise; S2F13 and S2F29 entry by entry. Application functions carry assumed contracts (any result, no effect on the registry).",
"C26":"Proved for every request, content, identifier and upload handler, no bound: what S7F3 stores and acknowledges, what S7F5 answers, with a monitor contract on the store; also the host's S7F3/S7F5 messages and its reading of S7F6. Application handlers carry assumed contracts (any result).",
"C27":"Proved for every value and item, no bound: the key of each application value and of each identifier item, that keys of different numbers, different texts, and a number and a text differ, and which items are refused. Decimal numerals of different numbers being different is an assumed fact about fmt.",
"C20":"Proved for every alarm table, request and interleaving, no bound: each operation's effect on the table at its lock (monitor contract), exactly when S5F1 is handed to the connection and with what content, what S5F3 changes and answers, and that S5F5 and S5F7 list every (enabled) alarm exactly once with its current codes. sort.Slice is assumed to permute; alarm texts are short ASCII.",
})
CLAIMED.update({
"C25":"Proved for every command body and every handler result, no bound: which bodies are commands, the name and each well-formed parameter handed on in order, the single call, and the answer's code and acknowledges. The application's handler carries an assumed contract (any result with names and lists that fit one item). fmt.Sprint is a function of the value (a text is itself).",
})
CLAIMED.update({
"C19":"Proved for every message, outcome of an exchange and interleaving, no bound: only one function makes the state communicating, under its lock and only while the handler is enabled; which of the handshake, the S1F13 and S1F14 handlers, the timers, the monitor's look, Enable, Disable and the constructor use it, and after what reply; what Disable and a lost or replaced connection do. That the monitor's next look happens (liveness) is not proved.",
})
CLAIMED.update({
"C21":"Proved for every table of reports and links, request content and interleaving, no bound: each of the three operations on the tables at its lock (monitor contract: tables well formed, links defined, no aliasing), that a refusal changes nothing, the exact code conditions, the tables after an acceptance, and that each request's entries are what the operation is called with and its code what is answered. Removal of a report from links is stated as membership and relative order. Registrations change no report table.",
})
CLAIMED.update({
"C22":"Proved for every table, variables and interleaving, no bound: the payload of an event as a function of the tables at their locks and of the values read during the call (ghost clock of readings), the S6F11 handed to the connection or none, the S6F16 answer, and that TriggerCollectionEvent starts exactly one report per identifier, in order. Each table is read under its own lock, so the reports are those linked at one moment and the values are read after it. More than 2^24 reports on one event may panic.",
})
CLAIMED.update({"C05":"Proved for every complete data message (items nested at most 4096 deep, frame below 2^32 bytes) and every control message: theorems by induction over the encoding specification (C01) and the decoding specification (C04), and client programs that call the real constructors, ToBytes and Parse and prove what comes back; runs the checks of C01, C02, C03, C04 and C06 as well. Two facts about IEEE bit patterns are assumed."})
NA={
 "C29": "the SML lexer and parser are state functions passed as values over token channels, with number and float formatting from fmt and strconv and text matching from regexp: no contract within the verifier's reach expresses the text they accept or print (see DESIGN.md)",
}
