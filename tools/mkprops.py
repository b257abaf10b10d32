#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSONL is unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HOOK = "cfg(fix_rs_sim) re-export of the crate's public items (src/main.rs), because the crate is a binary"
NONET = "network.rs and io/ have no tests at all; the existing tests only parse whole in-memory strings."

p("C01", "Valid inbound messages reach the application exactly once, in order, intact",
  "Every complete, well-formed message a peer sends on a connection for a configured session is handed to the application exactly once, in the order sent on that connection, under the session identity its comp/sub/location ids name, with exactly the header, body, trailer and (nested) repeating-group fields it carried. This holds however the transport splits, merges or delays the bytes, however many connections and sessions are active, however slow the application is, and up to an orderly close by the peer.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all segmentations and delays of each connection's byte stream, all interleavings of connections, tasks and the application thread, all message contents the session's dictionary allows (values are UTF-8 text without the field separator), all application speeds, stalls, and orderly closes",
  NONET + " Segmentation, task interleaving, channel back-pressure and many connections are never exercised.",
  ["src/io/acceptor.rs", "src/network.rs", "src/message.rs", "src/data_dictionary.rs", "src/session/session_id.rs"],
  [("reader task frames the stream up to and including the CheckSum field", "src/io/acceptor.rs: start_socket_listener_task, read_message"),
   ("bounded channel from all readers to one receiver thread", "src/network.rs: start_accepting_connections, start_receiver_task"),
   ("session lookup by reversed ids and dictionary-driven parse", "src/message.rs: get_reverse_session_id, from_str, parse_group")],
  [("buf", "bytes of the frame being assembled, per connection", "src/io/acceptor.rs"),
   ("socket_to_app channel", "frames read but not yet parsed, shared by all connections", "src/network.rs")],
  ["Application::from_app calls"], HOOK)

p("C02", "Torn or damaged messages are never handed to the application",
  "A message that was cut short (the peer closed, reset or vanished partway through it) or whose bytes were altered, lost or inserted in transit, so that its BodyLength or CheckSum no longer agrees with its content, is never handed to the application in any form, whole or partial. Damage to one message never changes the content of another message that is delivered.",
  ["fault_sequences", "crash_points", "inputs", "schedules"],
  "a disconnect, half-close or reset at every byte offset of a message, single-byte alteration, deletion or insertion at every offset, in any segmentation and interleaving",
  NONET + " The tests named for invalid checksum and body length are empty.",
  ["src/io/acceptor.rs", "src/network.rs", "src/message.rs"],
  [("a frame ends only at a complete CheckSum field", "src/io/acceptor.rs: read_message"),
   ("BodyLength/CheckSum verification before delivery", "src/io/acceptor.rs, src/message.rs")],
  None, ["Application::from_app calls"], HOOK)

p("C03", "A misbehaving peer cannot stop or disturb service",
  "Whatever bytes one peer sends - unparsable fields, too few fields, unknown or misaddressed sessions, absurd group counts, non-text bytes, wrong checksums - and however it disconnects, the engine keeps running: every other connection's messages are still delivered and answered, and later valid messages on the same connection after a bad but properly terminated one are delivered too.",
  ["inputs", "fault_sequences", "schedules"],
  "all byte strings a peer may send and all disconnect points, at any moment relative to other peers' traffic",
  NONET + " No test sends malformed input to a running engine or checks that it survives.",
  ["src/network.rs", "src/io/acceptor.rs", "src/message.rs", "src/session/session_and_state.rs"],
  [("one receiver thread serves every session and must survive each message", "src/network.rs: start_receiver_task"),
   ("fallible parsing", "src/message.rs: from_str, parse_header, parse_group, extract_field_value"),
   ("sending to a session without a live connection must not fail the sender", "src/session/session_and_state.rs: sync_send_to_target")],
  None, ["Application::from_app calls", "bytes peers receive", "new connections being served"], HOOK)

p("C04", "Outbound messages arrive whole, in send order, once, without silent gaps",
  "The bytes a connected peer receives are a sequence of whole messages, each byte-for-byte what the application sent to that session, in the order sent by each sending thread, none repeated, none missing in between, even with tiny socket buffers, short writes and peers that stop reading for a while. A connection that misses a message because it fell too far behind receives nothing after it and is closed for writing rather than continuing with a gap, so only its tail may be missing or cut.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of sending threads, writer tasks and socket readiness, all short-write boundaries, peer stalls, resets and reconnects, any backlog",
  NONET + " There is no test that sends anything.",
  ["src/io/acceptor.rs", "src/session/session_and_state.rs", "src/network.rs"],
  [("one broadcast channel per listening port; a writer task per connection writes each message completely", "src/io/acceptor.rs: start_app_listner_task"),
   ("sender hands the serialised message to the session's responder", "src/session/session_and_state.rs: sync_send_to_target")],
  [("broadcast channel", "messages sent but not yet written, per port", "src/io/acceptor.rs")],
  ["bytes each peer receives"], HOOK)

p("C05", "A session's outbound messages reach only that session's connections",
  "A message the application sends to a session is never written to a connection on which that session has not itself identified (sent a valid message), whether the other connection belongs to another session on the same port, to a session on another port, to an unknown peer or to nobody yet.",
  ["schedules", "configurations", "histories", "fault_sequences"],
  "all assignments of sessions to ports, all sets of concurrent connections, reconnects and interleavings",
  NONET + " No test has two sessions connected.",
  ["src/io/acceptor.rs", "src/network.rs", "src/session/session_and_state.rs"],
  [("responder installed per session for its own port", "src/network.rs: start_accepting_connections, set_session_responder"),
   ("writer forwards only messages of sessions identified on the connection", "src/io/acceptor.rs")],
  None, ["bytes each peer receives"], HOOK)

p("C06", "Every request on a live connection gets the application's reply",
  "When the application answers a message from within its callback, the answer reaches the connection the message arrived on within a bounded number of scheduler steps, provided that connection is still open, its peer keeps reading and fewer than 32 messages are queued on its port - including the very first message sent the instant a connection or a port opens, with several sessions and ports, and after any number of earlier disconnects and reconnects.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of accept, reader, writer and application threads at connection start, during traffic and across reconnects; delays and stalls that eventually end",
  NONET + " The race between serving a new connection's first message and registering its writer needs a particular schedule.",
  ["src/io/acceptor.rs", "src/network.rs", "src/session/session_and_state.rs"],
  [("connection's writer subscribed before its reader can deliver", "src/io/acceptor.rs: IoAcceptor::start"),
   ("responders installed before ports open", "src/network.rs: start_accepting_connections")],
  None, ["bytes each peer receives"], HOOK)

p("C07", "Configured ports stay open; transient listen/accept faults heal",
  "From start-up on, every configured port keeps accepting: once a port is open no connection attempt to it is refused or reset by the engine, including bursts of simultaneous attempts and attempts right after another peer connected, and any number of successive connections are served. If binding or accepting fails for a while (address in use, descriptor or buffer exhaustion, aborted connections), the engine neither dies nor starves its other work, and it serves the port within a bounded time after the fault ends.",
  ["fault_sequences", "schedules", "histories"],
  "all timings of connection attempts relative to accepts, all sequences of bind and accept errors, any number of workers down to one",
  NONET + " Nothing binds a port in the tests.",
  ["src/io/acceptor.rs", "src/network.rs"],
  [("one accept loop per configured port", "src/io/acceptor.rs: IoAcceptor::start"),
   ("one acceptor per distinct port", "src/network.rs: start_accepting_connections")],
  None, ["outcome of connection attempts", "messages served on them"], HOOK)

p("C08", "Connections are released after disconnect and the engine idles quietly",
  "After a peer disconnects (orderly or by reset, mid-message or idle, with or without unsent replies) the engine releases that connection's socket and tasks within a bounded number of scheduler steps, and when no peer has anything outstanding the engine becomes idle: it does not spin, and after any number of connect/disconnect cycles it holds no more descriptors than before.",
  ["fault_sequences", "histories", "schedules"],
  "all disconnect kinds and moments, all numbers of cycles, all interleavings",
  NONET + " No test opens or closes a connection, let alone many.",
  ["src/io/acceptor.rs"],
  [("reader ends at end of stream or error", "src/io/acceptor.rs: start_socket_listener_task, read_message"),
   ("writer ends with its connection", "src/io/acceptor.rs: start_app_listner_task")],
  None, ["open descriptors", "scheduler activity while idle"], HOOK)

p("C09", "Every message built and sent is well-formed FIX and parses back unchanged",
  "For every set of header, body, trailer and (nested) group fields an application puts in a message through the public API, and every hash-map iteration order the process happens to use, the bytes a peer receives start with BeginString, BodyLength and MsgType, end with CheckSum, carry a BodyLength and CheckSum that match, contain each field exactly once with each group instance directly after its count and starting with the group's delimiter, and parse back under the session's dictionary to the same fields. (A group whose instances carry several further members keeps their dictionary order once the application states it with set_field_order; the delimiter comes first without that.) Re-serialising a parsed message preserves all of that.",
  ["inputs", "schedules", "configurations"],
  "all messages buildable through the API and all values of the process's hash seed (field order comes from randomised hash maps), through the live engine's send path",
  "No test serialises a message; each process run samples one hash seed, so an ordering fault shows only in some processes.",
  ["src/message.rs", "src/session/session_and_state.rs"],
  [("field-order lists sort the randomised map on output", "src/message.rs: FieldMapIter::fieldmap_to_vec"),
   ("length and checksum calculation", "src/message.rs: calc_body_len, calc_checksum, set_body_len, set_checksum")],
  None, ["bytes each peer receives"], HOOK)

p("C10", "A slow application causes back-pressure, not loss or unbounded memory",
  "While the application is slow or stalled the engine takes only a bounded number of messages off its sockets beyond those the application has finished with, leaving the rest to TCP flow control, and when the application resumes every message is delivered; the memory a single message costs is bounded by a constant factor of its length, whatever counts or sizes its fields claim.",
  ["schedules", "fault_sequences", "inputs"],
  "all application stall patterns and lengths, all volumes and numbers of connections, all claimed group counts",
  NONET + " No test stalls the application or measures what is buffered.",
  ["src/network.rs", "src/io/acceptor.rs", "src/message.rs"],
  [("bounded channel between readers and receiver thread", "src/network.rs: start_accepting_connections"),
   ("group storage sized by what arrives", "src/message.rs: parse_group, set_group")],
  None, ["bytes consumed from sockets versus messages delivered", "allocator high-water mark"], HOOK)

p("C11", "A session is open exactly during its configured window, at every instant",
  "For every configured daily or weekly window (including windows that cross midnight or wrap around the week), time zone and instant, the schedule reports the session open exactly when the zone's local wall-clock time lies within the window (both ends included), and always open when no window is configured; it never fails, including on days when clocks change, and whichever way the system clock jumps.",
  ["schedules", "configurations", "fault_sequences"],
  "all instants and clock jumps (including into daylight-saving gaps and overlaps, midnight, week ends, and ticks between two clock reads), all zones available, all windows",
  "The only schedule tests read the machine's clock once, so they sample one instant (and are excluded as time-dependent).",
  ["src/session/session_schedule.rs"],
  [("local wall-clock comparison against daily/weekly bounds", "src/session/session_schedule.rs: is_session_time"),
   ("window taken from settings", "src/session/session_schedule.rs: create_schedule")],
  None, ["SessionSchedule::is_session_time"], HOOK)

p("C12", "SendingTime is the UTC wall clock at stamping, whatever the clock does",
  "Each time an application stamps a message, its SendingTime becomes the system's UTC wall-clock time at that moment in the form YYYYMMDD-HH:MM:SS.sss, replacing any earlier stamp, and it is carried unchanged to the wire with BodyLength and CheckSum still consistent - across clock jumps forwards and backwards, midnight, month, year and leap-day boundaries, and independent of the local time zone.",
  ["schedules", "fault_sequences"],
  "all instants, clock jumps and delays between stamping and transmission",
  "No test stamps a message, and a test could sample only the present instant.",
  ["src/message.rs"],
  [("timestamp from the UTC clock", "src/message.rs: set_sending_time")],
  None, ["SendingTime (52) in the bytes peers receive"], HOOK)

p("C13", "Start-up loads configuration whole or fails; every configured session is served",
  "However the operating system delivers the configuration and dictionary files (short reads, interrupted calls, slow disk), the engine comes up with every configured session reachable on its own or inherited port, under its own or inherited identity and its own dictionary, and with no session that was not configured; if a file cannot be read completely, start-up fails before any port is opened instead of running with partial settings.",
  ["fault_sequences", "configurations", "schedules"],
  "all read fragmentations, interruptions, read errors at every offset and missing files, for all configurations of sessions, ports, inherited settings and dictionaries",
  "Tests parse in-memory strings only, three of the five settings tests are empty, and none starts an engine from a configuration or injects a read fault.",
  ["src/session/session_settings.rs", "src/session/session_id.rs", "src/network.rs", "src/session/session_and_state.rs", "src/data_dictionary.rs"],
  [("whole-file read, then parse and check", "src/session/session_settings.rs: new, from_str, check; src/data_dictionary.rs: from_xml"),
   ("sessions and ports derived from settings with defaults", "src/network.rs: create_sessions, start_accepting_connections; src/session/session_id.rs: from_map")],
  None, ["ports opened", "sessions served on them"], HOOK)

p("C14", "Application callbacks and threads can use sessions concurrently without deadlock",
  "Any number of application threads and callbacks may at the same time look up, insert, modify and list sessions and send to them, including from within a callback and while connections come and go: every such call returns, each lookup, insertion or modification of one session appears to take effect atomically at one point between its call and return, a listing reports each session with a value it held at some moment during the listing, and each sent message is enqueued whole and exactly once.",
  ["schedules", "histories"],
  "all interleavings of application threads, the receiver thread and network tasks",
  "No test uses the registry from two threads or from inside a callback.",
  ["src/network.rs", "src/session/session_and_state.rs"],
  [("sharded concurrent map shared by all threads", "src/network.rs: SessionMap"),
   ("no registry lock held while the callback runs or a message is sent", "src/network.rs: start_receiver_task; src/session/session_and_state.rs: sync_send_to_target")],
  [("id_to_session", "session registry", "src/network.rs: SessionMap")],
  ["registry call/return history", "bytes peers receive"], HOOK)

p("C15", "Structurally invalid messages are dropped, never delivered",
  "A message with correct length and checksum whose structure breaks the protocol - not starting with BeginString, BodyLength, MsgType; a field that is not tag=value with a numeric tag and non-empty value; header fields after the body began or other fields after the trailer began; a repeating group with fewer or more instances than its count, an instance not starting with the delimiter, or members out of dictionary order; a tag repeated where it may occur once - is never handed to the application, at any nesting depth, while its valid neighbours on every connection are.",
  ["inputs", "fault_sequences", "schedules"],
  "all faulty-peer deviations of these kinds at every position and nesting depth, interleaved with valid traffic",
  "The four message tests parse only valid messages; no test asserts a rejection.",
  ["src/message.rs", "src/network.rs", "src/data_dictionary.rs"],
  [("ordered header/body/trailer parsing and group accounting", "src/message.rs: parse_header, parse_body, parse_trailer, parse_group"),
   ("parse failure means no delivery", "src/network.rs: start_receiver_task")],
  None, ["Application::from_app calls"], HOOK)

p("D01", "The dictionary in memory is exactly what the XML specification says",
  "For every valid FIX XML specification, the loaded dictionary gives each message, header, trailer and (nested) group exactly the fields, required flags, group delimiters, group field order, types and enumerations the XML states with components expanded; duplicates and unknown references are reported as errors.",
  ["inputs"], "all XML specifications",
  "Tests cover FIX43.xml and a dozen small hand-written documents.",
  ["src/data_dictionary.rs"], [("recursive XML walk", "src/data_dictionary.rs: add_xml_message, add_xml_component, add_xml_group")])

p("D02", "A setting's value is the session's own, else the default section's",
  "For every configuration text, looking up a setting for a session yields the session's own value if present, else the default section's, else absence or the documented error, parsed to the requested type.",
  ["inputs", "configurations"], "all configuration texts and setting names",
  "The tests for overrides and mandatory fields are empty.",
  ["src/session/session_settings.rs"], [("two-level lookup", "src/session/session_settings.rs: get_optional_config, get_or_default_config")])

p("D03", "Session identities are equal exactly when all their parts are",
  "Two session identities compare equal, and hash equally, exactly when begin string and all sender and target ids (and qualifier) agree, an empty optional id counting as absent.",
  ["inputs"], "all combinations of id parts",
  "No test compares identities.",
  ["src/session/session_id.rs"], [("derived equality, hash of the rendered id", "src/session/session_id.rs")])

p("D04", "Generated field constants match the specification",
  "Every field type generated at build time reports exactly the tag number the FIX XML specification gives that field name.",
  ["inputs"], "all fields of the specification",
  "No test looks at generated code beyond the three header tags it uses.",
  ["build/code_generator.rs", "build/templates.rs", "resources/FIX43.xml"], [("template rendering", "build/code_generator.rs: generate_fields")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
