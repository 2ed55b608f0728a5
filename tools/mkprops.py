"""Generates /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})
S = "openleadr/service/"
prop("C01", "Event changes are always announced on the VEN's next poll",
 "With the built-in message queue, after the application adds or cancels an event for a VEN, the next poll of that VEN that starts afterwards is answered with an oadrDistributeEvent that contains the change, whatever polls, event requests, application callbacks or failed deliveries were in progress when the change was made. A poll of a VEN for which nothing changed since its last successfully answered poll is answered with an empty oadrResponse, and polls or changes of one VEN never consume or trigger announcements of another.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of add/cancel with polls and event requests that are suspended in application callbacks, every number of VENs and events, handlers that raise",
 "The tests do one add followed by one poll; none changes events while a poll is suspended in a delivery callback, and none lets a delivery fail.",
 [S+"poll_service.py", "openleadr/server.py", S+"event_service.py"],
 [("announce flag set by add_raw_event / cancel_event, cleared by the poll that reports it", "server.py add_raw_event, cancel_event; poll_service.py poll")],
 [("events_updated", "per VEN: a change has not been announced yet", "poll_service.py")],
 ["response to oadrPoll"])
prop("C02", "Each VEN is sent exactly its own current events",
 "Every oadrDistributeEvent sent to a VEN from the built-in queue lists exactly the events the application added for that VEN that have not been retired, each once, and never an event of another VEN; an event request is answered with that complete list every time, and with an empty oadrResponse when there is none. An event stays in the list until it has been reported as completed once or its cancellation has been acknowledged, and it is never listed again after that.",
 ["histories", "inputs"], "every history of add, cancel, time passing, polls, event requests and responses over any number of VENs and events",
 "The tests keep one or two events for one VEN and never check what a second VEN sees or what is listed after completion.",
 [S+"event_service.py", "openleadr/server.py"],
 [("per-VEN queue", "event_service.py request_event"), ("retirement of completed and acknowledged cancelled events", "event_service.py request_event, created_event")],
 [("events", "per VEN list of live events", "event_service.py"), ("completed_event_ids", "retired ids", "event_service.py")],
 ["oadrDistributeEvent payload", "server.events"])
prop("C03", "Event status and order follow time and the OpenADR rules",
 "Every time events are sent to a VEN, each non-cancelled event carries the status that the current time dictates: far before its ramp-up starts, near from then until its start, active from its start, and completed from the end of a period of non-zero length. The list is ordered active events first, then the others; active events by priority (1 is highest, 0 lowest) and then by start time, the others by start time.",
 ["inputs", "histories"], "every combination of active period, ramp-up, priority and moment of asking, any number of events",
 "Unit tests check one list of events and a handful of fixed times.",
 ["openleadr/utils.py", "openleadr/server.py", S+"event_service.py"],
 [("determine_event_status", "utils.py"), ("order_events", "utils.py"), ("active period defaults", "server.py add_event / add_raw_event")], [],
 ["oadrDistributeEvent payload"])
prop("C04", "Cancelling changes one event once and sticks",
 "Cancelling an event of a VEN marks exactly that event as cancelled and raises its modification number by exactly one per cancellation; no other operation and no passing of time changes a modification number or takes an event out of the cancelled state. A cancelled event is reported as cancelled until the VEN acknowledges that modification and is then never sent again; cancelling an unknown event or VEN changes nothing.",
 ["histories"], "every history of add, cancel, repeated cancel, cancel of unknown or finished events, responses with old and new modification numbers, polls and time passing",
 "One test cancels one event once and checks the happy path.",
 ["openleadr/server.py", S+"event_service.py", "openleadr/utils.py"],
 [("cancel_event", "server.py"), ("created_event pops acknowledged cancelled events", "event_service.py"), ("order_events leaves cancelled alone", "utils.py")], [],
 ["oadrDistributeEvent payload", "server.events"])
prop("C05", "An opt response reaches its own callback, at most once",
 "When a VEN responds to one of its events with the event's current modification number, the callback (or future) given for that event and VEN gets exactly that VEN id, event id and opt type, and it is called at most once per event; it is never called for a response by another VEN, to another event or to an outdated modification number. A response to an event or modification the VTN does not have for that VEN is answered with an invalid-ID response code and triggers no callback; responses to events that just completed are still accepted.",
 ["histories", "inputs"], "every sequence of (possibly multi-event, duplicated, stale, foreign or unknown) oadrCreatedEvent messages interleaved with adds, cancels, requests and completion",
 "Tests send one correct response per event; duplicates, stale modification numbers, equal ids for several VENs and late responses are not sampled.",
 [S+"event_service.py", "openleadr/server.py"],
 [("created_event", "event_service.py"), ("callback registry", "server.py add_raw_event")],
 [("event_callbacks", "callbacks still to be called", "event_service.py")],
 ["application callback arguments", "response to oadrCreatedEvent"])
prop("C06", "The VEN application sees each event version exactly once",
 "When a VEN receives events, its application's event handler is called exactly once for each event it does not hold yet, its update handler exactly once for each new modification of an event it holds, and neither handler is called again for repeated deliveries of a version it already handled. This holds for any number of events per message, any mix and order of new, updated and repeated events, synchronous or asynchronous handlers, and whether or not earlier responses reached the VTN.",
 ["histories", "inputs", "fault_sequences"], "every sequence of event deliveries (by poll or by initial sync), repeats, modifications, cancellations and completions, with lost responses",
 "Tests deliver one event, or one event and one modification.",
 ["openleadr/client.py"],
 [("received-event bookkeeping by event id and modification number", "client.py _on_event")],
 [("received_events", "events the VEN holds", "client.py"), ("responded_events", "last opt per event", "client.py")],
 ["handler calls"])
prop("C07", "The VEN answers each delivery with exactly the right opt responses",
 "For every delivery of events the VEN sends one oadrCreatedEvent holding exactly one response for each listed event that requires a response and has not ended, in order, with the event's own id and modification number and the request id of the delivery, and no message if there is no such event. The opt type is what the application decided for that event version (the earlier decision for a repeated version, or for an updated one without an update handler); a handler that raises or returns something else results in optOut, and a signal the VEN does not know gives a signal-not-supported code.",
 ["histories", "inputs", "fault_sequences"], "every mix of events per delivery, response_required values, statuses, handler results and exceptions, repeats and modifications",
 "Tests look at one-event deliveries with a fixed handler result.",
 ["openleadr/client.py"],
 [("_on_event builds the event responses", "client.py _on_event"), ("default update handler re-uses the previous opt", "client.py on_update_event")], [],
 ["oadrCreatedEvent sent by the VEN"])
prop("C08", "The VEN forgets finished events and only those",
 "The VEN's periodic clean-up removes from its list of held events exactly those that were cancelled or whose period has ended, in any order and number, and keeps all others with their content, and the periodic status refresh sets the status of each non-cancelled held event to what the clock dictates without touching anything else. Both keep working however many events are held or replaced between runs.",
 ["histories", "inputs"], "every set of held events and every moment of clean-up or status refresh between deliveries",
 "One test lets one event expire.",
 ["openleadr/client.py", "openleadr/utils.py"],
 [("_event_cleanup, _event_status_log", "client.py")], [("received_events", "events the VEN holds", "client.py")],
 ["client.received_events"])
prop("C09", "A VEN is registered exactly when the VTN application accepts it",
 "A VEN that starts up ends up registered, with the VEN id, registration id and poll frequency the VTN assigned, if and only if the VTN's registration handler accepted it by returning such a pair; if it is rejected, the handler misbehaves, or no usable answer arrives, the VEN stays unregistered, offers no reports and never polls. The registration handler sees what the VEN sent about itself (and over TLS the fingerprint of its connection), and a registered VEN first offers its reports and synchronises its events, then polls.",
 ["inputs", "configurations", "fault_sequences"], "every handler result, every VEN configuration (with or without preset id), every failure of a message during start-up",
 "Tests try a few fixed handler results, never with faults in between or with checks on what is sent afterwards.",
 ["openleadr/client.py", S+"registration_service.py"],
 [("create_party_registration", "client.py and registration_service.py"), ("start-up sequence", "client.py run")],
 [("registration_id, ven_id, poll_frequency", "the VEN's registration", "client.py")],
 ["client attributes", "messages on the wire"])
prop("C10", "Deregistration ends exactly the registration it names",
 "A VEN that cancels its registration is deregistered exactly when the VTN confirms it, and one that is told by the VTN to cancel is deregistered exactly when the message names its own registration id, answering with success then and with an error code otherwise. Once deregistered it no longer polls, samples or sends reports, and a request it did not accept, or that failed, changes nothing.",
 ["histories", "inputs", "fault_sequences"], "every order of cancel requests by either side, right, wrong or missing registration ids, confirmations, refusals and lost messages",
 "Tests check one matching and one non-matching cancellation without looking at later activity.",
 ["openleadr/client.py", S+"registration_service.py"],
 [("cancel_party_registration, on_cancel_party_registration", "client.py"), ("cancel_party_registration", "registration_service.py")], [],
 ["client.registration_id", "messages on the wire"])
prop("C11", "Unknown VENs are made to re-register, and that restores service",
 "When the VTN has a VEN lookup, every message from a VEN the lookup does not know or knows without a registration, except a registration query or request (and an oadrResponse, which ends an exchange), is answered with oadrRequestReregistration for that VEN and reaches no application handler and changes no VTN state; messages from VENs that are registered are never answered so. A VEN that is told to re-register re-registers, offers its reports again, synchronises its events and then continues normally, sending every report once, however often this happens.",
 ["histories", "inputs"], "every message type and lookup result, every point in a session at which the VTN forgets the VEN, repeated re-registrations",
 "Tests check the reply for one poll and one re-registration.",
 [S+"vtn_service.py", "openleadr/client.py"],
 [("ven_lookup check", "vtn_service.py handler"), ("re-registration", "client.py _poll, create_party_reregistration")], [],
 ["responses", "handler calls", "messages on the wire"])
prop("C12", "The VTN requests exactly the reports its application asked for",
 "The answer to a VEN's report registration requests exactly those offered data points for which the application's handler returned a valid request, grouped per offered report under a fresh request id, with the sampling interval the application asked for (the smallest if they differ within a report) and the report interval (by default the sampling interval); nothing is requested for data points it declined or for which it returned something malformed, and neither affects the others. This holds for both handler styles, synchronous or asynchronous, and any number of reports.",
 ["inputs"], "every set of offered reports and data points and every combination of valid, declining and malformed handler results",
 "Tests use one or two reports with mostly uniform handler results.",
 [S+"report_service.py", "openleadr/utils.py"],
 [("register_report", "report_service.py"), ("validate_report_request_tuples", "utils.py")],
 [("requested_reports, report_callbacks", "what was requested", "report_service.py")],
 ["oadrRegisteredReport", "handler arguments"])
prop("C13", "The VEN takes on exactly the report requests it can serve",
 "For each report request it receives, whether on registration or later by poll, the VEN starts serving exactly the requested data points that it offers with a matching measurement, unit and sampling rate, at the requested intervals, independent of the other requests in the same message; unknown reports or data points are skipped without disturbing the rest. It confirms by listing the request ids it was sent, and a one-off request is answered once and not scheduled.",
 ["inputs", "histories"], "every list of report requests with valid, unknown and mismatching entries, intervals, one-off requests, and several requests over time",
 "Tests request one or two reports, all valid or all invalid.",
 ["openleadr/client.py"],
 [("create_report", "client.py")], [("report_requests", "accepted requests with r_ids and schedule", "client.py")],
 ["client.report_requests", "oadrCreatedReport", "scheduled sampling"])
prop("C14", "Report values are sampled on time and each is sent exactly once",
 "For every accepted periodic request, the VEN calls the data point's callback once per sampling interval, and every value it returns is sent to the VTN exactly once, with its own time stamp and data point id, in order, under the right request id. A report built up over a longer report interval is sent exactly when it holds all values of that interval and then starts empty, and one report's samples never end up in another's. (What a report holds when it is cancelled, replaced or ended by deregistration before it is complete may be dropped.)",
 ["histories", "schedules", "inputs"], "every combination of reports, data points, sampling and report intervals and callback behaviours (single value, list, sync or async, slow), over long runs",
 "Tests run a few seconds with one report and one interval because they use the real clock.",
 ["openleadr/client.py", "openleadr/utils.py"],
 [("update_report", "client.py"), ("_report_queue_worker", "client.py"), ("cron_config", "utils.py")],
 [("incomplete_reports, pending_reports", "reports being built / sent", "client.py")],
 ["oadrUpdateReport messages", "callback calls in virtual time"])
prop("C15", "Received report values go to the right application callback",
 "Each value in a report received by the VTN is passed exactly once, with its time stamp and in order, to the callback the application gave for that request and data point, and to no other; values for requests or data points without callback are dropped without disturbing the others. The VTN confirms the report, also when one message holds several reports or data points.",
 ["inputs", "histories"], "every mix of reports, data points, unknown request ids and re-registrations, several VENs",
 "Tests deliver one report to one callback.",
 [S+"report_service.py", "openleadr/utils.py"],
 [("update_report", "report_service.py"), ("group_by", "utils.py")],
 [("report_callbacks", "callback per request and data point", "report_service.py")],
 ["application callback arguments"])
prop("C16", "A cancelled report stops, and only that report",
 "When the VTN cancels a report, by poll or in its reply to a report, the VEN confirms the cancellation for that request id and, apart from a final update at that moment, neither samples nor sends that report from then on, while all other reports continue unchanged. A cancellation of an unknown report changes nothing.",
 ["histories", "schedules"], "every point at which a cancellation arrives relative to sampling, sending and other reports, both ways of cancelling, repeated and unknown cancellations",
 "Tests cancel one report directly by a method call.",
 ["openleadr/client.py"],
 [("cancel_report", "client.py"), ("_report_queue_worker", "client.py")], [],
 ["messages on the wire", "callback calls", "client.report_requests"])
prop("C17", "The VTN acts on a message over TLS only if it is authentic",
 "On a TLS connection with a VEN or fingerprint lookup configured, no message that carries a VEN id reaches an application handler or changes VTN state unless the connection certificate matches the fingerprint known for that VEN and, unless signature checking is switched off, the message is signed with that same certificate and the signature covers its unaltered content. Anything else is answered with a not-authorised response, a request to register again (from a VEN that is not registered) or an HTTP error, and an authentic message of a registered VEN is always served.",
 ["inputs", "histories"], "every combination of connection certificate, signing certificate, claimed VEN id, content, lookup result and any alteration of the message",
 "Tests try a few fixed combinations over real TLS.",
 [S+"vtn_service.py", "openleadr/messaging.py", "openleadr/utils.py"],
 [("authenticate_message", "messaging.py"), ("validate_xml_signature", "messaging.py"), ("handler pipeline", "vtn_service.py")], [],
 ["handler calls", "responses"])
prop("C18", "A signed message is accepted at most once and only while fresh",
 "A signed message is accepted at most once, and only if its time stamp is at most five seconds old; missing or malformed replay-protection data is refused. A correctly signed message with a fresh time stamp and a combination of time stamp and nonce that was not used before is always accepted, whatever other messages were received before.",
 ["histories", "inputs"], "every sequence of original, replayed, delayed, future-dated and malformed messages at any times",
 "Tests replay one message immediately and one after a pause.",
 ["openleadr/messaging.py"],
 [("_verify_replay_protect, _update_nonce_cache", "messaging.py")], [("nonce cache", "recently used time stamp and nonce pairs", "messaging.py")],
 ["acceptance or refusal"])
prop("C19", "A VEN with a VTN fingerprint acts only on that VTN's messages",
 "A VEN configured with the VTN's fingerprint acts on an answer only if it is validly signed with the certificate of that fingerprint over its unaltered content and is neither stale nor repeated; any other answer triggers no handler, registration change, report or response and leaves the VEN running. Authentic answers are always acted upon. A VTN or a VEN that was given a certificate and key signs each message it sends anew, over the content of that message, so that its counterpart accepts it.",
 ["inputs", "histories", "fault_sequences"], "every answer type, signer, alteration, replay and delay, at any point of a session",
 "Tests check one wrong fingerprint and one tampered message.",
 ["openleadr/client.py", "openleadr/messaging.py"],
 [("_perform_request", "client.py"), ("validate_xml_signature", "messaging.py")], [],
 ["handler calls", "client state", "messages on the wire"])
prop("C20", "Every request to the VTN gets one well-formed, fitting answer",
 "Every POST to a VTN endpoint gets exactly one answer: a schema-valid OpenADR message of the type that belongs to the request, which names this VTN and the VEN where that type has room for them and echoes the request id; an empty HTTP 200 to an oadrResponse, which ends an exchange; for bodies that are not schema-valid OpenADR messages or not sent as application/xml, HTTP 400; for a foreign VTN id an invalid-ID response; for a message of the wrong endpoint a compliance-error response; for a protocol error raised by the application that error's code; for any other application failure HTTP 500. No such failure affects the answers to, or state changes of, any other message. Hooks registered at the VTN see every message once, as it came, was handled and was answered, and change no answer, whatever they do.",
 ["inputs", "histories", "fault_sequences"], "every message type at every endpoint, malformed bodies, wrong ids, failing application handlers at every point of a history",
 "Tests try a few error cases, each on a fresh server, and do not check that the server works normally afterwards.",
 [S+"vtn_service.py", "openleadr/errors.py", "openleadr/messaging.py"],
 [("handler pipeline and error mapping", "vtn_service.py handler, handle_message, error_response")], [],
 ["HTTP responses"])
prop("C21", "Transport and handler faults never break a VEN's session",
 "A poll, response or report that fails (no connection, lost answer, HTTP error, empty, malformed or schema-invalid body, unexpected message type) and user hooks that raise leave the VEN's registration, held events and accepted reports as they were; the VEN keeps polling and reporting on schedule and acts on the next good answer as if the failure had not happened. Hooks see each message unchanged and in order.",
 ["fault_sequences", "histories"], "every sequence of transport faults at every message of a session",
 "Tests check single failures on start-up.",
 ["openleadr/client.py", "openleadr/hooks.py"],
 [("_perform_request", "client.py"), ("_execute_hooks", "client.py"), ("_poll", "client.py")], [],
 ["client state", "messages on the wire"])
prop("C22", "The VEN polls at the agreed pace",
 "Once registered, a VEN polls immediately and then once every requested poll interval (at most 24 hours apart), for as long as it is registered and not stopped, whatever the polls return; it never polls before it is registered or after it was stopped. The VTN tells every VEN the poll interval it was configured with.",
 ["configurations", "histories", "schedules"], "every poll interval, long runs, polls with events, faults or re-registrations in between",
 "Tests cannot wait for real intervals and use 1-second polls for a few seconds.",
 ["openleadr/client.py", S+"registration_service.py", "openleadr/utils.py"],
 [("scheduler set-up", "client.py run"), ("poll frequency", "registration_service.py")], [],
 ["times of oadrPoll messages in virtual time"])
prop("C23", "With its own poll handler the application decides what is sent",
 "When the application provides a poll handler, the built-in queue is out of use: adding events has no effect, and each poll calls the handler once with the VEN's id and is answered with exactly the message, event or list of events it returned, or with an empty oadrResponse if it returned nothing. Event requests and opt responses then go to the application's own handlers, once per request and once per event response, in order.",
 ["inputs", "histories"], "every kind of handler result, synchronous or asynchronous, interleaved with requests and responses of several VENs",
 "Tests try a few result kinds once.",
 [S+"poll_service.py", S+"event_service.py", "openleadr/server.py"],
 [("external polling", "poll_service.py poll, event_service.py"), ("add_handler", "server.py")], [],
 ["handler calls", "responses"])
prop("C24", "Event and report content arrives as it was given",
 "What the VTN application puts in an event (id, priority, market context, comment, test flag, response requirement, active period, signals with names, types, intervals, durations and payloads, and targets) is what the VEN application's handler receives, and what a VEN application's report callbacks return and its report offers describe is what the VTN application receives, for all whole-second times and durations in any time zone.",
 ["inputs"], "every well-formed event and report content, any number of signals, intervals, targets, time zones and durations",
 "Tests round-trip a fixed list of messages.",
 ["openleadr/messaging.py", "openleadr/utils.py", "openleadr/preflight.py", "openleadr/templates"],
 [("create_message / parse_message", "messaging.py"), ("normalize_dict", "utils.py"), ("corrections before sending", "preflight.py")], [],
 ["handler arguments at the other side"])
prop("C25", "Invalid events are refused as a whole, valid ones completed",
 "Adding an event with an invalid market context, response requirement, signal name, signal type, interval list or callback, or one that no valid message can say, raises an error and leaves queue, callbacks and announcements exactly as they were; adding a valid one enqueues exactly one event with the returned id, modification number 0, the given content, the VEN itself as target if none was given, and a period that spans exactly its intervals.",
 ["inputs", "histories"], "every combination of valid and invalid arguments in any state of the queue",
 "Tests check a few invalid arguments without looking at the state left behind.",
 ["openleadr/server.py", "openleadr/objects.py", "openleadr/utils.py"],
 [("add_event, add_raw_event", "server.py"), ("get_active_period_from_intervals", "utils.py")], [],
 ["exception", "server.events", "oadrDistributeEvent"])
prop("C26", "Servers, clients and reports in one process are independent",
 "Several VTN servers and VEN clients in one process behave as if each were alone: a server's lookup functions, signing key, signature policy, handlers, events and reports never apply to another server, and the measurement, scale or content of one offered report never changes another one.",
 ["configurations", "histories"], "every set of differently configured instances in every order of creation and use",
 "Tests use one server and one client per process.",
 ["openleadr/server.py", S+"vtn_service.py", "openleadr/client.py", "openleadr/enums.py"],
 [("per-server configuration of the services", "server.py __init__"), ("measurement of a report", "client.py add_report")], [],
 ["behaviour of each instance"])
prop("C27", "The VEN's opt list mirrors what it told the VTN",
 "Creating an opt sends it to the VTN once, with the content it was given, puts it on the VEN's list and reports its id only if the VTN acknowledged it; cancelling an opt sends exactly one cancellation for that opt and removes it from the VEN's list exactly when the VTN acknowledged it, and never affects other opts. Invalid opts, and cancellations of unknown opts, send nothing and change nothing.",
 ["histories", "inputs", "fault_sequences"], "every sequence of creations and cancellations with acknowledgements, refusals and lost messages",
 "Tests check message conversion of opts only.",
 ["openleadr/client.py", "openleadr/objects.py"],
 [("create_opt, cancel_opt", "client.py"), ("Opt validation", "objects.py")], [("opts", "the VEN's opts", "client.py")],
 ["client.opts", "messages on the wire"])
prop("C28", "Message encoding is lossless for arbitrary text",
 "For every message type and every text that may appear in names, comments, ids and vendor extensions (including XML special characters and non-ASCII text), encoding a message and decoding it again yields the same payload.",
 ["inputs"], "every message payload with arbitrary text in every text field",
 "Round-trip tests use a fixed list of plain ASCII payloads.",
 ["openleadr/messaging.py", "openleadr/templates", "openleadr/utils.py"],
 [("templates", "templates/*.xml"), ("normalize_dict", "utils.py")], [], ["parse_message(create_message(x))"])
prop("C29", "VTN and VENs agree end to end, whatever the network loses",
 "A VTN and VENs of this library working together: a VEN that missed no event list and has no change waiting for it holds exactly the running and coming events the VTN has for it, with their content; each application sees only its own events, the VTN's application is told of every event the decision that the VEN's application took, and every sample of a report that arrives is passed on once, as it was taken. This survives lost messages in either direction, VENs that crash, leave, are forgotten, refused or cut off, and restarts.",
 ["histories", "fault_sequences", "schedules"], "every sequence of events, cancellations, polls, samplings, losses, crashes and restarts with any number of VENs",
 "Tests of both sides together cover one exchange without faults.",
 ["openleadr/client.py", "openleadr/server.py", S+"event_service.py", S+"poll_service.py", S+"registration_service.py", S+"report_service.py"],
 [("re-registration and synchronisation", "client.py"), ("registration, polls, responses and reports", "service/*.py")], [],
 ["client.received_events", "handler calls on both sides", "sample callbacks of the VTN"])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p['title']) <= 80, p['title']
print(len(P))
