#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the anchors stay consistent)."""
import json
G = "src/generated_schema/"
VERS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
UT = [f"{G}{v}/schema_utils.rs" for v in VERS]
SC = [f"{G}{v}/mcp_schema.rs" for v in VERS]
VA = [f"{G}{v}/validators.rs" for v in VERS[3:]]
B, C, D = 3, 4, 5
def P(id, title, statement, over, text, why, files, mech, observe):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}}
R = [
P("C01", "A relayed message keeps its meaning over any number of hops",
  "A message that is valid in a protocol version keeps its kind, its id, its method and the value of every field the specification defines or leaves open, when any chain of peers of that version decodes it, takes it apart, rebuilds it and encodes it again, and nothing is added to it. It does not matter through which of the library's entry points each peer decodes, rebuilds or encodes, nor how requests, replies, errors and notifications of other conversations are interleaved, delayed, duplicated or retransmitted. A message a peer builds from parts has the same encoding as one it received.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every message type of all six protocol versions with boundary-valued bodies; every chain of up to 4 relays; every decode/rebuild/encode route per hop; loss, duplication, reordering, relay crash and retransmission",
  "The tests round-trip a few hundred fixed sample messages, once, through one decode route; shape-ambiguous bodies, optional fields in combination, and chains of different construction routes are not reached.",
  SC + UT, [("serde (de)serialisation of the message enums", UT[2]), ("untagged result and content unions", SC[3]), ("rebuild: FromMessage / ToMessage / From conversions", UT[B])],
  ["text leaving each hop, compared with the text the origin sent"]),
P("C02", "Every frame is recognised as what it is, whatever surrounds it",
  "A peer that receives a valid message classifies it as exactly the request, notification, reply or error that it is, names the standard operation by its method and treats every other method as custom, and for the same message all its classification, method, id and version accessors agree with each other and with the wire. Replies can be read as the result type the pending request calls for, content items report their own type and convert only to it. This holds on either side, for messages of every version, for every interleaving of both directions of a session.",
  ["inputs", "histories", "schedules"],
  "every operation and result of all six versions, on both sides, interleaved by a seeded scheduler with everything else in flight",
  "Tests assert the class of one hand-written sample per operation; overlapping result shapes, accessors on id-less forms and unusual-but-valid bodies are not enumerated.",
  UT + SC, [("method dispatch in request/notification deserialisers", UT[2]), ("order of untagged result variants", UT[B]), ("MCPMessage / RpcMessage accessors", UT[4])],
  ["classification and accessors at every hop"]),
P("C03", "A damaged frame is refused and never mistaken for another message",
  "A frame that is not a well-formed JSON-RPC 2.0 message - truncated, bit-flipped out of JSON, wrong or missing protocol marker, unrepresentable or missing id, no method, neither result nor error - is refused with a parse error that carries the details, and is never delivered as some other kind of message. A frame whose standard method has parameters that violate the version's schema is never delivered as that standard operation. No frame, however damaged, makes the peer panic or affects how the next valid frame on the connection is read.",
  ["fault_sequences", "inputs", "histories"],
  "every valid frame with every seeded wire fault (truncation, bit flip, byte loss, splice of two frames, member deletion, member retyping, envelope damage), at any point of a session of any version",
  "Tests feed a handful of malformed strings; the space of damaged frames and what untagged fall-through makes of them is not sampled.",
  UT + SC + VA, [("FromStr mapping every failure to a parse error", UT[B]), ("jsonrpc/method constant validators", VA[0]), ("hand-written envelope deserialisers", UT[B])],
  ["outcome of decoding a damaged frame; decoding of the following intact frame"]),
P("C04", "Every reply reaches the request it answers",
  "With any number of requests outstanding in both directions, each reply or error carries exactly the id of the request it answers, so a peer that looks pending requests up by id completes each of them once, with its own reply, read as the result type that request calls for. String and integer ids never alias, including ids that print the same, empty, very long or non-ASCII strings and the extremes of 64-bit integers; progress and cancellation notifications name the same request. This holds under loss, duplication, reordering, retransmission and restarts, and once faults stop every request is completed.",
  ["histories", "schedules", "fault_sequences", "inputs", "crash_points"],
  "all interleavings of up to tens of concurrent requests per side, confusable ids, at-least-once delivery with crash and restart of either peer",
  "Tests use one request and one id at a time, mostly small integers; no test keeps several requests pending.",
  UT + SC, [("RequestId and its equality/hash", SC[2]), ("from_message / to_message carrying the id", UT[0]), ("request_id accessors", UT[B]), ("progress token / cancelled request id", SC[B])],
  ["completion history: request, reply handed over"]),
P("C05", "Failures arrive as the failures they are",
  "A protocol error raised by a peer arrives with the code, message, data and request id it was raised with, whichever way it was raised, and the named error conditions carry the codes the protocol assigns to them. A failed tool call arrives as a normal reply of its request that is flagged as an error and carries the failure's text, and the same failure raised as a protocol error carries the same text; the causes behind it stay readable until then. Neither is lost, turned into a success or changed by retransmission, relaying or restarts.",
  ["inputs", "histories", "fault_sequences"],
  "every named error condition of every version, every construction route, arbitrary messages and data payloads, every kind of tool failure, under network faults",
  "Tests check default values of constructors; data payloads of every JSON shape, routes combined with relaying and retransmission are not covered.",
  UT + SC, [("RpcErrorCodes / SdkErrorCodes and constructors", UT[B]), ("CallToolError conversions", UT[B]), ("JsonrpcError(Response) construction", UT[0])],
  ["error or tool result as it arrives at the requester"]),
P("C06", "Vendor methods, notifications, results and metadata pass through untouched",
  "A request or notification with a method the version does not define is delivered as a custom one with its method and parameters exactly as sent, a reply with a non-standard result keeps every member, and vendor keys under metadata or in any other place the specification leaves open survive, over any number of relays. A standard method never becomes a custom one and a custom method never becomes a standard one, however similar their names.",
  ["inputs", "histories", "schedules"],
  "vendor methods (including near-misses of every standard method), parameters and results of arbitrary JSON content, vendor metadata on every standard message, all versions, chains of relays",
  "Tests contain a few custom messages with one-field parameters, and none is relayed.",
  UT + SC, [("CustomRequest / CustomNotification / custom result", UT[2]), ("flattened extra members", SC[B]), ("method-table dispatch", UT[2])],
  ["method, parameters and result seen at the far end"]),
P("C07", "A request that pauses for input resumes with exactly the answers given",
  "When a server answers a tool call, prompt or resource read by asking for more input, the client sees a pause and not a final result, sees every demanded input under its own key as the kind of input it is, and when it retries, the server receives the original request unchanged plus exactly the collected answers and the opaque state it handed out. Any number of rounds, lost or duplicated messages and a server that restarts with only the echoed state lead to the same final result, and a final result is never seen as a pause. Answers attached to a request that cannot take them are refused.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "multi-round exchanges for all three operations of the two newest versions, any mix of demanded inputs and answer shapes, any keys and state strings, server crash between any two steps",
  "Tests build single demands and answers in isolation; no test runs a demand-answer-retry exchange or a restart.",
  [UT[C], UT[D], SC[C], SC[D]], [("is_input_required / as_input_required", UT[C]), ("with_input_responses / with_request_state", UT[C]), ("InputRequests/InputResponses maps, result unions", SC[C])],
  ["demand seen by the client, retry seen by the server, final result"]),
P("C08", "A batch is exactly its messages, in order",
  "A frame holding several messages is recognised as a batch, and its messages are the same, in the same order and of the same kinds, as if each had been sent alone; it is encoded back to the same batch. A batch is never taken for a single message nor a single message for a batch, and whether it contains a request is answered correctly. Splitting, merging and forwarding batches under loss, duplication and reordering neither invents nor drops messages.",
  ["inputs", "histories", "schedules"],
  "batches of any length including empty and one-element ones, any mix of kinds, both sides, all versions, split and re-batched along the way",
  "Tests check one batch of two or three fixed messages per side.",
  UT, [("ClientMessages / ServerMessages untagged unions", UT[1]), ("includes_request / as_batch / as_single", UT[B])],
  ["messages obtained from a batch versus sent"]),
P("C09", "Messages survive any byte-stream chopping and I/O error",
  "Messages written back to back to a byte stream are read back whole and in order however the stream chops, delays or interrupts reads and writes. When a read or write fails for good, or the stream ends early, what was delivered before is an exact prefix of what was sent, the failure is reported, and no partial or invented message is delivered. A writer that reported success has written the whole message.",
  ["fault_sequences", "inputs", "schedules"],
  "short reads and writes of every size, interrupted calls, hard errors, full device and early end of stream at any byte, for messages of every version and side",
  "Tests only parse complete in-memory strings.",
  UT + SC, [("Serialize/Deserialize of the message types over io::Read / io::Write", UT[2]), ("buffering deserialisers of untagged enums", UT[B])],
  ["messages read from the simulated stream; result of each write"]),
P("C10", "Peers act only within the capabilities declared on the connection",
  "A request or notification is let through exactly when the capabilities the other side declared for the current connection cover it, and is otherwise refused with an error that names the missing capability and the operation; operations that need no capability are always let through, and custom requests are not blocked. In 2025-11-25 a finer-grained demand (a mode of elicitation, context or tool use in sampling, task execution, listing and cancelling tasks, resource subscription) needs its own sub-capability; the later versions ask only for the capability as a whole. After a reconnect that changes the declaration, the new declaration decides, and the declaration itself arrives unchanged.",
  ["configurations", "histories", "inputs", "fault_sequences"],
  "every combination of declared capabilities and sub-capabilities on both sides, every operation, over reconnects with changed declarations, for the versions that offer gating",
  "Tests gate a few operations against all-or-nothing declarations.",
  [UT[B], UT[C], UT[D]], [("can_handle_request / can_accept_notification", UT[B]), ("task capability predicates", UT[B]), ("capability records in initialize/discover", SC[B])],
  ["verdict of the gate for each request against the declared set"]),
P("C11", "Peers of different protocol versions interoperate on what they share",
  "Peers that support different version sets agree on a version both support, by names that parse, print and order by age consistently, and re-negotiate to the same answer after loss, duplication or restart. A message valid in both of two versions means the same to a peer of either. A reply from an older peer that omits the newer result-type marker is read as a complete result, and a peer that receives a version it does not support can name its own.",
  ["configurations", "histories", "inputs", "fault_sequences"],
  "every pair of version sets over all six versions; every message type the two versions share; rolling upgrades of relays in the middle of a session",
  "Each test module is compiled for one version only; no test puts two versions on one wire.",
  [G + "protocol_version.rs"] + SC + UT, [("ProtocolVersion parse/print/order", G + "protocol_version.rs"), ("default result type", SC[C]), ("InitializeRequest / DiscoverRequest", UT[0])],
  ["negotiated version, messages seen by the peer of the other version"]),
P("C12", "A session journal replays to exactly what was recorded",
  "A peer that records the encoded messages it handles, one per line, and is restarted at any moment replays exactly the messages that were durably recorded, in order, each equal to and classified as the original; an encoded message never contains a raw line break. A record torn by the crash is refused rather than replayed as something else, and what remains after replay continues the session without a lost or repeated completion.",
  ["crash_points", "fault_sequences", "inputs", "histories"],
  "crash after any byte of the journal, lost tail, torn last record, bit rot in one record, any mix of messages, repeated crashes",
  "Nothing in the tests persists or replays messages.",
  UT + SC, [("single-line encodings and their decoders", UT[B]), ("strict parse of the whole record", UT[0])],
  ["replayed messages versus recorded messages"]),
P("C13", "A long-running task is followed to its end, once",
  "A request asking for task execution is recognised as such in every form it is held in, the receiver's task record, status reports, cancellation, listing and final payload arrive as what they are, and the payload is tied to its task by the id that was attached. Exactly the completed, failed and cancelled states are final. A requester that polls, is notified, loses messages or restarts sees states consistent with the task's history and obtains the final payload as the result of the original operation.",
  ["histories", "schedules", "fault_sequences", "inputs", "crash_points"],
  "task life cycles in both directions with polling, notifications, cancellation races, lost and duplicated messages and requester restarts, in the version that has tasks",
  "Tests check single task predicates and one sample per message.",
  [UT[B], SC[B]], [("is_task_augmented / with_task", UT[B]), ("TaskStatus::is_terminal", UT[B]), ("related task id in metadata", UT[B]), ("task result variants", UT[B])],
  ["task states and payload observed by the requester"]),
P("C14", "Each request carries its own metadata, whoever handles it and when",
  "The version, capabilities, client identity, log level, progress token, trace context and vendor keys attached to a request arrive with that request, whatever the order they were attached in and however many requests of other clients are interleaved, and reading them back yields the values attached and nothing that was not attached. Replacing a request's metadata changes nothing else in it.",
  ["inputs", "histories", "schedules"],
  "any subset and order of metadata items with arbitrary values on every client operation of the two newest versions, many clients interleaved, retransmission and relays",
  "Tests set one or two items on one request type.",
  [UT[C], UT[D], SC[C], SC[D]], [("RequestMetaObject builders and accessors", UT[C]), ("meta / with_meta on client requests", UT[C]), ("trace-context accessors", UT[C])],
  ["metadata seen by the handler of each request"]),
P("C15", "Parts of a message can be made, joined and taken apart without change",
  "A message assembled part by part with the library's constructors, conversions and helper methods (content blocks, tool results, resource contents, form-field schemas, parameters, metadata, words of closed sets), in any order, with finished parts saved as text and taken up again after a restart, is exactly what was put in; each part names its own kind correctly and reads back, as its own type, as any union that contains it or from its map form, as the same alternative with the same content. Words and form-field schemas outside the specification's sets are refused with an error, never with a crash or by silent substitution.",
  ["inputs", "histories", "crash_points", "configurations"],
  "every named type of every protocol version with arbitrary valid content, every order of the helper methods, restarts of the builder between any two parts, the receiver taking the message apart again",
  "Tests build a few parts with fixed values, in one order, and compare one or two members.",
  SC + UT, [("constructors, constant accessors, conversions into unions", SC[B]), ("content, tool-result, resource, schema and metadata helpers", UT[B]), ("helpers of the first versions", UT[0])],
  ["encoded parts and assembled messages versus what was put in"]),
P("C16", "A notification reaches exactly the standing interest it belongs to",
  "With any number of listening streams, resource subscriptions, calls that report progress and visits that complete later held open by several clients, each notification names exactly the stream id, resource, progress token or elicitation it belongs to, and no other. The server reads each request's filter, each cancellation and each unsubscription as exactly what was asked, the acknowledgement carries exactly what was agreed, and the reply that ends a stream names that stream. Interests that the server restores from what it stored are the ones that were opened. Once faults stop, each open interest is told of every further change it covers and of nothing else.",
  ["histories", "schedules", "fault_sequences", "crash_points", "inputs"],
  "any number of standing interests of all versions with confusable ids, tokens and resources, opened and closed from either side, under loss, duplication, reordering and crashes of client and server, with and without a store",
  "Tests decode single samples of these messages; they never hold several interests at once, so a filter, id or token that changes on the way is not noticed.",
  SC + UT, [("RequestId / ProgressToken equality, hash, text forms", SC[B]), ("SubscriptionFilter, SubscriptionsListen*, SubscriptionsAcknowledged*, NotificationMetaObject", SC[C]), ("Subscribe, Unsubscribe, ResourceUpdated, Progress, Cancelled, ElicitationComplete", SC[B])],
  ["which interest each notification is routed to, and what the server keeps of each interest"]),
]
with open("/verif/properties.jsonl", "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
