#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that the statements are edited in one readable place."""
import json, os
P = "akasa-core/src/protocols/mqtt/"
V3, V5 = P + "v3/", P + "v5/"
rows = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    rows.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

prop("C01", "Topic routing delivers to exactly the matching subscribers",
 "A published message is delivered to every connected client holding at least one subscription whose filter matches the topic under the MQTT rules for +, # and $-prefixed topics, and to no other client. This holds whatever sequence of subscribes, re-subscribes, unsubscribes, disconnects and session ends led to the current set of subscriptions. A client never receives a message because of a subscription that was removed or that belonged to a discarded session.",
 ["inputs","histories"], "all topics, filters and subscribe/unsubscribe/session histories",
 "The tests in route.rs try a few fixed tables; matching is a recursion over a shared mutable trie whose nodes are created and pruned by every subscribe and unsubscribe, so correctness is about histories.",
 [P+"route.rs", V3+"packet/subscribe.rs", V5+"packet/subscribe.rs"],
 [("RouteTable trie insert/match/prune", P+"route.rs"), ("subscriptions kept in step with the session", V3+"packet/subscribe.rs, "+V5+"packet/subscribe.rs, akasa-core/src/state.rs")])
prop("C02", "Retained messages: the last one per topic, and only that, is replayed",
 "The broker keeps for each topic the payload, QoS and publisher properties of the last retained publish, an empty retained payload removes it, and non-retained publishes never change it. A new subscription is sent exactly the stored messages whose topic its filter matches, each once, with the retain flag set (in MQTT 5, unless the subscription's options say otherwise). Stored messages survive the publisher's disconnect and are unaffected by operations on other topics.",
 ["inputs","histories"], "all sequences of retained publishes, clears and subscriptions",
 "Tests check single publishes and a fixed table; removal prunes a shared trie and matching has wildcard special cases, so errors appear only after particular histories.",
 [P+"retain.rs", V3+"packet/publish.rs", V5+"packet/publish.rs", V3+"packet/subscribe.rs", V5+"packet/subscribe.rs"],
 [("RetainTable insert/remove/get_matches", P+"retain.rs"), ("replay on subscribe", V3+"packet/subscribe.rs, "+V5+"packet/subscribe.rs")])
prop("C03", "No acknowledged QoS 1/2 message is lost",
 "Once the broker has acknowledged a QoS 1 or QoS 2 publish, the message is eventually delivered to every matching subscription with QoS above 0 whose session exists, within its configured queue limit. That includes sessions that are offline, reconnect, lose connections before acknowledging, or are taken over, and publishers that disconnect or drop right after the acknowledgement. Delivery is retried until the subscriber acknowledges it.",
 ["histories","schedules","fault_sequences"], "all interleavings of publish, acknowledge, disconnect, drop, reconnect and take-over within queue limits",
 "Tests drive one publisher and one subscriber in lock step; loss needs a backlog between tasks, a full channel or a connection ending at a particular point.",
 [P+"pending.rs", P+"online_loop.rs", V3+"message.rs", V5+"message.rs", V3+"packet/publish.rs", V5+"packet/publish.rs"],
 [("pending packet queue", P+"pending.rs"), ("broadcast queue and channel hand-over", P+"online_loop.rs"), ("offline loops", V3+"message.rs, "+V5+"message.rs")])
prop("C04", "QoS 2 is delivered exactly once, QoS 0 at most once",
 "A QoS 2 message published once by a client is delivered to the application side of each QoS 2 subscription exactly once, however often PUBLISH, PUBREC, PUBREL or PUBCOMP are repeated on either side and across reconnects of a kept session. QoS 0 messages are delivered at most once per matching subscription. The acknowledgement packets always name the packet identifier being acknowledged.",
 ["histories","fault_sequences"], "all repetition and reconnect patterns in the QoS 2 handshake",
 "Tests walk the ideal four-step handshake and a few repeats; exactly-once is a statement over every retry history.",
 [V3+"packet/publish.rs", V5+"packet/publish.rs", P+"pending.rs"],
 [("received QoS 2 packet id table", V3+"packet/publish.rs, "+V5+"packet/publish.rs"), ("pending packet states", P+"pending.rs")])
prop("C05", "Messages from one publisher arrive in publishing order",
 "For each publisher, topic and subscription, first transmissions of messages of one delivered QoS reach the subscriber in the order in which they were published. Retransmissions after a reconnect keep that order. This holds with many publishers, slow subscribers and a full flow-control window.",
 ["schedules","histories"], "all schedules of publishers, broker tasks and subscriber reads",
 "Ordering depends on the interaction of socket back-pressure, per-target queues, channels and the pending window, none of which is full in the tests.",
 [P+"online_loop.rs", P+"pending.rs", V3+"packet/publish.rs", V5+"packet/publish.rs"],
 [("per-target queues drained in order", P+"online_loop.rs"), ("pending window", P+"pending.rs")])
prop("C06", "Delivered QoS is the minimum of published and granted QoS",
 "The QoS granted to a subscription is the lower of what was requested and what the broker is configured to allow, reported faithfully in the subscribe acknowledgement in request order. Every message is delivered at the lower of its publish QoS and the granted QoS of the subscription it is delivered for, with retained messages no exception.",
 ["inputs","configurations","histories"], "all publish QoS, requested QoS, maximum QoS and re-subscription histories, both protocol generations",
 "Tests cover a few diagonal combinations for one protocol at a time.",
 [V3+"packet/subscribe.rs", V5+"packet/subscribe.rs", V3+"packet/publish.rs", V5+"packet/publish.rs"],
 [("granted QoS computation", V3+"packet/subscribe.rs, "+V5+"packet/subscribe.rs"), ("final QoS computation", V3+"packet/publish.rs, "+V5+"packet/publish.rs")])
prop("C07", "Persistent sessions are kept and resumed truthfully",
 "When a client reconnects without clean start before its session has ended, the connect acknowledgement says that a session is present, its subscriptions are still in force and everything queued while it was away is delivered; otherwise the acknowledgement says there is none. A session whose client asked not to keep it ends with the connection.",
 ["histories"], "all connect/disconnect histories over clean start, expiry and way of disconnecting",
 "Tests use one fixed reconnect; the guarantee is over sequences of sessions of one client identifier.",
 ["akasa-core/src/state.rs", V3+"packet/connect.rs", V5+"packet/connect.rs", V3+"message.rs", V5+"message.rs"],
 [("session hand-over through the control channel", "akasa-core/src/state.rs"), ("offline loop", V3+"message.rs, "+V5+"message.rs")])
prop("C08", "Clean start discards every trace of the previous session",
 "After a connect with clean start, nothing of the earlier session of that client identifier remains: no subscription is in force, no queued or unacknowledged message is delivered, and packet identifiers of unfinished QoS 2 exchanges are forgotten. A connect with a different protocol version never resumes the earlier session.",
 ["histories"], "all histories in which a session is discarded while it had state, online or offline",
 "Tests check the session-present flag; leftovers in shared tables show only when later messages are routed.",
 [V3+"packet/connect.rs", V5+"packet/connect.rs", "akasa-core/src/state.rs"],
 [("old state dropped on clean start", V3+"packet/connect.rs, "+V5+"packet/connect.rs"), ("client removal unsubscribes", "akasa-core/src/state.rs")])
prop("C09", "At most one live connection per client identifier",
 "When a client connects with an identifier that is in use, the new connection is served and the old one is closed (or, where the two protocol generations are incompatible, the new one is refused and the old one kept), so at quiescence exactly one connection per identifier is open and is the one that receives its messages. This holds for any number of racing connects, including ones that are aborted at any point of the handshake, and no identifier ever becomes unusable.",
 ["schedules","histories","fault_sequences"], "all interleavings of connects, take-overs, drops and kicks of one client identifier",
 "The tests never race two connects; the hand-over is a rendezvous between tasks through bounded channels.",
 ["akasa-core/src/state.rs", P+"online_loop.rs", V3+"packet/connect.rs", V5+"packet/connect.rs"],
 [("take-over rendezvous", "akasa-core/src/state.rs, "+P+"online_loop.rs")])
prop("C10", "The will message is published exactly when the connection ends badly",
 "A client's will is published exactly once if its network connection ends without a normal disconnect (drop, protocol error, keep-alive timeout) or, in MQTT 5, it disconnects asking for the will; and never after a normal disconnect. It carries the topic, payload, QoS, retain flag and properties given at connect, and is routed like any publish.",
 ["histories","fault_sequences"], "all ways a connection can end, with and without wills",
 "Tests cover drop and normal disconnect for one client; the condition is over every termination path.",
 [V3+"message.rs", V5+"message.rs", V3+"packet/connect.rs", V5+"packet/connect.rs"],
 [("will handling after the online loop", V3+"message.rs, "+V5+"message.rs")])
prop("C11", "MQTT 5 session expiry and will delay are timed as negotiated",
 "An MQTT 5 session survives its connection for at least its expiry interval and is gone once the interval has passed without reconnect; a reconnect in time cancels the expiry. A delayed will is published no earlier than its delay after the connection ended, at the latest when the session ends, and is cancelled by a reconnect within the delay.",
 ["histories"], "all combinations of expiry interval, will delay, disconnect kind and reconnect time",
 "Timer tasks race with reconnects; tests try one value each with short sleeps.",
 [V5+"message.rs", V5+"packet/connect.rs"],
 [("expiry and delay timer tasks", V5+"message.rs"), ("connected-time comparison", V5+"message.rs")])
prop("C12", "Shared subscriptions deliver each message to exactly one member",
 "Each message matching a shared subscription is delivered to exactly one of the current members of each share group, and independently to every matching ordinary subscription. Members joining or leaving never cause a message to be skipped, duplicated or sent to a former member. With the hash modes, messages of one key go to one member while membership is unchanged.",
 ["inputs","histories","configurations"], "all membership histories, group names, filters and selection modes",
 "Tests use one group with fixed members; member removal rewrites an index table.",
 [P+"route.rs", V3+"packet/publish.rs", V5+"packet/publish.rs"],
 [("group member table", P+"route.rs"), ("member selection", V3+"packet/publish.rs, "+V5+"packet/publish.rs")])
prop("C13", "MQTT 5 subscription options and identifiers are honoured",
 "No-local subscriptions never receive the client's own publishes; retain-as-published decides whether the retain flag of live messages is kept or cleared; retain handling decides whether stored messages are sent on subscribe. A message carries the identifiers of the matching subscriptions it is delivered for and no others. A repeated subscribe to the same filter replaces its options and identifier.",
 ["inputs","histories"], "all option combinations, overlapping filters and re-subscription histories",
 "Tests cover options one at a time; overlap and replacement need combinations.",
 [V5+"packet/subscribe.rs", V5+"packet/publish.rs", V5+"message.rs"],
 [("subscription data per filter", V5+"session.rs"), ("delivery-time option lookup", V5+"message.rs")])
prop("C14", "Flow control: in-flight window, unique packet ids, correct redelivery",
 "At any moment the broker has no more unacknowledged QoS 1/2 publishes outstanding to a client than the client's receive maximum (or the configured default), and their packet identifiers are distinct and non-zero. The window reopens with each acknowledgement so that queued messages keep flowing. Unacknowledged packets are retransmitted on session resumption with the same identifier and the duplicate flag, first transmissions never carry it.",
 ["histories","configurations"], "all acknowledgement orders, window sizes and reconnect points",
 "Tests acknowledge in order with default windows.",
 [P+"pending.rs", V3+"packet/common.rs", V5+"packet/common.rs", V5+"packet/publish.rs"],
 [("pending packet window", P+"pending.rs")])
prop("C15", "Maximum packet sizes are respected in both directions",
 "The broker never sends an MQTT 5 client a packet larger than the maximum the client announced, dropping the message for that client without disturbing others. A client packet larger than the broker's announced maximum is refused and closes only that connection.",
 ["inputs","configurations"], "all packet sizes around the limits, all property combinations and protocol mixes",
 "Size depends on properties added in transit (aliases, subscription identifiers); tests try one size.",
 [V5+"packet/publish.rs", V5+"packet/common.rs", V5+"packet/connect.rs"],
 [("size filter before delivery", V5+"packet/publish.rs")])
prop("C16", "Topic aliases always resolve to the topic the sender meant",
 "A publish that carries only an alias is routed to the topic last bound to that alias on the same connection, unknown, zero or too large aliases are refused, and bindings do not survive the connection. In the other direction the broker uses only aliases within the client's limit, and each delivered message resolves, by the client's own table, to the topic that was published.",
 ["inputs","histories"], "all alias binding, rebinding and reconnect histories in both directions",
 "Tests bind one alias once.",
 [V5+"packet/publish.rs", V5+"session.rs"],
 [("alias tables", V5+"session.rs, "+V5+"packet/publish.rs")])
prop("C17", "Keep-alive removes dead clients and never live ones",
 "A client that sends at least one packet per keep-alive interval is never disconnected for inactivity, on its first connection or after reconnects and take-overs. A client that stays silent is disconnected, not before one and a half times its keep-alive and within a bounded multiple of it; a keep-alive of zero disables this.",
 ["histories"], "all traffic timings, keep-alive values and reconnect histories",
 "Real intervals are tens of seconds; the tests wait for none of them, and reconnects leave old timers behind.",
 [P+"common.rs", V3+"packet/connect.rs", V5+"packet/connect.rs"],
 [("keep-alive timer", P+"common.rs")])
prop("C18", "No broker access without successful authentication",
 "With authentication enabled, a connection is accepted only if the user name and password match the configured entry, or a configured SCRAM exchange completes successfully for a configured user. Every other attempt, whatever the order, repetition or content of packets, is refused with an error and closed, and until acceptance nothing it sends has any effect on sessions, subscriptions or messages.",
 ["inputs","histories","configurations"], "all credential values, packet sequences and authentication configurations",
 "Tests try a right and a wrong password; the gate is over all packet sequences before acceptance.",
 [V3+"packet/connect.rs", V5+"packet/connect.rs", P+"auth.rs"],
 [("credential check at connect", V3+"packet/connect.rs, "+V5+"packet/connect.rs"), ("SCRAM rounds", V5+"packet/connect.rs")])
prop("C19", "The SCRAM server authenticates exactly the holders of the password",
 "For every user name, password, salt, iteration count and authorization identity, a client that follows RFC 5802 with the right password is authenticated and receives the correct server signature, and authorised only to act as itself. Any other final message (wrong proof, nonce, channel-binding data, field order, state) is refused. No input makes the server panic, and server nonces extend the client nonce and are fresh.",
 ["inputs","histories"], "all handshake messages, including malformed and replayed ones, in any order",
 "The four unit tests parse fixed strings and never run a complete handshake.",
 ["akasa-core/src/protocols/scram/server.rs", "akasa-core/src/protocols/scram/mod.rs"],
 [("handshake state machine", "akasa-core/src/protocols/scram/server.rs"), ("proof computation", "akasa-core/src/protocols/scram/mod.rs")])
prop("C20", "The SCRAM client proves the password and verifies the server",
 "For every user name, password and server parameters the client's messages are the ones RFC 5802 prescribes, including escaping of names. The client completes only if the server's nonce extends its own and the server signature is correct, and reports every other server message as an error. No server message makes it panic, and calls out of order fail without effect.",
 ["inputs","histories"], "all server messages and call orders",
 "No test exercises the client.",
 ["akasa-core/src/protocols/scram/client.rs", "akasa-core/src/protocols/scram/mod.rs"],
 [("handshake state machine", "akasa-core/src/protocols/scram/client.rs")])
prop("C21", "The password store accepts exactly the stored passwords and round-trips",
 "For every algorithm, salt, iteration count and password, a stored entry accepts that password and no other, and the hash is the documented function of its inputs. Writing the store and reading it back yields the same entries. Malformed lines are rejected with an error, never a panic and never a silently different entry.",
 ["inputs","configurations"], "all users, passwords, algorithms, salts and file contents",
 "No test covers the password file.",
 [P+"auth.rs"],
 [("hash, check, dump and load functions", P+"auth.rs")])
prop("C22", "The PROXY v2 parser accepts exactly well-formed headers and reports them",
 "For every byte sequence the parser returns the addresses, protocol and host name the header encodes, or refuses it when it is malformed, truncated, of the wrong version, over-long, fails its checksum or does not fit the configured TLS mode. It consumes exactly the header's bytes, never panics, and gives the same answer however the bytes are split into reads.",
 ["inputs","schedules"], "all byte sequences and read fragmentations",
 "Five fixed headers are tested.",
 ["akasa-core/src/server/proxy.rs"],
 [("header and TLV parsing", "akasa-core/src/server/proxy.rs")])
prop("C23", "Client bookkeeping returns to what is actually connected",
 "At quiescence the number of online clients equals the number of accepted open connections and the number of known clients equals that plus the kept offline sessions, after any history of connects, take-overs, failures at any handshake step, kicks and expiries. A finished session leaves no subscription behind.",
 ["histories","schedules","fault_sequences"], "all connection histories including aborted handshakes and failed writes",
 "Tests read the counters after simple histories; leaks accumulate on rare error paths.",
 ["akasa-core/src/state.rs", V3+"message.rs", V5+"message.rs"],
 [("client tables", "akasa-core/src/state.rs")])
prop("C24", "Hostile input harms only the connection that sent it",
 "Whatever bytes a connection sends, before or after connecting, the broker neither panics nor stops serving other clients, and messages of others are neither altered nor lost. A packet that breaks the protocol is never acted on: it is answered with an error or the connection is closed.",
 ["inputs","fault_sequences"], "all byte streams and packet sequences on either protocol generation",
 "Tests send a few hand-made bad packets.",
 ["akasa-core/src/server/mod.rs", V3+"message.rs", V5+"message.rs", P+"online_loop.rs"],
 [("decode error handling", V3+"message.rs, "+V5+"message.rs"), ("first-packet dispatch", "akasa-core/src/server/mod.rs")])
prop("C25", "Hooks see every request and their decisions are carried out",
 "Each connect, publish, subscribe, unsubscribe and disconnect is reported to the enabled hooks exactly once, before and after the operation as applicable, with the packet and session it concerns. A hook that refuses a request stops it from having any effect and the client gets the corresponding error; changes and extra actions the hook returns take effect as returned. Disabled hooks are not called.",
 ["inputs","histories","configurations"], "all request mixes, hook decisions and enabled sets, including slow hooks",
 "Tests cover each hook once, mostly with immediate answers.",
 ["akasa-core/src/hook.rs", V3+"message.rs", V5+"message.rs", P+"online_loop.rs"],
 [("hook dispatch", "akasa-core/src/hook.rs"), ("suspension while a hook runs", P+"online_loop.rs")])
prop("C26", "Unfinished handshakes are cut off, finished ones are not",
 "A connection that has not completed its transport and MQTT handshake within the fixed time limit is closed and leaves nothing behind, however slowly it feeds bytes. A connection that completed the handshake is never closed by that limit.",
 ["inputs","schedules"], "all partial handshakes and timings, all transports",
 "Tests do not wait for the limit.",
 ["akasa-core/src/server/mod.rs", V3+"message.rs", V5+"message.rs"],
 [("connect timeout", "akasa-core/src/server/mod.rs")])
prop("C27", "Transport framing never changes behaviour or stalls delivery",
 "The packets a client receives and the effects of those it sends depend only on the byte streams, not on how reads and writes are fragmented, delayed or wrapped in WebSocket frames. Data the transport is able to accept is never held back waiting for unrelated events.",
 ["schedules","inputs"], "all fragmentations, partial writes, write back-pressure and frame boundaries",
 "The in-memory test transport never splits or blocks a write.",
 [P+"online_loop.rs", "akasa-core/src/server/mod.rs"],
 [("write batching and residual data", P+"online_loop.rs"), ("WebSocket adaptor", "akasa-core/src/server/mod.rs")])
prop("C28", "TLS listeners enforce the configured client-certificate policy",
 "A TLS listener serves only clients that complete the handshake under its configuration: with peer verification a client certificate not issued by the configured authority is refused, and a missing one is refused when certificates are required and accepted when they are optional. Without verification any TLS client is served, and a plain-text client never is.",
 ["configurations","inputs"], "all policy settings and client certificate situations",
 "No test builds a TLS listener.",
 ["akasa-core/src/server/mod.rs"],
 [("TLS context construction", "akasa-core/src/server/mod.rs")])
prop("C29", "No undefined behaviour or data race under any workload",
 "Running the broker, with any mix of clients, hooks and threads, never causes an out-of-bounds or use-after-free access, an invalid value, or an unsynchronised conflicting access to memory.",
 ["schedules","inputs"], "all workloads on a multi-threaded runtime",
 "The tests run without sanitizers; unsafe code hands raw pointers to hook futures and reinterprets uninitialised buffers.",
 ["akasa-core/src/hook.rs", P+"online_loop.rs", V3+"message.rs", V5+"message.rs"],
 [("locked hook context raw pointers", "akasa-core/src/hook.rs"), ("uninitialised read buffers", "akasa-core/src/hook.rs, "+P+"online_loop.rs")])
prop("C30", "Announced capability limits are truthful and enforced",
 "The limits and capabilities the broker announces when a client connects (maximum QoS, retain, wildcard, subscription-identifier and shared-subscription availability, receive maximum, packet size, alias maximum, assigned identifier, server keep-alive, session expiry) are the ones it then applies. A request beyond an announced limit never takes the effect announced as unavailable and gets the prescribed error where one is defined.",
 ["configurations","inputs"], "all configurations and requests",
 "Tests toggle single options and check the announcement or the effect, not their agreement.",
 [V5+"packet/connect.rs", V5+"packet/subscribe.rs", V5+"packet/publish.rs", "akasa-core/src/config.rs"],
 [("connect acknowledgement properties", V5+"packet/connect.rs")])
prop("C31", "HTTP endpoints report the broker's actual state",
 "The health endpoint answers success while the broker serves, and the metrics endpoint, when enabled, reports well-formed values equal to the broker's current client counts; when disabled it is absent.",
 ["histories","configurations"], "all client histories and endpoint configurations",
 "Tests read the endpoints on an idle broker.",
 ["akasa-core/src/server/http_api.rs", "akasa-core/src/protocols/http/mod.rs", "akasa-core/src/protocols/http/prometheus.rs"],
 [("metrics handler", "akasa-core/src/protocols/http/prometheus.rs")])
prop("C32", "Configuration validation accepts exactly usable configurations",
 "A configuration is accepted if and only if it satisfies the documented constraints: a password file when authentication is on, a QoS limit of at most 2, non-zero packet sizes, only supported SASL mechanisms, SCRAM iteration counts of at least 4096, and at least one listener. Serialising an accepted configuration and reading it back gives the same configuration.",
 ["configurations"], "all configurations", "No test validates configurations.",
 ["akasa-core/src/config.rs"], [("validity check", "akasa-core/src/config.rs")])
prop("C33", "Messages are forwarded unaltered",
 "The topic, payload and, between MQTT 5 clients, the content type, response topic, correlation data, payload-format flag and user properties in order of every delivered message equal those published, live, queued, retained or as a will. Between protocol generations the payload and topic are unchanged. Between MQTT 5 clients an expired message is not delivered and a delivered one carries no more than its remaining lifetime.",
 ["inputs","histories"], "all payloads and properties, over all delivery paths",
 "Tests compare a few short payloads with one property each.",
 [V3+"packet/publish.rs", V5+"packet/publish.rs", P+"retain.rs", P+"pending.rs"],
 [("publish forwarding", V3+"packet/publish.rs, "+V5+"packet/publish.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows))
