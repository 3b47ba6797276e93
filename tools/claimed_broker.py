HIST = "offline checker over recorded concurrent histories (random drops, stalls, take-overs, partial transfers; virtual time): "
MODEL = "sequential reference model of the broker run in step with the real one over random operation histories: "
CLAIMED.update({
 "C01": ("broker", MODEL + "who receives which publish"),
 "C02": ("broker", MODEL + "retained store and its delivery"),
 "C06": ("broker", MODEL + "QoS of every delivery"),
 "C07": ("broker", MODEL + "what a resumed session still holds"),
 "C08": ("broker", MODEL + "nothing survives a discarded session"),
 "C10": ("broker", MODEL + "will published exactly when due"),
 "C12": ("broker", MODEL + "shared-subscription assignment solved per group"),
 "C13": ("broker", MODEL + "no local, retain handling, retain as published, subscription identifiers"),
 "C33": ("broker", MODEL + "payload, topic and properties of every delivery; remaining expiry"),
 "C03": ("broker", HIST + "every acknowledged QoS 1/2 message reaches every matching persistent subscriber"),
 "C04": ("broker", HIST + "QoS 2 once, QoS 0 at most once, no unknown acknowledgement"),
 "C05": ("broker", HIST + "per publisher, topic and QoS the order of publication"),
 "C14": ("broker", HIST + "receive maximum, packet identifiers, retransmission"),
 "C09": ("broker", "online monitor of racing connects, take-overs and aborted handshakes: at rest one live connection per identifier, the others closed"),
 "C23": ("broker", "online monitor of racing connects: client counts, sessions and routes agree with the observable state at every point of rest"),
 "C11": ("broker", "timed monitor under virtual time: session and will deadlines observed at fine resolution through ends, returns and old timers"),
 "C17": ("broker", "timed monitor under virtual time: lively clients stay, silent ones go after 1.5 intervals"),
 "C26": ("broker", "timed monitor under virtual time: complete, slow and unfinished handshakes on plain, TLS and WebSocket listeners"),
 "C15": ("broker", "monitor of every byte received against the announced maximum, with messages of sizes around the limits of both sides"),
 "C16": ("broker", "monitor of every alias received, and of the topic every alias sent resolves to"),
 "C18": ("broker", "online monitor of the authentication gate: an independent client of passwords and SCRAM with wrong, altered, out-of-order and pipelined attempts; everything a refused connection could have touched is examined"),
 "C21": ("broker", "differential monitor of the password store against an independent reader, hash and a broker that uses it"),
 "C30": ("broker", "monitor comparing what CONNACK announces with the configuration and with what the broker then does within and beyond it"),
 "C28": ("broker", "monitor of real TLS listeners: clients in every certificate situation against every policy"),
 "C31": ("broker", "monitor of the live HTTP endpoints against the clients that come and go meanwhile"),
 "C32": ("broker", "monitor of configuration judgement and serialisation over random configurations, against an independent reading of the documented rules"),
 "C25": ("broker", "online monitor with recording hooks: the sequence and content of calls, refusals, edits, actions, slow and failing hooks against an independent model"),
 "C27": ("broker", "differential monitor: one script of client bytes over a smooth stream and over cut, delayed, buffered, blocked, TLS and WebSocket ones; at every rest nothing may lie about that the transport would take"),
 "C24": ("broker", "online monitor of sieges: healthy clients judged event by event while hostile connections (after CONNECT, as first packet, byte noise, broken TLS and WebSocket, floods) attack; effects and answers of the attackers judged too"),
 "C29": ("san", "AddressSanitizer, ThreadSanitizer and the Miri interpreter over the monitors' workloads and parallel storms on real threads"),
})
for i in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C12", "C23"):
    CLAIMED[i] = (CLAIMED[i][0], CLAIMED[i][1] + "; then storms and duels of real threads with schedule noise at every lock, judged over their logs")
