#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
CONN_HOOK = "Connection over an arbitrary byte stream (cfg verif_hooks in cdn-proto/src/connection/protocols/mod.rs)"
BH = "cdn-broker/src/tasks/broker/handler.rs"; UH = "cdn-broker/src/tasks/user/handler.rs"
CM = "cdn-broker/src/connections/mod.rs"; VM = "cdn-broker/src/connections/versioned_map.rs"
RM = "cdn-broker/src/connections/broadcast/relational_map.rs"
PM = "cdn-proto/src/connection/protocols/mod.rs"

p("C01", "Direct messages reach exactly the addressed user, once and unaltered",
  "A direct message sent by a connected user to a key that has a settled live session anywhere in the mesh arrives at that session exactly once, byte for byte as the sender framed it, whichever brokers the two users are on. No other user ever receives it, and it never arrives twice even while the user directory is still changing. A message addressed to a key with no session reaches nobody and disconnects nobody.",
  ["inputs", "histories", "configurations"], "every mesh of 1-3 brokers, placement of users, recipient bytes, payload and interleaving of sends with connects and disconnects",
  "the existing tests check three hand-written sends between hand-placed users of one broker, with fixed payloads; which broker forwards and to whom depends on the whole history of the directory",
  [BH, UH, CM, "cdn-broker/src/tasks/user/sender.rs", "cdn-broker/src/tasks/broker/sender.rs"],
  [("direct routing by user directory, local-only for broker-origin messages", BH), ("raw bytes forwarded, not re-encoded", UH)],
  [("user directory", "which broker each user key is connected to", CM)], ["frames received by users"], CONN_HOOK)

p("C02", "Broadcasts reach every subscriber exactly once and nobody else",
  "Once subscriptions have settled, a broadcast for a set of topics arrives, unaltered, exactly once at every connected user subscribed to at least one of those topics, on any broker, and at no other user. Matching several topics, or naming a topic more than once, does not duplicate delivery. The sender receives its own broadcast exactly when it is itself subscribed.",
  ["inputs", "histories", "configurations"], "every mesh of 1-3 brokers, subscription history, topic list (with duplicates and invalid topics) and payload",
  "the existing broadcast test uses two fixed topics and one fixed fan-out; the union over topics, the de-duplication and the two-hop forwarding depend on arbitrary subscription histories on several brokers",
  [BH, UH, CM, RM], [("interested-party lookup as a set union over topics", CM), ("broker-origin broadcasts go to local users only", BH)],
  [("topic interest", "which users and brokers want which topics", RM)], ["frames received by users"], CONN_HOOK)

p("C03", "Messages from one sender to one recipient arrive in the order sent",
  "For any two live sessions, the messages (direct and broadcast mixed) that the first sends and the second receives arrive in the order in which they were sent. This holds whether or not they cross brokers, for any message sizes, any interleaving with other senders, and any delays or fragmentation in the network.",
  ["inputs", "schedules", "histories"], "every interleaving of sends by several senders, message sizes from empty to multi-segment, and per-link delay and fragmentation",
  "the existing tests never have two messages in flight between the same pair",
  [BH, UH, PM, "cdn-broker/src/tasks/user/sender.rs"], [("one sequential receive loop per connection", UH), ("FIFO channel and single writer task per connection", PM)],
  [], ["order of frames at each recipient"], CONN_HOOK)

p("C04", "Subscriptions follow the session's own requests, in order",
  "A user's subscriptions are exactly the valid topics of its admission request, changed by each later subscribe and unsubscribe in the order it sent them relative to its other messages; topics the deployment does not define are ignored, and nothing survives into the user's next session. A subscribe, unsubscribe or broadcast naming no valid topic ends that session, and only that session. Admission with no valid topic is allowed and means no subscriptions.",
  ["inputs", "histories"], "every sequence of subscribe/unsubscribe/broadcast/reconnect requests over all 256 topic bytes",
  "the existing subscription test performs one subscribe and one unsubscribe per client; order, duplicates, invalid topics and session boundaries need generated histories against a model",
  [UH, CM, RM, "cdn-proto/src/def.rs"], [("topic pruning", "cdn-proto/src/def.rs"), ("bidirectional subscription map", RM)],
  [("subscription map", "user to topics and back", RM)], ["deliveries and session closure"], CONN_HOOK)

p("C05", "One live session per user key; the newest login wins",
  "When a user key is admitted again, on the same broker or on another one, the older session is closed, the newer one stays open, and messages for the key go to the newer one; sessions of other keys are untouched. When the same key logs in on several brokers before they have heard of each other, exactly one of those sessions survives and every broker routes to it. A late failure or closure of a superseded connection never removes the session that replaced it.",
  ["histories", "schedules", "fault_sequences"], "every history of logins, logouts and abrupt disconnects of a set of keys over 1-3 brokers with delayed links",
  "the existing double-connect tests perform one reconnect on one or two brokers with long sleeps; orderings of login, logout and sync messages are not explored",
  [CM, VM, UH, BH], [("add-user removes the previous session", CM), ("versioned directory merge with eviction", VM)],
  [("user directory", "versioned user to broker map", VM)], ["session closure, frames received"], CONN_HOOK)

p("C06", "The user directory heals after broker crashes and link failures",
  "After brokers crash, restart or lose and regain links with one another, once the mesh is whole again and two sync periods have passed, every broker routes a direct message for every connected user to that user, and messages for disconnected users go nowhere. Re-establishing links or repeating sync traffic never disconnects a user whose latest login is where it is connected.",
  ["fault_sequences", "crash_points", "histories"], "every sequence of link cuts, broker crashes and restarts, logins, logouts and moves, with at most one move of a key per outage",
  "no existing test cuts a link or restarts a broker; the directory's versions, tombstones and full/partial syncs only interact after such faults",
  [VM, CM, BH, "cdn-broker/src/tasks/broker/sync.rs", "cdn-broker/src/tasks/broker/heartbeat.rs"], [("full sync on link establishment", BH), ("partial sync every 10 s and on login", "cdn-broker/src/tasks/broker/sync.rs")],
  [("user directory", "versioned user to broker map with tombstones", VM)], ["end-to-end probes from every broker to every key"], CONN_HOOK)

p("C07", "Topic interest converges across brokers after changes and faults",
  "After any history of subscribes, unsubscribes, logins, logouts, link failures and broker restarts, once the mesh is whole again and two sync periods have passed, a broadcast entering at any broker reaches exactly the subscribers on all brokers. While no fault is in progress a new subscription becomes effective mesh-wide within one sync period.",
  ["fault_sequences", "histories"], "every history of subscription changes on 2-3 brokers interleaved with link cuts and broker restarts",
  "the existing unit test applies two hand-written sync maps; loss of partial syncs, restarts and flapping subscriptions are not reached",
  [CM, VM, BH, "cdn-broker/src/tasks/broker/sync.rs"], [("topic sync map with versions, full sync on link establishment", CM)],
  [("topic sync state", "per-peer versioned map of subscribed topics", CM)], ["end-to-end probes per topic from every broker"], CONN_HOOK)

p("C08", "A misbehaving peer harms only its own connection",
  "Whatever bytes or messages a user or a broker peer sends - malformed, truncated or unexpected - the broker keeps running, other users keep their sessions, subscriptions and deliveries, and nothing is delivered to users that was not sent as a message to them. A user that sends malformed data, or a message kind users may not send, is disconnected. A broker link that carries undecodable data is dropped and re-established without lasting harm.",
  ["inputs", "histories"], "every byte string and every message kind at every protocol stage, before and after authentication, on user and broker listeners",
  "no existing test sends a malformed or unexpected message to a broker",
  [UH, BH, "cdn-proto/src/message.rs", "cdn-proto/src/connection/auth/broker.rs"], [("error ends the receive loop and removes the peer", UH), ("unexpected broker messages ignored", BH)],
  [], ["session closure, deliveries to bystanders"], CONN_HOOK)

p("C09", "A stalled peer is shed and delays nobody for long",
  "A user or broker that stops reading, or stops in the middle of a message's body, is disconnected within a bounded time; meanwhile and afterwards other users' messages keep being delivered in bounded time, and all buffer memory the stalled peer occupied becomes available again, even when the broker's memory pool is small and was exhausted by it.",
  ["schedules", "fault_sequences", "configurations"], "every choice of stalled peers, stall point, traffic mix and memory pool size that fits the largest message",
  "no existing test has a peer that stops reading",
  [PM, "cdn-proto/src/connection/limiter/pool.rs", "cdn-broker/src/tasks/user/sender.rs"], [("5 s write and body-read timeouts", PM), ("pool permits released on drop", "cdn-proto/src/connection/limiter/pool.rs")],
  [("memory pool", "bytes available to received messages", "cdn-proto/src/connection/limiter/pool.rs")], ["delivery times at bystanders, closure of the stalled session"], CONN_HOOK)

p("C10", "Message framing is lossless under any fragmentation and rejects bad frames",
  "Any sequence of messages sent over a connection is received as the same sequence whatever way the byte stream is fragmented or delayed, and the wire format is a big-endian 32-bit length followed by the message bytes. A truncated frame or a frame longer than the maximum message size is never delivered: the messages before it are, then receiving fails. A peer that sends a length but not the body within five seconds is dropped.",
  ["inputs", "schedules"], "every sequence of message sizes including empty ones, every fragmentation, every truncation point and length header",
  "the existing protocol tests send one message each way through an unfragmented local socket",
  [PM], [("length-delimited reads with size check and timeout", PM)], [], ["messages received, bytes on the wire"], CONN_HOOK)

p("C11", "All transports deliver reliably, in order and without cross-talk",
  "Over every supported transport (plain TCP, TLS over TCP, QUIC and in-memory) a connection delivers the messages sent on it, in both directions, complete and in order, and each accepted connection is paired with exactly one connecting peer even when many connect at once. Messages sent before a successful soft close are delivered even though the sender drops the connection right after. When one side goes away the other's receive fails rather than hanging or inventing data.",
  ["inputs", "schedules", "configurations"], "every transport, message batch, number of concurrent connections and order of send, soft close and drop",
  "the existing tests open one connection per transport and exchange one message each way; concurrent connects and soft close are never exercised",
  [PM, "cdn-proto/src/connection/protocols/tcp.rs", "cdn-proto/src/connection/protocols/tcp_tls.rs", "cdn-proto/src/connection/protocols/quic.rs", "cdn-proto/src/connection/protocols/memory.rs"],
  [("writer task, flush and soft close", PM), ("QUIC finish and wait for stop", "cdn-proto/src/connection/protocols/quic.rs")], [], ["messages received at both ends"])

p("C12", "Encrypted transports only talk to servers certified by the trusted authority",
  "A client connecting over TLS or QUIC completes the connection only if the server presents a currently valid certificate for the name \"espresso\" that chains to the authority the client was told to trust (the production one or, on request, the local one). Certificates produced for a server from an authority are accepted by clients trusting that authority and by no others.",
  ["inputs", "configurations"], "every server certificate varying issuer, subject names, validity period and CA flag, both trust settings and both encrypted transports",
  "the existing tests only connect to a correctly certified server with the local authority",
  ["cdn-proto/src/crypto/tls.rs", "cdn-proto/src/connection/protocols/tcp_tls.rs", "cdn-proto/src/connection/protocols/quic.rs"],
  [("root store with exactly one authority", "cdn-proto/src/crypto/tls.rs"), ("fixed server name", "cdn-proto/src/connection/protocols/tcp_tls.rs")], [], ["connection success or failure"])

p("C13", "The memory pool bounds buffered bytes and never leaks or deadlocks",
  "The bytes of received messages that are still held never exceed the configured pool size, however many connections share it; when all copies of a message are dropped its bytes become available again, including after errors, timeouts and closed connections. Any message that fits the pool is eventually received once enough memory is free, and a message that can never fit fails its own connection instead of blocking the others.",
  ["inputs", "histories", "fault_sequences"], "every sequence of receives, clones, drops, cancellations and connection failures over pools of any size",
  "no existing test uses a bounded pool",
  ["cdn-proto/src/connection/limiter/pool.rs", "cdn-proto/src/connection/limiter/mod.rs", PM], [("semaphore permits tied to message lifetime", "cdn-proto/src/connection/limiter/pool.rs")],
  [("pool", "available bytes", "cdn-proto/src/connection/limiter/pool.rs")], ["messages received, whether a probe allocation of the full pool succeeds"], CONN_HOOK)

p("C14", "The message codec round-trips and follows the published schema",
  "Every message the system can express serializes to bytes that deserialize to an equal message, for all field contents and sizes. The bytes follow the published Cap'n Proto schema, so an independent implementation of that schema reads the same fields, and valid encodings made by an independent implementation (including multi-segment ones) deserialize to the message they describe. A message too large to be framed is refused with an error, and no smaller one is.",
  ["inputs"], "every message kind and field content, from empty to larger than one Cap'n Proto segment, and every valid alternative encoding",
  "the existing test round-trips one fixed instance per kind, which a symmetric mistake in both directions passes",
  ["cdn-proto/src/message.rs", "cdn-proto/schema/messages.capnp", "cdn-proto/schema/messages_capnp.rs"], [("Cap'n Proto builder and reader per kind", "cdn-proto/src/message.rs")], [], ["decoded fields, encoded bytes"])

p("C15", "Decoding arbitrary bytes is safe",
  "Deserializing any byte string either yields a message or an error; it never panics, never takes time or memory out of proportion to the input, and what it yields can be serialized again to an equal message. Decoding of the other externally supplied strings - broker identifiers - is equally safe and loses no valid identifier.",
  ["inputs"], "every byte string, in particular mutations of valid encodings and adversarial pointers",
  "the existing tests only decode bytes the encoder just produced",
  ["cdn-proto/src/message.rs", "cdn-proto/src/discovery/mod.rs"], [("traversal limit tied to input length", "cdn-proto/src/message.rs")], [], ["result, panic, output size"])

p("C16", "The marshal admits exactly the users it should, and always answers",
  "The marshal issues a permit exactly when the request carries a well-formed key, a signature by that key over the timestamp in the user-marshal domain, a timestamp at most five seconds old and not in the far future, and a key that the whitelist (if one is set) contains; the permit is registered for that user's canonical key and for the least loaded live broker, whose public endpoint is returned, and expires after about half a minute. Every other request is answered with an explicit failure, also when the discovery store fails, or, if it is no authentication request at all or cannot be decided within five seconds, its connection is closed; no permit is registered for it, and others continue to be served.",
  ["inputs", "configurations", "fault_sequences"], "every authentication request - key, timestamp, signature, signing domain, encoding - whitelist, broker population and discovery failure",
  "the end-to-end tests only authenticate well-behaved clients with the current time",
  ["cdn-proto/src/connection/auth/marshal.rs", "cdn-marshal/src/handlers.rs", "cdn-proto/src/crypto/signature.rs"], [("verification sequence", "cdn-proto/src/connection/auth/marshal.rs")],
  [("permits", "permit to user key and broker", "discovery store")], ["response message, permits in the store"], CONN_HOOK)

p("C17", "Permits are single-use, bound to broker and user, and expire",
  "A permit issued for a user and a broker admits exactly one connection, to that broker only, under exactly that user's key, and only before its expiry; every other use - a second use (also concurrent), another broker, after expiry, a value never issued - is refused with an explicit failure and admits nobody. Issued permits are never the reserved values used for plain success or failure, and using one does not invalidate other outstanding permits.",
  ["inputs", "histories", "schedules"], "every sequence of issue, use, reuse, misdirected use, concurrent use and expiry over several users and brokers, for each discovery store",
  "the existing tests never reuse, misdirect or expire a permit",
  ["cdn-proto/src/discovery/embedded.rs", "cdn-proto/src/discovery/redis.rs", "cdn-proto/src/connection/auth/broker.rs"], [("atomic delete-returning", "cdn-proto/src/discovery/embedded.rs"), ("GETDEL with expiry", "cdn-proto/src/discovery/redis.rs")],
  [("permits", "permit records", "discovery store")], ["validation results, admission of sessions"], CONN_HOOK)

p("C18", "Broker links require mutual proof of the shared broker key",
  "A broker establishes a link only with a peer that proves, by a signature in the broker-broker domain over a timestamp at most five seconds old, possession of the same broker key, in both directions and whichever side connected; until both proofs succeed no message from that peer is processed and no sync or user message is sent to it. A failed or stalled handshake is abandoned within five seconds, answered with an explicit failure where a proof was wrong, and does not disturb other links or users.",
  ["inputs", "histories", "schedules"], "every handshake transcript of an adversarial peer in both roles: wrong key, wrong domain, stale or future timestamp, replay, wrong order, extra messages, silence",
  "the existing tests inject brokers past authentication",
  ["cdn-proto/src/connection/auth/broker.rs", BH], [("verify then authenticate, by direction", BH)], [], ["handshake responses, traffic sent to the peer, effect of its messages"], CONN_HOOK)

p("C19", "The whitelist store is set atomically and answered faithfully",
  "After the whitelist is set to a list of keys, exactly those keys are allowed until it is set again, whatever the previous list and however the list is ordered or repeats keys; before it is ever set everyone is allowed. A failed or concurrent update never leaves it in a state that is neither the old list nor the new one.",
  ["inputs", "histories", "schedules"], "every sequence of whitelist updates (empty, repeated keys, large) and concurrent checks, for each discovery store",
  "the existing end-to-end whitelist test sets one list once",
  ["cdn-proto/src/discovery/embedded.rs", "cdn-proto/src/discovery/redis.rs"], [("single statement batch or MULTI/EXEC", "cdn-proto/src/discovery/embedded.rs")],
  [("whitelist", "allowed keys", "discovery store")], ["whitelist answers"])

p("C20", "Users dropped from the whitelist are evicted within a minute",
  "Each connected user whose key is no longer whitelisted is disconnected within about a minute of the change, on every broker, and every user who is still whitelisted keeps its session, subscriptions and deliveries. If the whitelist cannot be read, nobody is disconnected on account of it, and checking resumes afterwards.",
  ["histories", "fault_sequences"], "every history of whitelist changes, logins and discovery outages over 1-2 brokers with many users",
  "the existing end-to-end test stops at authentication time; eviction is never exercised",
  ["cdn-broker/src/tasks/broker/whitelist.rs", CM], [("periodic whitelist task", "cdn-broker/src/tasks/broker/whitelist.rs")], [], ["session closure times, deliveries"], CONN_HOOK)

p("C21", "The registry reports live brokers and picks the least loaded one",
  "Each discovery store reports to a broker exactly the other brokers whose last heartbeat has not expired, and picks for a new user a live broker whose reported connections plus outstanding unexpired permits is minimal; with no live broker it reports an error. A broker's newest heartbeat replaces its earlier ones.",
  ["inputs", "histories"], "every sequence of heartbeats, permit issues and uses, and expiries over several brokers, for each discovery store",
  "no existing test has more than two brokers or looks at the choice",
  ["cdn-proto/src/discovery/embedded.rs", "cdn-proto/src/discovery/redis.rs"], [("heartbeat with expiry", "cdn-proto/src/discovery/redis.rs"), ("minimum over brokers", "cdn-proto/src/discovery/embedded.rs")],
  [("broker registry", "brokers, loads, expiries", "discovery store")], ["registry answers"])

p("C22", "Brokers keep registering and keep the mesh complete",
  "While it runs, a broker reports its current number of connected users to discovery about every ten seconds with an expiry long enough to bridge several missed reports, whatever earlier reports failed or hung. Any two registered, mutually reachable brokers become linked within a bounded time after start, restart, link loss or discovery outage, and are linked once. Failures of discovery or of other brokers never stop this task, make it spin, or disturb local users.",
  ["fault_sequences", "schedules"], "every sequence of discovery errors and hangs, link cuts, unreachable peers and broker restarts",
  "the existing tests never fail discovery or restart a broker",
  ["cdn-broker/src/tasks/broker/heartbeat.rs", "cdn-broker/src/lib.rs"], [("heartbeat loop with timeouts", "cdn-broker/src/tasks/broker/heartbeat.rs")],
  [("links", "established broker links", CM)], ["discovery calls with virtual times, link table of the simulated network"], CONN_HOOK)

p("C23", "Clients reconnect by themselves and keep their subscriptions",
  "However often its connection, its broker or the marshal fails, a client that keeps being used gets connected again within a bounded time after the services are reachable, and is then subscribed to exactly the topics it was created with, plus those successfully subscribed, minus those successfully unsubscribed. While disconnected, operations fail promptly with an error instead of being silently lost or hanging, and no message is delivered twice.",
  ["fault_sequences", "histories"], "every interleaving of subscribe/unsubscribe/send/receive with cut connections, refused connections, hung marshals and broker restarts",
  "the existing end-to-end tests reconnect once by explicit double connect",
  ["cdn-client/src/lib.rs"], [("single reconnection task with retry", "cdn-client/src/lib.rs"), ("subscription set replayed on connect", "cdn-client/src/lib.rs")],
  [("subscribed topics", "topics to restore", "cdn-client/src/lib.rs")], ["results of client calls, deliveries, subscriptions seen by the broker"], CONN_HOOK)

p("C24", "Closing a client is final",
  "After a client is closed, at any moment and in any state, its connection is gone, every later operation on it or on any of its clones fails promptly, and it never connects again. Operations in progress when it is closed finish promptly, and waiting for initialization reports failure rather than success.",
  ["schedules", "histories"], "every point of closing relative to connecting, reconnecting, sending, receiving and waiting, and every clone",
  "no existing test closes a client while it is connecting",
  ["cdn-client/src/lib.rs"], [("closed semaphore", "cdn-client/src/lib.rs")], [("connecting guard", "closed means closed", "cdn-client/src/lib.rs")], ["results of client calls, connections seen by the servers"], CONN_HOOK)

p("C25", "A client's valid subscription calls never cost it its session",
  "Subscribing to valid topics it already has, or unsubscribing from valid topics it does not have, succeeds and leaves the client's session and other subscriptions as they were. After any sequence of successful calls with valid topics, the subscriptions in effect at the broker equal the client's own record of them.",
  ["inputs", "histories"], "every sequence of subscribe and unsubscribe calls with valid topics, redundant, repeated or overlapping, from one or several clones",
  "the existing tests subscribe once to a fresh topic and unsubscribe once from it",
  ["cdn-client/src/lib.rs", UH, "cdn-proto/src/def.rs"], [("delta computation against the client's record", "cdn-client/src/lib.rs")],
  [("subscribed topics", "the client's record", "cdn-client/src/lib.rs")], ["session identity and deliveries"], CONN_HOOK)

p("C26", "Message hooks decide the fate of messages and nothing else",
  "For every message a user or broker peer sends, the configured hook for that kind of peer runs exactly once, in order, on a per-connection copy that was given an identifier which is equal for equal peers and (practically) distinct for distinct ones; if it says skip, the message has no effect; if it fails, that peer is disconnected; otherwise the message is routed as the hook left it, with the original bytes forwarded. The hook of one kind of peer is never applied to the other.",
  ["inputs", "histories"], "every sequence of messages and hook decisions on user and broker connections",
  "no existing test installs a hook",
  [UH, BH, "cdn-proto/src/def.rs"], [("hook clone per connection", UH)], [], ["hook invocations, deliveries, session closure"], CONN_HOOK)

p("C27", "Unfinished admissions are bounded in time and affect nobody else",
  "A connection that has not completed admission (to a marshal, or to a broker as a user or as a broker) within five seconds is given up (a handshake of the encrypted transports has five seconds of its own for each of its steps), and any number of such silent, slow or dying connections neither delays nor prevents the admission of well-behaved peers, nor does a failure to accept a connection. A peer that was refused or given up has no effect: it receives no user messages, holds no session and displaces none.",
  ["schedules", "fault_sequences"], "every number and mix of stalled, partial and aborted handshakes, at every step of each handshake, concurrent with good ones",
  "no existing test stalls a handshake",
  ["cdn-broker/src/tasks/user/listener.rs", UH, BH, "cdn-marshal/src/lib.rs", "cdn-marshal/src/handlers.rs"], [("accept loop spawns per connection, 5 s timeout", UH)], [], ["admission times, closure times"], CONN_HOOK)

p("C28", "Connection and traffic metrics tell the truth",
  "At every quiet moment the exported gauges of connected users and brokers equal the numbers of sessions and links actually established, after any history of logins, duplicate logins, evictions, failures and disconnects. The byte counters grow by exactly the payload bytes of the messages sent and received; with a memory pool, the latency of every message received is measured once, and the running latency is the mean of those of the last complete window of 30 s that had any. What is served over HTTP is what is measured.",
  ["histories", "fault_sequences"], "every history of connects, duplicate connects, disconnects, kicks and link failures",
  "no existing test reads a metric",
  [CM, "cdn-broker/src/metrics.rs", PM], [("increment on add, decrement on actual removal", CM)], [("gauges", "exported numbers", "cdn-broker/src/metrics.rs")], ["gathered metrics"], CONN_HOOK)

p("C29", "Messages cross the mesh only where they are needed",
  "Of every message, at most one copy crosses to any other broker, only from the broker its sender is on, and a broker that got it from another never passes it on again. While nothing is changing, a direct message crosses only to the broker its recipient is on, a message for a user who is on the same broker, unknown or gone crosses nowhere, and a broadcast crosses only to brokers with a subscriber to one of its topics.",
  ["histories", "configurations", "fault_sequences"], "every mesh of 2-3 brokers, placement, subscription history, logins and logouts, link failures and restarts, and every message sent meanwhile",
  "the existing tests look at what arrives at users and directly attached peers of one broker, never at what crosses between brokers over a history",
  [BH, UH, CM, RM, VM, "cdn-broker/src/tasks/broker/sync.rs"], [("broker-origin messages go to local users only", BH), ("topic interest of brokers", CM)],
  [("topic interest", "which brokers want which topics", CM), ("user directory", "which broker each user key is connected to", CM)], ["everything written to the links between brokers"], CONN_HOOK)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
