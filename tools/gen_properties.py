#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

NET="bytes read by a client from its connection"
p("P01","Messages reach exactly the matching subscribers",
 "A publish is delivered to every connected client that at that moment holds a non-shared subscription whose filter matches the topic under the MQTT wildcard rules ('+' one level, '#' the parent and any number of levels, neither matching a first level starting with '$', which clients cannot publish live to), with topic and payload unchanged. Nobody else receives it, and nobody who unsubscribed or whose session ended receives it. Each matching subscription delivers once, so a client with several overlapping matching filters receives the message once per filter.",
 ["histories","inputs"],"every sequence of subscribe/unsubscribe/disconnect/publish operations by a few clients up to a depth, for every filter and topic over a small level alphabet including empty levels and '$' levels",
 "Tests use a handful of hand picked filter/topic pairs and histories; the trie walk, its purging and the per-subscriber maps depend on combinations of filters and order of operations.",
 ["subscriptionstore.cpp","subscriptionstore.h","utils.cpp","mqttpacket.cpp"],
 [("subscription tree walk and subscriber collection","subscriptionstore.cpp publishRecursively/queuePacketAtSubscribers"),("subscribe/unsubscribe and purge","subscriptionstore.cpp addSubscription/removeSubscription/purgeSubscriptionTree")],[NET])
p("P02","Subscription grants and options govern how messages are delivered",
 "SUBACK grants each filter of a SUBSCRIBE, in order, the requested QoS (or refuses it), and a message is delivered at the lower of the publish QoS and the most recently granted QoS for that filter. No-local, retain-as-published and the subscription identifier(s) of the most recent subscription for that filter are honoured for live delivery, including for messages queued while the subscriber is offline. UNSUBACK carries one success code per filter, in order, and ends exactly those subscriptions.",
 ["histories","inputs"],"every combination of publish QoS, retain flag, subscription options and repeated/replaced subscriptions over a small filter set, up to a depth",
 "Tests check a few combinations; the option product and resubscribe orders are not sampled.",
 ["mqttpacket.cpp","subscriptionstore.cpp","publishcopyfactory.cpp","session.cpp","subscription.h"],
 [("subscribe parsing and SUBACK","mqttpacket.cpp handleSubscribe"),("effective QoS and options at fan-out","publishcopyfactory.cpp getOptimumPacket/getEffectiveQos; subscriptionstore.cpp")],[NET])
p("P03","Retained messages: last value per topic, delivered on subscribe",
 "The retained message of a topic is the last retained publish accepted for it; an empty retained publish deletes it. A new subscription receives, with the retain flag set and at the lower of both QoS, exactly the retained messages of the topics its filter matches, subject to the retain handling option (always, only if the subscription is new, never). Retained messages whose message expiry interval passed are not delivered.",
 ["histories","inputs"],"every sequence of retained publishes, deletions, expiry waits and (re)subscriptions with each retain handling over a small topic tree up to a depth",
 "Tests sample single topics and a few wildcards; tree cleanup, expiry and retain handling interact over histories.",
 ["subscriptionstore.cpp","retainedmessage.cpp","mqttpacket.cpp","session.cpp"],
 [("retained tree","subscriptionstore.cpp setRetainedMessage/giveClientRetainedMessages*/expireRetainedMessages")],[NET])
p("P04","QoS 1 and 2 messages survive disconnects until acknowledged",
 "A QoS 1 or 2 message queued for a session that persists is delivered, while or whenever the client is connected, until the client completes the acknowledgement handshake: after a reconnect unacknowledged messages are sent again with their packet identifier and DUP set, and started QoS 2 handshakes resume with PUBREL. A QoS 2 message is never re-sent as a new publish once received (PUBREC) by the client, a completed message is never sent again, and messages keep their order. (Restarts of the broker: P13.)",
 ["histories","fault_sequences"],"every interleaving, up to a depth, of publish, PUBACK/PUBREC/PUBCOMP, abrupt or clean disconnects and reconnects of the subscriber",
 "Tests do one or two fixed disconnect points; a disconnect can fall between any two handshake packets, repeatedly.",
 ["session.cpp","qospacketqueue.cpp","mqttpacket.cpp","client.cpp"],
 [("per-session queue and QoS 2 state","session.cpp writePacket/clearQosMessage/sendAllPendingQosData; qospacketqueue.cpp")],[NET])
p("P05","An inbound QoS 2 publish is forwarded exactly once",
 "From a publisher using QoS 2, each packet identifier is routed to subscribers once between its first PUBLISH and its PUBREL, whatever duplicates, reconnects (session kept) or other packets come in between; after PUBREL the identifier denotes a new message. Every PUBLISH gets its PUBACK/PUBREC with the same identifier and every PUBREL its PUBCOMP.",
 ["histories","fault_sequences"],"every sequence up to a depth of PUBLISH (fresh or DUP, accepted or refused), PUBREL, disconnect, reconnect (clean or not) over two packet ids",
 "Tests do a single duplicate; combinations with reconnects, refusals and id reuse are not sampled.",
 ["mqttpacket.cpp","session.cpp"],
 [("incoming QoS 2 id set","session.cpp addIncomingQoS2MessageId/removeIncomingQoS2MessageId; mqttpacket.cpp handlePublish/handlePubRel")],[NET])
p("P06","Sessions live exactly as long as the protocol says",
 "CONNACK reports session-present exactly when a non-expired session of that client id exists and no clean start was asked; a resumed session has all its subscriptions and its unacknowledged messages, a new one has none. A session ends at disconnect for clean-session/zero expiry, or when its expiry interval (as last set by CONNECT or DISCONNECT, capped by the configuration) has passed since the disconnect (removal happens within about 12 s after), and not before.",
 ["histories"],"every sequence up to a depth of connect (clean or not, protocol 3.1.1 or 5, several expiry intervals), disconnect (clean, with changed expiry, abrupt), waiting around the interval, takeover and subscribing",
 "Tests check single connect/disconnect/expire sequences; stale expiry bookkeeping of an earlier disconnect shows only over longer histories.",
 ["sessionsandsubscriptionsdb.cpp","session.cpp","subscriptionstore.cpp","mqttpacket.cpp","client.cpp","threaddata.cpp"],
 [("session registry and removal queue","subscriptionstore.cpp registerClientAndKickExistingOne/queueSessionRemoval/removeExpiredSessionsClients/removeSession")],[NET])
p("P07","Wills are published exactly when they should be",
 "When a connection ends without a normal DISCONNECT (socket closed, protocol error, keep-alive timeout, takeover, DISCONNECT with will), its will message is published exactly once with its topic, payload, QoS and retain flag, after its will delay or when the session ends if that is sooner, unless the client resumed the session before that. After a normal DISCONNECT it is never published. Due wills are sent within a few seconds. A NoLocal subscription of the will's own client doesn't get it, and a will with a retain flag or QoS the configuration doesn't allow is treated as configured for publishes.",
 ["histories","schedules"],"every sequence up to a depth of connect with/without will and delay, disconnect by each way, reconnect (clean or resume) and waiting",
 "Tests use fixed sequences; takeover racing with delayed wills and session end needs the combinations.",
 ["client.cpp","session.cpp","subscriptionstore.cpp","mqttpacket.cpp","publishcopyfactory.cpp"],
 [("delayed will queue","subscriptionstore.cpp queueOrSendWillMessage/sendQueuedWillMessages"),("disconnect stages","client.cpp sendOrQueueWill/~Client; threaddata.cpp clientDisconnectActions")],[NET])
p("P08","A shared subscription delivers each message to exactly one member",
 "For each share name and filter, a matching publish is delivered to exactly one of the clients currently subscribed to it whose session exists (preferring, if there is one, a member that is connected), at its granted QoS, and not at all only if there is no such member. Members that unsubscribed or whose session ended never receive it, independent of other share names and of non-shared subscriptions, and no retained messages are sent on a shared subscribe.",
 ["histories","configurations"],"every sequence up to a depth of members joining, leaving, disconnecting and publishes, for each selection strategy",
 "Tests run one join/publish history; the slot vector with erased members is history dependent.",
 ["sharedsubscribers.cpp","subscriptionstore.cpp"],
 [("member slots and round robin","sharedsubscribers.cpp getNext/operator[]/erase/purge"),("fan-out","subscriptionstore.cpp queuePacketAtSubscribers")],[NET])
p("P09","Topic access rules are enforced for writing and reading",
 "With an ACL file, a client may publish to, or receive from, exactly the topics for which a matching rule (anonymous clients: the rules before any user; others: of their own user; both: patterns with whole levels %u/%c replaced by user name and client id) grants that access and no matching rule denies it; everything else is refused. Subscribing is always allowed. A refused publish or will reaches nobody and is not retained, a publish is still acknowledged, and a message whose reading is refused is not delivered to that client whether live, retained or queued (judged at queueing). A changed file takes effect within seconds, a malformed change is ignored, a malformed file at start grants nothing.",
 ["inputs","configurations"],"every small ACL rule set x user x client id x topic over a small level alphabet, for live, retained and will publishes",
 "Tests check a few trees directly; the rule merge order, wildcards and substitution are a product space.",
 ["acltree.cpp","plugin.cpp","configfileparser.cpp","mqttpacket.cpp","session.cpp"],
 [("rule tree","acltree.cpp addTopic/findPermission"),("enforcement","plugin.cpp aclCheck; mqttpacket.cpp handlePublish; session.cpp writePacket")],[NET])
p("P10","Nothing is possible before successful authentication",
 "A client whose credentials are refused (password file, anonymous policy, plugin answer now or later, extended authentication, listener policy) gets a refusing CONNACK and is disconnected, and until a successful CONNACK was sent to it none of its packets has any effect: no session, subscription, publish, will or takeover of a same-named client. An accepted client gets exactly one success CONNACK, as its first packet (apart from AUTH).",
 ["histories","configurations","schedules"],"every order up to a depth of CONNECT, further packets, AUTH rounds and delayed authentication answers, over configurations of anonymous/password/plugin outcome",
 "Tests cover one order for each; packets pipelined behind a pending authentication and disconnects during it are not.",
 ["mqttpacket.cpp","plugin.cpp","client.cpp","threaddata.cpp","flashmq_plugin.cpp"],
 [("gate by authentication state","mqttpacket.cpp handle; client.cpp"),("delayed answers","threaddata.cpp continuationOfAuthentication")],[NET])
p("P11","Parsing does not depend on how bytes arrive",
 "For any well-formed stream of MQTT packets, the broker's observable behaviour (replies, deliveries, state) is the same however the bytes are divided over reads, including one byte at a time and several packets in one read.",
 ["inputs","fault_sequences"],"every one- and two-point split, and byte-by-byte delivery, of packet streams (replies that race with a connection being closed for a DISCONNECT or error excepted) covering every packet type and remaining-length size, with buffer wrap-around positions",
 "Tests nearly always deliver whole packets; the buffer position and fragmentation are chosen by the network.",
 ["mqttpacket.cpp","cirbuf.cpp","client.cpp","threadloop.cpp"],
 [("packet framing from the circular buffer","mqttpacket.cpp bufferToMqttPackets; cirbuf.cpp"),("read loop","client.cpp readFdIntoBuffer")],[NET])
p("P12","WebSocket transport is transparent",
 "A client speaking MQTT in binary WebSocket frames observes the same behaviour as over plain TCP, however packets are divided over frames and frames over reads, for every payload length encoding and mask. Continuation frames and pings in between are accepted. The server answers a valid upgrade request with the correct accept key and refuses an invalid one, answers pings, closes on a close frame, and its own frames are well formed (unmasked, right length).",
 ["inputs","fault_sequences"],"every split of upgrade request and frame streams at each byte, frame sizes around 125/126/65535, packet-to-frame divisions",
 "Tests use a few frames; header boundaries across reads are not sampled.",
 ["iowrapper.cpp","http.cpp"],
 [("frame parsing/encoding state machine","iowrapper.cpp readWebsocketAndOrSsl/writeAsMuchOfBufAsWebsocketFrame"),("handshake","iowrapper.cpp parseHttpHeader; http.cpp")],[NET])
p("P13","State saved at shutdown is restored at start",
 "After a clean shutdown and restart with a storage directory, every persistent session has the same subscriptions (filter, QoS, options, identifier, shared), unacknowledged QoS messages with their content and properties, QoS 2 handshake state, remaining expiry and pending will, and all non-expired retained messages (also of $ topics) are the same as before, up to the DUP flag. Nothing that had been deleted, completed or expired comes back, and new messages don't get packet identifiers still in use.",
 ["histories","inputs"],"every sequence up to a depth of state changing operations followed by shutdown and restart (repeatedly), then a full probe of the state",
 "Unit tests save and load a hand made database; end-to-end behaviour after each history is not tested.",
 ["sessionsandsubscriptionsdb.cpp","retainedmessagesdb.cpp","persistencefile.cpp","subscriptionstore.cpp","mainapp.cpp"],
 [("serialisation of sessions and subscriptions","sessionsandsubscriptionsdb.cpp"),("serialisation of retained messages","retainedmessagesdb.cpp")],[NET,"files in storage_dir"])
p("P14","A crash or write fault never destroys the last good saved state",
 "At whatever point during a save the process is killed, the machine loses power or a write/flush/rename fails, the next start finds each database file either complete as of the previous successful save or complete as of the new one, and the server keeps running when a save fails. A save that failed is never put in place of a good file (temporary files may stay behind).",
 ["crash_points","fault_sequences"],"every file system operation of a save as crash point (process crash and power loss with un-synced data lost or torn) and every operation as failing one (ENOSPC, EIO, short write)",
 "Tests never crash or fail a write during a save.",
 ["persistencefile.cpp","sessionsandsubscriptionsdb.cpp","retainedmessagesdb.cpp","mainapp.cpp"],
 [("write to temp file, hash, sync and rename","persistencefile.cpp openWrite/closeFile/hashFile")],["files in storage_dir","state after restart"])
p("P15","A damaged saved file is detected, never half loaded",
 "If a saved database file is truncated or altered in any byte, the server never loads any of it, does not crash or hang, and keeps the data: it refuses to start with an error, and for a file of which the content is damaged, moves it aside so that the next start works without it. (A version in the header changed to another supported one is not judged.) An absent or empty storage directory is a clean start.",
 ["inputs","crash_points"],"every truncation length and every single byte alteration of saved files of several contents",
 "Tests never load a damaged file.",
 ["persistencefile.cpp","sessionsandsubscriptionsdb.cpp","retainedmessagesdb.cpp"],
 [("header and content hash check","persistencefile.cpp openRead/verifyHash")],["state after restart","files in storage_dir"])
p("P16","Concurrent subscribing, unsubscribing and publishing lose nothing",
 "On several worker threads, under every interleaving, once a client received its SUBACK every later matching publish is delivered to it until it unsubscribes or its session ends, also while other clients subscribe, unsubscribe, publish or end and while the broker tidies up its tables. After its UNSUBACK nothing published later is delivered for that filter, and every retained publish acknowledged is found by later subscribers.",
 ["schedules"],"all schedules of the worker and main threads up to a preemption bound for small concurrent programs over overlapping topic branches",
 "Tests run under whatever schedule the OS happens to give.",
 ["subscriptionstore.cpp","subscriptionstore.h","session.cpp","sharedsubscribers.cpp"],
 [("tree lock plus per node locks","subscriptionstore.cpp addSubscription/removeSubscription/cleanSubscriptions/purgeSubscriptionTree/setRetainedMessage")],[NET])
p("P17","At most one connection per client id, and the newest wins",
 "When clients connect with the same client id, also at the same time on different threads, every connection but the last is closed (with 'session taken over' on MQTT 5) and the last one is the one that stays, gets a CONNACK first and receives subsequent messages. The session continues with its subscriptions unless a clean start was asked, and ending the old connection never harms the new one's session or will.",
 ["schedules","histories"],"all schedules up to a preemption bound of two or three simultaneous connects, disconnects, and publishes to that client, with clean and persistent sessions",
 "Takeover tests are sequential with waits; cross-thread races between the old connection's cleanup and the new one are not reached.",
 ["subscriptionstore.cpp","session.cpp","client.cpp","threaddata.cpp"],
 [("registration and kicking","subscriptionstore.cpp registerClientAndKickExistingOne; threaddata.cpp removeClientQueued/clientDisconnectActions")],[NET])
p("P18","Messages of one publisher arrive in order",
 "Messages published by one client on the same topic and QoS arrive at each subscriber in publish order, under every schedule, also when the subscriber is on another thread, is limited by receive maximum, or was offline for part of them. The retained value left by a sequence of retained publishes of one client is the last one.",
 ["schedules","histories"],"all schedules up to a preemption bound of a publisher burst against subscribers on other threads, with flow control, reconnects and lock contention",
 "Tests check order in a single schedule at most.",
 ["session.cpp","subscriptionstore.cpp","client.cpp","threaddata.cpp"],
 [("queue then send under the session/client locks","session.cpp writePacket/sendAllPendingQosData; client.cpp writeBufIntoFd"),("retained retry queue","threaddata.cpp queueSettingRetainedMessage/setQueuedRetainedMessages")],[NET])
p("P19","No deadlock or crash under any schedule",
 "Under every interleaving of workers, main thread and background threads, for any mix of connects, takeovers, publishes, subscriptions, disconnects, configuration reloads, saves and timers, every client request is eventually answered, no thread blocks forever and the process does not crash.",
 ["schedules"],"all schedules up to a preemption bound of small programs that pair each two kinds of operation, including reload and periodic maintenance",
 "A deadlock needs particular interleavings which tests do not control.",
 ["threaddata.cpp","subscriptionstore.cpp","session.cpp","client.cpp","mainapp.cpp","backgroundworker.cpp"],
 [("lock order","mutex members of client, session, thread data and subscription store")],["requests answered","process alive"])
p("P20","Topic aliases never change which topic a message has",
 "A client may set, use and change topic aliases up to the maximum the broker announced: a publish by alias is routed as its last set topic; an unknown, zero or too large alias is refused by disconnect. Towards clients that allow aliases, every message sent by alias resolves, by the mapping sent on that connection, to the topic published, at most the allowed number of aliases is used, and mappings do not survive a reconnect.",
 ["histories"],"every sequence up to a depth of set/use/remap over a few topics and aliases, in both directions, across reconnects and several alias maxima",
 "Tests use one mapping.",
 ["client.cpp","mqttpacket.cpp","publishcopyfactory.cpp"],
 [("alias tables","client.cpp setTopicAlias/getTopicAlias/writeMqttPacketAndBlameThisClient")],[NET])
p("P21","Message expiry is respected",
 "A message with an expiry interval is not delivered after the interval has passed since its publication, whether it waited in an offline queue, as a retained message, as a delayed will or across a restart; if delivered to an MQTT 5 client earlier, it carries the remaining interval.",
 ["histories"],"every combination of waiting place, interval, time of delivery around the boundary and protocol version",
 "Tests sample one queue and one retained case.",
 ["session.cpp","subscriptionstore.cpp","publishcopyfactory.cpp","packetdatatypes.cpp","mqttpacket.cpp"],
 [("expiry info","packetdatatypes.cpp/types.cpp Publish expire info; session.cpp sendAllPendingQosData")],[NET])
p("P22","Packet identifiers are unique and receive maximum is respected",
 "At any time the QoS>0 messages outstanding to a client have distinct nonzero packet identifiers, and their number does not exceed the receive maximum the client asked for. Messages held back because of it are delivered as soon as acknowledgements make room and none of them is lost while the client stays connected, and unexpected or duplicate acknowledgements neither free a place nor crash.",
 ["histories"],"every sequence up to a depth of publishes, acknowledgements (right, wrong, duplicate, negative), reconnects, for receive maximum 1..3 and identifier wrap-around",
 "Tests use one limit and orderly acknowledgements.",
 ["session.cpp","usedids.cpp","qospacketqueue.cpp","mqttpacket.cpp"],
 [("quota and id accounting","session.cpp getNextPacketId/increaseFlowControlQuota/clearQosMessage; usedids.cpp")],[NET])
p("P23","Packet size limits are respected both ways",
 "The broker never sends a client a PUBLISH larger than the maximum packet size the client announced, and such a message does not block or delay smaller ones nor keep a packet identifier or place in the receive maximum; a packet larger than the broker's own limit is refused by disconnecting the sender, before which the limit for unauthenticated clients applies, and other clients are not affected.",
 ["inputs","configurations"],"every packet size from limit-3 to limit+3 for several limits, all QoS levels, live and retained and queued messages",
 "Tests do one size.",
 ["client.cpp","session.cpp","mqttpacket.cpp"],
 [("size checks","client.cpp writeMqttPacket; mqttpacket.cpp bufferToMqttPackets")],[NET])
p("P24","Output streams stay intact with slow readers",
 "However few bytes each socket write accepts and however buffers wrap and grow, the byte stream sent to a client is exactly a sequence of whole well-formed packets; messages may only be left out whole, and only QoS 0 ones, when the client's buffer is full, and delivery resumes when it reads again.",
 ["fault_sequences","histories"],"every combination up to a depth of accepted write sizes, message sizes around buffer capacities and reader pauses",
 "Loopback sockets accept everything in tests, so partial writes at each offset never happen.",
 ["client.cpp","cirbuf.cpp","iowrapper.cpp"],
 [("write buffer and write readiness","client.cpp writeBufIntoFd/writeMqttPacket; cirbuf.cpp")],[NET])
p("P25","Topic names, filters and strings are validated",
 "Publishing to a topic containing a wildcard, an empty topic without alias, subscribing with a malformed filter ('#' not last, wildcard not alone in its level, malformed share), and any string that is not well-formed UTF-8 or has a NUL, control character (U+0001..001F, U+007F..009F) or non-character is refused by disconnecting, wherever in the string it stands; all well-formed ones are accepted.",
 ["inputs"],"all byte strings up to a length over an alphabet of byte classes, at each alignment relative to vector block boundaries, in each string position of the protocol",
 "Tests check a list of strings; the vectorised validator's behaviour depends on alignment and neighbours.",
 ["threadlocalutils.cpp","utils.cpp","mqttpacket.cpp"],
 [("SIMD UTF-8 validator","threadlocalutils.cpp isValidUtf8"),("filter validation","utils.cpp isValidSubscribePath/isValidPublishPath")],[NET])
p("P26","Keep-alive disconnects silent clients and only them",
 "A client with keep-alive K that sends nothing for well over 1.5 K is disconnected and its will published; one that sends any packet at least every K is not disconnected by this; keep-alive 0 is never timed out; a connection that never authenticates is closed within a bounded time (100 s). The time-out is noticed within 14 s, and MQTT 5 clients with a keep-alive below 5 s are told, and held to, 5 s. Every PINGREQ is answered.",
 ["histories"],"every sequence up to a depth of waits and packets for several K, with virtual time",
 "Tests use one short wait; real time makes more infeasible.",
 ["threaddata.cpp","client.cpp","mainapp.cpp"],
 [("keep-alive buckets","threaddata.cpp doKeepAliveCheck/queueClientNextKeepAliveCheck; client.cpp keepAliveExpired")],[NET])
p("P27","Offline queue limits are exact and drop only the excess",
 "For an offline or slow session at most the configured number of messages and of bytes is queued: further messages are dropped (the newest ones; a message counts with the size of its packet, and one is accepted while the bytes queued are below the limit), the ones within the limit are all delivered in order after reconnect, and other sessions are not affected.",
 ["histories","configurations"],"every combination of small limits, message sizes and histories of publish/disconnect/ack up to a depth",
 "Tests check one limit.",
 ["session.cpp","qospacketqueue.cpp"],
 [("queue limits","session.cpp writePacket; qospacketqueue.cpp byte accounting")],[NET])
p("P28","A bad configuration is refused and never half applied",
 "Starting with an invalid configuration ends with an error status and without ever listening, and --test-config reports it without side effects; a reload with an invalid configuration changes nothing (settings, listeners) and existing clients stay connected; a reload with a valid one applies its settings without dropping clients. Every value that the documentation rules out (out of range, of the wrong type, not an address, for an unknown option or in the wrong block, inconsistent with the rest of its block) is refused, and every documented one is accepted and has its effect.",
 ["inputs","histories","configurations"],"every option with boundary values and each invalid kind, and every sequence up to a depth of good and bad reloads with probing of the settings in force",
 "Tests check a few options and values, mostly valid ones.",
 ["configfileparser.cpp","mainapp.cpp","settings.cpp"],
 [("parse then swap","configfileparser.cpp loadFile; mainapp.cpp reloadConfig")],[NET,"exit status"])
p("P29","A bridge forwards what it is configured to, and only that",
 "A bridge connects to its remote broker, subscribes there to its configured subscribe topics and forwards local messages (including retained ones, when it connects) matching its publish topics with the configured prefix changes and QoS cap and never a higher QoS than the remote broker supports, reconnects after loss of the connection with its subscriptions re-made, and injects remote messages locally. It does not send a message back to where it came from.",
 ["histories","fault_sequences"],"every sequence up to a depth of local/remote publishes, remote disconnects at each protocol step, refused connections and DNS failures",
 "Tests use a live second broker with orderly sequences.",
 ["bridgeconfig.cpp","mainapp.cpp","threaddata.cpp","client.cpp","mqttpacket.cpp","publishcopyfactory.cpp"],
 [("bridge state machine","threaddata.cpp bridgeReconnect; bridgeconfig.cpp; mqttpacket.cpp handleConnAck")],["bytes received by the remote broker",NET])
p("P30","Plugin decisions are honoured",
 "Whatever a loaded plugin answers for login, ACL check (read, write, subscribe, will) and message alteration, the broker acts accordingly: denied things do not happen, an altered topic, QoS, retain flag or set of user properties is what is delivered, the plugin is asked for every such action, and its delayed tasks run once, at their time, unless removed. Plugin errors deny rather than allow.",
 ["inputs","histories"],"every combination of plugin answers per action kind and every order of delayed task add/remove/fire up to a depth",
 "Tests use one test plugin with fixed answers.",
 ["plugin.cpp","pluginloader.cpp","flashmq_plugin.cpp","mqttpacket.cpp","queuedtasks.cpp"],
 [("plugin dispatch","plugin.cpp aclCheck/loginCheck/alterPublish/alterSubscribe"),("delayed tasks","queuedtasks.cpp")],[NET])
p("P31","PROXY protocol headers set the client address or refuse the client",
 "On a listener expecting the HAProxy protocol, a well-formed v2 header (the fixed part and address in one segment each, the extra TLVs split over reads in any way) makes the client work with its stated address; a health check (LOCAL) and anything else than a well-formed header is closed without effect, and no byte after the header is lost or taken for something else. With client verification by the proxy, a client without a certificate verified by the proxy is refused, and one with it works under the certificate's name.",
 ["inputs","fault_sequences"],"every field value class, address family, length, truncation and split position of the header",
 "Tests use one whole header.",
 ["haproxy.cpp","client.cpp","iowrapper.cpp"],
 [("header parsing","haproxy.cpp readMore")],[NET])
p("P34","Message content is the same for every receiver's protocol version",
 "A message published with a set of properties (content type, response topic, correlation data, payload format, user properties in order, expiry counting down) arrives at MQTT 5 subscribers with exactly these, at MQTT 3 subscribers without properties but with the same topic and payload, whatever the publisher's protocol version and whether delivered live, retained, queued, as will, or after a restart.",
 ["inputs","histories"],"every combination of publisher/subscriber version, property subset, QoS and delivery way",
 "Tests sample a few combinations; packet copies are shared and cached per version/QoS.",
 ["publishcopyfactory.cpp","mqttpacket.cpp","mqtt5properties.cpp","retainedmessagesdb.cpp","sessionsandsubscriptionsdb.cpp"],
 [("packet copy cache","publishcopyfactory.cpp getOptimumPacket"),("property serialisation","mqtt5properties.cpp; mqttpacket.cpp")],[NET])
p("P35","Server limits announced to clients are enforced",
 "The capabilities in CONNACK (maximum QoS, retain available, wildcard/shared/identifier availability, receive maximum, topic alias maximum, server keep-alive, assigned client id, maximum packet size, session expiry) agree with the configuration, and a client exceeding one is refused as the protocol prescribes or, where configured so (e.g. retained messages mode), capped, dropped or ignored; never silently mishandled. Limits on string length, topic depth and wildcard depth, which MQTT cannot announce, close the connection or, where configured so, refuse or ignore the subscription.",
 ["configurations","inputs"],"every value of each limit/mode option with client actions just within and just beyond it, per protocol version",
 "Tests check a few options and values, mostly valid ones.",
 ["mqttpacket.cpp","client.cpp","configfileparser.cpp","settings.cpp","listener.cpp"],
 [("CONNACK construction and checks","mqttpacket.cpp handleConnect/handlePublish")],[NET])
p("P37","Shutdown is graceful and complete",
 "On SIGTERM or SIGINT at any moment, whatever its clients and bridges are doing, the server ends within seconds with exit status 0: it accepts nothing new, sends the wills that are due (a delayed will of a session that survives is kept instead and sent after the restart, unless its client came back), tells connected MQTT 5 clients with DISCONNECT 0x8B as the last packet on the connection, closes every connection, and saves its state, so that after a restart with the same storage_dir every acknowledged message, subscription, session and retained message is there, each message once.",
 ["histories","schedules"],"termination after every prefix of small client histories and up to a preemption bound during them",
 "Tests terminate at one quiet moment.",
 ["mainapp.cpp","threaddata.cpp","threadloop.cpp","fmqmain.cpp"],
 [("quit sequence","mainapp.cpp quit/start end; threaddata.cpp queueQuit/queueSendDisconnects")],[NET,"exit status","files in storage_dir"])
p("P38","Password file: exactly the listed credentials are accepted",
 "With a mosquitto style password file, exactly the listed user/password pairs are accepted and every other combination (absent or wrong password, similar names, empty ones) is refused, for each hash type; unlisted users and clients without user name are accepted exactly when anonymous clients are. A changed file takes effect on its own within seconds; a malformed line never grants access.",
 ["inputs","histories"],"every pair of listed and unlisted user/password over a small set, each malformed line kind, and file replacements",
 "Tests check one good and one bad password.",
 ["plugin.cpp"],
 [("password file load and check","plugin.cpp loadMosquittoPasswordFile/loginCheck")],[NET])
p("P39","Protocol violations end that connection only",
 "A malformed or out-of-protocol packet makes the broker close the connection of its sender (telling an MQTT 5 client why, with a DISCONNECT with an error code) and act on nothing behind it; only deviations that have no effect are passed over instead (packets before CONNECT and packets only servers send are dropped; bytes in acknowledgements, PINGREQ and CONNECT that the broker doesn't need, reserved bits of MQTT 5 subscription options, payload format indicators other than 0 and 1, and lengths not in the shortest form are not looked at). Never is there a memory error, and every other client, session, subscription, queue and retained message stays as it was.",
 ["inputs"],"every single-byte mutation, truncation and length change of a corpus of packets of every type, in each connection state",
 "Tests and fuzz runs sample; here all one-step mutations of each packet type are enumerated.",
 ["mqttpacket.cpp","client.cpp","threadloop.cpp","cirbuf.cpp"],
 [("bounds-checked packet reader","mqttpacket.cpp readByte/readUint16/readBytes/parse*"),("error to disconnect","threadloop.cpp")],[NET,"sanitizer report"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
