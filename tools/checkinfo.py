# Per-check parameters used by run.py and tools/gen_manifest.py.
ASSUMPTIONS = ["the simulated OS below the server (sockets, epoll, eventfd, clock, locks, files) behaves like Linux",
 "scheduling points are synchronisation and system calls; memory is sequentially consistent",
 "bounds as stated in coverage.bound"]
INFO = {}
def add(prop, rule, bound, level="model_checking", note="", **kw):
    INFO[prop] = dict(rule=rule, bound=bound, level=level, note=note, **kw)
add("P01", "every filter x topic pair; every operation sequence", "filters and topics of up to 3 levels over {'',a,b,$s,+,#}; operation sequences of depth 4 (thorough 6) over 14 operations")
NA = {}
add("P02", "every combination of subscription option, QoS, version, sender and presence; every multi-filter SUBSCRIBE; every operation sequence", "all option combinations for one subscription; SUBSCRIBEs of up to 3 filters out of 6; operation sequences of depth 5 (thorough 6) over 12 operations")
add("P03", "every filter against a full retained tree; every sequence of retained publishes, deletions, subscriptions, time", "39 retained topics x 106 filters x 2 versions; operation sequences of depth 4 (thorough 6) over 16 operations")
add("P04", "every sequence of publishes, acknowledgement steps in either order, refusals, stray and repeated acknowledgements, disconnects, takeovers", "one persistent session (3.1.1 and 5), QoS 1 and 2, sequences of depth 5 (thorough 7) over 10 operations, each completed to the end")
add("P05", "every sequence of first and duplicate publishes, releases, refused publishes, reconnects, takeovers and clean starts", "two packet identifiers, publisher 3.1/3.1.1/5, one live and one offline subscriber, sequences of depth 4 (thorough 6) over 13 operations, each completed to the end")
add("P06", "every sequence of connects (versions, clean start, expiry intervals), takeovers, disconnects with and without a new expiry, subscriptions, publishes and waiting times", "one client id, expiry cap 60 s, sequences of depth 5 (thorough 7) over 16 operations; expiry judged with a tolerance of -1 s/+12 s (removal runs every 10 s)")
add("P07", "every will, way of ending the connection and session expiry; every sequence of connects with wills, takeovers, ends and waits", "matrix of 3 versions x 3 QoS x retain x payload x 3 delays x 3 expiries x 12 ways to end; sequences of depth 5 (thorough 7) over 13 operations; times judged with -1 s/+4 s (wills are looked at every 2 s), +13 s at session end (every 10 s)")
add("P08", "every member set, joining order, way of leaving and targeting mode; every sequence of joins, leaves, ends, reconnects and publishes", "groups of 1..4 members over 5 share names/filters, 3 targeting modes; sequences of depth 4 (thorough 6) over 15 operations with 3 clients, 3 groups and a plain subscription")
add("P22", "every sequence of publishes (single, bursts), acknowledgements in any order, refusals, stray, early and repeated ones, disconnects, reconnects and takeovers; identifier wrap-around; exhaustion", "receive maximum 1..3, persistent and clean sessions, sequences of depth 4 (thorough 6) over 12 operations, each completed; 65540 consecutive messages with 1..2 identifiers held; all 65535 identifiers in use")
add("P27", "every sequence of small, medium, limit-sized and oversize publishes, acknowledgements, disconnects, reconnects, expiry", "limits 32 messages/4096 bytes and 33/65536, receive maximum 3 or none, 3.1.1 and 5, sequences of depth 4 (thorough 6) over 12 operations with a second session as bystander, each completed")
add("P21", "every waiting place, expiry interval, QoS, receiver version, waiting time around the boundary, restart (with part of the time down)", "8 places x intervals {10,100,5000,none} x QoS 1..2 x subscriber pairs x 8 waiting times x restart; judged with +-1 s (2 s across a restart, file times are whole seconds)")
add("P20", "every sequence of setting, using, remapping (also wrong) aliases, reconnects; every sequence of publishes towards clients with aliases, oversize messages, reconnects", "client to server: maximum 0..2, sequences of depth 2..4 (thorough 4..6) over 14 operations; server to client: server maximum 1/65535, client maximum 0..3, with and without packet limit, depth 4 (thorough 6) over 8 operations")
add("P24", "every sequence of publishes of sizes around the buffer limits, partial reads, stalls, pings and time", "buffers starting at 64 or 1024 bytes, at most 4096; sequences of depth 4 (thorough 6) over 12 operations from 3 buffer positions, 3.1.1 and 5, each drained at the end")
add("P23", "every limit x packet size at the boundary x version x QoS x arrival; every sequence of too large, exactly fitting and small messages towards a limited client", "inbound limits 129/1000/20000/2000000 with sizes -2..+2; unauthenticated claims up to 256 MB; outbound limit 60 bytes with receive maximum 1..2, aliases, sequences of depth 4 (thorough 6) over 9 operations")
add("P25", "every special character at every offset of every string of every packet; every byte pair; every character; every short filter and topic", "18 places x 55 characters/sequences x offsets 0..34 x 3 fillers x 4 tails, versions 3.1/3.1.1/5; all byte pairs; all 3-byte and borders of all 4-byte characters (thorough: all); all filters and topics up to 5 (thorough 6) characters over {a,/,+,#,$} with 4 prefixes")
add("P26", "every keep-alive value x version x sequence of packets and gaps, then silence; every sequence of keep-alives over reconnects; every arrival pattern of an incomplete CONNECT", "keep-alives {0,1,2,5,7,60,1000,65535}, sequences of depth 2 (thorough 3) over 7 kinds of packet x 3 gaps (half, whole, almost one and a half times); closed between 1.5 K - 1 s and 1.5 K + 14 s (checks run every 5 s, at least 5 s ahead); incomplete CONNECT or HTTP upgrade in up to 3 pieces at 6 times, closed within 100 s of silence")
add("P11", "every division of every stream over writes and reads", "21 streams (3 versions; complete, disconnecting, abrupt, malformed, refused), each cut once anywhere, twice anywhere (quick: every 2nd first cut), in pieces of 1..69 bytes, in reads of 1..129 bytes, with two initial buffers; pairs of packets of 14 x 14 sizes in 12 x 12 combinations of pieces and reads; two clients cut against each other; end of connection right behind the bytes")
add("P12", "every division of an MQTT stream over frames and of frames over reads; every upgrade request cut anywhere; every frame size at the length encodings' borders; every sequence of messages, pings and partial writes to a slow reader", "a stream of 9 packets (3 versions, 3 masks, 2 buffer sizes) in frames cut anywhere, of every size, in 7 read sizes, with pings between; 6 valid requests cut anywhere, 16 invalid ones; payload sizes 0..300000 around 125/126 and 65535/65536; slow reader sequences of depth 4 (thorough 6) over 10 operations")
add("P31", "every address, TLV set, transport, division of header and MQTT stream; every byte 12..15 value; every malformed header; every cut; every certificate case", "15 address/port pairs x 12 TLV sets x 2 transports x all cuts after the address; 4 header bytes x 256 values x 2 addresses x 2 TLV sets; 36 malformed headers x 3 arrivals; every prefix x 3 ways to end; 2 verification modes x 6 certificates x 3 usernames; WebSocket upgrade cut anywhere")
add("P34", "every way of delivery x publisher version x QoS x content x set of properties, to receivers of every version", "15 ways (live, alias, shared, retained, queued, resent, wills, across a restart) x 3 publisher versions x QoS 0..2 x 4 topics/payloads x 32 property sets x 4 lists of user properties (quick: a covering part of the combinations), each to 5 receivers or to 11 that change version in between")
add("P13", "every sequence of subscribing, publishing, retaining, acknowledgement steps, disconnects, wills and restarts, then a restart and a probe of everything", "5 initial states x sequences of up to 3 (thorough 4) of 16 operations with a full probe after the restart; expiry 0/100/1000 x times before, during and after the restart; all sets of data to save; identifiers over a wrap-around and limits after a restart")
add("P14", "every file operation of a save x fault x power loss state", "4 x 3 sizes of state, first and second save, at shutdown and periodic; each operation as point of a crash (before/after), an I/O error, a full disk (once, short write, for good); each followed by process or power loss keeping any number of directory operations and none/half/all/a torn last one of the unsynced writes")
add("P15", "every truncation length and every single byte alteration of every saved file, blocks zeroed or missing, bytes appended, the file absent", "3 contents x 3 files; all lengths; the version string x all 255 other values, every other byte x 4 values (thorough all 255); blocks of 8..128 bytes zeroed or missing; 1..5000 bytes appended; then a start, and the next one")
add("P35", "every combination of configured limits and CONNECT, every publish/will/subscription at, below and above each limit, before and after a reload", "CONNACK against 3 maximum QoS (global, listener) x 24 other settings x 7 keep-alives x 7 expiries; 3 QoS x 6 retain modes x 2 actions x 3 versions x publishes and wills; alias sequences of depth 3 (thorough 4); 3 values of 3 size limits x 4 sizes x 7 places; 4 minimum depths x 3 modes x all filters of up to 5 levels; every change of a limit by a reload")
add("P09", "every set of rules x client x topic x way of publishing and receiving; every change of the file", "1 rule: 4 scopes x 5 grants x 16 filters x 2 versions x 8 ways (publish QoS 0, 1/2, retained; live, retained and queued delivery; immediate and delayed wills); 2 rules (thorough 3): every combination of scopes that can meet x 4 grants x 8 x 6 filters, both orders; each for 3 clients x 14 topics; 7 malformed files at start or as a change, removal, changes and changes back; messages kept over a restart and a change of rights")
add("P38", "every listed user and password against every other, absent and similar one; every malformed line at every place; every change of the file", "5 kinds of entries (SHA512, PBKDF2) x 12 passwords x 10 users (quick: a covering part), each against 170 credentials with 3 protocol versions, anonymous allowed or not; files of up to 4 users; 33 malformed lines in 3 places; 5 changes, removal and change back at 4 moments")
add("P10", "every order of packets, plugin answers (now, later, exchange), disconnects and late answers; every policy; two connections waiting with one client id; floods while waiting", "plugin answers success/2 refusals/exception/later/continue; sequences of depth 4 (thorough 5) over 13 (thorough 15) operations, settled one by one or arriving in one read; client id free or in use; 3.1.1 and 5; all combinations of global and listener policy, plugin and password file")
add("P30", "every plugin answer x action x API version; every combination of alterations; every order of adding, removing and running delayed tasks; every plugin call; every way clients end", "12 answers (incl. exception) x write/read/subscribe/register will/publish will x API versions 1..5 x QoS x retain x properties x versions; 64 combinations of changed fields (quick: a quarter); 5 x 7 changed subscriptions; task sequences of depth 3 (thorough 4) with tasks that add, remove and throw; sequences of 2 (thorough 3) connections ending in 9 ways")
add("P16", "every schedule within a preemption bound of a subscribe, an unsubscribe or a publish with retain running against publishes, subscriptions, disconnects, expiry, purging and saving on another thread; every execution also watched for data races", "2 workers and the main thread; 1 preemption (thorough 2) at every lock, system call and atomic hand-over, on top of every point where a thread waits; 1 or 2 publishes; data races on containers, strings and smart pointers by happens-before", stages=[{"variant": "race"}])
add("P18", "every schedule within a preemption bound of a publisher, its subscriber and something else; every sequence of publishing, going, coming back and acknowledging in any order; every schedule of a sequence of retained publishes", "3 messages at once or paced, QoS 0..2, 7 kinds of subscribers (offline, receive maximum 1 and 2, not acknowledging, slow), 9 simultaneous events, 1 preemption (thorough 2); sequences of depth 6 (thorough 8) over 9 operations; 6 retained sequences x 7 disturbers, set at once or deferred, with preemption also while a lock is held (thorough 3 preemptions)")
add("P19", "every pair (thorough: triple) of 23 activities at once, under every schedule within a preemption bound; afterwards everyone must be served and the server must end properly; every pair also watched for data races", "pairs of 23 activities (publishing, subscribing, connecting, takeover, leaving, retained messages, reload, all timers due at once, tree upkeep, protocol error, log rotation, refused login, slow receiver); 2 workers, main thread, saving thread; 1 preemption (thorough 2); race detection on the default schedule", stages=[{"variant": "race", "set": {"budget": 0}}, {"variant": "plain"}])
add("P28",
    "Runs the real server on a simulated OS with configurations enumerated from a table of every documented option (written from the man page, not from the parser: context, valid values with their boundaries, values out of range, of the wrong type, negative, empty, quoted, indented, with superfluous values, misspelled, in the wrong block, and wrong combinations incl. TLS files), each with --test-config, at start and as a reload that would also change other settings: the verdict must be the table's, a refused start listens nowhere and ends with an error status, --test-config writes and opens nothing, and after a refused reload everything observable (announced limits, ports, anonymous access, wills, retained mode, existing clients) is as before, while an accepted one is in force. Also: every history of good and bad reloads up to a depth, every sequence of structural lines up to a length against an independent recogniser, log levels, TCP_NODELAY, include_dir (incl. one that includes itself), taken ports, broken certificates, command line arguments.",
    "about 2000 option/value cases in 3 modes and 2 places; reload histories of depth 3 over 20 steps; files of up to 4 lines over 15 line kinds", bound_thorough="histories of depth 4, files of up to 5 lines")
add("P29", "every bridge option in CONNECT and every kind of answer; every prefix combination, topic, QoS, retain flag, direction, protocol and second bridge; every sequence of publishes, acknowledgements, losses, refusals and reconnections at every step; reloads with every kind of change; DNS and connection failures; groups of connections; restarts; the remote broker is played by the harness", "12 options x 12 answers x 3 versions; 9 topics x 4 prefix sets x 3 filters; sequences of depth 5 (thorough 8) over 9 operations; groups of 2..3 connections, depth 3 (thorough 4)", stages=[{"variant": "race", "set": {"depth": 4, "gdepth": 2, "few": 1}}, {"variant": "plain"}])
add("P39", "every single-byte mutation, removal, insertion and truncation of every packet a client may send; every property in every packet once and twice; every first byte with small bodies, before and after CONNECT; judged by a strict parser of its own; under the address and undefined behaviour sanitizers", "versions 3.1, 3.1.1 and 5; 42 base packets x every position x 19 values (thorough 256); a valid packet behind each; afterwards a full check of another session, queue, subscription and retained message", stages=[{"variant": "asan"}])
add("P17", "every schedule within a preemption bound of connections with one client id that arrive at once, on top of a session that is absent, online, offline, about to expire or about to send its will, with something else happening at that moment; what is seen must be explained by one order of the connections", "2 connections (thorough up to 3) of 5 (thorough 8) kinds (version, clean start, expiry, will delay); 8 simultaneous events; 1 preemption (thorough 2)", stages=[{"variant": "plain"}, {"variant": "race", "set": {"budget": 0}, "thorough_only": True}])
add("P37", "a signal to end in each of 16 states of a client x versions x wills x storage; every schedule within a preemption bound of a shutdown against each of 21 activities of clients, signals and timers; a signal at every step of starting with saved state; bridges in each of 11 states; each followed by a restart that is checked", "4 kinds of client, 3 of will, 3 of subscriber; 1 preemption with one activity; up to 2 bridges of 2 connections", bound_thorough="all combinations of settings; pairs of activities with 1 preemption, also right after taking locks; one activity with 2 preemptions", stages=[{"variant": "plain"}, {"variant": "race", "set": {"part": 1, "budget": 0}}, {"variant": "plain", "set": {"part": 1, "pairs": 1, "budget": 1}, "limit_thorough": 3000, "thorough_only": True}])
