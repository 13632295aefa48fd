prop("C01", "MQTT 5.0 packets survive encoding and decoding unchanged",
  "Every well-formed MQTT 5.0 control packet, with any combination of fields and properties, is written as exactly the bytes the specification defines, and reading those bytes gives back an equal packet. Variable byte integers use the shortest encoding and every value up to 268435455 round-trips.",
  ["inputs"], "all packet types x field combinations x properties x boundary lengths and values", "inp",
  [F + "MQTTV5/MQTTV5.py"], [("pack / unpack of every packet class, Properties, VariableByteIntegers", F + "MQTTV5/MQTTV5.py")],
  "An independent codec (mc/wire.py) written from the specification; the enumeration builds every packet of a bounded grammar of fields, packs it with the code, compares bytes, unpacks and compares fields and equality. Variable byte integers are enumerated around every boundary (thorough: all 2^28).",
  observe=["bytes written", "packet objects read"], technique="exhaustive bounded enumeration against an independent codec",
  note="Exhaustive within the packet grammar; trusts the independent codec mc/wire.py.")
prop("C02", "MQTT 3.1.1 packets survive encoding and decoding unchanged",
  "Every well-formed MQTT 3.1.1 control packet, with any combination of flags, identifiers, strings (including non-ASCII) and payload sizes, is written as exactly the bytes the specification defines, and reading those bytes gives back an equal packet.",
  ["inputs"], "all packet types x field combinations x boundary lengths and values", "inp",
  [F + "MQTTV311/MQTTV311.py"], [("pack / unpack of every packet class, RemainingLengths", F + "MQTTV311/MQTTV311.py")],
  "As C01 for 3.1.1.", observe=["bytes written", "packet objects read"], technique="exhaustive bounded enumeration against an independent codec",
  note="Exhaustive within the packet grammar; trusts the independent codec mc/wire.py.")
prop("C03", "Malformed packets are rejected, well-formed ones never are",
  "Bytes that the MQTT 3.1.1 or 5.0 specification calls malformed (reserved flags, wrong or missing fields, lengths that do not fit, bad UTF-8, unknown, duplicate or misplaced properties, invalid reason codes) are rejected with an error when parsed; well-formed bytes are never rejected or misread.",
  ["inputs"], "every small packet, and every single damage of a corpus covering all packet types", "inp",
  [F + "MQTTV5/MQTTV5.py", F + "MQTTV311/MQTTV311.py"], [("validation in unpack", F + "MQTTV5/MQTTV5.py"), ("validation in unpack", F + "MQTTV311/MQTTV311.py")],
  "Mutation neighbourhoods of a corpus and all short packets over boundary bytes; the verdict of the parser is compared with that of the independent decoder. Where the specification leaves a choice (protocol errors rather than malformed packets) either verdict is accepted.",
  observe=["parser result"], technique="exhaustive enumeration of bounded damage against an independent decoder", note="Exhaustive within the stated neighbourhoods; trusts mc/wire.py.")
prop("C04", "Packets are cut from the byte stream however the network splits it",
  "However a connection's bytes are split into segments, each complete packet is delivered once, in order, intact and without consuming bytes of the next one. If the stream ends or stalls inside a packet nothing is delivered for it, and a length field longer than four bytes is refused.",
  ["inputs", "fault_sequences"], "every segmentation of short streams, every one or two cuts of long ones, end of stream or stall after every byte", "The tests use loopback connections, where every packet arrives whole.",
  [F + "MQTTV5/MQTTV5.py", F + "MQTTV311/MQTTV311.py", B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py"], [("getPacket", F + "MQTTV5/MQTTV5.py"), ("getPacket", F + "MQTTV311/MQTTV311.py"), ("handleRequest", B + "V5/MQTTBrokers.py")],
  "The packet readers of both versions, and whole broker sessions, are run on in-memory sockets for every segmentation in the bound; the packets cut by the framework itself are the oracle, and for sessions the answers to the unsplit stream.",
  observe=["packets read", "answers of the broker"], technique="exhaustive enumeration of stream segmentations and truncations on the real reader", note="Exhaustive for the streams listed in the bounds. Gaps longer than the reader's time out are treated as the end of the stream.")
prop("C05", "Topic filters match exactly the topic names the specification says",
  "For every topic filter and topic name, both brokers agree with the MQTT rules on whether the filter is valid and whether it matches: + matches exactly one level (also an empty one), # matches the rest including the parent level, everything else is literal, and filters starting with a wildcard do not match names starting with $. A packet with an invalid filter or topic name (also a shared subscription with an invalid share name or no filter) is refused as a whole; every valid one is accepted.",
  ["inputs"], "all filters and names up to a length over alphabets with every special character", "A few dozen sample pairs are asserted; the rule is over all filters and names.",
  [B + "V5/Topics.py", B + "V311/Topics.py", B + "V5/SubscriptionEngines.py", B + "V311/SubscriptionEngines.py"], [("topicMatches, isValidTopicName", B + "V5/Topics.py"), ("getSubscriptions", B + "V5/SubscriptionEngines.py")],
  "All strings up to the bound over two alphabets (structure characters; characters special to regular expressions, newline, non-ASCII) as filters and names; validity and matching are compared with a level-by-level reference matcher, directly and through a subscription engine. Every string is also sent to a broker in SUBSCRIBE, UNSUBSCRIBE and PUBLISH packets.",
  observe=["validity and match decisions", "matching subscriptions"], technique="exhaustive bounded enumeration against a reference matcher", note="Exhaustive over the stated alphabets and lengths.")
prop("C06", "Each publication reaches exactly the matching subscribers, in order",
  "A publication is delivered to every client with a matching subscription at that moment and to no other, once per client (or once per matching subscription where the broker is configured so), with unchanged topic and payload, at the lower of the publication's and the subscription's QoS. Messages of one publisher arrive in the order published, and subscribing again or unsubscribing takes effect for the next publication.",
  ["histories", "configurations"], "all sequences of subscribe, unsubscribe, publish, disconnect over overlapping filters, both versions, both overlap settings", "hist",
  [B + "V5/Brokers.py", B + "V311/Brokers.py", B + "V5/SubscriptionEngines.py", B + "V311/SubscriptionEngines.py", B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py"],
  [("publish / deliver", B + "V5/Brokers.py"), ("publish / deliver", B + "V311/Brokers.py")],
  "World (mc/world.py) builds the brokers as the server does and feeds packets through handleRequest; the model (mc/refbroker.py) computes the recipients, and every packet sent to any client must be explained by it and everything due must have been sent.",
  state=[("subscriptions", "filter, client and options of every subscription", B + "V5/SubscriptionEngines.py")])
prop("C07", "A shared subscription delivers each message to exactly one member",
  "For every shared subscription group with at least one member, each matching publication is delivered to exactly one member of the group, with that member's options, independently of other groups and of ordinary subscriptions of the same clients. A message given to a member that is or goes offline stays in that member's session.",
  ["histories", "schedules"], "all sequences with up to 3 members, 3 groups, every choice of the member", "The suite has no exhaustive look at the random choice of the member.",
  [B + "V5/Brokers.py", B + "V5/SubscriptionEngines.py", B + "V5/MQTTBrokers.py"], [("selection of one subscriber of each group", B + "V5/Brokers.py")],
  "The broker's random choice is owned by the explorer and every alternative is explored; the model branches over every member and keeps the branches that explain what was observed.")
prop("C08", "New subscribers get the current retained message of each matching topic",
  "At any time each topic has at most one retained message: the last one published or sent as a will with the retain flag, removed by an empty payload and never affected by other publications. A new subscription is sent exactly the retained messages its filter matches, marked retained, at the lower QoS, with their properties, subject to retain handling, shared-subscription and expiry rules.",
  ["histories"], "all sequences of retained and plain publications, clearing, wills, subscriptions, waits", "hist",
  [B + "V5/Brokers.py", B + "V311/Brokers.py", B + "V5/SubscriptionEngines.py", B + "V311/SubscriptionEngines.py"], [("setRetained / getRetained", B + "V5/SubscriptionEngines.py"), ("__doRetained__", B + "V5/Brokers.py")],
  "As C06, with scenarios on the retained store shared by both versions.", state=[("retained messages", "topic to message", B + "V5/SubscriptionEngines.py")])
prop("C09", "QoS 1 and 2 messages reach a persistent subscriber across lost connections",
  "Once accepted for a session, a QoS 1 or 2 message is sent, and after every reconnection sent again with the same packet identifier and the duplicate flag, in the original order and before newer messages, until it is acknowledged; a QoS 2 message whose receipt was recorded is continued with its release, never sent again. First deliveries do not carry the duplicate flag, identifiers in use are not reused, and nothing is delivered after its acknowledgement.",
  ["histories", "fault_sequences", "crash_points"], "connection loss at every point of the exchange, acknowledgements in every order, both versions", "The suite loses the connection at one point of one exchange.",
  [B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py"], [("resend, publishArrived, puback, pubrec, pubcomp", B + "V5/MQTTBrokers.py"), ("resend, publishArrived, puback, pubrec, pubcomp", B + "V311/MQTTBrokers.py")],
  "As C06, with persistent subscribers that acknowledge, stay silent, lose the connection and return at every point; the model tracks the state of each message of the session.",
  state=[("outbound messages", "unacknowledged and queued messages of a session", B + "V5/MQTTBrokers.py")])
prop("C10", "QoS 2 publications are accepted exactly once",
  "However often a client repeats a QoS 2 publication with the same packet identifier before releasing it - also after losing its connection and resuming its session - the message is distributed exactly once, every PUBLISH is answered with PUBREC and every PUBREL with PUBCOMP. After the release the identifier stands for a new message, and identifiers of different clients or of QoS 1 messages never interfere.",
  ["histories", "fault_sequences"], "all orders of publish, duplicate, release, loss, resume for two identifiers and two publishers, both release policies", "hist",
  [B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py"], [("publish, pubrel with the inbound table", B + "V5/MQTTBrokers.py"), ("publish, pubrel with the inbound table", B + "V311/MQTTBrokers.py")],
  "As C06; the deliveries to a QoS 0 observer are counted by the model.", state=[("inbound", "QoS 2 identifiers received and not yet released", B + "V5/MQTTBrokers.py")])
prop("C11", "Receive Maximum is honoured in both directions",
  "The broker never has more unacknowledged QoS 1 and 2 publications outstanding to an MQTT 5.0 client than the Receive Maximum of its connection, holds back the rest in order and sends them as acknowledgements (including refusals) free the window. A client that exceeds the broker's own Receive Maximum is disconnected with reason 147, and one that stays within it never is.",
  ["histories", "configurations"], "all orders of publications, acknowledgements, refusals, reconnections with other limits", "hist",
  [B + "V5/MQTTBrokers.py"], [("canSend, sendPub, removeOutbound", B + "V5/MQTTBrokers.py"), ("publish", B + "V5/MQTTBrokers.py")],
  "As C06 with limits 1 and 2 in both directions.")
prop("C12", "Sessions live exactly as long as the protocol says",
  "A reconnecting client finds its session (subscriptions, queued and unfinished messages) and is told so exactly when it did not ask for a clean one and the old one has not expired; otherwise it starts from nothing. The session ends with the connection, at its expiry interval after it, or never, as last requested at connect or disconnect; a second connection with the same client identifier closes the first and takes over its session, and sessions of different clients never mix.",
  ["histories", "configurations"], "all sequences of connect (clean or not, several expiries), disconnect, loss, takeover, waits", "hist",
  [B + "V5/MQTTBrokers.py", B + "V5/Brokers.py", B + "V311/MQTTBrokers.py", B + "V311/Brokers.py"], [("connect, endSession, expireSessions", B + "V5/MQTTBrokers.py"), ("connect, disconnect", B + "V311/Brokers.py")],
  "As C06 with virtual time: expiry times are crossed by clock operations, each followed by one run of the broker's background thread.",
  state=[("sessions", "client identifier to session", B + "V5/Brokers.py")])
prop("C13", "Will messages are published exactly when a connection is lost",
  "A will message is published once - with its topic, payload, QoS, retain flag and properties - if the connection ends in any way other than a normal disconnect (loss, protocol error, takeover, keep-alive, or an explicit disconnect with will), and never otherwise. With a will delay it is published at the earlier of the delay and the end of the session, and not at all if the session is resumed before.",
  ["histories", "fault_sequences"], "every way a connection ends x delays and expiries x reconnections x waits", "hist",
  [B + "V5/Brokers.py", B + "V5/MQTTBrokers.py", B + "V311/Brokers.py", B + "V311/MQTTBrokers.py"], [("terminate, sendWillMessage, willMessageClients", B + "V5/Brokers.py"), ("terminate", B + "V311/Brokers.py")],
  "As C12 with wills.", state=[("pending wills", "delayed wills of lost connections", B + "V5/Brokers.py")])
prop("C14", "Keep alive disconnects silent clients, and only those",
  "A client that sends nothing for more than one and a half times its keep alive interval (for MQTT 5.0 limited by, and told, the server's maximum) is disconnected and its will published; any packet it sends restarts the interval, clients that stay within it or asked for no keep alive are never disconnected, and every PINGREQ is answered.",
  ["histories", "configurations"], "all sequences of activity and waits around the limits", "The suite waits once for one interval in real time.",
  [B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py"], [("keepalive, lastPacket", B + "V5/MQTTBrokers.py"), ("keepalive, lastPacket", B + "V311/MQTTBrokers.py")],
  "As C12: the clock is virtual, and the keep alive test the listener makes on an idle connection runs after each wait.")
prop("C15", "Topic aliases always stand for the topic last assigned on that connection",
  "A publication sent with a topic alias is distributed under the topic that client last gave the alias on the same connection; an alias that is zero, above the announced maximum or not yet assigned is a protocol error. Aliases the broker uses towards a client stay within that client's maximum, are announced with their topic on that connection before being used alone, and resolve to the right topic even when messages are held back, sent again or the client reconnects.",
  ["histories", "configurations"], "all sequences over alias values 0-3, maxima 0-2, several clients, reconnection, flow control", "hist",
  [B + "V5/MQTTBrokers.py"], [("useTopicAlias, sendPub", B + "V5/MQTTBrokers.py")], "As C06; the model resolves the aliases the broker sends as the client would.")
prop("C16", "Expired messages are not delivered and remaining lifetimes are correct",
  "A message published with an expiry interval is delivered to MQTT 5.0 subscribers only while it has not expired, wherever it waited - in an offline session, behind flow control, as a retained message or as a will - and carries the interval minus the time it waited. Messages without an expiry never expire, and no expiry is added to them.",
  ["histories"], "all sequences of publications with two intervals, waits, disconnections, subscriptions", "hist",
  [B + "V5/MQTTBrokers.py", B + "V5/Brokers.py", B + "V5/SubscriptionEngines.py"], [("expiry at sending time", B + "V5/MQTTBrokers.py")], "As C12 with expiring messages; times in between the limits, never exactly on them.")
prop("C17", "Maximum Packet Size is honoured in both directions",
  "The broker never sends an MQTT 5.0 client a packet larger than the Maximum Packet Size of its connection: such a publication is dropped for that client only, as if delivered, and optional properties are omitted from acknowledgements that would not fit. A client that sends more than the broker's own announced maximum is disconnected with reason 149, and packets of up to exactly the limit are handled normally.",
  ["inputs", "histories", "configurations"], "payload and property sizes around each limit, several limits, reconnection, flow control", "hist",
  [B + "V5/MQTTBrokers.py"], [("respond, sendPub", B + "V5/MQTTBrokers.py"), ("handleRequest", B + "V5/MQTTBrokers.py")], "As C06 with sizes one below, at and above each limit.")
prop("C18", "Every request is answered exactly once with its own identifier and codes",
  "Each SUBSCRIBE, UNSUBSCRIBE, PUBLISH, PUBREL and PINGREQ is answered by exactly one acknowledgement of the right type with the request's packet identifier, on the same connection, with one result per topic filter in order; granted QoS values are those actually used. Unexpected acknowledgements from clients change nothing.",
  ["histories"], "all sequences of requests and (un)expected acknowledgements, several identifiers", "hist",
  [B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py"], [("subscribe, unsubscribe, publish, pubrel, pingreq", B + "V5/MQTTBrokers.py"), ("subscribe, unsubscribe, publish, pubrel, pingreq", B + "V311/MQTTBrokers.py")], "As C06 over all request types.")
prop("C19", "MQTT 5.0 subscription options have their defined effect",
  "No Local suppresses exactly the client's own publications, Retain As Published keeps the publisher's retain flag and otherwise forwarded messages are not marked retained, Retain Handling decides whether a subscription is sent retained messages, and deliveries carry the identifiers of exactly the subscriptions that caused them. A repeated subscription replaces the options, and options and identifiers survive reconnection with the session.",
  ["histories", "configurations"], "all sequences over combinations of options and overlapping filters", "hist",
  [B + "V5/Brokers.py", B + "V5/SubscriptionEngines.py", B + "V5/Subscriptions.py"], [("deliver, __doRetained__", B + "V5/Brokers.py"), ("subscribe / resubscribe", B + "V5/SubscriptionEngines.py")], "As C06 over option combinations.")
prop("C20", "A misbehaving client is disconnected and harms only itself",
  "A client that breaks the protocol - a malformed or unexpected packet, a packet before or a second CONNECT, an invalid filter, topic, property or limit - is disconnected (in MQTT 5.0 with an error reason), its will is published and its session rules apply. Nothing of the bad packet takes effect, the broker keeps serving, and the sessions and messages of all other clients are unaffected.",
  ["inputs", "histories"], "every kind of violation at every point of other clients' exchanges; a large corpus of malformed packets", "hist",
  [B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py"], [("error handling in handleRequest", B + "V5/MQTTBrokers.py"), ("error handling in handleRequest", B + "V311/MQTTBrokers.py")], "As C06 with violations in the alphabet; the malformed corpus of C03 is sent packet by packet to a connected broker.")
prop("C21", "MQTT 3.1.1 and 5.0 clients exchange messages as one community",
  "Subscriptions, publications, retained messages and wills of 3.1.1 and 5.0 clients work across the two versions exactly as within one: the same recipients, order, QoS and retain rules, persistent sessions and queued messages. What 3.1.1 cannot express (properties, expiry, aliases, options) is left out towards 3.1.1 clients, whose packets are always valid 3.1.1.",
  ["histories", "configurations"], "all sequences with publisher and subscriber of different versions", "The suite never connects both versions at once.",
  [B + "V5/Brokers.py", B + "V311/Brokers.py", B + "start.py"], [("deliver to the other broker's clients", B + "V5/Brokers.py"), ("deliver to the other broker's clients", B + "V311/Brokers.py")], "As C06 with mixed versions; one model covers both brokers.")
prop("C30", "Reinitialization leaves an empty, working broker",
  "After reinitialization no session, subscription, retained message, queued message or pending will of earlier clients has any effect, for clients of either protocol version, and the brokers keep working together as freshly started ones do.",
  ["histories"], "all histories up to a bound, reinitialization, then all continuations", "Tests use it only as a clean-up step.",
  [B + "start.py", B + "V5/MQTTBrokers.py", B + "V5/Brokers.py", B + "V311/MQTTBrokers.py", B + "V311/Brokers.py", B + "V5/SubscriptionEngines.py", B + "V311/SubscriptionEngines.py"], [("reinitialize", B + "V5/Brokers.py"), ("reinitialize", B + "V311/Brokers.py")], "As C12 with a reinitialize operation, which resets the model.")
prop("C31", "Properties of a publication travel with it unchanged",
  "The payload format, content type, response topic, correlation data and user properties (all, in order, also repeated) of a publication or will reach every MQTT 5.0 subscriber unchanged - directly, retained, queued, through shared subscriptions, as a will, or on redelivery - and no other subscriber's delivery, waiting or redelivery alters them. Nothing is added except what the protocol defines (subscription identifiers, topic alias, remaining expiry).",
  ["inputs", "histories"], "every subset of the properties x delivery paths x QoS x subscriber version", "inp",
  [B + "V5/Brokers.py", B + "V5/MQTTBrokers.py", F + "MQTTV5/MQTTV5.py"], [("per-subscriber copies of the properties", B + "V5/Brokers.py")], "Each case is a complete history executed on the real brokers in lock step with the model.",
  technique="exhaustive enumeration of property sets and delivery histories, in lock step with a reference model")
prop("C23", "WebSocket clients get the same service as TCP clients",
  "An MQTT client connecting through a WebSocket gets exactly the answers it would get over TCP, however its packets are divided into frames (several in one, one in several, fragmented, any frame length encoding) and however the network splits the frames and the handshake. The broker answers the handshake correctly, sends complete unmasked binary frames, answers ping with pong and close with close, and drops connections with invalid frames.",
  ["inputs", "fault_sequences"], "every framing x TCP segmentation of bounded sessions, control and bad frames at every place, end of stream after every byte", "The suite has no WebSocket test beyond whole-packet frames.",
  [B + "listeners/TCPListeners.py"], [("BufferedSockets, handshake", B + "listeners/TCPListeners.py"), ("WebSocketTCPHandler.handle", B + "listeners/TCPListeners.py")],
  "The real connection handler runs on scripted in-memory sockets (mc/conn.py); the answers, decoded by an independent WebSocket decoder, are compared with those the real brokers give to the same packets delivered directly.",
  observe=["bytes written to the connection", "messages other clients receive"], technique="exhaustive enumeration of framings, segmentations and faults on the real connection handler",
  note="Exhaustive for the sessions listed in the bounds; the comparison run trusts handleRequest, which C06-C21 check.")
prop("C24", "Every connection is dispatched by its version and cleaned up when it ends",
  "A new TCP or TLS connection is served by the broker of the MQTT version its CONNECT names, and gets exactly the answers its packets deserve however the network splits them, also when data is already buffered by TLS. When it ends, is reset or fails at any point - before CONNECT, inside a packet, while the broker is writing to it - its handler finishes, the will is published and the session kept or ended accordingly, and other connections are unaffected. Connections starting with anything but CONNECT are closed.",
  ["inputs", "fault_sequences"], "every cut, end, reset, stall after every byte; every first byte; short and failing sends at every byte", "The suite only ever closes sockets cleanly between packets.",
  [B + "listeners/TCPListeners.py"], [("WebSocketTCPHandler.handle", B + "listeners/TCPListeners.py"), ("handleRequest, disconnect", B + "V5/MQTTBrokers.py"), ("handleRequest, disconnect", B + "V311/MQTTBrokers.py")],
  "The real connection handler runs on scripted in-memory sockets under a controlled select and clock (mc/conn.py); compared with the same packets delivered directly to the real brokers.",
  observe=["bytes written to the connection", "end of the handler", "messages other clients receive"], technique="exhaustive enumeration of segmentations and faults on the real connection handler",
  note="Exhaustive for the sessions listed in the bounds; the comparison run trusts handleRequest, which C06-C21 check.")
prop("C22", "Concurrent connections behave like some sequence of their packets",
  "Connections are served by one thread each, and the broker has a background thread; however these threads interleave, what every client receives and the state the broker is left in are those of handling the packets, connection losses, keep alive tests and background work one at a time in some order. HTTP requests and MQTT-SN datagrams take part in this like the packets. No interleaving deadlocks, loses, duplicates or corrupts anything, and no connection affects how another one is read or dispatched.",
  ["schedules"], "all schedules of 2-3 threads up to a number of preemptions, at the granularity of source lines", "The suite uses one client thread at a time, mostly.",
  [B + "V5/MQTTBrokers.py", B + "V311/MQTTBrokers.py", B + "listeners/TCPListeners.py", B + "start.py"],
  [("handleRequest, keepalive, cleanupThreads.run and the shared lock", B + "V5/MQTTBrokers.py"), ("handleRequest, keepalive", B + "V311/MQTTBrokers.py"), ("WebSocketTCPHandler.handle", B + "listeners/TCPListeners.py")],
  "The real connection handlers and background thread run as real threads under a controlled scheduler (mc/sched.py): interpreter events at every line of the brokers and listeners, lock operations, waits and sends are the scheduling points, locks are modelled, and every schedule with a bounded number of preemptions is executed. The results (bytes to every client, then the answers to a fixed probe of subscriptions, retained messages and sessions) must be among those of all interleavings of whole packets executed one after the other.",
  observe=["bytes sent to every connection", "answers to the probe"], technique="exhaustive preemption-bounded exploration of thread schedules of the real code, linearizability against all serial executions",
  note="Preemptions only at line boundaries of the brokers' and listeners' source; packet formats run atomically.")
prop("C29", "The server is what its configuration file and command line say",
  "Every listener of a configuration file is created, in order, with its own protocol, port and bind address, and is bound, served and stopped with the server; a TLS listener presents its own certificate and admits exactly the clients its cafile, require_certificate (a client certificate is required unless it is false) and allow_non_sni_connections lines allow, whatever the other listeners say. The global options receive_maximum, topic_alias_maximum, maximum_packet_size (or message_size_limit) and server_keep_alive given before the listeners are what clients of every listener are told, the last line for an option counts, and anything not given has its default (a TCP listener on port 1883 included, or on the --port of the command line). Comments, blank lines, indentation and unknown options change nothing. All MQTT, MQTT-SN and HTTP listeners serve the same brokers.",
  ["inputs"], "all sequences of lines from an alphabet up to a length; all kinds of TLS clients", "The suite is always run with one fixed configuration.",
  [B + "start.py", B + "listeners/TCPListeners.py", B + "listeners/HTTPListeners.py", B + "listeners/UDPListeners.py"],
  [("process_config, run, main", B + "start.py"), ("create", B + "listeners/TCPListeners.py"), ("create", B + "listeners/HTTPListeners.py"), ("create", B + "listeners/UDPListeners.py")],
  "The whole start of the server (start.run, start.main) is executed for every configuration, creating the real listeners with sockets that are never bound (mc/site.py); the handlers of the listeners then get MQTT connections and HTTP requests, and the TLS contexts do handshakes in memory with five kinds of clients. Compared with what each line of the configuration stands for.",
  observe=["listeners created, bound, served, stopped", "TLS handshakes", "CONNACK", "HTTP responses"], technique="exhaustive enumeration of configurations up to a number of lines, on the real start of the server")
prop("C32", "With persistence, retained messages survive the orderly end of the server",
  "With persistence true in the configuration, after the server has been ended in an orderly way (return, keyboard interrupt, signal) and started again, exactly the retained messages of before, of both versions, are there with payload, QoS, properties and remaining expiry, and can be replaced and cleared as usual, over any number of restarts. Sessions are not stored: no client finds a session or a subscription from before a restart. Without persistence nothing is kept or written.",
  ["histories"], "all histories of up to 3 (thorough 4) operations with restarts", "The suite never restarts the server nor uses persistence.",
  [B + "start.py", B + "V5/SubscriptionEngines.py", B + "V311/SubscriptionEngines.py"],
  [("setup_persistence, run", B + "start.py"), ("__init__, setRetained", B + "V5/SubscriptionEngines.py"), ("__init__, setRetained", B + "V311/SubscriptionEngines.py")],
  "Every history of publications, clearing, time and restarts is executed: each run of the server is a complete start.run with its database in a scratch directory; after every operation new 3.1.1 and 5.0 subscribers are compared with a reference map of retained messages.",
  observe=["retained messages received by new subscribers", "CONNACK", "files written"], technique="exhaustive exploration of operation and restart histories on the real code",
  note="Only the orderly end of the server stores anything; a crash is outside of the property. ZODB itself is trusted.")
prop("C33", "The HTTP interface shows the state of the server, and only shows it",
  "At any moment GET /api/v0001/clients lists exactly the clients with a session, of both MQTT versions, under their ids and with whether they are connected, GET /api/v0001/clients/ID shows one of them (404 if there is none; the id may contain any characters, percent-encoded), GET /api/v0001/subscriptions lists exactly the current subscriptions with clientid, topic and qos, and GET /api/v0001/retained exactly the retained messages: topic, payload as text, QoS. Every request, also for other paths and methods, gets an HTTP response (404 for what does not exist) and leaves the state of the server as it was.",
  ["histories", "inputs"], "all states reachable with the operations of the bounds", "The suite never uses the HTTP interface.",
  [B + "listeners/HTTPListeners.py"], [("get_clients, get_client, get_subscriptions, get_retained_messages, APIs.operation, requestHandler", B + "listeners/HTTPListeners.py")],
  "Breadth-first exploration of broker states; in every state reached all GET requests, unknown paths and other methods are given to the real request handler, and compared with the reference broker; the digest of the broker state must not change. Concurrent requests are part of C22.",
  observe=["HTTP responses", "state digest"], technique="explicit-state exploration of the real brokers against a reference model, all requests in every state",
  note="The further attributes of a client in the JSON data are not looked at.")
prop("C25", "The proxies pass on every packet unchanged, in both directions",
  "The tracing proxy (run_proxy.py) and the restart test proxy (run_restart_proxy.py) give every packet, of any MQTT version and whether or not they can decode it, to the other side byte for byte, in order and exactly once, however the network cuts it up and however little of it can be sent at a time; packets of one side do not wait for packets of the other. When the client or the broker closes its connection, what it sent before is still passed on and both connections are closed; both are also closed when one is reset, the broker cannot be reached, when a connected 3.1.1 client publishes TERMINATE to the topic 'MQTTSAS topic' (which the tracing proxy does not pass on), and when the restart proxy gets a control message, which breaks the latest connection even if nothing is being sent on it. Nothing else ends a connection, and no connection affects another one. The proxies listen on the port after that of a broker on localhost, and on 1883 otherwise.",
  ["inputs", "histories", "schedules"], "all orders of up to 4 (thorough 5) packets and endings, all cuts, all schedules of two connections with 1 (2) preemptions", "The suite does not use the proxies.",
  ["interoperability/mqtt/proxy/mqttsas.py", "interoperability/mqtt/restart/netproxy.py"],
  [("MyHandler.handle, run", "interoperability/mqtt/proxy/mqttsas.py"), ("MQTTHandler.handle, ControlBrokers.on_message, run", "interoperability/mqtt/restart/netproxy.py")],
  "The real handlers run on in-memory sockets under the scheduler, behind the real socketserver request processing; every script of arrivals and endings within the bounds is executed and every time nothing moves any more, what was passed on is compared with the packets that arrived. Two connections at once are run with all schedules.",
  observe=["bytes sent to both sides", "connections closed", "address listened on"], technique="exhaustive enumeration of event sequences and preemption-bounded schedules of the real proxy code",
  note="While a packet has arrived only in part, packets of the other side may wait for its completion. The graphical proxy (wmqttsas.py) needs wx and Python 2 and is left out.")
prop("C26", "The client library keeps to the protocol and to its application",
  "Whatever the application calls, the server sends, and the network does: connect sends exactly the CONNECT that was asked for and returns the CONNACK, or raises an exception when the server refuses, closes or does not answer; publish, subscribe and unsubscribe send exactly one intact packet with the given contents (even if the network takes only a part at a time, and from several threads at once) and return its packet id, which is 1 to 65535 and not in use by another message in flight; every message from the server reaches the application's callback (or receive()) unchanged, a QoS 2 message once, and is acknowledged as its QoS requires only after the callback accepted it; published is called once per completed publication; when the session is resumed the client sends the unacknowledged messages again, with DUP, in order and with the same ids, or the PUBREL if the PUBREC had come, and forgets everything when the session is not there; disconnect completes the messages in flight first, and afterwards, as after terminate, no thread of the client goes on.",
  ["inputs", "histories", "schedules"], "application: up to 2-3 publications, subscriptions, pause and resume, disconnect, terminate, reconnections; server: all acknowledgements (also negative ones), QoS 0-2 messages, PUBRELs, refusals, silence, lost connections; all sequences within the depth; threads: all schedules with up to 2 preemptions",
  "The tests use the client library as a tool against a friendly server: short sends, refusals, lost connections, resumed sessions, ids which wrap and concurrent calls do not occur.",
  ["interoperability/mqtt/clients/V5/main.py", "interoperability/mqtt/clients/V5/internal.py", "interoperability/mqtt/clients/V311/main.py", "interoperability/mqtt/clients/V311/internal.py"],
  [("connect, publish, disconnect, __nextMsgid", "interoperability/mqtt/clients/V5/main.py"), ("Receivers.receive, resend", "interoperability/mqtt/clients/V5/internal.py"), ("connect, publish, disconnect", "interoperability/mqtt/clients/V311/main.py"), ("Receivers.receive, resend", "interoperability/mqtt/clients/V311/internal.py")],
  "The real clients run against a scripted server in breadth-first exploration; their receiver threads are real threads which run only when the explorer waits for them. A reference client predicts every packet sent and every callback. Packet ids are enumerated with all patterns of used ids around the wrap. Concurrent calls run under the controlled scheduler with a server which acknowledges at once.",
  observe=["packets sent", "callbacks", "results and exceptions of the calls", "threads which go on"], technique="explicit-state exploration of the real client library against a reference client, and exhaustive schedules of its threads",
  note="A PUBLISH which arrives while the application has paused the client is dropped without acknowledgement (that is what pause is for). Server behaviour that violates the protocol (acknowledgements for unknown ids) is not explored.")
prop("C27", "Model exploration takes every path exactly once, and recorded tests replay",
  "Exploring a model with the mbt package (step or run) calls only actions whose parameters are all available and whose results are still wanted, with values of their pools, one call for every combination; results are added to their pools once (not to those declared as output), values an action is finished with are removed after it, and a restart puts the pools back and calls the restart callback. Whatever the choices (random or by the select callback, which is offered exactly the paths not yet exhausted), no path is taken a second time once all of it was tried, every path is taken before the exploration says that nothing is left, and an exception ends a path. A record of the exploration, replayed by Tests, makes the same calls and reports as many passes as there are results and observations and no failure on an implementation which behaves as recorded, also if observations come later, and at least one failure on one where a recorded result or observation is different or missing.",
  ["inputs", "histories"], "all models of 1-2 (thorough 3) actions over an alphabet of 15, explored to 1-3 calls, all choices with up to 2 (3) deviations", "The suite does not use the mbt package.",
  ["interoperability/mbt/main.py", "interoperability/mbt/__init__.py"],
  [("Traces, Executions.step, Actions.enumerateChoices", "interoperability/mbt/main.py"), ("Tests.run", "interoperability/mbt/main.py")],
  "Every model is explored by the real engine, with every sequence of choices which deviates from the first alternative in a bounded number of places; a reference tree of paths says what may be called next and what is left. The log of each exploration is replayed with Tests on the same implementation and on all which deviate from it in one call.",
  observe=["calls of actions and callbacks", "alternatives offered", "passes and failures"], technique="exhaustive exploration of the engine's choices on all models within bounds, against a reference of the path tree",
  note="Implementations are deterministic between restarts. Results with spaces at their end, and several references to one object in a call, are outside of the bounds.")
prop("C37", "Tests generated from the 3.1.1 specification record and check what a broker does",
  "Generating a test from specifications/MQTTV311.py: each action which is taken (with what the log says it is called with) sends its connection's packet, exactly as its arguments describe it, to the broker; packet ids are not 0 and not used before on that connection, and 0 for QoS 0 messages. Every packet which the broker sends to an open connection is observed exactly once, in order and with the number of its connection, and nothing else is; results are the socket number, the packet id, and the return code of the CONNACK. PUBREC, PUBLISH with QoS 1 or 2, and PUBREL which were observed are each acknowledged once, before any other action, and nothing else is acknowledged. An action only fails if the broker has ended its connection; then the test ends, and the next one starts afresh. The log of a test, replayed by Tests with the specification's callbacks, passes on a broker which behaves the same, also if it chooses other packet ids for its messages, and does not pass on one which leaves out or changes a packet.",
  ["inputs", "histories", "schedules"], "all sequences of 2 steps (thorough 3) of one connection and 3 (4) of two over alphabets of 10-14; each filter with each topic, all payloads, all kinds of CONNECT; what is not allowed at each place; packets read at once or late; every packet left out or changed in the replay of the shorter ones", "The suite does not generate or replay tests.",
  ["interoperability/specifications/MQTTV311.py", "interoperability/mbt/main.py", "interoperability/suite_generate.py", B + "V311/MQTTBrokers.py"],
  [("actions, Clients, ClientSockets, select, generateCallCallback, observationCheckCallback", "interoperability/specifications/MQTTV311.py"), ("Executions.step, Tests", "interoperability/mbt/main.py")],
  "The real generator is steered, through its own random choice, to take every sequence of actions of the enumeration, in a process of its own; its reader threads run under control. Its log is compared with a second broker which gets the packets the reference codec makes from the arguments. The log is then replayed by the real Tests over the explorer's connections: against a fresh broker, one behind a relay which translates packet ids, and ones behind a relay which drops or alters one packet, for every packet.",
  observe=["log of the generator", "alternatives offered", "passes and failures of the replays"], technique="exhaustive enumeration of action sequences of the real test generator in lock step with a second broker, and replay of every log against all single deviations",
  note="What the broker itself does is the subject of the other properties. Reader threads run only while the generator sleeps or between its steps. Packets which a client did not read before it closes its connection are not observed.")
prop("C28", "MQTT-SN packets are encoded as specified and reach the MQTT subscribers",
  "The MQTT-SN packets the formats implement (CONNECT, CONNACK, PUBLISH with all flags) are packed exactly as the specification encodes them, whatever the values of their fields and for every length up to 65535 bytes, are unpacked into equal packets, and differ from packets with other field values; bytes which are no complete such packet are never unpacked into one, and reading from a stream ends when the stream does. A CONNECT datagram gets exactly one CONNACK to its sender (0 if accepted, another code for another protocol id, or an empty client id without clean session) and connects the sender; a client id connecting from another address takes over. A PUBLISH with a short topic name, with QoS -1 from any sender or QoS 0 from a connected one, reaches exactly the MQTT 3.1.1 and 5 clients subscribed to that topic, unchanged and with QoS 0, and is retained if so flagged. Every other datagram (malformed, unsupported, from a sender which is not connected, with a wildcard topic) has no effect, and the server goes on.",
  ["inputs", "histories"], "codec: all flags, ids and lengths around every boundary, all short byte strings, all truncations and length values of sample packets; server: all sequences of datagrams and MQTT operations within the bounds", "The only tests pack and unpack the default packets; nothing sends a datagram.",
  [F + "MQTTSN/MQTTSN.py", B + "SN/MQTTSNBrokers.py", B + "SN/Brokers.py", B + "listeners/UDPListeners.py"],
  [("Flags, Connects, Connacks, Publishes, unpackPacket, getPacket", F + "MQTTSN/MQTTSN.py"), ("handleRequest, connect, publish", B + "SN/MQTTSNBrokers.py"), ("publish", B + "SN/Brokers.py")],
  "The codec is enumerated against an independent one. The real UDP handler is driven with datagrams in breadth-first exploration, in lock step with the reference broker extended by the connected senders; the two MQTT clients show deliveries and retained messages.",
  observe=["packed bytes and unpacked fields", "datagrams sent", "packets received by MQTT clients"], technique="exhaustive enumeration of the codec and explicit-state exploration of the real MQTT-SN broker against a reference model",
  note="QoS 1 and 2, REGISTER, SUBSCRIBE and the other packets are not implemented by the repository (only the start of MQTT-SN support, says its README); they only must have no effect.")
prop("C34", "Test hooks provoke the behaviour they name, for that client only",
  "For MQTT 5.0 clients: a publication to cmd/disconnectWithRC makes the broker disconnect the publisher at once with the reason code in the payload, the reason string, server reference and user property of the hook, without publishing its will and keeping its session as its expiry interval says, and is not forwarded or acknowledged (a payload that is no such reason code is a protocol error, with will). A publication to test_qos_1_2_errors is answered with PUBACK or PUBREC 135, which ends the exchange and frees its packet id; every QoS 2 exchange on test_qos_1_2_errors_pubcomp ends with PUBCOMP 146, also after reconnection, other exchanges of this or other clients do not. A subscription to test/nosubscribe is refused with 128 and has no effect, test/QoS 1 only and test/QoS 0 only are granted at most that QoS, without effect on other filters of the packet. These answers, SUBACK and UNSUBACK carry the request's user properties, all and in order. For 3.1.1 clients the cmd/ and test_qos topics are ordinary ones.",
  ["inputs", "histories"], "every reason code 0-300 and malformed payloads; all sequences of up to 5-6 (thorough 7) publications, releases, losses, reconnections and subscriptions over an alphabet with and without user properties, both release policies, receive maximum 1 and 65535", "The suite provokes each hook once, alone, with one message in flight.",
  [B + "V5/MQTTBrokers.py"], [("handleBehaviourPublish, publish, pubrel, subscribe, unsubscribe", B + "V5/MQTTBrokers.py")],
  "As C06 with an alphabet of the hooks' topics; the reference broker knows the hooks.",
  observe=["reason codes and properties of DISCONNECT, PUBACK, PUBREC, PUBCOMP, SUBACK and UNSUBACK", "deliveries, wills and sessions afterwards"])
prop("C35", "The account of conformance statements met is exact",
  "Of the broker's log records, those which mention a conformance statement ([MQTT...], the first in the text after its arguments are filled in) pass the filter the first time this statement is logged and are suppressed afterwards; all others always pass. At any time the measures report, separately for statements and for exceptions, exactly those of the code's statements which have been logged as found and all others as not found, with the right numbers and percentage. The report itself is logged completely and counts nothing. Every statement the handlers of the 5.0 broker log is among those counted.",
  ["histories"], "all sequences of up to 4 (thorough 5) log records of 9 kinds and reports; one session with every kind of packet", "Nothing in the suite looks at the coverage account.",
  [B + "coverage.py", B + "start.py"], [("Filters.filter, getmeasures, measure, getCoverage", B + "coverage.py")],
  "The real filter is put on the broker's real logger; every sequence of records within the bound is logged, and what comes out, and every report, is compared with a set of the statements logged so far.",
  observe=["log records which pass", "lines of the report"], technique="exhaustive enumeration of log histories against a reference account", note="The 3.1.1 broker's own statements are not among those the repository counts.")
prop("C36", "Visual mode and charts report every packet and change nothing else",
  "With visual true in the configuration, every packet a MQTT 5.0 client sends or is sent - of every type and whatever it contains - is reported once, and in order, to each client subscribed to $SYS/clients-packets, of either version: a QoS 0 publication of a JSON object with the direction, the socket, the client id and the fields of the packet. Publications which carry a report are not reported themselves, also to watchers with topic aliases or who watch themselves. With mscfile each packet adds one line to the chart, in order. What clients otherwise receive, and what is kept for them, is the same as without these modes.",
  ["histories", "configurations"], "all sequences of up to 4-5 (thorough 5-6) operations of two clients with 5.0 and 3.1.1 watchers, three kinds of watchers, with and without a chart", "No test uses visual mode or a chart file.",
  [B + "V5/MQTTBrokers.py", F + "MQTTV5/MQTTV5.py", B + "start.py"], [("respond, handleRequest, handlePacket", B + "V5/MQTTBrokers.py"), ("json of the packets", F + "MQTTV5/MQTTV5.py")],
  "As C06, with the mode switched on: the reports are taken out of what each watcher receives and compared with the packets which crossed the sockets in this step; the rest must be what the reference broker, which knows nothing of the mode, allows.",
  observe=["reports received by each watcher", "lines of the chart", "everything else the clients receive"],
  note="Properties and reason codes in the text of a report are not compared. A report may be dropped for a watcher whose Receive Maximum is used up, like any QoS 0 publication.")
