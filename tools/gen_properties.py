#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)."""
import json,os
CM="server-lib/src/clients/mod.rs"; CW="server-lib/src/clients/clientworker.rs"; MC="server-lib/src/clients/mqttclient.rs"
NC="server-lib/src/clients/noiseclient.rs"; DI="server-lib/src/dispatcher.rs"; TO="server-lib/src/topics.rs"; LI="server-lib/src/lib.rs"; CL="server-lib/src/clients/client.rs"
PK="packet/src/packet.rs"; PR="packet/src/props.rs"; DA="packet/src/data.rs"
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
NOT="The only tests are 73 unit tests of the packet crate; the broker (server-lib) has none at all, so nothing samples even one schedule. "
prop("B01","Each supported publish reaches every matching subscriber exactly once, intact",
 "When a connected client that stays connected sends a QoS 0 PUBLISH the broker supports, every client that stays connected and whose matching subscription was acknowledged before the publish was sent receives it exactly once, as soon as the network and that client let it through. The copy carries the same topic, payload and forwarded properties (payload format indicator, response topic, correlation data, content type, user properties in their order), with QoS 0 and DUP and RETAIN clear. Other clients' connects, disconnects, stalls and errors, the mix of plain and encrypted connections, and the number of packets in flight do not lose, repeat or alter it.",
 ["schedules","inputs","histories","fault_sequences","configurations"],"every workload of plain and encrypted clients, task schedule, segmentation/delay/stall pattern and fault sequence",
 NOT+"Loss and duplication depend on interleavings of reader, dispatcher, writer and session tasks.",[DI,CW,TO,CL],
 [("publish fan-out","%s process_publish"%DI),("subscriber lookup","%s collect_subs"%TO),("per-client outgoing queue","%s send"%CL)],
 [("outgoing","packets queued for one client","%s"%CL),("incoming","bounded queue of packets to dispatch",LI)],["bytes received by clients"])
prop("B02","No client receives a publish it has no current matching subscription for",
 "A client receives a PUBLISH only if a client really sent it as a supported request on an accepted session, at most once per publish, and only if the receiver itself requested, in its current session, a subscription that was not refused and matches the topic. Nothing is delivered that was sent in a refused, malformed or oversized packet, on a connection that was not accepted, or before a broker restart.",
 ["schedules","inputs","histories","fault_sequences"],"every workload, schedule and fault sequence, including identifier reuse and pipelined requests",
 NOT+"A stray delivery needs a particular history (identifier reuse, refused filter, pipelining).",[DI,TO,CM],
 [("subscriber lookup","%s collect_subs"%TO),("only granted filters are inserted","%s process_subscribe"%DI)],[("topics table","who subscribed to what",TO)],["bytes received by clients"])
prop("B03","Topic filters match exactly the topics MQTT 5 says they match",
 "A subscription matches a published topic exactly if, level by level, '+' stands for one whole level (also an empty one), a final '#' for its parent level and everything below it, and every other level, including empty ones, is equal byte for byte; a filter that begins with a wildcard never matches a topic that begins with '$'. This holds for every set of filters held at once by any number of clients, for delivery and for the subscriber lookup alike.",
 ["inputs","histories"],"all topics, all filters, all combinations of coexisting subscriptions",
 NOT+"The set of topic/filter combinations is unbounded; topics.rs has no test.",[TO],
 [("topic trie walk","%s Block::collect_subs"%TO),("level splitting","%s topic_to_subtopics"%TO)],[("root_block","trie of subscriptions",TO)],["deliveries","TopicsTable::get_all_subscribed"])
prop("B04","All clients see publishes in one order consistent with real time",
 "There is one total order of all published messages such that every connection receives its copies in that order. The order respects the order in which each connection sent its messages, and places m1 before m2 whenever some client had received m1 before m2 was sent.",
 ["schedules","histories","fault_sequences"],"every schedule, any number of publishers and subscribers",
 NOT+"Ordering anomalies only appear under particular interleavings.",[DI,CW,LI],
 [("single dispatcher over a FIFO queue","%s process_forever"%DI),("FIFO outgoing queue per client","%s"%CL)],[("incoming","FIFO of packets to dispatch",LI)],["bytes received by clients"])
prop("B05","Each SUBSCRIBE is answered once, in order, with the right code per filter",
 "A connected client receives exactly one SUBACK per supported SUBSCRIBE, in the order sent, with the same packet identifier and one reason code per filter in order: 0x00 for maximum QoS 0 with retain handling 2, and 0x83 for any other QoS or retain handling. A filter is subscribed exactly if its code was 0x00; subscribing again to the same filter replaces its options. Requests of one connection take effect in the order they were sent.",
 ["schedules","inputs","histories"],"every list of filters and options, every pipelining and schedule",
 NOT+"Needs request histories interleaved with publishes and other clients.",[DI,TO,CW],
 [("subscribe processing","%s process_subscribe"%DI),("table insert","%s subscribe"%TO)],(),["SUBACK packets","deliveries","TopicsTable::get_all_subscribed"])
prop("B06","No-local and overlapping filters give one copy, own copies only if allowed",
 "A client whose several filters match one publish receives one copy of it. It receives its own publish exactly if at least one of its matching filters was subscribed without the no-local option, whatever the order of subscribing and however the filters overlap; the no-local option never withholds another client's publish.",
 ["inputs","histories","schedules"],"all combinations of overlapping filters and options",
 NOT+"Depends on combinations of overlapping filters.",[DI,TO],[("merging of matching subscriptions","%s collect_subscribers/collect_hash_wildcard"%TO),("no-local filter","%s process_publish"%DI)],(),["deliveries"])
prop("B07","The first packet back is one CONNACK that states the broker's true terms",
 "The broker sends nothing on a connection before it has received a complete CONNECT, and answers a supported CONNECT that arrives in time with exactly one successful CONNACK, before anything else. That CONNACK has session present clear and states exactly: the client's session expiry interval and receive maximum (or their defaults 0 and 65535), maximum QoS 0, topic alias maximum 0, no wildcard, subscription identifier or shared subscription support, the configured server keep-alive, and an assigned identifier exactly if the client gave none. Every legal combination of the optional CONNECT properties other than authentication is accepted, and a connection whose first packet is not a CONNECT is closed without any reply.",
 ["inputs","schedules","histories"],"every legal CONNECT, every fragmentation and pipelining",
 NOT+"Combinations of properties, fragmentation and pipelined packets are unbounded.",[CW,MC,NC],[("connect processing","%s process_connect"%CW)],(),["bytes received by clients"])
prop("B08","Unsupported CONNECTs are refused with 0x83, closed, and leave no trace",
 "A CONNECT with a user name, password, will, authentication property or without clean start is answered with one CONNACK with reason code 0x83 and the connection is then closed by the broker. It never appears in the client list, nothing sent after it on that connection has any effect, and a session already using that client identifier is not disturbed.",
 ["inputs","schedules","histories"],"all unsupported CONNECT combinations, with pipelined packets behind them",
 NOT+"Requires histories with existing sessions and pipelined packets.",[CW,MC,NC],[("refusal","%s unimplemented"%CW)],(),["bytes received by clients","MqttServer::clients"])
prop("B09","A connection that does not finish connecting is closed on time, not earlier",
 "A plain connection that has not sent a complete supported CONNECT is closed by the broker when the configured keep-alive time has passed since it was accepted; an encrypted one when its handshake is not complete after three times that time, or when no complete CONNECT follows within that time after the handshake. A connection that is still within its time and has sent nothing wrong is not closed, and a client that connected in time is not subject to these limits any more.",
 ["schedules","inputs","fault_sequences","configurations"],"all keep-alive values of at least a second, all arrival patterns including slow trickles",
 NOT+"Needs a controlled clock; no test runs the broker at all.",[MC,NC],[("connect timeout","%s _connect_client"%MC),("handshake timeout","%s _connect_client"%NC)],(),["connection close seen by clients"])
prop("B10","Clients without an identifier get unique assigned ones",
 "Each client that connects with an empty client identifier is assigned a non-empty identifier, told to it in the CONNACK, that differs from every other assigned identifier and every identifier in use during the life of the broker. It is the identifier under which the client is listed, and anonymous clients never take over or disturb one another's sessions.",
 ["schedules","histories"],"any number of anonymous clients, any schedule",
 NOT+"Uniqueness is over whole histories.",[CW,CM],[("uuid assignment","%s process_connect"%CW)],(),["CONNACK","MqttServer::clients"])
prop("B11","Connecting with an identifier in use hands the session to the newer client",
 "When a client connects with an identifier whose session is established, the broker closes the older connection and the newer one stays connected, is listed exactly once, and receives its own replies and deliveries. Neither the end of the older connection nor requests of it that were still queued have any effect on the newer session, in whatever order these events happen.",
 ["schedules","histories","fault_sequences"],"every order of connects, closes and queued packets of sessions sharing an identifier",
 NOT+"The outcome depends on the order of task completions.",[CM,CW,DI],[("session registration","%s process_new_worker"%CM),("session retirement","%s process_retiring_worker"%CM)],[("clients","identifier to session",LI)],["connection close seen by clients","deliveries","MqttServer::clients"])
prop("B12","When a session ends, all its subscriptions end with it",
 "When a client closes or resets its connection (also only its sending direction), or the broker ends the session, the broker promptly closes its side and drops every subscription of that session: the subscriber lookup no longer names it. A later session with the same identifier receives nothing until it subscribes itself, even if requests of the earlier one were still queued when it ended.",
 ["schedules","histories","fault_sequences"],"every way and moment a session can end",
 NOT+"Needs sessions ending at arbitrary points between queued requests.",[CM,DI,TO,MC],[("retirement","%s process_retiring_worker"%CM),("subscription removal","%s unsubscribe_all"%TO)],[("reverse_index","filters held by each client",TO)],["TopicsTable::get_all_subscribed","deliveries"])
prop("B13","The client list is exactly the set of live sessions",
 "Whenever the broker has nothing left to do, the list of clients it reports contains the identifier of every connected session exactly once and no other: no refused, unfinished, closed, failed or replaced connection. Asked at any other moment, it names every session in use throughout, nobody twice, and no identifier for which no CONNECT has been accepted.",
 ["schedules","histories","fault_sequences"],"every history of connects, disconnects, takeovers and faults",
 NOT+"The list is maintained by concurrent tasks.",[CM,LI],[("registration and retirement",CM)],[("clients","identifier to session",LI)],["MqttServer::clients"])
prop("B14","One client's faults never stop the broker or hurt other clients",
 "No sequence of client packets, disconnects, stalls or failures to accept a connection, single or lasting, makes the broker panic, spin or stop making progress, and its listeners keep accepting. Every well-behaved client stays connected and keeps being served while others misbehave; a client that does not read delays nobody but itself.",
 ["schedules","inputs","histories","fault_sequences"],"all misbehaviour of any subset of clients, all accept errors",
 NOT+"A fault has to hit at a particular point of another client's activity.",[DI,CM,CW,MC,NC],[("accept loop","%s listen_forever"%MC),("unbounded outgoing queues","%s"%CL),("dispatcher loop","%s process_forever"%DI)],(),["panics, busy loops and deadlocks of the simulated process","connection close seen by clients","deliveries"])
prop("B15","Requests the broker does not support get DISCONNECT 0x83 and have no effect",
 "A connected client that sends a packet the broker does not support (QoS 1 or 2, DUP or RETAIN publishes, publishes with message expiry, topic alias or subscription identifier, SUBSCRIBE with a subscription identifier, any packet other than PUBLISH and SUBSCRIBE) receives one DISCONNECT with reason 0x83 and the broker closes its connection. The request itself has no effect: nothing is delivered, subscribed or changed, and other clients are not affected.",
 ["inputs","schedules","histories"],"all unsupported packets, at any point of a session",
 NOT+"Needs sessions in arbitrary states when the request arrives.",[DI,CW],[("refusal","%s unimplemented"%DI)],(),["bytes received by clients"])
prop("B16","Packets above the configured maximum size close the sender and do nothing",
 "A client that sends a packet larger than the configured maximum packet size is disconnected without the packet having any effect, on plain and on encrypted connections, however the packet is split on the wire. A packet of exactly the maximum size is handled like any other.",
 ["inputs","configurations","schedules"],"all sizes around the limit, all limits, all fragmentations",
 NOT+"Boundary, fragmentation and pipelining combine.",[MC,NC],[("receive limit","%s recv"%MC),("receive limit, encrypted","%s recv"%NC)],(),["connection close seen by clients","deliveries"])
prop("B17","No client is sent a packet above the maximum size it declared",
 "The broker never sends a client a packet larger than the maximum packet size of that client's CONNECT or than the broker's own configured maximum. A publish that is too large for one subscriber, or for an encrypted connection's message limit, is skipped for it alone: that subscriber stays connected and keeps receiving others, and all other subscribers still receive it. A client whose limit is smaller than the CONNACK itself is closed without being sent it.",
 ["inputs","configurations","histories"],"all declared limits and message sizes",
 NOT+"Needs several subscribers with different limits.",[CW,CL],[("outgoing limit","%s listen"%CW)],[("max_packet_size","limit declared by the client",CL)],["bytes received by clients"])
prop("B18","Shutdown completes promptly, closes everything, and start is all-or-nothing",
 "Shutting the broker down completes without waiting for any client, whatever clients and handshakes are in progress: all client connections are closed and all listening addresses are released. A broker started again on the same addresses starts from nothing: no session, subscription or message of the previous one survives. If starting fails because an address cannot be bound, an error is returned and nothing is left listening or running.",
 ["schedules","histories","fault_sequences"],"shutdown at any point of any history; bind failures of either listener",
 NOT+"Shutdown races with every other task.",[LI,CM,MC,NC,CW,DI],[("shutdown notification","%s shutdown"%LI),("bind","%s start"%CM)],[("shutdown","notification shared by all tasks",LI)],["completion of MqttServer::shutdown","sockets of the simulated network"])
prop("B19","Strict brokers never leak encrypted publishes to plain connections",
 "With strict channel permeability, a message published over an encrypted connection is delivered only to encrypted subscribers; with permissive permeability it is delivered to all matching subscribers. Messages published over plain connections are delivered to all matching subscribers in both modes.",
 ["configurations","histories","schedules"],"both modes, all mixes of plain and encrypted clients, including identifiers that move between the two kinds of connection",
 NOT+"Depends on the channel a publisher used and on takeovers between channels.",[DI,CL],[("permeability check","%s process_publish"%DI)],[("encrypted","channel of a session",CL)],["deliveries"])
prop("B21","Encrypted connections keep confidentiality, authenticity and integrity",
 "On the encrypted listener a session only exists after a complete Noise XK handshake by a client that knows the broker's public key; a client that uses a wrong key, or sends plain MQTT, is closed without any reply to its requests. Everything the broker sends after the handshake is encrypted: no topic or payload appears in clear on the wire. A frame that was altered, replayed, reordered or truncated closes that connection and has no effect on anyone else.",
 ["inputs","fault_sequences","schedules"],"all tampering of frames at any point of a session",
 NOT+"Needs an active attacker on the wire.",[NC],[("handshake","%s handshake"%NC),("transport","%s recv/send"%NC)],(),["raw bytes on the wire","connection close seen by clients"])
prop("B22","The subscription table is correct under concurrent use",
 "Calls to subscribe, unsubscribe, unsubscribe-all and lookup made concurrently on the broker's subscription table behave as if each took effect on each (client, filter) at one moment between call and return: a lookup names every client whose matching subscription was in place throughout and no client that had none. No call is lost, and once unsubscribe-all for a client has returned with no other call in progress, no lookup names that client.",
 ["schedules","histories"],"all interleavings of concurrent calls",
 NOT+"Races between awaits of concurrent calls.",[TO],[("trie node creation","%s create_if_not_existing"%TO),("reverse index","%s reverse_index_add/remove"%TO)],[("root_block","trie",TO),("reverse_index","filters per client",TO)],["TopicsTable API results"])
prop("B23","Every dispatch queue size works; back-pressure loses and reorders nothing",
 "The broker starts and serves clients for every configured dispatch queue size, including zero and sizes below one packet. When the queue is full, readers wait: however many packets arrive at once, every supported packet of clients that stay connected is still processed, once and in order.",
 ["configurations","schedules"],"all queue sizes, any number of packets in flight",
 NOT+"Configuration space and overload schedules.",[LI,CW,DI],[("bounded queue","%s new"%LI),("waiting send","%s listen"%CW)],[("incoming","bounded queue",LI)],["deliveries","MqttServer::new"])
prop("B24","A malformed packet closes its connection at once and has no other effect",
 "A client that sends a malformed MQTT packet (bad type or flags, bad lengths, bad UTF-8, unknown, misplaced or repeated properties, illegal topics or options, trailing or missing bytes) is disconnected as soon as the whole packet has arrived, without waiting for more bytes. Neither the malformed packet nor anything after it on that connection is acted on, and nothing else in the broker is affected.",
 ["inputs","schedules","fault_sequences"],"all malformed packets, at any point of a session, in any fragmentation",
 "The unit tests parse a few hand-written malformed packets from one contiguous buffer; none runs them through a connection.",[MC,NC,PK,PR,DA],[("error path","%s recv"%MC),("decoder","%s from_bytes"%PK)],(),["connection close seen by clients","deliveries"])
prop("B25","A broker that serves nobody holds nothing of those it has served",
 "When the connections, refused attempts, sessions, subscriptions and messages of a workload are over, whatever way they ended, the idle broker holds no task, socket or memory on their account: repeating workloads, with the same or ever new client identifiers, filters and topics, leaves the idle broker with as many tasks and sockets and as much memory as after the first of them (up to a constant for tables and queues that keep their room). The same holds across restarts in one process.",
 ["histories","fault_sequences","schedules"],"all sequences of workloads, of any length, and all ways connections end",
 NOT+"A leak shows only over long histories, and per way of ending.",[TO,CM,CW,DI,LI],[("end of a session","%s handle_client"%CM),("removal from the tree","%s topic_remove"%TO)],[("root_block","trie",TO),("reverse_index","filters per client",TO),("clients","registry",LI)],["memory and tasks held by the idle broker","open sockets"])
prop("B26","What the broker holds does not grow with what its clients have done",
 "While the same clients stay connected with the same subscriptions, the memory and tasks of the broker do not grow with time: once everything sent has been delivered, it holds no more than it did before, however many messages they have exchanged, on however many topics, however often they have repeated a subscription, and however many other clients have come, subscribed, published and gone meanwhile (up to a constant per connection for buffers and queues that keep their room).",
 ["histories","fault_sequences","schedules"],"all histories of any length around and by clients that stay",
 NOT+"Growth shows only over long histories of the same session.",[TO,CM,CW,DI,MC,NC],[("subscription","%s subscribe"%TO),("routing","%s process_publish"%DI),("buffers","%s recv"%MC)],[("root_block","trie",TO),("reverse_index","filters per client",TO),("outgoing","queue per client","server-lib/src/clients/client.rs")],["memory and tasks held by the broker while its clients are idle"])
prop("B27","A length that is only announced makes the broker set nothing aside",
 "Whatever length a peer announces, for a packet, for a field or for an encrypted frame, before, during or after the handshake and CONNECT, the broker never allocates a piece of memory out of proportion to the configured maximum packet size (or the 64 KiB a Noise message can have) and to what has really been sent.",
 ["inputs","histories","schedules"],"all announced lengths at all points of a connection, on both transports",
 NOT+"The effect is invisible unless memory is accounted for.",[MC,NC,PK,DA],[("plain buffer","%s recv"%MC),("frame length","%s _connect_client"%NC),("decoder","%s from_bytes"%PK)],(),["sizes of the broker's allocations"])
prop("C01","Packets survive the byte stream exactly, whatever its fragmentation",
 "Any sequence of valid packets of all fifteen types, written one after another to a byte stream, decodes from that stream into the same sequence, packet by packet, whatever the fragmentation and however the bytes are laid out in the reader's buffers. Encoding a decoded packet gives an equivalent packet of the same length, and the reported frame length is exactly the number of bytes the packet occupies.",
 ["inputs","schedules"],"all packets, all fragmentations, contiguous and non-contiguous buffers",
 "The unit tests round-trip single hand-written packets from one contiguous buffer.",["packet/src"],[("decode","%s from_bytes"%PK),("encode","%s to_bytes"%PK),("frame length","%s frame_len"%PK)],(),["Packet::from_bytes","Packet::to_bytes","Packet::frame_len"])
prop("C02","The decoder tells incomplete from malformed and never over-reads or panics",
 "For any bytes whatever the decoder does not panic. A proper prefix of a valid packet is reported as incomplete, a complete frame is never reported as incomplete, and a malformed frame is reported as an error. Decoding consumes exactly the bytes of the packet it returns and never looks past the end of the frame its length field announces.",
 ["inputs","fault_sequences"],"all byte strings obtained by truncating, corrupting, extending and splicing packets on the wire",
 "The unit tests try a few hand-written truncated packets.",["packet/src"],[("decode","%s from_bytes"%PK),("variable byte integer","%s MqttVariableBytesInt"%DA)],(),["Packet::from_bytes"])
prop("C03","A packet is what the accepted builder calls made it, and refused calls are void",
 "Whatever calls set up a packet, a will or a property list, in whatever order, with repetitions and with refused calls among them: the accessors give exactly the values of the accepted calls (the last one where a value was set again; user properties, filters and reason codes in order), a refused call leaves everything as it was, and a copy shares nothing with its original. Arguments MQTT 5 forbids are refused without a panic: strings or binary data over 65535 bytes, NUL in a string, misplaced wildcards, wildcards in a topic name, reserved option bits, variable integers over 268435455, properties of another packet type or value type, a packet identifier with QoS 0, will settings without a will. Valid arguments are accepted. Once all mandatory parts are set, the packet encodes, into any kind of buffer, to one well-formed packet of exactly the reported frame length that decodes to the same values; the same holds for a packet that was decoded and then changed.",
 ["inputs","histories"],"all call sequences with all arguments, on new and on decoded packets",
 "The unit tests make a few packets with one fixed sequence of accepted calls each; none goes on after a refused call.",["packet/src"],[("CONNECT builder","packet/src/connect.rs Connect"),("PUBLISH builder","packet/src/publish.rs Publish"),("property list","packet/src/props.rs Properties"),("filters","packet/src/topic.rs MqttTopic")],(),["accessors of the packet types","Packet::to_bytes","Packet::frame_len"])
BM="bm/src/main.rs"; BP="bm/src/publisher.rs"; BS="bm/src/subscriber.rs"; BC="bm/src/client.rs"
prop("D01","A benchmark run against a broker that stays up ends with a true report",
 "Run against a broker that stays up, the benchmark client (bm) ends by itself with success, whatever the delays, stalls and fragmentation of the network. It opens the asked number of subscribers and publishers on the asked endpoint; every subscriber is subscribed to the asked topic before the first message is published; each publisher sends exactly the asked number of messages to that topic, pausing before each as asked (none, constant, or random within the bounds), and stays connected until every subscriber has received everything; the run ends only when every subscriber has. The printed configuration is the asked one, and the printed minimum, maximum and 75th, 90th and 99th percentile trip times, mean arrival rate per subscriber and mean departure rate per publisher are those of the messages that went over the wire (the arrival rate over the time a subscriber spent receiving, the departure rate over the time a publisher spent sending, pauses excluded).",
 ["schedules","inputs","configurations","fault_sequences"],"all command lines with any number of subscribers, publishers and messages, all pacings, schedules and network behaviours",
 "The benchmark client has no tests at all; its figures depend on the timing of every message.",[BM,BP,BS,BC],[("subscribers before publishers, release of the publishers, report","%s main"%BM),("pacing","%s run"%BP),("trip times","%s listen"%BS),("framing","%s recv"%BC)],[("deltas","time spent on each message",BP),("trips_time","trip time of each message",BS)],["bytes written and read by the benchmark client","standard output","end of main"])
prop("D02","A benchmark run that loses its broker ends by itself, and not with success",
 "If the broker the benchmark client (bm) is told to use is not there, shuts down, or all connections or the connection of one subscriber break, at any point of the run, the client ends by itself within bounded time instead of waiting or spinning for ever, and it ends with success and a report only if every message had already been sent and received by every subscriber.",
 ["schedules","configurations","fault_sequences"],"all points of a run at which the broker or a connection can go away",
 "The benchmark client has no tests at all, and none of the repository's tests breaks a connection.",[BM,BC,BS,BP],[("end of file","%s recv"%BC),("failures of tasks","%s starts_subs/start_pubs"%BM)],(),["end of main","standard output"])
SM="server/src/main.rs"
prop("S01","The server program serves both its addresses until it is ended",
 "The server program (apiformes-server), once started, serves plain MQTT on port 1883 and encrypted MQTT, under the key pair noted in its source, on port 8883, on every address of the machine, with a keep-alive of 50 s, a maximum packet size of 65536 bytes and strict separation of encrypted publishes from plain clients. It keeps doing so for as long as it runs, with all the guarantees of the broker, whatever its clients do and however long it has been running, and never ends by itself. If one of its addresses cannot be bound, it ends with a failure instead of serving half.",
 ["histories","schedules","fault_sequences"],"all histories of its clients, for any length of time",
 "The server program has no tests at all, and what happens after minutes or days of running can only be seen with a simulated clock.",[SM,LI,CM],[("settings and life of the program","%s main"%SM),("start","%s new"%LI)],(),["connections to both ports seen by clients","end of main"])
here=os.path.dirname(os.path.abspath(__file__))
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
open(os.path.join(here,"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
