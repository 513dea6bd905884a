#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PK=["packet/header.go","packet/packet.go","packet/artpoll.go","packet/artpollreply.go","packet/artdmx.go","packet/artnzs.go","packet/artsync.go","packet/artaddress.go","packet/artcommand.go","packet/artdiagdata.go","packet/artipprog.go","packet/artipprogreply.go","packet/arttimecode.go","packet/arttrigger.go","version/version.go"]
p("C01","Every encoded packet has exactly the Art-Net wire layout",
 "For every packet of every supported type and every value of its fields, encoding succeeds and yields exactly the fixed-size Art-Net message of that type: identifier 'Art-Net' plus NUL, that type's opcode low byte first, protocol version 14 (absent in ArtPollReply), then every field in order with 16-bit values high byte first (the ArtPollReply port low byte first) and all filler bytes zero. An encoded ArtDmx always announces 512 channels and an encoded ArtCommand always carries manufacturer 0xffff. A packet made by a type's constructor encodes with that type's opcode without the caller setting it.",
 ["inputs"],"all field values of all 12 packet types (ArtDmx alone has 518 free bytes)",
 "The tests marshal about a dozen literal ArtPoll, ArtPollReply and ArtDmx values; nine packet types have no test at all and no field is varied independently.",
 PK,[("marshalPacket / finish of each type","packet/header.go"),("version.Bytes","version/version.go")],obs=["bytes returned by MarshalBinary"])
p("C02","Decoding an encoded packet gives the same packet back",
 "For every packet of every supported type whose field values the protocol allows, decoding the encoded bytes with the general decoder succeeds and returns a packet of the same type in which every field equals the original (ArtDmx length 512, ArtCommand manufacturer 0xffff).",
 ["inputs"],"all field values of all 12 packet types",
 "Encode and decode are tested separately on a few literals; no test feeds the output of one to the other.",
 PK,[("Unmarshal dispatch","packet/packet.go"),("marshalPacket / unmarshalPacket","packet/header.go")],obs=["Unmarshal(MarshalBinary(p))"])
p("C03","Encoding is repeatable and does not alter the packet",
 "Encoding the same packet any number of times yields the same bytes every time. Encoding changes none of the caller's payload fields (except the ArtDmx length and the ArtCommand manufacturer, which encoding fixes to 512 and 0xffff), and afterwards the packet still reports its own type's opcode and, for ArtPollReply, its original port.",
 ["inputs","histories"],"all packets, and all sequences of repeated encodings (one encoding maps the packet to a fixed point)",
 "Every test encodes a packet once and never looks at the packet afterwards.",
 PK,[("finish of each type","packet/*.go"),("marshalPacket","packet/header.go")],obs=["packet value after MarshalBinary","second MarshalBinary result"])
p("C04","No datagram can crash a decoder",
 "For every byte sequence of any length, the general decoder and the decoder of every packet type return normally: they never panic, never read outside the given bytes and never modify them, and an accepted datagram always yields a non-nil packet.",
 ["inputs"],"all byte slices of all lengths, for 13 decoders, on any previous content of the receiver",
 "Tests feed a dozen well-formed buffers; no test uses truncated or hostile input except one zero-padded ArtDmx.",
 PK,[("length checks in Header.unmarshal and ArtDMXPacket.UnmarshalBinary","packet/header.go, packet/artdmx.go"),("binary.Read short-read error","packet/header.go")],obs=["panic / error of Unmarshal and UnmarshalBinary"])
p("C05","Decoders accept exactly the well-formed packets of their own kind",
 "A packet decoder accepts a datagram only if it starts with the Art-Net identifier, carries that type's opcode and a protocol version whose low byte is at least 14 (ArtPollReply carries none) and is at least as long as the type's fixed layout (ArtDmx: at least 18 bytes plus its declared even length of 2 to 512); ArtPollReply additionally needs port 6454 in either byte order and a known style, ArtCommand manufacturer 0xffff, and declared data lengths of ArtNzs, ArtCommand and ArtDiagData never exceed 512. Every datagram meeting these rules is accepted. The general decoder returns the packet type selected by the opcode and rejects every opcode it does not implement.",
 ["inputs"],"all byte slices",
 "Tests cover three opcodes with valid headers and two invalid versions.",
 PK,[("validate of each type","packet/*.go"),("switch on opcode","packet/packet.go")],obs=["error / dynamic type returned by the decoders"])
p("C06","Decoded fields are exactly the datagram's bytes",
 "In every accepted packet each field equals the value found at its fixed position in the datagram (16-bit values high byte first, opcode low byte first, ArtPollReply port normalised to 6454), independent of what the receiving packet held before. For ArtDmx the first declared-length channels equal the datagram's data and all remaining channels are zero.",
 ["inputs"],"all byte slices, all previous receiver contents",
 "Only literal ArtPoll, ArtPollReply and ArtDmx buffers are compared.",
 PK,[("unmarshalPacket","packet/header.go"),("ArtDMXPacket.UnmarshalBinary","packet/artdmx.go")],obs=["fields of the decoded packet"])
C=["packet/code/status1.go","packet/code/status2.go","packet/code/porttype.go","packet/code/goodinput.go","packet/code/goodoutput.go","packet/code/talktome.go","packet/code/swmacro.go","packet/code/swremote.go"]
p("C07","Each flag setter changes exactly its own flag and each getter reads it back",
 "For every register value, switching a named flag on or off makes the matching getter return that choice and leaves every other bit of the register unchanged, at the bit position Art-Net assigns. The multi-valued settings (port-address authority, indicator state, port protocol) read back exactly the value set, replacing any earlier value, and leave all other bits unchanged; an unrecognised value changes nothing.",
 ["inputs"],"all 256 values of each of the 8 registers, all setters, all argument values",
 "Tests use five setters once each, always from a zero register and never read a flag back.",
 C,[("With*/getter pairs","packet/code/*.go")],obs=["return values of setters and getters"])
p("C08","Code names and validity checks match the Art-Net code tables for every value",
 "For every possible value of an opcode, style, node report or priority code, naming it never panics, gives the documented name for each defined value and a numeric rendering for every other; a code is reported valid exactly when it is a defined one. The textual rendering of every status register reports each of its flags faithfully.",
 ["inputs"],"all 65536 opcodes, all 256 style/report/priority codes and register values",
 "No test calls a String method or validity check.",
 ["packet/code/opcode.go","packet/code/opcode_string.go","packet/code/stylecode.go","packet/code/nodereportcode_string.go","packet/code/prioritycode_string.go"]+C,
 [("name tables and index arrays","packet/code/*_string.go"),("ValidOp, ValidStyle","packet/code/opcode.go, stylecode.go")],obs=["String(), ValidOp, ValidStyle"])
p("C09","A node starts only with a configuration that can be announced",
 "A configuration is accepted exactly when it has at most 4 input ports, at most 4 output ports, and every port index used for both directions has the same protocol type in both. Starting a node with any other configuration returns an error before a socket is opened or a background task is started.",
 ["inputs","configurations"],"all node configurations, any number of ports of any type",
 "There is no test for the root package.",
 ["config.go","node.go"],[("NodeConfig.validate","config.go"),("Node.Start","node.go")],obs=["error from Start / validate"])
p("C10","A node's announcement faithfully describes its configuration",
 "For every valid configuration the poll reply built from it carries the configured OEM, versions, style, status, bind index, addresses, report and hardware address, port 6454, a port count equal to the larger of the input and output counts, and for every port index the direction bits and (for the six protocols Art-Net defines) the protocol of exactly the configured ports (zero elsewhere). The port's base address is announced as its net, and as its sub-net in the low nibble. Short and long names are the configured text cut to 17 and 63 bytes and always end in NUL.",
 ["inputs","configurations"],"all valid configurations, names of any length, IPs of any form",
 "There is no test for the root package.",
 ["config.go"],[("ArtPollReplyFromConfig","config.go"),("NumberOfPorts, PortTypes","config.go")],obs=["fields of the reply"])
p("C11","A poll reply is turned into exactly the ports and identity it announces",
 "For every poll reply the derived node description has one output (input) port, in order, for each of the first min(port count, 4) entries whose type has the output (input) bit, with that entry's type and status and the universe address made of the reply's net (7 bits), sub-net nibble and that entry's switch nibble, and no other ports. Identity fields are copied verbatim and ASCII names are the bytes before the first NUL.",
 ["inputs"],"all poll replies",
 "There is no test for the root package.",
 ["config.go"],[("ConfigFromArtPollReply","config.go"),("decodeString","config.go")],obs=["NodeConfig returned"])
p("C12","Universe addresses have a one-to-one number and text form",
 "The number of a universe address is net*256 + sub-net*16 + universe, and its text is 'net:subnet.universe' in decimal; two addresses have the same number or the same text only if they are equal.",
 ["inputs"],"all 65536 addresses and all pairs",
 "There is no test for the root package.",
 ["config.go"],[("Address.Integer, Address.String","config.go")],obs=["Integer(), String()"])
CT=["controller.go"]
p("C13","The controller's universe tables always point at live nodes that announce them",
 "After every node discovery, re-announcement, removal or expiry, in any order, every entry of the output (input) universe table refers to a node currently in the node list whose latest announcement contains that output (input) universe, and every routed output universe has a DMX buffer of its own that no other universe shares. The node list never holds two nodes with the same IP.",
 ["histories","inputs"],"all sequences of discovery, update, delete and expiry with any number of nodes and ports",
 "There is no test for the root package; the invariant is over unbounded histories.",
 CT,[("updateNode, deleteNode, gcNode","controller.go")],[("Nodes","known nodes","controller.go"),("OutputAddress / InputAddress","universe to node","controller.go"),("DMXBuffer","frame buffers per node","controller.go")],["Controller.Nodes, OutputAddress, InputAddress"])
p("C14","A node announcement updates exactly that node",
 "When a node announces itself it becomes (or stays) the single entry for its IP with the announced description, a fresh last-seen time, and every announced output and input universe routed to it; universes it no longer announces no longer lead to it. Every other node, every route of a universe that neither its previous nor its new announcement mentions, and the DMX data already stored for its continuing universes stay unchanged.",
 ["histories","inputs"],"any controller state, any announcement",
 "There is no test for the root package.",
 CT,[("updateNode","controller.go")],[("Nodes","known nodes","controller.go")],["Controller state after an announcement"])
p("C15","Exactly the nodes unseen for over 7 seconds are expired, without side effects",
 "A clean-up removes every node last seen more than 7 seconds ago together with every universe route leading to it, keeps every node seen more recently in its original order with its description, and never panics or touches other nodes' data. Explicitly deleting a node removes exactly the node with that IP and its routes, reports success, and reports an error, changing nothing, when no such node is known.",
 ["histories","inputs"],"any number of nodes, any mixture of ages",
 "There is no test for the root package.",
 CT,[("gcNode, deleteNode","controller.go")],None,["Controller.Nodes after clean-up"])
p("C16","Sending DMX to a universe stores that frame for that universe only",
 "Sending a DMX frame to a routed universe replaces that universe's stored frame with exactly the 512 bytes given and marks it for transmission, including universes a known node has only just announced. It changes no other universe's frame, no route and no node; sending to an unknown universe changes nothing.",
 ["inputs","histories"],"all frames, all addresses, all controller states",
 "There is no test for the root package.",
 CT,[("SendDMXToAddress, setDMXBuffer","controller.go")],None,["stored frames"])
p("C17","Every transmitted DMX frame carries the right universe, data and sequence number",
 "Each frame a controller transmits for a universe is a valid ArtDmx message for exactly that universe with the 512 bytes last stored for it, sent to the owning node's IP on port 6454. A node's sequence numbers advance by one per frame through 1 to 255 and wrap to 1; 0, which would disable resequencing, is never sent.",
 ["histories","inputs"],"all buffers, all sequence states, all frames of a history",
 "There is no test for the root package; the wrap needs 256 frames.",
 CT+["packet/artdmx.go"],[("dmxUpdate","controller.go"),("dmxUpdateLoop update closure","controller.go")],[("Sequence","last sequence sent","controller.go")],["datagrams queued for sending"])
p("C18","Each update tick sends pending and overdue universes once, and nothing else",
 "On each update tick the controller transmits, for each routed universe, exactly one frame if a new frame is pending and its last frame is at least one frame interval (1 s / maximum frame rate) old, or if none was sent for more than 250 ms, never more than one, and none if nothing is pending and a frame was sent within the last 250 ms; a transmitted universe is no longer pending and its last-sent time is the tick's time. A failure for one universe does not prevent the others from being served.",
 ["histories","schedules"],"all controller states at a tick, any number of universes",
 "There is no test for the root package.",
 CT,[("dmxUpdateLoop","controller.go")],None,["datagrams queued per tick"])
p("C19","Shared controller and node state is only touched under its lock",
 "Every access to the controller's node list, universe tables and stored frames made by its background tasks or its sending call, and every access to a running node's shutdown flag, happens while holding the protecting lock; locks are always released on every path and never re-acquired by the holder.",
 ["schedules"],"all interleavings of the background tasks and API calls",
 "Races depend on interleavings no test runs.",
 ["controller.go","node.go"],[("nodeLock, shutdownLock","controller.go, node.go")],None,["lock state at each access"])
p("C20","Received datagrams are delivered intact, and only foreign, readable ones",
 "Each datagram handed on by the receiver consists of exactly the bytes received, in storage that later datagrams never overwrite, with its sender's address; datagrams sent from the node's own IP are ignored. A socket read error never crashes the node, and an undecodable datagram is dropped without any handler being called and without stopping reception.",
 ["inputs","fault_sequences","schedules"],"all datagrams, senders and read errors, in any order",
 "There is no test for the root package and no fault injection.",
 ["node.go"],[("recvLoop and its reader","node.go")],None,["payloads passed to packet handling"])
p("C21","Packets are dispatched to exactly the handler registered for their opcode",
 "A received packet is passed, unchanged and once, to the handler registered for its opcode and to no other; packets without a handler are dropped. Handlers can be added, replaced and removed for any opcode only while the node is not running; attempts on a running node change nothing. A fresh node handles polls and poll replies, and poll replies are only consumed by controllers.",
 ["inputs","histories"],"all packets, all registration histories",
 "There is no test for the root package.",
 ["node.go"],[("handlePacket, RegisterCallback, DeregisterCallback, handlePacketPoll, handlePacketPollReply, NewNode","node.go")],None,["handler invocations"])
p("C22","Every poll is answered with the node's announcement",
 "For each ArtPoll a running node takes up, it queues exactly one ArtPollReply datagram, addressed to its configured broadcast address, whose bytes are the encoding of the announcement of its configuration; it queues a reply at no other time. Queued datagrams are sent unmodified to their stated address, and a send failure never stops the sender.",
 ["histories","fault_sequences"],"all sequences of polls and send failures until shutdown",
 "There is no test for the root package.",
 ["node.go","config.go"],[("pollReplyLoop, sendLoop","node.go")],None,["sendCh payloads, WriteToUDP calls"])
p("C23","The controller polls the network and admits only nodes and output controllers",
 "A running controller broadcasts a valid ArtPoll (reply-on-change set) to its configured broadcast address once at start and once per poll interval and answers each of its own polls. From a received reply it registers exactly devices of style node, or controllers with at least one output port, with the description derived from that reply; all other replies change nothing.",
 ["histories"],"all sequences of ticks and replies until shutdown",
 "There is no test for the root package.",
 CT,[("pollLoop","controller.go")],None,["sendCh / pollCh payloads, updateNode calls"])
p("C24","Options and start/stop never crash and take effect exactly",
 "Every option sets exactly the parameter it names, and an out-of-range frame rate is refused with an error and leaves the previous rate, so that no option makes a running controller crash. Stopping a node or controller never panics, whether it was never started, failed to start, is running, or was already stopped, and marks it as not running; a background task that notices the stop ends.",
 ["histories","configurations"],"all option values; all sequences of start, failed start and stop",
 "There is no test for the root package.",
 ["options.go","node.go","controller.go"],[("options","options.go"),("Start, Stop","node.go, controller.go")],None,["panics, parameters, running state"])
p("C25","After Stop every background task of a node or controller ends",
 "Once Stop has been called, every background task started by Start eventually terminates and no API call blocks forever.",
 ["schedules"],"all interleavings after Stop",
 "Termination under all schedules cannot be sampled.",
 ["node.go","controller.go"],[("shutdownCh","node.go, controller.go")],None,["live goroutines after Stop"])
p("C26","Polls and frame refreshes happen on time",
 "A running controller polls every 3 seconds of real time and never sends more than the configured number of frames per second and universe.",
 ["schedules"],"all timings",
 "Real-time behaviour depends on the scheduler and clock.",
 ["controller.go"],[("pollTicker, update ticker","controller.go")],None,["timestamps of sent datagrams"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
