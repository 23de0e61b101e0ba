"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "knx_stack/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=None),
        technique=technique, note=note))


REF = "Held on the executions of the run (counts in the evidence file), judged by an independent reference model written from the KNX formats; trusts that model and the Python interpreter."

# ---------------------------------------------------------------- values
prop("V01", "Octet strings are consumed exactly, in order, without aliasing",
     "A message made from hexadecimal text in any letter case, or from a list of octets, prints as the same octets; consuming it in pieces of one, two and four octets (and by the host address, connection header, connection request and connection data operations) yields exactly the leading octets, leaves exactly the rest, and never changes the message consumed from or any other copy of it. Nibbles and the values of two and four octet pieces agree with the octets they are made of, also after setting them, and pieces show all their hexadecimal digits. Messages made separately share nothing: setting an octet of one changes no other octet.",
     ["inputs", "histories"], "every octet string and every sequence of consuming operations",
     "The tests take a handful of fixed strings apart in one fixed way each.",
     [K + "msg.py", K + "definition/knxnet_ip/msg.py", K + "definition/usb_hid/msg.py"],
     [("octet, short and long unions", K + "msg.py"), ("consuming message classes", K + "msg.py")],
     ["Msg", "Octect", "Short", "Long", "knxnet_ip.Msg", "usb_hid.Msg"],
     "trace monitor of consumed pieces against a byte string model", REF)
prop("V02", "An address is one 16 bit value, in all three group notations",
     "A group address given in free style, two level style or three level style denotes one 16 bit value, reads back the fields of every notation consistently (5/11 and 5/3/8 bits), and prints them all. Addresses denoting the same value are equal and hash alike whatever notation they were given in; addresses denoting different values are different. An individual address is likewise one 16 bit value, equal to and hashed as any other of that value only.",
     ["inputs"], "all 65536 addresses in all notations, and pairs of them",
     "The doctests look at a few addresses.",
     [K + "address.py"], [("overlaid bit fields", K + "address.py")], ["GroupAddress", "Address"],
     "differential monitor over the complete address space", REF + " The address space is enumerated completely.")
prop("V03", "Coded datapoint fields sit where the KNX format puts them",
     "For every coded datapoint type (switch, info switch, alarm, up/down, start, dimming control, the scene types, brightness, climate setup and climate report) each named field reads the documented bits of the value, setting a field to any of its values changes exactly those bits and nothing else, and the names of a field's values stand for their documented codes. An unknown name is refused and changes nothing; the temperature of a climate report is read and set in tenths of a degree.",
     ["inputs"], "every word of the one octet types, boundary and random words of the larger ones, every field and value",
     "The tests set one or two fields of one or two types.",
     [K + "datapointtypes.py"], [("bit field structures of the datapoint types", K + "datapointtypes.py")],
     ["the datapoint types' fields and values"], "field-wise reference monitor", REF)
prop("V04", "16 bit KNX floats follow the format over all words and values",
     "Every 16 bit word decodes to 0.01 * mantissa * 2**exponent with a 12 bit two's complement mantissa and a 4 bit exponent, and every value in -671088.64 .. 670760.96 encodes to a word whose value is within one step of the format around it and of the same sign; encoding what was decoded gives the same value back, for every type of this format. Values out of range are refused without changing the datapoint, and what it held before does not matter.",
     ["inputs", "histories"], "all 65536 words; decimal, random and boundary values over any previous content",
     "The tests encode some ten values.",
     [K + "datapointtypes.py"], [("float encode and decode", K + "datapointtypes.py")],
     ["encode and decode of the temperature, wind speed and lux types"],
     "differential monitor against an independent codec, complete over words", REF)
prop("V05", "32 bit float datapoints are IEEE 754 single precision, big endian",
     "Encoding a number in a four octet float datapoint (as power) stores its nearest IEEE 754 single, decoding returns exactly the single stored, and on the bus it travels as those four octets, most significant first. Encoding and decoding are inverse of each other for every finite single and leave no trace of what the datapoint held before.",
     ["inputs", "histories"], "boundary and random words and values, in sequences on one datapoint",
     "The tests encode one or two values.",
     [K + "datapointtypes.py"], [("float overlay", K + "datapointtypes.py")],
     ["DPT_Float_32, DPT_Value_Power"], "differential monitor against struct/IEEE 754", REF)
prop("V06", "Dictionary descriptions of datapoints round trip",
     "The dictionary describing a datapoint of any type names the type and every field with its present value, and building a datapoint from the type's name and those fields gives the same value; a field which is absent is zero, the order of the keys does not matter, and an unknown type is refused. Building and describing change neither the dictionary nor the datapoint passed in. The text a datapoint prints as names its type and shows the same fields and values.",
     ["inputs"], "every type, enumerated and random words, partial and shuffled dictionaries",
     "The doctests describe and build a few types once.",
     [K + "datapointtypes.py"], [("DPT factory and description factory", K + "datapointtypes.py")],
     ["DPT_Factory.make", "Description_Factory.make"], "round trip monitor", REF)

# ---------------------------------------------------------------- tables
prop("T01", "The address table is a sorted, bounded, duplicate free set",
     "Whatever the history of additions, removals and individual address changes, an address table holds the group addresses added and not removed, once each, in ascending order, never more than its maximum size, however large; every address maps to a connection number and back, number 0 being the individual address. A table made from more addresses than that, an addition beyond it, or a lookup or removal of an address which is not there, is refused and changes nothing.",
     ["histories"], "histories of operations on tables of maximum size 0 to 255",
     "The tests perform one or two operations on a fixed table.",
     [K + "definition/layer/network/address_table.py"],
     [("sorted list of addresses", K + "definition/layer/network/address_table.py")], ["AddressTable"], "model based history monitor", REF)
prop("T02", "Routing follows the associations, whatever their history",
     "After any history of associating and disassociating addresses and ASAPs, changing the address table and refused operations, a group address leads exactly to the ASAPs presently associated with it, an ASAP to its present addresses with the first associated one used for sending, and the frames decoded and encoded agree with that. A refused operation (table overflow, unknown ASAP or address) leaves the tables as they were.",
     ["histories", "fault_sequences"], "histories of table operations, with failures at any point",
     "The tests associate a few addresses once.",
     [K + "definition/layer/transport/association_table.py"], [("association table over connection numbers", K + "definition/layer/transport/association_table.py")],
     ["AssociationTable", "decode_msg", "encode_msg"], "model based history monitor with fault injection", REF)
prop("T03", "A free ASAP value is never one in use",
     "The free ASAP value an association table offers is the smallest one which is not in use (0 stands for the individual address), for any set of values in use and any order and history in which they were associated; asking does not change the tables.",
     ["histories"], "sets of used values and orders of association",
     "The doctest asks once.",
     [K + "definition/layer/transport/association_table.py"], [("search for a free value", K + "definition/layer/transport/association_table.py")],
     ["AssociationTable.get_free_asap_value"], "model based history monitor", REF)
prop("T04", "Live reconfiguration is effective from the next message on",
     "Changing a running stack's datapoint type table, its associations or its individual address affects every message encoded or decoded afterwards, at once and completely, and no message before; what was already delivered does not change.",
     ["histories"], "histories interleaving reconfiguration and traffic on one stack",
     "The tests set the tables up once before the traffic.",
     [K + "definition/layer/application/groupobject_table.py", K + "state.py"], [("tables consulted at each message", K)],
     ["GroupObjectTable", "AssociationTable", "decode_msg", "encode_msg"], "model based history monitor", REF)

prop("T05", "What the tables print is what they hold",
     "After any history of reconfigurations, refused ones included, the text of the association table shows exactly each access point with its name and its group addresses in their order and the individual address of the stack, the text of the address table every address with its number, in order, and its limit, and the text of the group object table every access point with its type; the text of a state holds them all. Access points are equal, and alike as keys, exactly when their numbers are, whatever their names.",
     ["histories", "configurations"], "every history of the tables",
     "The documentation shows one table.",
     [K + "definition/layer/transport/association_table.py", K + "definition/layer/network/address_table.py", K + "definition/layer/application/groupobject_table.py", K + "state.py"],
     [("texts of the tables", K)], ["repr of the tables and of State", "ASAP"], "state monitor parsing the texts against a model", REF)

prop("T06", "A state answers from its tables and its last message",
     "At any moment of any history of reconfigurations and traffic a state tells its own tables, medium, individual address, counters (modulo 256) and channel; the number, access points and types the tables give for the destination of the frame decoded last; and the addresses, their numbers and the type the tables give for the access point it was asked for, which after a request is the requesting one. Its text shows the same.",
     ["histories", "configurations"], "every history of tables and traffic",
     "The doctest asks one state.",
     [K + "state.py", K + "definition/knxnet_ip/state.py"], [("questions to the state", K + "state.py")], ["State"],
     "state monitor against a model of the tables", REF)

# ---------------------------------------------------------------- encode
prop("E01", "Group requests become exactly one well formed frame",
     "A group read or write request for an associated ASAP is encoded as one cEMI data request, to the first address associated with the ASAP, with the right service and the datapoint's value in the format of its type (inside the service octet for values of six bits or less, appended most significant octet first otherwise), and a group write indication as the corresponding indication, framed for the stack's medium. A request which can not be sent, as for an ASAP without an address, is refused and leaves no trace in the stack.",
     ["inputs", "configurations"], "configurations, media, services, all datapoint types and values",
     "The tests compare single frames for one or two types.",
     [K + "encode/layer", K + "encode/__init__.py"], [("layered encoder", K + "encode")],
     ["encode_msg"], "differential monitor against a reference encoder", REF)
prop("E02", "Every USB report is a consistent KNX HID report",
     "Everything encoded for USB is one HID report carrying exactly the frame the application message stands for: report identifier 1, a single first-and-last packet, header length 8, protocol KNX tunnel with common EMI, manufacturer 0, and report and body lengths equal to what follows; what does not fit in one report is refused.",
     ["inputs", "configurations"], "all kinds of messages, configurations and values",
     "The tests compare single reports.",
     [K + "encode/usb_hid"], [("report and protocol headers", K + "encode/usb_hid")], ["encode_msg on a USB stack"],
     "independent parser as online checker", REF)
prop("E03", "Every tunnelling frame is a consistent KNXnet/IP frame",
     "Everything encoded for tunnelling carries the header of its service with a total length equal to the octets of the frame, the session's channel, the sequence counter the session is to send next (or, for an acknowledge, the acknowledged request's own counter and status), and exactly the frame the application message stands for. Encoding a request does not by itself advance the counters, so the same request encodes alike until it is acknowledged.",
     ["inputs", "configurations"], "all kinds of messages, channels, counters and statuses",
     "The tests compare single frames with counter 0 or 1.",
     [K + "encode/knxnet_ip"], [("KNXnet/IP header and connection header", K + "encode/knxnet_ip")],
     ["encode_msg on a KNXnet/IP stack"], "independent parser as online checker", REF)
prop("E04", "Property requests carry their object, property, count, index and data",
     "A property read or write request is encoded as one individually addressed data request to the stack's own device, carrying the object index, the property, the 4 bit count, the 12 bit start index and, for a write, the data octets, each in its place and with the right length, whatever ASAP it is issued from; a write too long for one frame is refused.",
     ["inputs", "configurations"], "all header fields and lengths of data",
     "The tests encode one request of each kind.",
     [K + "encode/layer/application"], [("property header and data", K + "encode/layer/application")],
     ["encode_msg"], "differential monitor against a reference encoder", REF)
prop("E05", "Connection management requests carry the right endpoint and channel",
     "Search, connect, connection state and disconnect requests are encoded with the endpoint's address and port (for connect, as both control and data endpoint, with a link layer tunnelling connection request), and, for the last two, the channel of the session; each with correct lengths, and without disturbing the session.",
     ["inputs"], "all endpoints, ports and channels",
     "The tests encode one request of each kind.",
     [K + "encode/knxnet_ip/core"], [("core services", K + "encode/knxnet_ip/core")], ["encode_msg"],
     "differential monitor against a reference encoder", REF)

prop("E06", "A connection to the own device opens and closes with control frames",
     "The transport layer's connect and disconnect requests become one frame of the medium with the matching control TPDU and no application code, to the stack's individual address as it is then; they neither move the session nor change the requests after them.",
     ["inputs", "histories"], "connects and disconnects between group requests, on all media",
     "The tests encode one connect on one medium, and the disconnect's example is out of date.",
     [K + "encode/layer/transport/t_connect/req.py", K + "encode/layer/transport/t_disconnect/req.py"],
     [("control TPDU", K + "encode/layer/transport")], ["t_connect.req.encode", "t_disconnect.req.encode"],
     "differential monitor against a reference encoder", REF)

# ---------------------------------------------------------------- decode
prop("R01", "A group indication reaches exactly the ASAPs associated with it",
     "Decoding a group read, write or response indication delivers one message of that service for every ASAP which is associated with the destination address and has a datapoint type, holding the value of the frame in that type, and nothing else; this holds on USB and in tunnelling, whatever the sender, priority, hop count, repetition and additional information of the frame. A frame for an address of nobody, for a broadcast, or of another kind of message delivers no application message.",
     ["inputs", "configurations"], "configurations with shared and several addresses, services, values and frame fields",
     "The tests decode a few fixed frames in one configuration.",
     [K + "decode/layer", K + "decode/cemi"], [("layered decoder and routing by tables", K + "decode/layer")],
     ["decode_msg"], "differential monitor against a reference decoder", REF)
prop("R02", "A group confirmation carries the confirmed value and the outcome",
     "Decoding the confirmation of a group request delivers to every ASAP associated with the address, and only to them, a confirmation of the same service with the value confirmed and the outcome the bus reported, positive or negative. The confirmation of a request encoded by the stack leads back to the requesting ASAP with the value requested.",
     ["inputs", "configurations"], "configurations, services, values and both outcomes",
     "The tests decode a few positive confirmations.",
     [K + "decode/layer"], [("confirmation decoders", K + "decode/layer/application")], ["decode_msg"],
     "differential monitor against a reference decoder", REF)
prop("R03", "Property services of the own device are delivered, others are not",
     "Property read, write and response frames concerning the stack's own individual address are delivered as one indication or confirmation with object, property, count, index and data (and the outcome, for a confirmation) as in the frame, also when a group address in use has the same number. Those between other devices are not delivered.",
     ["inputs", "configurations"], "all header fields, data, addresses and neighbours",
     "The tests decode one frame of some kinds.",
     [K + "decode/layer/application/a_property_value.py", K + "decode/layer/network/n_data_individual"],
     [("individual address routing", K + "decode/layer/transport/t_data_individual")], ["decode_msg"],
     "differential monitor against a reference decoder", REF)
prop("R04", "USB reports are unwrapped by their lengths, and foreign ones ignored",
     "A USB report delivers the same messages whatever follows its declared length, so that the fixed size padding of the HID device never becomes part of a value. A report whose identifier, packet information, protocol version, header length or protocol is not the one of a KNX tunnel or device feature report delivers nothing, and device feature reports deliver the feature they carry.",
     ["inputs"], "padding of every length and content, every other value of each envelope octet",
     "The tests decode reports with no or one padding.",
     [K + "decode/usb_hid"], [("report and protocol header decoders", K + "decode/usb_hid")], ["decode_msg on a USB stack"],
     "metamorphic and differential monitor", REF)
prop("R05", "Malformed frames do no harm",
     "Decoding any octets, truncated, corrupted, extended or random, ends with a list of messages or an ordinary exception, never with anything delivered to an ASAP or with a type which is not configured. It leaves the tables, the channel and the sending counter as they were, and the valid traffic after it is decoded and encoded as if it had not been there.",
     ["inputs", "histories", "fault_sequences"], "random and mutated frames interleaved with valid traffic",
     "The tests decode well formed frames.",
     [K + "decode", K + "__init__.py"], [("decoders' guards", K + "decode")], ["decode_msg", "encode_msg"],
     "fault injecting trace monitor", REF)
prop("R06", "Messages depend on the octets and the tables, not on what came before",
     "Encoding or decoding a message on a stack which has handled any traffic before, failures included, gives what a new stack with the same tables and session gives. The inputs are not modified, and messages already delivered are not changed by later traffic, nor by changes a user makes to other delivered messages.",
     ["histories"], "histories of mixed traffic, including failing calls",
     "The tests use one stack for one or two messages.",
     [K + "decode", K + "encode", K + "datapointtypes.py"], [("no state but the session's", K + "__init__.py")],
     ["decode_msg", "encode_msg"], "twin execution monitor", REF)
prop("R07", "What one stack writes, another one reads",
     "A value written by one stack and carried by the bus is delivered to every stack with ASAPs of that type on the address as the same value, field by field, over any combination of media; and a value received can be written again and arrives unchanged.",
     ["inputs", "configurations"], "all types and values, pairs of configurations and media",
     "The tests never connect two stacks.",
     [K + "encode", K + "decode", K + "datapointtypes.py"], [("encoder and decoder of one format", K)],
     ["encode_msg", "decode_msg"], "end to end loop monitor", REF)

prop("R08", "What a message prints as is what it carries",
     "The text of every application message, received or made by a user, shows its service and kind, the access point it is for with its name, the outcome of a confirmation, and the value of its datapoint or the object, property, count, index and data of its property service; the text of a connection management message shows its endpoints, address, channel, counter and status.",
     ["inputs"], "every message of any stack",
     "The documentation shows a few texts.",
     [K + "definition/layer/application", K + "definition/knxnet_ip"],
     [("texts of the messages", K + "definition/layer/application")], ["repr and str of messages"], "text parsing monitor against the reference decoder", REF)

prop("R09", "The link header says what the frame says",
     "The header of a link layer frame, given as octets or kept by a stack after decoding, has the source, destination, address type, confirmation status, first TPDU octet, ten bit application code with its low six bits of data, and the kind of TPDU (broadcast, group, tag group, individual, connected, connect, disconnect, ACK, NACK, or none of these) of those octets; reading it leaves what follows the header and does not change the message. Setting a field of a header changes that field's bits only, and setting a kind of TPDU makes it that kind. The text of a header shows its source and destination.",
     ["inputs", "histories"], "every first TPDU octet with both address types, random frames, and sequences of settings",
     "The doctest reads one header.",
     [K + "definition/layer/link/ldata.py"], [("header bit fields and kinds of TPDU", K + "definition/layer/link/ldata.py")],
     ["L_Data.make_from", "State.ldata", "L_Data's fields"], "differential monitor against the KNX coding of the header", REF)
prop("R10", "Other traffic of the bus is passed over",
     "A well formed bus frame of a service the stack does not have (connection control frames, numbered data, memory, device and broadcast services, other message codes) or a property service cut by its sender decodes without an error, to no application message. In a tunnel it is acknowledged with its counter like any other, exactly once per reception, so that the session goes on and the traffic after it is delivered.",
     ["inputs", "histories"], "frames of all other services between the traffic of random configurations",
     "The tests decode frames of the services the stack has.",
     [K + "decode/cemi", K + "decode/layer", K + "client/knxnet_ip.py"],
     [("routing by kind of TPDU", K + "decode/layer/network"), ("acknowledging client", K + "client/knxnet_ip.py")],
     ["decode_msg", "Tunneling.datagram_received"], "differential monitor against a reference decoder, and trace monitor of the client's datagrams", REF)

prop("R11", "The text of a message tells its kind and everything it holds",
     "The text of a message (what clients and examples log of it) begins with its kind (service and whether it is a request, an indication or a confirmation) and shows each of its fields with its present value under its name: the access point, the datapoint with type and value, object, property, count, start index, data, the outcome, endpoints, addresses, counter, channel and status; so two messages differing in any of them never print alike. It is the same however and how often the message is shown, and showing it changes nothing.",
     ["inputs"], "messages of every kind, made by the user with any fields or decoded from any frame",
     "The doctests print a few messages.",
     [K + "definition/layer/application", K + "definition/knxnet_ip", K + "datapointtypes.py"], [("texts of the messages", K + "definition")], ["repr of every message"],
     "text monitor reading the fields back from the text", REF)

# ---------------------------------------------------------------- sessions
prop("S01", "Tunnelled frames are delivered exactly once and in order",
     "Over a channel which loses, duplicates and delays requests and acknowledges, a tunnelling receiver delivers each frame the gateway sends exactly once and in order, for any number of frames: the expected request is delivered, the previous one repeated is acknowledged with its own counter but not delivered again, and any other is neither delivered nor acknowledged as good. Counters wrap from 255 to 0.",
     ["schedules", "histories", "fault_sequences"], "fault schedules over sessions longer than the counter",
     "The tests decode requests 0 and 1.",
     [K + "decode/knxnet_ip/tunneling/req.py", K + "encode/knxnet_ip/tunneling/ack.py"],
     [("expected counter of the session", K + "definition/knxnet_ip/state.py")],
     ["decode_msg", "encode_msg"], "protocol automaton over recorded traces", REF,
     [("expected counter", "number of the next request to deliver", K + "definition/knxnet_ip/state.py")])
prop("S02", "The sending counter advances with its acknowledge, and only then",
     "Every tunnelling request is sent with a counter which advances by one, from 255 to 0, when and only when the acknowledge of the request in course is received; repeated, stale or early acknowledges, those with any other counter, received requests and connection management do not move it. Each acknowledge is delivered as a message with its status, which does not matter for the counter, and the number the next request will have.",
     ["schedules", "histories"], "histories of requests and acknowledges across wraps",
     "The tests decode one acknowledge.",
     [K + "decode/knxnet_ip/tunneling/ack.py"], [("sending counter of the session", K + "definition/knxnet_ip/state.py")],
     ["decode_msg", "encode_msg"], "protocol automaton over recorded traces", REF,
     [("sending counter", "number of the request in course", K + "definition/knxnet_ip/state.py")])
prop("S03", "Connection management responses are delivered and set the channel",
     "Connect, connection state, disconnect and search responses are delivered with the endpoint, channel, status and individual address they carry. An accepted connection makes its channel the one of every later request, a closed one clears it, and refusals, state and search responses change neither the channel nor the counters.",
     ["inputs", "histories"], "histories of responses with all fields and statuses",
     "The tests decode one accepted response of each kind.",
     [K + "decode/knxnet_ip/core"], [("channel of the session", K + "definition/knxnet_ip/state.py")],
     ["decode_msg", "encode_msg"], "protocol automaton over recorded traces", REF,
     [("channel", "identifier given by the gateway", K + "definition/knxnet_ip/state.py")])
prop("S04", "The tunnelling client keeps its session whatever the order of events",
     "The tunnelling client opens with a connect request, sends none of its messages before a connection is accepted, then sends each message once, in order, with the session's channel and counter; it answers an accepted connection with a connection state request and every good tunnelling request with its acknowledge, immediately and on the channel in use. A renewed connection restarts both counters; refusals, errors reported by the network, garbage and late datagrams do not stop it. start_tunneling opens its endpoint from any program, and the module run as a program does all this at the endpoint its connect request names, turns its light on and off, and closes the endpoint.",
     ["schedules", "fault_sequences", "histories"], "orders and instants of datagrams relative to the client's own sends, with faults",
     "There are no tests of the clients.",
     [K + "client/knxnet_ip.py"], [("datagram handler and writer task", K + "client/knxnet_ip.py")],
     ["the datagrams the client sends"], "protocol automaton over a virtual clock, and over UDP on the loopback", REF)
prop("S05", "The USB client sends every message and survives bad input",
     "The USB client sends each of its messages to the daemon once, in order, as one hexadecimal line, and reports the messages of every valid line it receives, however the stream is split; a message which can not be sent, and malformed, empty, undecodable and too long lines, are skipped without losing the ones after them, and it ends after its last message also when the daemon closes or resets the connection. So does the module run as a program, which prints what it reads.",
     ["schedules", "fault_sequences", "inputs"], "streams of good and bad lines, split anywhere, closed at any point",
     "There are no tests of the clients.",
     [K + "client/usbhid.py"], [("reader and writer tasks", K + "client/usbhid.py")],
     ["the lines the client sends", "what the client logs"], "trace monitor over a loopback server and a virtual clock", REF)
prop("S06", "Discovery asks the multicast group and reports every gateway",
     "The discovery client sends to the KNXnet/IP multicast group a search request carrying its own endpoint, listens at that endpoint, and reports the endpoint of every gateway which answers, whatever garbage arrives in between. The discovery program does so for the address given as its argument, at the port it listens at, prints what it finds and leaves nothing open; the helpers it uses do the same for any other program.",
     ["inputs", "fault_sequences"], "endpoints, sequences of answers and garbage",
     "There are no tests of the clients.",
     [K + "client/knxnet_ip_discovery.py"], [("request and listen protocols", K + "client/knxnet_ip_discovery.py")],
     ["the datagrams sent", "what is logged"], "trace monitor over recording transports", REF)
prop("S07", "Independent stacks do not disturb each other",
     "Stacks with their own sessions, used alternately in one thread or at the same time in several threads, each give exactly the results they give alone; also when they share their tables, while these are not changed.",
     ["schedules", "histories"], "interleavings of calls, and of threads with injected switches",
     "The tests use one stack at a time.",
     [K + "decode", K + "encode", K + "msg.py"], [("no shared mutable state", K + "__init__.py")],
     ["decode_msg", "encode_msg"], "schedule perturbation with a twin run monitor",
     REF + " Thread switches are injected at random lines, not enumerated.")

# ---------------------------------------------------------------- daemon
D = ["daemon/usbhid.c"]
prop("D01", "The USB daemon is memory safe against the bus and its clients",
     "Whatever octets, in whatever amount and splitting, its clients send, however many of them come and go, and whatever reports of up to 64 octets the device gives, the daemon never reads or writes outside its objects, never acts on uninitialised memory and has no undefined behaviour.",
     ["inputs", "schedules", "fault_sequences"], "hostile clients, reports and orders of connection events",
     "There are no tests of the daemon.",
     D, [("fixed buffers for packets, lines and clients", "daemon/usbhid.c")], ["sanitizer reports of the running daemon"],
     "AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, valgrind",
     "No report on the executions of the run; red zone tools can miss overflows between the members of one object.")
prop("D02", "Every packet from the bus reaches every client once, in order",
     "Each packet the daemon reads from the device is sent to every connected client as one line of lower or upper case hexadecimal text, exactly once and in order, from the moment the client is served until it leaves, whatever the other clients do. The daemon serves clients at TCP port 5555.",
     ["schedules", "histories", "inputs"], "sizes, contents and bursts of packets, clients joining, leaving and sending",
     "There are no tests of the daemon.",
     D, [("fan-out to the clients", "daemon/usbhid.c")], ["the clients' streams", "the device"],
     "offline trace checker over the streams of all the clients", "Held on the histories run; trusts the emulated device.")
prop("D03", "Each valid line of a client becomes exactly one whole packet on the bus",
     "Each line of an even number of hexadecimal digits, of up to 56 octets, which a client sends, ended by a new line, is written to the device once, in the client's order, as one packet of 56 octets padded with zeros, whatever the way TCP splits or joins it and whatever the other clients do. Any other line is not written, in whole or in part, and does not affect the lines after it.",
     ["schedules", "inputs"], "lines valid and not, splits, interleavings of clients, clients leaving in the middle of a line",
     "There are no tests of the daemon.",
     D, [("line reassembly and parsing", "daemon/usbhid.c")], ["the packets the device gets"],
     "offline conservation and order checker", "Held on the schedules run; trusts the emulated device.")
prop("D04", "The daemon keeps serving whatever its clients do",
     "While clients close, reset, half close, flood, send garbage, stop reading, are lost by the network (also while they are accepted), or come in greater number than the 64 which are served, the daemon goes on: the well behaved clients it serves stay connected, lose nothing and get their lines through, a client which finds no place is let go at once, and a place which is left is given to a later client.",
     ["fault_sequences", "schedules", "histories"], "sequences of client faults around well behaved clients",
     "There are no tests of the daemon.",
     D, [("client table and select loop", "daemon/usbhid.c")], ["the clients' streams", "the device", "the process"],
     "fault injection with conservation and bounded progress monitors",
     "Held on the fault sequences run. Progress is judged when the daemon is idle with unserved input.")

prop("D05", "The daemon starts as asked and ends when it can not work",
     "The daemon uses the device which -d or --dev-hidraw names, of any length, /dev/hidraw1 without, for reading and writing, and serves at the TCP port which -p or --port names, 5555 without, of every interface. Asked for -h or --help it prints its options and ends with success, touching no device and serving nobody. When the port is taken, when the device can not be opened, or when the device later fails to be read or written, it says so and ends with a failing status, letting its clients go, instead of serving a bus which is not there. Terminated with clients connected, it can be started again at once.",
     ["configurations", "fault_sequences", "crash_points"], "command lines, environments and device failures at any point of a session",
     "There are no tests of the daemon.",
     D, [("options, opening, errors", "daemon/usbhid.c")], ["exit status and errors", "what it opens and binds", "the clients' streams"],
     "start and fault injection with exit and resource monitors", "Held on the starts and faults run; trusts the emulated device.")
prop("D06", "Clients, daemon and bus work together",
     "Any number of USB clients with configurations of their own, connected through the daemon to one interface: every request of each reaches the interface once, whole and in the client's order, as the frame which stands for it, and every packet of the interface, confirmations of other clients' requests included, is reported by each client as the messages which its own tables make of it, once and in the order of the bus.",
     ["schedules", "configurations", "histories"], "configurations of clients, requests, and what the bus says meanwhile",
     "No test runs a client and the daemon together.",
     D + [K + "client/usbhid.py"], [("one line of hexadecimal text per packet, both ways", "daemon/usbhid.c"), ("Client", K + "client/usbhid.py")],
     ["packets of the interface", "the clients' reports"], "end to end trace checker over all parties", "Held on the runs; trusts the emulated interface and the reference model.")

prop("S08", "Traffic leaves nothing behind",
     "However long it runs, what has passed is not held: once a stack, a tunnelling client or a USB client has seen its kinds of traffic, the memory in use does not grow with the number of frames decoded, messages encoded, datagrams acknowledged or refused, connections renewed, or lines read and discarded, whatever they hold.",
     ["histories", "inputs"], "sessions of any length",
     "No test runs more than a few frames through one stack, or looks at memory.",
     [K + "__init__.py", K + "encode/__init__.py", K + "decode/__init__.py", K + "client/knxnet_ip.py", K + "client/usbhid.py", K + "state.py"],
     [("encode_msg, decode_msg", K + "__init__.py"), ("Tunneling", K + "client/knxnet_ip.py"), ("Client", K + "client/usbhid.py")],
     ["traced memory after equal rounds of traffic"], "memory monitor (tracemalloc) over long random sessions", "Held on the sessions of the run, a few thousand messages each; a leak slower than one octet per message is not seen.")
prop("S09", "The library leaves its host alone",
     "Importing the library, and decoding, encoding, describing and keeping tables and clients with it, whatever the input, prints nothing, opens no file for writing, starts no process or thread, waits for nothing, has no network traffic but that of the clients, and leaves every setting of the process as it was: logging (but its own loggers), decimal context, random state, warnings, signals, environment, working directory, locale, limits, default socket timeout, event loop policy, hooks, standard streams, the functions and classes of Python and its standard library.",
     ["inputs", "histories", "configurations"], "the imports, and every use of codec, tables, datapoints and clients",
     "A test looks at the result of a call, not at what the call does to the process; a test suite has its logging set up by its runner.",
     [K + "__init__.py", K + "decode", K + "encode", K + "datapointtypes.py", K + "client"],
     [("module level code", K + "__init__.py"), ("loggers of its own", K + "decode/knxnet_ip/header.py"), ("rounding", K + "datapointtypes.py")],
     ["audit events of the interpreter", "standard streams", "settings of the process before and after"],
     "audit hook and state comparison around the workloads of the other properties, in processes of their own",
     "Held on the workloads of the run, which are those of the other properties in small; what a program's main block does is not looked at.")
prop("S10", "Results do not depend on the host's settings",
     "What the library answers for an input does not depend on the process it runs in: not on the decimal context, the hash seed, optimisation (-O, -OO), warnings turned into errors, the thread, garbage collection, the level and handlers of logging, missing standard streams, environment variables, working directory, encodings, time zone, random state, or limits on digits.",
     ["configurations", "inputs"], "hosts with settings of their own, over the workloads of the other properties",
     "The tests run in one process with the default settings.",
     [K + "__init__.py", K + "decode", K + "encode", K + "datapointtypes.py", K + "client"],
     [("rounding", K + "datapointtypes.py"), ("order of addresses and access points", K + "definition/layer")],
     ["decode_msg", "encode_msg", "the datapoint types", "the tables", "the clients' datagrams"],
     "the oracles of the other properties in processes set up differently, against a plain one",
     "Held in the hosts and on the workloads of the run, which are those of the other properties in small.")
prop("D07", "The daemon neither grows nor spins",
     "However many clients came and went, in whatever way, and however many lines and packets passed, the daemon's private memory and its open descriptors are what they were; and when nobody says anything it takes no processor time, also after clients were cut off, closed half of their connection, did not read, or were too many.",
     ["histories", "schedules", "faults"], "histories of clients, lines and packets, of any length",
     "No test runs the daemon.",
     D, [("main loop: sockets served, clients forgotten", "daemon/usbhid.c")],
     ["private memory and descriptors of the process", "its processor time at rest"], "resource monitor of the running daemon under turnover", "Held on the runs; private memory is watched in pages, over thousands of clients, lines and packets.")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            x = {k: v for k, v in p.items() if k not in ("technique", "note")}
            if not x["anchors"]["state"]:
                del x["anchors"]["state"]
            f.write(json.dumps(x) + "\n")
    m = dict(
        version=1,
        setup_cmd="true",
        checks=[dict(
            property=p["id"],
            quick_cmd="./check %s" % p["id"],
            thorough_cmd="./check %s --tier thorough" % p["id"],
            technique="runtime monitoring: " + p["technique"] if p["id"] != "D01" else "sanitizers: " + p["technique"],
            level="exploration", level_note=p["note"]) for p in P],
        not_applicable=[],
        notes="No hooks in /repo. Checks run the code of /repo's working tree directly (Python) or compile it into a scratch folder (daemon).",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
