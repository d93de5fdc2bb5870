#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
B = 'pyogp/lib/base/'
M = B + 'message/'
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})

SER, DES, DISP, CIRC = M+'udpserializer.py', M+'udpdeserializer.py', M+'udpdispatcher.py', M+'circuit.py'

prop('C01', 'Every UDP message survives an encode/decode round trip',
 'Any message whose blocks and values conform to its template entry and that may travel over UDP, once serialized and fed back to the deserializer, yields a message with the same name, the same packet id and reliability, and for every block the same number of instances in the same order holding the same values. '
 '"Same value" means equal at the precision of the declared wire type; for variable-length fields equal after dropping trailing NUL bytes; for quaternions the same rotation (sign aside).',
 ['inputs'], 'every message type of the template, every field type, repetition counts 0 to 255 of variable blocks (at least one block in the message), boundary values of every type, all reliable/resent flag combinations',
 'The tests encode and decode five hand-written messages; 475 message types, 20 field types and 256 repetition counts multiply to a space no example list covers, and the test modules cannot even be imported in the stock environment.',
 [SER, DES, M+'data_packer.py', M+'data_unpacker.py', M+'template_dict.py'],
 [('serialize/build_block walk the template and pack each variable', SER), ('deserialize walks the same template and unpacks', DES), ('type tables', M+'data_packer.py')],
 ['UDPMessageSerializer.serialize return value', 'UDPMessageDeserializer.deserialize return value'])

prop('C02', 'Bytes on the wire follow the message template exactly',
 'A serialized message is exactly: flag byte, big-endian packet id, zero extra-header length, the frequency-prefixed message number, then each template block in template order (variable blocks preceded by their one-byte count), each field in template order in its declared size and byte order (numbers and vectors little-endian; ports, addresses, UUIDs and fixed data in network order; variable fields prefixed by their length in the declared 1, 2 or 4 little-endian bytes and NUL-terminated); RegionHandshakeReply alone has four extra zero bytes. '
 'Conversely any datagram laid out that way by another implementation is decoded to exactly the values it encodes.',
 ['inputs'], 'every message type x boundary values per field type x repetition counts, compared byte for byte with an independent codec, in both directions',
 'Round trips cannot see a symmetric mistake, and tests check four literal datagrams.',
 [SER, DES, M+'data_packer.py', M+'data_unpacker.py', M+'msgtypes.py'],
 [('pack tables with per-type endianness', M+'data_packer.py'), ('message number encoding', M+'template_dict.py')],
 ['serialize() bytes vs. independent encoder', 'deserialize() of independently encoded datagrams'])

prop('C03', 'Zero-coding, extra header and appended acks never change a message',
 'A datagram decodes to the same message (name, packet id, blocks, values) whether or not its contents after the header are zero-coded (runs of 1 to 255 zeros), whether or not it carries 0 to 255 bytes of extra header data, and whether or not 0 to 255 acknowledgements are appended to it, in any combination. '
 'The appended acknowledgements come out exactly: the same ids, in order, each read as a big-endian 32-bit number.',
 ['inputs'], 'all combinations of envelope features x message shapes; every run-length split of zeros and all small bodies over a byte alphabet exhaustively; ack counts 0..255; extra header lengths 0..255',
 'Tests decode one zero-coded datagram, none with extra header bytes and none with more than a couple of acks.',
 [DES], [('ack stripping, zero_code_expand and offset handling', DES)],
 ['deserialize() return value', 'message ids acknowledged'])

prop('C04', 'Hostile or damaged datagrams can only be rejected or ignored',
 'Whatever bytes arrive, receiving a datagram has one of three outcomes: a complete message of a known type is delivered, the datagram is ignored, or the documented message deserialization error is raised; no other exception, no endless loop, and never a message whose values were not wholly contained in the body (bytes of appended acks are not body). '
 'A rejected or ignored datagram leaves the receiver able to handle every later datagram exactly as a fresh receiver would.',
 ['inputs', 'histories'], 'all truncations, extensions and single-byte corruptions of valid datagrams of all shapes; all byte strings over a reduced alphabet up to a length; every bad datagram followed by a good one',
 'Tests never feed malformed input.',
 [DES, DISP, M+'data_unpacker.py'], [('length checks and exception translation', DES)],
 ['UDPDispatcher.receive_check outcome', 'message handler deliveries'])

prop('C05', 'The template dictionary says exactly what the template file says',
 'For every message in a template file, the embedded one or a custom one, looking it up by name or by (frequency, number) gives its frequency, number, trust, encoding, deprecation, and its blocks and fields in file order with their kinds, counts, types and sizes; comments and blank lines contribute nothing and no other message exists. '
 'A custom template given to the manager, dispatcher, serializer or deserializer governs both what is encoded and what is decoded.',
 ['inputs', 'configurations'], 'every message of the embedded template, plus all small template files over a grammar of frequencies x numbers x trust x encoding x deprecation x block kinds x field types',
 'Tests look at half a dozen entries of the embedded template.',
 [M+'template_parser.py', M+'template_dict.py', M+'template.py'], [('line-based template parser', M+'template_parser.py'), ('name and number maps', M+'template_dict.py')],
 ['TemplateDictionary.get_template / get_template_by_pair', 'bytes encoded with a custom template'])

prop('C06', 'message.xml decides which messages may use UDP, both ways',
 'A message listed in message.xml with a flavor other than "template" is never put on the wire over UDP and never delivered from a UDP datagram; a message listed with flavor "template" or not listed at all is sent and delivered normally. '
 'The same holds for a message.xml supplied by the caller instead of the embedded one, and a refused message neither disturbs other traffic nor is waited for when it was to be sent reliably.',
 ['inputs', 'configurations'], 'every message of the template, sent (plain and reliable) and received, under the embedded message.xml and under custom ones enumerating listed/unlisted x flavor',
 'Tests ask for two names, in isolation from the send and receive paths.',
 [M+'message_dot_xml.py', SER, DES, DISP, B+'message_manager.py'], [('validate_udp_msg', M+'message_dot_xml.py')],
 ['datagrams handed to the socket', 'messages handed to subscribers'])

prop('C07', 'Packet ids to each host increase strictly and are never reused',
 'The packets sent to a given host (ip and port) carry ids 1, 2, 3, ... in sending order, whatever else is sent to or received from other hosts in between, and whatever kind of packet it is; only a retransmission repeats an id, and then for that same packet. '
 'A failed send may leave a gap but never leads to an id being used for two different packets.',
 ['histories', 'fault_sequences'], 'all sequences of plain/reliable/ack sends, receptions and ack processing over several hosts (sharing ip, sharing port, both different; equal but distinct host objects) with send failures at any point, plus long histories past 255 and 65535 packets',
 'Tests send at most two packets to one host.',
 [CIRC, DISP], [('next_packet_id', CIRC), ('circuit lookup by (ip, port)', CIRC)],
 ['flag and id bytes of datagrams handed to the socket'],
 [('last_packet_out_id', 'last id used towards the host', CIRC)])

prop('C08', 'Every reliable packet received is acked to its sender, nothing else is',
 'After acks are processed with sending working, every packet that was received with the reliable flag has been acknowledged to the host it came from, whether it was handled, skipped as unhandled, of an unknown type or received again as a resend, and however many are owed at once; no host is ever sent an acknowledgement of an id it did not send reliably. '
 'A failed attempt to send acknowledgements loses none: they are sent by a later attempt, and once acknowledged nothing further is owed.',
 ['histories', 'fault_sequences'], 'all interleavings of receptions (reliable/unreliable x handled/unhandled/unknown/duplicate/zero-coded) from several hosts, outgoing traffic that can carry acks, and ack processing with send failures at every point; batches of 0..600 owed acks',
 'Tests ack one packet from one host.',
 [CIRC, DISP, B+'network/net.py'], [('collect_ack / process_acks', DISP)],
 ['PacketAck bodies and appended acks in datagrams handed to the socket', 'has_unacked()'],
 [('acks', 'ids still owed to the host', CIRC)])

prop('C09', 'A reliable message is outstanding until exactly its own ack arrives',
 'A packet sent reliably stays outstanding until its host acknowledges its id, either appended to any packet or in a message of acknowledgements, whether or not the application subscribes to that packet type; then it no longer is, however often the ack is repeated. '
 'Acks from other hosts, of unknown ids or of packets already acknowledged change nothing, and the outstanding counts always equal the number of outstanding packets.',
 ['histories'], 'all interleavings of reliable sends to several hosts and of acks by each transport (appended to handled, unhandled, unknown-type and zero-coded packets, or PacketAck with one or many ids) naming own, foreign, unknown, duplicate ids',
 'Tests only count one registered packet.',
 [CIRC, DISP, DES], [('ack_reliable_packet, handle_packet', CIRC)],
 ['circuit outstanding maps and counters', 'what process_acks retransmits'],
 [('unacked_packets', 'sent reliably, may be resent', CIRC), ('final_retry_packets', 'sent reliably, no retries left', CIRC)])

prop('C10', 'Unacked reliable packets are resent as asked, identically, then given up',
 'A reliable packet sent with n retries is resent by each of the next n rounds of ack processing unless it has been acknowledged, to the same host, with the same packet id and contents and the resent flag added, and not again after that (it is then still outstanding until acknowledged). '
 'An acknowledged packet is never resent, and changing or re-sending the same message object to someone else does not affect what is resent.',
 ['histories', 'fault_sequences'], 'all sequences of reliable sends with 0..3 retries to several hosts (same or distinct message objects), acks, ack-processing rounds and send failures',
 'No test ever resends; in the original code the path was unreachable.',
 [DISP, CIRC], [('process_acks resend round', DISP)], ['datagrams handed to the socket by process_acks'],
 [('retries', 'resends left', CIRC)])

prop('C11', 'Every datagram that is sent is complete, and a bad message sends none',
 'Each datagram put on the wire decodes completely, with no bytes left over, under the template: its ack flag is set exactly when acknowledgements are appended, they are followed by their count (at most 255), its reliable flag is set exactly when it was sent reliably, and the body is the message the caller gave. '
 'A message that cannot be encoded (unknown name, missing block or field, wrong number of single or multiple blocks, more instances or longer text than can be counted), or is for a host without ip or port, puts nothing on the wire, is not waited for, and does not disturb later sends.',
 ['histories', 'inputs'], 'all sequences of receptions that leave 0..600 acks owed, sends (plain/reliable/ack) and bad messages, with message objects reused across hosts',
 'Tests never send while acks are owed, nor send a malformed message.',
 [SER, CIRC, DISP], [('prepare_packet', CIRC), ('serialize', SER)], ['datagrams handed to the socket'])

prop('C12', 'Hosts are independent: traffic of one never affects another',
 'What is sent to a host, acknowledged to it, and outstanding towards it depends only on the traffic with that host: interleaving any traffic with other hosts in any order produces, per host, the same datagrams as that host\'s traffic alone. '
 'Two host values with the same ip and port are the same host; a different ip or port is a different host; every datagram goes to the address it was intended for.',
 ['histories', 'schedules'], 'all interleavings of per-host histories over 2-3 hosts (addresses sharing ip or port), each compared with the same histories run in isolation',
 'Tests use a single host.',
 [CIRC, DISP, B+'network/net.py'], [('circuit map keyed by (ip, port)', CIRC), ('sender of a received packet', B+'network/net.py')],
 ['(address, bytes) pairs handed to the socket'])

prop('C13', 'The UDP connection sends each queued message once and keeps running',
 'While the manager runs, every message queued for sending is sent to its host exactly once, reliably if so requested, urgent ones before all those waiting and the others in order, whatever tasks queue them and whenever; every received message goes to its subscribers once, in arrival order, and its ack goes out. '
 'Malformed datagrams, receive timeouts and errors, a failing send of one message, and exceptions raised by subscribers affect only that datagram or message: the connection keeps receiving, acking and sending.',
 ['schedules', 'fault_sequences', 'histories'], 'all schedules (bounded deviations) of the connection task against tasks that queue messages, with every placement of bad datagrams, raising subscribers, receive errors and send errors',
 'Tests only look at the queue, never run the loop, and the tests cannot run where greenlet is missing.',
 [B+'message_manager.py', DISP, B+'network/net.py'], [('_udp_dispatcher loop', B+'message_manager.py')], ['datagrams handed to the socket', 'subscriber calls'],
 [('outgoing_queue', 'messages to send', B+'message_manager.py')])

prop('C14', 'Stopping the manager ends all of its activity, at any moment',
 'After start and then stop of the monitors, in whatever state each of its tasks is (not yet begun, waiting, sending, polling, handling), with or without an event queue, stop raises nothing and every task ends after finishing at most the round it is in; afterwards nothing more is received, polled or sent. '
 'Until stop is called the tasks keep running, and the event queue is polled exactly if there is one and it is enabled.',
 ['schedules', 'configurations'], 'all schedules (bounded deviations) placing stop between any two steps of the connection and event queue tasks, for every configuration of event queue present/absent, enabled/disabled',
 'One test starts and stops once with real time passing.',
 [B+'message_manager.py', B+'event_queue.py'], [('start_monitors/stop_monitors', B+'message_manager.py')], ['task termination', 'socket and capability calls after stop'])

prop('C15', 'Event subscribers are called exactly once each, in order',
 'Notifying an event calls each handler subscribed at that moment exactly once per subscription, in subscription order, with the notified argument followed by the arguments given when subscribing; handlers that subscribe or unsubscribe during a notification (themselves or others) affect only later ones. '
 'The subscriber count always equals subscriptions minus removals; removing removes one matching subscription and raises ValueError if there is none; an exception raised by a handler reaches the notifier and leaves the subscriptions intact.',
 ['histories'], 'all sequences of subscribe/unsubscribe/notify/clear over several handlers (with different arguments, duplicates, self-modifying and raising handlers)',
 'The one test creates an Event and asserts nothing.',
 [B+'events.py'], [('subscribers list', B+'events.py')], ['handler calls', 'len(event)'])

prop('C16', 'Messages reach exactly the subscribers of their name',
 'A message handled by the message handler is passed once to each current subscriber of its name, in order, and to no subscriber of another name; handling a name with no subscribers does nothing. '
 'Registering a name twice gives the same notifier, a name counts as handled once registered and never because of messages passing through, and errors raised by a subscriber reach the caller.',
 ['histories'], 'all sequences of register/subscribe/unsubscribe/handle over several names and subscribers, including raising ones (KeyError included)',
 'Only a broken doctest touches it.',
 [M+'message_handler.py', B+'events.py'], [('handlers map', M+'message_handler.py')], ['subscriber calls', 'is_message_handled'])

prop('C17', 'Event queue: each event delivered once, in order, and acked',
 'Every event in every response of the event queue is passed to the message handler exactly once, in order, even if a handler of one of them raises; a failed or malformed poll delivers nothing again and does not end polling. '
 'Each poll acknowledges exactly the id of the last response received so far (none before the first), however many polls failed since, and the closing poll acknowledges the last id and says it is done.',
 ['fault_sequences', 'histories', 'schedules'], 'all sequences of poll outcomes (batches of 0..3 events, HTTP errors, connection errors, non-LLSD replies), ids (positive, negative, zero, large), raising handlers, up to a depth',
 'Tests decode three recorded responses; no test polls successfully.',
 [B+'event_queue.py', B+'caps.py'], [('polling loop', B+'event_queue.py')], ['payloads posted to the capability', 'messages passed to subscribers'],
 [('last_id', 'id to acknowledge', B+'event_queue.py')])

prop('C18', 'A stopped event queue finishes, acks once and polls no more',
 'Once stop is called, at any moment and with any poll outcome pending, the event queue makes at most the poll it is in, then if any response was ever received posts exactly one closing acknowledgement of the last id, and terminates, also when posts (the closing one included) fail; calling stop before it begins or twice is harmless. '
 'What a poll in progress returns is still delivered and acknowledged.',
 ['schedules', 'fault_sequences'], 'all schedules placing stop at every step of the polling task x all outcomes of the remaining polls',
 'A comment in the tests says "stop is broken atm"; they set a flag instead.',
 [B+'event_queue.py'], [('stop and polling loop', B+'event_queue.py')], ['posts made', 'task termination'])

prop('C19', 'Event queue messages carry exactly the event\'s contents',
 'An event named in the message template becomes a message of that name whose blocks and fields hold exactly the event body: the same block names, for each the same number of instances in order, the same fields and values; its dictionary form equals the event. '
 'Any other event becomes a message of its name with a single block holding exactly the body\'s entries; each carries the response id and the host.',
 ['inputs'], 'event bodies over all template messages and unknown names x 0..3 block kinds x 0..3 instances x LLSD value types',
 'Tests check class and names of decoded messages, not contents.',
 [B+'event_queue.py', M+'message.py'], [('_decode_eq_result', B+'event_queue.py'), ('to_dict', M+'message.py')], ['messages passed to subscribers'])

prop('C20', 'Capability calls map every HTTP outcome to the documented result',
 'A capability GET or POST makes exactly one request to its url, with the caller\'s headers (and for a POST the LLSD content type unless overridden) and body; a 404 raises "resource not found" with the url, any other HTTP error a resource error with url, status, message, body and method; a reply with an LLSD content type (with or without parameters) gives the decoded value, any other type raises "deserializer not found", and undecodable LLSD raises "deserialization failed". '
 'POST also accepts application/xml, and text/html whose body is an LLSD document (with the declaration LLSD writers put first); a payload that is neither list nor map is refused before any request.',
 ['inputs', 'fault_sequences'], 'all HTTP statuses x content types (with and without parameters) x bodies x methods x payload types x custom headers, and sequences of calls on one capability',
 'Tests cover 200, 404 and 503 once, and ignore headers.',
 [B+'caps.py', B+'helpers.py', B+'exc.py'], [('status and content-type dispatch', B+'caps.py')], ['requests made to the REST client', 'returned value or exception'])

prop('C21', 'LLSD payloads are transmitted and received unchanged',
 'Any list or map of LLSD values posted to a capability arrives as an LLSD document that decodes to an equal value, and any LLSD value (false, zero, empty and undefined included) in a reply is returned equal to what was sent, in each LLSD encoding that is recognised. '
 'Data that is not LLSD always raises "deserialization failed", never a value.',
 ['inputs'], 'all LLSD values up to a nesting depth and width over an alphabet of every LLSD type with boundary values; malformed documents',
 'Tests post {"foo": "bar"}.',
 [B+'helpers.py', B+'caps.py'], [('llsd serializers and deserializer', B+'helpers.py')], ['request body', 'returned value'])

prop('C22', 'A seed capability grants exactly the capabilities asked for',
 'Asking a seed capability for a list of names posts exactly that list once and returns exactly those names, each mapped to a capability of that name and the url granted for it, using the same REST client; extra grants in the reply are not included. '
 'Successive requests do not influence each other or the seed capability.',
 ['inputs', 'histories'], 'all name lists (0..3 of several names, repeats) x grants (missing extra names) and sequences of requests',
 'One doctest asks for one pair of names.',
 [B+'caps.py'], [('SeedCapability.get', B+'caps.py')], ['request body', 'returned map'])

prop('C23', 'The REST client reproduces requests and responses faithfully',
 'A GET or POST issues exactly one request with that method, url, headers and body, and returns a response with the server\'s status, headers and body bytes unchanged; every HTTP error status raises the library\'s HTTP error with the same code, message and readable body. ',
 ['inputs'], 'all status codes 200..599 (redirect handling aside) x methods x headers x bodies (empty, binary, large)',
 'The doctest fetches two urls.',
 [B+'network/stdlib_client.py'], [('urllib2 wrapping', B+'network/stdlib_client.py')], ['urllib2 opener requests', 'returned response or exception'])

prop('C24', 'UUIDs are values: equality, hashing, bytes, text and xor agree',
 'Two UUIDs are equal exactly when their 128 bits are; != is the negation of ==, equal UUIDs have equal hashes (so sets and dictionary keys work), and comparison with anything else is unequal and never an error. '
 'Bytes and text forms convert back to an equal UUID at any buffer offset, copies are equal but independent, xor is the bitwise one (commutative, associative, self-inverse), and randomising replaces only a null UUID.',
 ['inputs', 'histories'], 'all pairs and triples over a basis of bit patterns (each single bit, bytes boundaries, all-ones), all offsets up to a bound',
 'Tests compare three constants.',
 [B+'datatypes.py'], [('UUID', B+'datatypes.py')], ['UUID operations'])

prop('C25', 'Vectors and quaternions convert to and from bytes and text losslessly',
 'A vector or quaternion read from bytes at any offset holds exactly the little-endian single-precision values there, and writing it gives those bytes back; a quaternion given only three components gets the non-negative fourth that completes a unit rotation (0 if there is none). '
 'Copies are equal and independent, printed vectors parse back to the same single-precision values, text without exactly three numbers raises ValueError, and squared distance is symmetric, non-negative and zero exactly for equal vectors.',
 ['inputs'], 'all triples/quadruples over an alphabet of float bit patterns (zeros, denormals, extremes, infinities, nan) x offsets; all small texts over a token alphabet',
 'Tests use one vector and one quaternion.',
 [B+'datatypes.py', M+'data_packer.py'], [('unpack_from_bytes/get_bytes', B+'datatypes.py')], ['object attributes', 'bytes'])

prop('C26', 'Quantised numbers decode exactly and monotonically over their range',
 'A value packed in 8 or 16 bits over a range decodes to lower + value/max * (upper - lower), at any buffer offset, with the smallest code giving the lower bound, the largest the upper bound, and larger codes never smaller results; results closer to zero than one step are exactly zero. '
 'Integers and byte strings convert to their byte, hex, base64 and text forms and back without loss.',
 ['inputs'], 'all 256 and all 65536 codes x ranges x offsets; all byte values and pairs',
 'Tests convert a handful of constants.',
 [B+'helpers.py'], [('packed_u16_to_float, packed_u8_to_float, byte conversions', B+'helpers.py')], ['returned values'])

prop('C27', 'Messages and builders keep blocks and values exactly as given',
 'A message built from any blocks holds for each name exactly the blocks given, in order, with exactly their values, whether passed singly, in lists or added later; its dictionary form and the LLSD builder\'s output contain exactly the same names, instances in order and values, and building one message never changes another. ',
 ['histories', 'inputs'], 'all sequences of message/block/value additions up to a depth over a few names, including repeated names and interleaved builders',
 'Tests build two fixed messages.',
 [M+'message.py', M+'template.py', M+'llsd_builder.py'], [('MsgData.add_block, MsgBlockData.add_variable', M+'template.py'), ('build_message', M+'llsd_builder.py')], ['blocks, to_dict(), build_message()'])

prop('C28', 'Separate instances share no state',
 'Using one manager, dispatcher, circuit, message handler, event queue, settings object, message or capability never changes the behaviour of another created independently, before or afterwards: each behaves as if it were alone. ',
 ['histories', 'configurations'], 'all interleavings of operation sequences on two instances of each kind, compared with the same sequence alone; default arguments included',
 'Tests use one instance at a time.',
 [B+'message_manager.py', DISP, CIRC, M+'message_handler.py', B+'event_queue.py', B+'settings.py', B+'caps.py'],
 [('per-instance state set in constructors', DISP)], ['all observable outputs of each instance'])

prop('C29', 'Logging and parsing settings never change what is exchanged',
 'For any combination of the logging settings, the sequence of datagrams sent, acks, deliveries to subscribers and errors is the same; deferring the parsing of unhandled packets changes only whether they are returned to the caller, not what is delivered, acknowledged or outstanding. '
 'Turning packet handling off only stops deliveries, and monitoring outgoing packets delivers each sent message to its subscribers exactly once.',
 ['configurations', 'histories'], 'all combinations of the boolean settings that the messaging code reads x a set of traffic scripts covering every send/receive path, compared with the default configuration',
 'Tests run with default settings.',
 [B+'settings.py', DISP, DES, B+'event_queue.py', B+'caps.py'], [('settings tests around logging', DISP)], ['datagrams, deliveries, exceptions'])

prop('C30', 'Messages, errors, hosts and capabilities can always be shown',
 'Showing a message (repr, str, data()), made by the application, received over UDP or from an event queue, never fails whatever names and values it holds (unicode, arbitrary bytes and any size included), changes nothing, and gives text with its name, the name of each of its blocks and, for each instance in order, each field in order with its value exactly once. '
 'The same holds for every error of the library: its text names all it is documented to tell, whatever kinds of text they are, and its attributes are the ones given; and for hosts and capabilities.',
 ['inputs'], 'all template messages made and received, all pairs of values of all kinds x field types, names, sizes 0 to 299, shapes of blocks; all pairs of values of the arguments of all errors',
 'Tests show hardly anything, and nothing that is not ascii; yet errors are shown on every path where something went wrong, where a second failure does most harm.',
 [M+'message.py', M+'template.py', B+'exc.py', B+'caps.py', B+'network/net.py', B+'helpers.py'],
 [('data() walks blocks and fields', M+'message.py'), ('get_data_as_string', M+'template.py'), ('__str__ of the errors', B+'exc.py')],
 ['what repr, str and data() return', 'attributes of errors'])

prop('C31', 'Background tasks keep their pace, are prompt, and never block others',
 'An event queue waits exactly its poll interval, as set in its settings when the wait begins, before every poll, the first and those after failed or empty ones included. The UDP connection lets the other tasks run between any two datagrams it takes, never waits for anything but the network, and sends a queued message, and the acks it owes, before it takes a further datagram than the one it may be waiting for. '
 'Starting, stopping and queueing return at once. A Wait holds its caller for at least its number of (whole) seconds and at most one step longer, lets other tasks run at every step, and ends with the step in which it is stopped; it can be run again.',
 ['schedules', 'histories'], 'all sequences of poll outcomes x intervals changed while running x durations of polls; floods of datagrams x queued messages x schedules; all step times of a Wait x when it is stopped',
 'Tests never run two tasks at a time and never look at the clock: a busy loop, a starving task or a late message passes all of them.',
 [B+'event_queue.py', B+'message_manager.py', B+'helpers.py'],
 [('sleep at the top of the polling loop', B+'event_queue.py'), ('one sleep, one receive, acks and the queue per round', B+'message_manager.py'), ('Wait.run', B+'helpers.py')],
 ['times of posts', 'order of receives, sends and switches', 'how long Wait took'])

prop('C32', 'What is handed in or handed out is never changed behind one\'s back',
 'No operation, successful or failing, changes what the caller handed it: messages with their blocks and values, lists of blocks or names, payloads, header maps, hosts, settings, capabilities and the arguments of subscribers (the packet id, flags, acks and retries a sent message keeps aside). '
 'What was handed out - delivered messages, dictionary forms, decoded replies, granted capabilities, responses, errors, copies - stays as it was whatever happens later, also when the application changes something else it was given; and the same call is answered the same as in the beginning.',
 ['histories', 'inputs'], 'all sequences of 3 of 29 operations of every kind (sending, receiving, capabilities, REST, event queue, building, converting, changing what was handed out), everything handed in or out so far looked at after each; long repetitions',
 'Tests look at a result once, at once; a shared buffer, cache or alias shows only when something seen earlier is looked at again.',
 [DISP, SER, DES, M+'message.py', M+'template.py', B+'caps.py', B+'event_queue.py', B+'network/stdlib_client.py', B+'datatypes.py', B+'helpers.py', M+'llsd_builder.py'],
 [('blocks and values are kept by reference', M+'template.py'), ('headers built per call', B+'caps.py'), ('a message built per event', B+'event_queue.py')],
 ['contents of every object that crossed the interface, after every operation'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
