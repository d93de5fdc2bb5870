"""What each check explores; gen_manifest.py writes MANIFEST.json and checks/meta.json from this."""

SEQ = 'explicit-state exploration of the implementation: all operation sequences to a bound, each step against a reference model'
INPUT = 'bounded exhaustive enumeration of inputs on the implementation, against an independent reference implementation'
SCHED = 'stateless model checking of the implementation under a controlled scheduler (deviation-bounded)'
DIFF = 'exhaustive interleaving of instance histories on the implementation, differential against each alone'

REF = 'lib/mc/refcodec.py (template parser, encoder, decoder written from the format documentation) is right where it agrees with the code on the whole template'
NET = 'sockets, the clock and time.sleep are replaced by stand-ins that record and decide; eventlet is replaced by the scheduler of lib/mc/sched.py'
SMALL = 'five messages stand for the template in histories of datagrams (C01-C06 cover the whole template)'
JY = 'runs under Jython 2.7.3 as the repository\'s own tests do; llbase, webob and uuid are trusted'

# id: (technique, quick bounds, thorough bounds, assumptions, note)
CHECKS = {
'C01': (INPUT, 'all 470+ UDP messages of the embedded template and a synthetic grid of every frequency x block kind x field type: each field over all boundary values, all repetition counts 0..255 of 3 variable blocks (0..3 of all), lengths 0..255/1500 of variable fields, all reliable/resent/zerocoded flags x packet ids',
        'as quick, and all pairs of boundary values of neighbouring fields, all counts of the largest block', [REF, JY],
        'Every explored message is serialized and deserialized by the real code and compared value by value. Values outside the boundary alphabet, and out-of-range values, are not explored.'),
'C02': (INPUT, 'the space of C01, compared byte for byte with an independent encoder, and foreign datagrams written by it decoded by the code', 'the space of C01 thorough', [REF, JY],
        'Bytes are compared with an independent codec in both directions.'),
'C03': (INPUT, 'every message of the template x all combinations of zerocoding, extra header, appended acks, flags; all bodies over {0,1,255} up to 8 bytes with all ways to split zero runs; all 256 ack counts; all 256 extra header lengths; zero runs 0..256 and at buffer boundaries',
        'bodies over 4 byte values to 9 bytes', [REF, JY], 'The same content must decode equal in every envelope.'),
'C04': (INPUT, 'every truncation, extension and single-byte corruption (all positions x 256 values for small shapes) of valid datagrams of all shapes x 4 envelopes x 3 parsing modes; all byte strings over a reduced alphabet to 5-6 bytes, and behind each header form; truncations of every embedded message; each followed by a good datagram on the same objects',
        'byte strings to 7 bytes in all modes; all modes x envelopes', [REF, JY], 'The only permitted results are a message that the reference decoder also accepts, None, or the documented exception, and no trace in what follows.'),
'C05': (INPUT, 'the embedded template (all entries, comments and spacing varied) and all generated small template files over frequencies x numbers x trust x encoding x deprecation x block kinds x counts x field types and sizes; all sequences of 3 contents of one file through one handle or new ones; custom templates through serializer, deserializer, dispatcher and manager',
        'larger families of files (pairs of messages, three blocks)', [REF, JY], 'Compared entry by entry with an independent parser.'),
'C06': (INPUT, 'every message of the template sent and received under the embedded message.xml; all flavors (template, llsd, unlisted) of three messages through dispatcher and manager; bulk lists; serializer and deserializer pairs', 'as quick', [NET, JY],
        'Observed as datagrams sent and messages delivered.'),
'C07': (SEQ, 'all sequences of 4 from the core alphabet and 3 from the full alphabet of UDP operations (sends plain/reliable/shared objects, receptions of all kinds, acks, failures, processing) on 2-4 hosts; runs of 70000 sends; sequences of 2 after each of 9 id bases up to 2^31; one history with each of 12..1050 hosts', 'sequences of 5 and 4', [NET, SMALL],
        'Every datagram of every history is decoded by the reference codec and its packet id judged.'),
'C08': (SEQ, 'all sequences of 4 (core) / 3 (full alphabet) UDP operations; bursts of 0..600, and of up to 4100, owed acks x kinds x what follows; sequences of 3 at 5 bases of incoming ids up to 2^32; 12..1050 hosts at once', 'sequences of 5 / 4', [NET, SMALL], 'Model: the set of acks owed per host; checked against all acks on the wire after a final flush.'),
'C09': (SEQ, 'all sequences of 4 (core) / 3 (full alphabet) UDP operations; 1..300, and up to 2100, outstanding packets acked by every transport; sequences of 3 at 4 bases of ids up to 2^31; 12..1050 hosts at once', 'sequences of 5 / 4', [NET, SMALL], 'Model: the set of outstanding packets per host.'),
'C10': (SEQ, 'all sequences of 4 (core) / 3 (full alphabet) UDP operations with retries 0..2; retries 0..11 x ack patterns; sequences of 3 at 4 bases of ids; hundreds outstanding; 12..1050 hosts at once', 'sequences of 5 / 4', [NET, SMALL], 'Model: retries left per packet; resends must be the original bytes with the resent flag.'),
'C11': (SEQ, 'all sequences of 4 / 3 / bursts of UDP operations with reused and malformed messages; representative counts 0..511 of owed acks at a send; every message of the embedded template whole, and with each field missing, each block missing and every wrong count', 'sequences of 5 / 4; all counts 0..519', [NET, SMALL], 'Every datagram must decode completely (no byte left) to the message given.'),
'C12': (DIFF, 'all sequences of 4 operations over 2 hosts, 3 over 4 hosts sharing ip or port or with ids far apart, each host compared with its own projection run alone; so is each of 12..1050 hosts at once', 'sequences of 5 / 4', [NET, SMALL], 'Per-host datagrams, deliveries and state equal those in isolation.'),
'C13': (SCHED, 'all schedules with at most 2 deviations (1 with an event queue) of the connection task against tasks that queue messages, over scenarios of arrivals (bad, raising, cut datagrams) x failures of send and receive at every point; queues of up to 280 messages, the same message queued again, all ways of queueing', '3 deviations (2 with an event queue)', [NET, SMALL],
        'Scheduling points are the cooperative switches of the real program: sleep, send, receive, POST.'),
'C14': (SCHED, 'stop placed after each of the first 22 steps x traffic x event queue configurations x ways of stopping, with 1-2 further deviations', 'first 40 steps, 2-3 deviations', [NET, SMALL], 'Tasks must end, with at most the step in progress, and the final ack.'),
'C15': (SEQ, 'all sequences of 4 subscribe/unsubscribe/notify/clear operations including handlers that subscribe, unsubscribe, clear, notify (again, nested) or raise; many subscriptions', 'sequences of 5', [JY], 'Reference: a list of subscriptions.'),
'C16': (SEQ, 'all sequences of 4 (3 in further configurations) register/subscribe/unsubscribe/handle operations over several names, raising subscribers included; many names, look-alike names; several messages with one packet id, from several circuits and sent again', 'sequences of 5 / 4', [JY], 'Reference: a map of lists.'),
'C17': (SEQ, 'all sequences of poll outcomes: 4 of 14, 3 of 28, 5 of 8; histories of 300 polls; responses of up to 1200 events', '5, 4 and 6', [NET, JY], 'Reference: a server that records what it sent; posts and deliveries compared exactly.'),
'C18': (SCHED, 'stop placed at every step of the polling task over all histories of 0..3 poll outcomes, and all outcomes of the final post', 'histories of 4', [NET, JY], 'Everything posted after the stop is judged.'),
'C19': (INPUT, 'every template message x choices of 0..3 (0..2 of large messages) of its blocks x 1..3 instances, values rotating over all LLSD types; all pairs of values; pairs of keys; unknown names; pairs of events; sequences of 1-2 responses', 'triples of keys, events and responses; 3 blocks of all messages', [NET, JY], 'Messages compared with the event value by value and type by type.'),
'C20': (SEQ, 'all statuses 300..599, content types in any case and spacing x bodies x methods x payload types x headers on one capability; all sequences of 3 calls', 'sequences of 4', [JY, 'redirects and https left out'], 'Compared with the documented result of each outcome, above the REST client and on the wire.'),
'C21': (INPUT, 'all LLSD values of depth <= 3 over an alphabet of every type, in three reply forms and in requests; documents malformed at every byte', 'further levels of nesting and width', [JY], 'Type-exact comparison.'),
'C22': (SEQ, 'all name lists (0..3 of several names, repeats) x grants; all sequences of 3 requests; histories', 'sequences of 4', [JY], 'Exactly the asked names, with the granted urls, usable by the same client.'),
'C23': (SEQ, 'all statuses 200..599, urls x methods x headers x bodies on the bytes of the connection; all 256 bytes; failures of the connection; all sequences of 3 requests', 'sequences of 4', [JY, 'httplib connections are replaced by strings'], 'Requests and responses compared at the level of bytes on the connection.'),
'C24': (SEQ, 'all basis values, all pairs and triples of 24, all sequences of 4 operations on several UUIDs', 'triples of 60, sequences of 5', [JY], 'Reference: 16 byte strings.'),
'C25': (INPUT, 'all triples/quadruples of float bit patterns x offsets; all texts of 5/7 tokens', 'texts of 6/8 tokens', [JY], 'Bit-exact comparison.'),
'C26': (INPUT, 'all 256 and 65536 codes x ranges x offsets; all byte pairs; all hex texts of 4 over an alphabet', 'hex texts of 5', [JY], 'Compared with exact rational arithmetic.'),
'C27': (SEQ, 'all sequences of 4 message operations and 6 builder operations; all shapes of 4 blocks; all template messages', 'sequences of 5 / 7', [JY], 'Reference: an ordered list of blocks.'),
'C28': (DIFF, 'two instances of each of 13 kinds: all pairs of sequences of 2-3 operations, all interleavings with at most 2-9 switches; an event queue living in every step of another', 'sequences of 3-4, all pairs', [NET, SMALL], 'Module, class and default-argument state is reset to what it was after import before every execution.'),
'C29': (DIFF, 'all 128 combinations of UDP logging settings after each operation and after all; 26 combinations over all pairs of operations; deferred parsing, handling on/off, outgoing monitoring; all 64 combinations for capabilities x calls x replies x urls and event queues x sequences of 2 outcomes', 'sequences of 3 with all combinations for pairs', [NET, SMALL], 'Differential: everything sent, delivered and raised equals that of the default/silent configuration, with a logging handler that formats every record.'),
'C30': (INPUT, 'all template messages made and received x 1 and 3 instances x a changed byte at every fifth place; all pairs of 22 values x all types; names x values; fixed and variable data of all lengths 0..299; values, field counts, instance and block counts up to 4000; all shapes of 3 blocks; all pairs of arguments of all 24 errors; capabilities, hosts; events', 'every place, shapes of 4 blocks', [JY],
        'What is shown is text, complete, in order, and the same again; the thing shown is unchanged.'),
'C31': (SCHED, 'in virtual time: event queues over all sequences of 2-3 of 14 poll outcomes x 5 patterns of intervals changed while running x durations of polls, alone and two at once; the connection under floods of 0-6 datagrams x what is queued, all schedules with at most 2 deviations; bursts of 6..600 queued messages against up to 360 datagrams; Wait over all sequences of 3 step times x stopped or failing at each step', '3 deviations, sequences of 3 throughout, 4 step times', [NET, SMALL, 'a sleeping task continues when the clock says so; other steps take no time'],
        'A clock moves on when no task can run; what each task waits for and when it goes on is compared with the settings in force.'),
'C32': (SEQ, 'all sequences of 3 of 29 operations (sends, receptions, forwarding, capability and REST calls, event queues, building, converting, changing what was handed out), of 2 with monitoring or logging on; each operation 40 times, then all others, both ways',
        'sequences of 3 in all configurations; 300 times', [NET, JY, 'five messages stand for the template'], 'Everything handed in or out is looked at again after every operation of every history.'),
}
NOT_APPLICABLE = {}
