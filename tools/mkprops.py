#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the list)."""
import json, os
T = 'src/vrtgen/backend/cpp/templates/'
CTRL = T + 'macros/controller/controller.jinja2'
CTRLH = T + 'controller.hpp.jinja2'
CBASE = T + 'controllee_base.hpp.jinja2'
UTIL = 'include/vrtgen/utility.hpp'
NATSU = 'include/vrtgen/nats/utility.hpp'
NATSC = 'include/vrtgen/nats/client.hpp'
TCP = 'include/vrtgen/socket/tcp.hpp'
UDP = 'include/vrtgen/socket/udp.hpp'
BASE = 'include/vrtgen/socket/socket_base.hpp'
ENDP = 'include/vrtgen/socket/socket_endpoint.hpp'
FD = T + 'macros/function_defs/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

NOTEST = ('No existing test opens a socket, starts a thread or instantiates a generated controller or controllee; '
          'the build only syntax-checks those classes. ')

p('C01', 'A delivered command shows the handler exactly the fields that were set',
  'For every command class and every history of setting, overwriting, clearing and re-sending one packet object, each command delivered over UDP, TCP or NATS is presented to the controllee with exactly the field values, absences, identifiers and request flags the controller last set. This holds whatever was sent before it and however the transport delays, reorders, duplicates or splits it.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'all sequences of field updates and sends on one or more command objects, all delivery orders, delays, losses, duplications and segmentations',
  NOTEST + 'The codec tests check one set/get of single fields on fresh objects, never a history of updates seen by a receiver.',
  [CTRL, CBASE, T + 'packet.cpp.jinja2', FD + 'cif.jinja2', FD + 'command.jinja2', FD + 'constructors.jinja2', 'include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/indicator_fields.hpp', UTIL],
  [('packet data()/sync keeps the byte image equal to the field members', T + 'packet.cpp.jinja2'), ('unpack constructor rebuilds members from the received bytes', FD + 'constructors.jinja2'), ('listener loop dispatches to validate_/execute_ handlers', CBASE)],
  ['arguments of the validate_* and execute_* handlers', 'datagrams, stream bytes and NATS messages on the wire'],
  [('m_positions', 'byte offset of each field in the packet image', FD + 'cif.jinja2'), ('m_data', 'packet image', T + 'packet.hpp.jinja2')])

p('C02', 'An acknowledgement returned to the controller is what the controllee reported',
  'When a command send returns an acknowledgement, that object carries exactly the warnings, errors, status fields and flags the controllee handler put into it, plus the stream, message, controllee and controller identifiers of the command. This holds over UDP, TCP and NATS for every combination of reported fields and every delivery timing.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'all handler results (any subset of warning/error/status fields, any order of setting and clearing), all delivery timings',
  NOTEST + 'The acknowledgement tests set one or two warning fields on a local object and never unpack what a controllee would send.',
  [T + 'ack_packet.cpp.jinja2', T + 'macros/types/weif.jinja2', CBASE, UTIL, NATSU],
  [('acknowledgement sync inserts indicator words and field words', T + 'ack_packet.cpp.jinja2'), ('listener copies the identifiers into the acknowledgement', CBASE)],
  ['optional acknowledgements returned by send_*'])

p('C03', 'An acknowledgement returned by a send belongs to that very command',
  'Every acknowledgement a command send returns answers that command and is of the requested kind (validation, execution or status); a late, duplicated, reordered or foreign acknowledgement is never returned for another command. If no acknowledgement of this command arrives in time the send fails instead.',
  ['histories', 'schedules', 'fault_sequences'],
  'all sequences of sends, timeouts, losses, duplications and reorderings of commands and acknowledgements, and unrelated traffic on the command channel',
  NOTEST + 'A stale acknowledgement needs a timeout or duplicate followed by another command.',
  [UTIL, NATSU, CTRL],
  [('send_packet waits for and matches acknowledgements', UTIL), ('reply inbox of the NATS client', NATSC)],
  ['return value or exception of send_*'],
  [('m_message_id', 'message id of the next command', CTRL)])

p('C04', 'A delivered command runs once and is acknowledged exactly as it requested',
  'For each command packet delivered to a listening controllee, validation runs exactly once if the command requests it and execution runs exactly once if the command requests it, in that order, on the handler of that command class only. The controllee sends exactly the requested acknowledgements (validation, execution, status), once each, to the requester, and none that was not requested.',
  ['schedules', 'fault_sequences', 'histories'],
  'all mixes of command classes and request flags, from one or several controllers, under any delivery schedule',
  NOTEST + 'Handler invocation counts and acknowledgements exist only while a controllee listens.',
  [CBASE, FD + 'match.jinja2', T + 'ack_packet.cpp.jinja2'],
  [('listener loop: match, validate, execute, acknowledge', CBASE), ('match() distinguishes packet classes', FD + 'match.jinja2')],
  ['handler call log', 'packets leaving the controllee'])

p('C05', 'Every command send ends in bounded time and works again once faults stop',
  'A command send returns or throws within a bounded time per requested acknowledgement, whatever the network and the controllee do. Once faults have stopped, a command sent to a live controllee over an intact channel is executed and its acknowledgements are returned.',
  ['schedules', 'fault_sequences'],
  'all fault sequences (loss, partition, stalled or crashed controllee, interrupted or failing system calls, trickling streams) and all schedules',
  NOTEST + 'Timeouts and recovery are properties of time and faults.',
  [UTIL, NATSU, TCP, UDP, BASE],
  [('2 s wait per acknowledgement', UTIL), ('3 s socket receive timeout', BASE), ('timed wait on the inbox', NATSC)],
  ['simulated duration of send_*', 'handler call log after the last fault'])

p('C06', 'A TCP command channel does not depend on how the byte stream is segmented',
  'Over TCP, commands and acknowledgements are recognised one by one in order, with the same effect as if each had arrived alone, however the stream is split into reads or coalesced and however writes are cut short. No command is lost, duplicated, merged or misread because of segmentation while the connection lasts.',
  ['schedules', 'fault_sequences', 'inputs'],
  'all segmentations, coalescings, read sizes and short writes of the byte stream in both directions',
  NOTEST + 'Loopback tests would also never produce split or merged segments on purpose.',
  [TCP, UTIL, CBASE],
  [('controllee reads from the stream socket', CBASE), ('send_packet writes the command and reads acknowledgements', UTIL)],
  ['handler call log in order', 'acknowledgements returned'])

p('C07', 'Every transmitted packet is a well-formed VITA 49.2 packet of its contents',
  'Every packet that a controller or controllee puts on the wire has a size word equal to its length, indicator words that name exactly the fields that follow, and fields in the standard order, width, byte order and scaling holding the values that were set. This holds after any history of updates of the packet object, for command, acknowledgement, data and context packets.',
  ['histories', 'inputs', 'schedules'],
  'all update histories of packet objects of every supported class and all values',
  'Tests compare a handful of fresh packets; the transmitted image after a history of inserts and removals of optional fields is never compared with an independent layout.',
  [T + 'packet.cpp.jinja2', T + 'ack_packet.cpp.jinja2', FD + 'cif.jinja2', FD + 'bytes_required.jinja2', FD + 'header.jinja2', FD + 'data.jinja2', 'include/vrtgen/types/fixed.hpp', 'include/vrtgen/types/packed.hpp', 'include/vrtgen/packing/header.hpp'],
  [('data() synchronises members into the image', T + 'packet.cpp.jinja2'), ('update_positions / update_packet_size', FD + 'cif.jinja2')],
  ['bytes handed to sendto, write and NATS publish'])

p('C08', 'Commands stay identifiable: fresh message ids, configured identity and target',
  'Successive commands sent by one controller carry pairwise different message identifiers and the controller identity configured at the time of sending, whichever command classes are mixed and whether or not earlier sends failed. Commands go only to the configured controllee; traffic received from anyone else never changes where later commands go.',
  ['histories', 'fault_sequences', 'schedules'],
  'all sequences of sends of any command class, failures in between, and stray traffic from other hosts',
  NOTEST,
  [CTRL, UTIL, UDP],
  [('next_message_id', CTRLH), ('destination endpoint of the command socket', BASE)],
  ['message id and controller id on the wire', 'destination address of each datagram or subject of each message'])

p('D01', 'A received data or context packet equals the packet that was sent',
  'For every history of updates of a data or context packet object (fields set and cleared, payload grown, shrunk or replaced), each sent packet that reaches a receiving controller is handed to the listener with exactly the fields, timestamps, trailer and payload bytes it had when sent. Nothing of an earlier packet or buffer shows through.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'all update histories, payload sizes, packet mixes, delays, losses, duplications and reorderings',
  NOTEST + 'Payload tests use one small fresh packet.',
  [CTRL, CTRLH, FD + 'data.jinja2', FD + 'constructors.jinja2', T + 'packet.cpp.jinja2', UDP],
  [('receive loop unpacks into a packet object', CTRLH), ('payload setter resizes the image', FD + 'data.jinja2')],
  ['argument of registered listeners'])

p('D02', 'Each received datagram triggers exactly the matching listener exactly once',
  'While reception is enabled, each arriving datagram that is a packet of one of the known data or context classes causes exactly one call of that class\'s listener, in arrival order, and no call of any other listener; anything else causes no call. Duplicated datagrams cause one call per copy and unregistered classes are skipped without effect on the others.',
  ['schedules', 'fault_sequences', 'histories'],
  'all interleavings of packets of all classes from several senders, foreign packets, and enabling/disabling of reception',
  NOTEST,
  [CTRLH, FD + 'match.jinja2'],
  [('receive loop matches each class', CTRLH), ('match() of each class', FD + 'match.jinja2')],
  ['listener call log against datagrams handed to the receiver'])

p('D03', 'A truncated packet is never completed from earlier traffic or padding',
  'A datagram or message shorter than the packet it announces, or too short for its class, is never delivered to a listener or handler and never returned as an acknowledgement. What is made of received bytes depends on those bytes alone, not on what was received before.',
  ['fault_sequences', 'histories', 'inputs'],
  'all truncation points of all packet classes, after any earlier traffic, on data, command and acknowledgement paths',
  NOTEST + 'Stale bytes show only after a longer packet has passed through the same receive path.',
  [CTRLH, CBASE, UTIL, NATSU, FD + 'match.jinja2'],
  [('received length limits what is matched and unpacked', CTRLH), ('match() rejects bytes that are not a whole packet', FD + 'match.jinja2')],
  ['listener, handler and acknowledgement log against datagrams handed over'])

p('R01', 'No received bytes can crash a node, corrupt its memory or stop its service',
  'Whatever bytes arrive on a data, command or acknowledgement path (random, bit-flipped, truncated, oversized, or with lying size and indicator words), no node reads or writes outside the received packet, terminates, or hangs. Valid packets that arrive later are served normally.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all byte strings on every receive path, in any order with valid traffic',
  NOTEST + 'No test feeds invalid bytes to an unpacking constructor.',
  [CTRLH, CBASE, UTIL, NATSU, FD + 'constructors.jinja2', FD + 'match.jinja2'],
  [('match() before unpacking', FD + 'match.jinja2'), ('unpack constructor sizes its image from the header', FD + 'constructors.jinja2')],
  ['process termination, sanitizer reports, service after the attack'])

p('R02', 'Receive loops survive failing and interrupted system calls',
  'When receive or send calls fail, time out, are interrupted or transfer less than asked, listening controllees and receiving controllers keep running and process every intact packet that is later handed to them. No failure is mistaken for received data.',
  ['fault_sequences', 'schedules'],
  'all sequences of error returns (interrupted, would-block, timeout, refused, no buffers, unreachable, no memory) at any call',
  NOTEST,
  [CTRLH, CBASE, UTIL, TCP, UDP],
  [('non-positive receive length is skipped', CTRLH)],
  ['listener and handler log after injected errors'])

p('R03', 'A peer that disconnects, resets or crashes never takes the node down with it',
  'When the other side closes, resets or crashes in the middle of any exchange, a controller or controllee process neither dies nor spins at full speed, the pending operation ends with an error or timeout in bounded time, and the node can still be shut down cleanly.',
  ['crash_points', 'schedules', 'fault_sequences'],
  'all crash and disconnect points of either side relative to any exchange, including with bytes in flight',
  NOTEST,
  [TCP, UTIL, CBASE],
  [('stream socket read and write', TCP), ('listener loop on end of stream', CBASE)],
  ['process survival, signals, number of system calls per simulated second, duration of sends and of destruction'])

p('R04', 'A command the transport refused is reported as a failure, never as success',
  'If a command could not be handed completely to the transport (send error, closed or unconnected channel, publish failure), the send throws; it never returns normally and never returns an acknowledgement. A send that returns normally has put exactly one copy of the whole command on the channel.',
  ['fault_sequences', 'histories'],
  'all error returns and short transfers of the transport at every send',
  NOTEST,
  [UTIL, NATSU, TCP, UDP],
  [('send_packet hands the packet to the transport', UTIL), ('publish status', NATSU)],
  ['result of send_* against bytes accepted by the transport'])

p('L01', 'Stopping a node ends in bounded time and no callback runs afterwards',
  'Disabling reception, and destroying a controller, controllee or messaging client, completes in bounded time at any moment and in any state, without terminating the process. After it has completed, no listener or handler of that object runs and none of its threads is left.',
  ['schedules', 'crash_points', 'histories'],
  'all moments of stopping relative to traffic, timeouts and callbacks; repeated enabling and disabling',
  NOTEST,
  [CTRL, CTRLH, CBASE, NATSC],
  [('disable_receive joins the receive thread', CTRL), ('controllee destructor joins the listener', CBASE), ('client destructor stops its thread', NATSC)],
  ['duration of the call, callback log, thread table'],
  [('m_receiving / m_listening', 'run flags of the threads', CTRL)])

p('L02', 'Every descriptor is closed exactly once and none is leaked',
  'Across any history of constructing, connecting, accepting, failing, closing and destroying sockets, controllers, controllees and messaging clients, each descriptor or messaging handle they obtain is released exactly once, and none is left when the owners are gone. A closed socket reports that it is not open.',
  ['histories', 'fault_sequences'],
  'all orders of open, bind, connect, accept, close, copy-free destruction and failures of any of those calls',
  NOTEST + 'A double close only harms when another thread reuses the number in between.',
  [BASE, TCP, UDP, NATSC, 'include/vrtgen/nats/message.hpp'],
  [('socket destructor closes the descriptor', BASE), ('accepted connection descriptor', TCP), ('destroy calls for subscriptions, connections and messages', NATSC)],
  ['simulated descriptor table and messaging handle table'])

p('L03', 'The library\'s own threads never race on shared state',
  'When an application uses each public object as documented (configure, start, exchange, stop), accesses by the threads the library starts and by the calling thread to shared state are always ordered by synchronisation, in every schedule.',
  ['schedules'],
  'all interleavings, down to individual memory accesses, of application threads with receive, listener, delivery and helper threads',
  NOTEST,
  [NATSC, UTIL, CTRL, CTRLH, CBASE],
  [('atomic run flags', CTRL), ('queue mutexes and condition variables', NATSC)],
  ['happens-before analysis of every instrumented access'])

p('S01', 'Sockets report their true state and move bytes unchanged',
  'A socket operation reports success exactly when the operating system performed it; after a failed bind or connect the recorded endpoints are unchanged, and after a successful one they are the given ones. Bytes, lengths and sender addresses pass through unchanged, receive timeouts are honoured, and this holds for every order of operations and injected failure.',
  ['histories', 'fault_sequences', 'inputs'],
  'all sequences of socket operations, all failures of the underlying calls, all payloads and addresses',
  NOTEST + 'There is no socket test at all.',
  [BASE, ENDP, TCP, UDP],
  [('thin wrappers over system calls', BASE)],
  ['return values and endpoint accessors against the simulated kernel'])

p('N01', 'The NATS client hands over each message exactly once, in order, to its queue',
  'Every non-empty message the server delivers on the subscribed subject is returned exactly once, in delivery order, by the message getter, and every one delivered on the reply inbox exactly once, in order, by the inbox getter; neither shows up in the other. This holds for synchronous and asynchronous subscriptions and any number of concurrent getters.',
  ['schedules', 'histories', 'fault_sequences'],
  'all interleavings of delivery threads and getters, timeouts in between, any mix of subjects',
  NOTEST,
  [NATSC, 'include/vrtgen/nats/message.hpp'],
  [('queues with mutex and condition variable', NATSC)],
  ['messages returned against messages delivered by the broker'],
  [('m_msg_queue / m_inbox_msg_queue', 'pending messages', NATSC)])

p('N02', 'NATS getters honour their timeout, wake for messages and never hang on stop',
  'A getter with a timeout returns a message if one is available or arrives in time and otherwise returns nothing no earlier than its timeout and promptly after it; a blocked getter wakes promptly when a message arrives. Stopping never leaves a getter or the client\'s own thread waiting.',
  ['schedules', 'fault_sequences'],
  'all interleavings of arrival, timeout, spurious wake-up and stop',
  NOTEST + 'A lost wake-up needs one particular interleaving.',
  [NATSC],
  [('condition variable waits', NATSC)],
  ['simulated time at which getters return'])

p('G01', 'A code generation that could not complete is never reported as success',
  'If any input cannot be read or understood, or any output cannot be created or completely written, the generator exits with a non-zero status. If it exits with status zero, every output file exists with its complete contents.',
  ['fault_sequences', 'inputs'],
  'all failures (missing file, permission, disk full, short write, I/O error on open, write, close, copy or directory creation) at any file-system call of a run',
  'The Python tests parse YAML strings in memory; no test runs the generator against a failing file system.',
  ['src/vrtgen/main.py', 'src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/parser/__init__.py'],
  [('command line driver', 'src/vrtgen/main.py'), ('files written at the end of each input', 'src/vrtgen/backend/cpp/generator.py')],
  ['exit status and output tree'])

p('G02', 'Generated code depends only on the specification and the options',
  'Two runs on the same specification and options produce byte-identical output, whatever the hash seed, locale, time, directory listing order, working directory of earlier runs, previous contents of the output directory, or earlier failed or concurrent runs.',
  ['configurations', 'histories', 'fault_sequences'],
  'all environments and all earlier states of the output directory, including those left by interrupted runs',
  'Tests run the generator once in one environment.',
  ['src/vrtgen/main.py', 'src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/parser/loader.py'],
  [('templates rendered from the parsed specification', 'src/vrtgen/backend/cpp/generator.py')],
  ['output tree'])

p('G03', 'An interrupted or failing generation never damages files',
  'Whenever the generator is killed or fails, each output file holds either its complete previous or its complete new contents, the input files are unchanged, and nothing outside the output directory has been touched. Running it again afterwards completes normally.',
  ['crash_points', 'fault_sequences'],
  'a kill or I/O failure at every file-system operation of a run, with an empty or an earlier output directory',
  'No test interrupts the generator.',
  ['src/vrtgen/backend/cpp/generator.py'],
  [('output files are replaced through a temporary file', 'src/vrtgen/backend/cpp/generator.py')],
  ['output tree after the crash, input tree'])

# not decided by this technique
p('X01', 'Setter range and precision rules of single packet fields',
  'Setting one field to a representable value and reading it back from the same object returns that value, and values outside the documented range are rejected.',
  ['inputs'], 'all values of all fields',
  'Tests sample a few values per field.',
  ['include/vrtgen/types/fixed.hpp', 'include/vrtgen/utility.hpp', 'include/vrtgen/packing/indicator_fields.hpp'],
  [('fixed-point conversion', 'include/vrtgen/types/fixed.hpp')], ['getters'])
p('X02', 'The parser accepts exactly the valid specifications',
  'Every specification that follows the documented format is accepted and given its documented meaning, and every other one is rejected with an error.',
  ['inputs', 'programs'], 'all YAML documents',
  'Tests sample some fields of each section.',
  ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/value.py', 'src/vrtgen/parser/model/base.py'],
  [('YAML constructors', 'src/vrtgen/parser/loader.py')], ['parsed model'])
p('X03', 'Code generated from every valid specification compiles',
  'For every valid specification and option set the generated classes compile against the library headers without warnings turned into errors.',
  ['programs', 'configurations'], 'all valid specifications',
  'The tests compile a fixed set of specifications.',
  ['src/vrtgen/backend/cpp/generator.py', T + 'packet.hpp.jinja2', T + 'packet.cpp.jinja2'],
  [('templates', T + 'packet.cpp.jinja2')], ['compiler result'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
