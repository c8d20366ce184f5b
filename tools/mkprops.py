#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
T = 'src/vrtgen/backend/cpp/templates/'
M = T + 'macros/'

prop('C01', 'Serialized bytes are exactly the VITA 49.2 layout of what was set',
 'For every packet class described in YAML and every history of setting, overwriting and removing its fields, the bytes the packet yields are exactly the VITA 49.2 encoding of the current field values: the header, then the enabled identifier, class, timestamp and command sections, then the context indicator words, then the present fields in descending indicator order, each big-endian and at its standard position. An indicator bit is one exactly when its field is present, and reserved bits are zero.',
 ['histories', 'configurations'],
 'all packet class configurations (packet type, stream/class identifiers, timestamps, ids, required/optional context fields) and all sequences of set / overwrite / remove / read-bytes on one packet object',
 'Each generated-code test sets one or two fields once, in one order; orderings of several set/remove/serialise calls over several words (CIF0/1/2) are never composed, and most fields are tested alone in a packet of their own.',
 [M+'function_defs/constructors.jinja2', M+'function_defs/cif.jinja2', M+'types/basic.jinja2', M+'types/cif.jinja2', T+'packet.cpp.jinja2', 'include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/cif1.hpp', 'src/vrtgen/parser/model'],
 [('position map and insertion/removal of optional field bytes', M+'function_defs/cif.jinja2'), ('synchronisation of modified fields into the buffer before bytes are read', M+'types/basic.jinja2')],
 [('field values', 'which fields are present and their values', 'generated packet members'), ('buffer', 'serialized bytes', 'generated packet data member')],
 ['bytes returned by a generated packet', 'field accessors'])

prop('C02', 'A packet rebuilt from its bytes equals the packet that produced them',
 'Reconstructing any packet from the bytes another packet of the same class produced gives an object that reports the same presence and value for every header, prologue, context and payload field, and that yields the same bytes again. The rebuilt packet can then be modified further, with the same results as modifying the original.',
 ['histories', 'configurations', 'inputs'],
 'all configurations, all reachable packet states, and all continuations of edits after reconstruction',
 'Tests reconstruct packets with a few literal values and never edit a reconstructed packet; the equality must hold for all combinations of present fields, because later fields are located by the sizes of the earlier ones.',
 [M+'function_defs/constructors.jinja2', M+'types/basic.jinja2', M+'types/user_class.jinja2', 'include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/cif1.hpp'],
 [('construction from bytes', M+'function_defs/constructors.jinja2'), ('unpack functions of structured fields', 'include/vrtgen/packing')],
 [], ['field accessors and bytes of the rebuilt packet'])

prop('C03', 'Declared packet size always equals the real size',
 'At every point at which a packet\'s bytes can be read, the packet-size field in the header equals the total length in 32-bit words, and the reported size in bytes equals the number of bytes exposed. This holds for every packet type and after any history of field additions, removals, payload replacements and reconstructions.',
 ['histories', 'configurations'],
 'all configurations (data, context, control, acknowledge; every prologue option) and all edit histories',
 'Tests check the size of a freshly built packet or after a single edit; stale sizes arise only after combinations such as constructing with required fields only, or removing one field after another was added.',
 [M+'function_defs/bytes_required.jinja2', M+'function_defs/cif.jinja2', M+'function_defs/data.jinja2', M+'types/weif.jinja2', T+'ack_packet.cpp.jinja2'],
 [('packet size update after each change', M+'function_defs/header.jinja2')],
 [('packet_size', 'header word count', 'header')], ['header accessor', 'size and bytes of a packet'])

prop('C04', 'Writing one packed member never disturbs another',
 'In every bit-packed word (packet header, class identifier, command control word, indicator and trailer words, structured field words), writing a member changes only that member\'s bits, whatever value is written and in whatever order, and reading a member returns what was last written to it. Members sit at the bit positions the VITA 49.2 standard gives them, in network byte order.',
 ['inputs', 'histories'],
 'all packed words, all member values (including boundary values), all write sequences',
 'Header tests write a few members from a zeroed word with small values; corruption shows only for particular neighbour values or a particular order of writes.',
 ['include/vrtgen/types/packed.hpp', 'include/vrtgen/packing/header.hpp', 'include/vrtgen/packing/prologue.hpp', 'include/vrtgen/packing/command.hpp', 'include/vrtgen/packing/indicator_fields.hpp', 'include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/cif1.hpp', 'include/vrtgen/packing/trailer.hpp'],
 [('masked read-modify-write of one member of a big-endian word', 'include/vrtgen/types/packed.hpp')],
 [], ['word accessors and packed bytes'])

prop('C05', 'Data packets carry payload and trailer intact through any history',
 'A data packet always exposes exactly the prologue, then the payload last given to it padded with zeros to a whole number of 32-bit words, then its trailer when it has one. Replacing the payload by a shorter or longer one, editing the trailer or the timestamps, and reconstructing from bytes never corrupt one another.',
 ['histories', 'inputs', 'configurations'],
 'all data packet configurations, all sequences of payload sizes and contents interleaved with trailer, header and timestamp edits',
 'Tests set a single word-aligned payload once; replacements with different lengths (shrinking, growing, empty, not a multiple of four) interleaved with trailer edits are not covered.',
 [M+'function_defs/data.jinja2', M+'function_defs/constructors.jinja2', M+'types/user_class.jinja2', 'include/vrtgen/packing/trailer.hpp'],
 [('payload replacement with padding and trailer re-placement', M+'function_defs/data.jinja2')],
 [('payload', 'bytes between prologue and trailer', 'generated packet buffer')], ['payload, trailer and bytes of a data packet'])

prop('C06', 'Indicator/enable pairs: a value is reported only when its enable bit is set',
 'In trailer and state/event words, setting a named value sets exactly its value bits and its enable bit, clearing it clears both, and a value is reported as present exactly when its enable bit is one. User-defined members of trailers and discrete I/O words, one bit or several, sit at the positions their declaration order gives them and are set and read independently of one another.',
 ['histories', 'inputs', 'configurations'],
 'all sequences of set and clear on all standard members, and all declarations of user-defined members with all their values',
 'Tests set a member to true and read it back; clear-after-set, overwriting a multi-bit value by a smaller one and interactions between neighbouring user-defined members are not exercised.',
 ['include/vrtgen/packing/indicator_fields.hpp', 'include/vrtgen/packing/state_event_indicators.hpp', 'include/vrtgen/packing/trailer.hpp', M+'types/user_class.jinja2', 'src/vrtgen/parser/model/data.py', 'src/vrtgen/parser/model/cif1.py'],
 [('paired value/enable bits', 'include/vrtgen/packing/indicator_fields.hpp'), ('assignment of bit positions to user-defined members', 'src/vrtgen/parser/model/data.py')],
 [], ['member accessors and packed word'])

prop('C07', 'Structured and variable-length fields encode every value faithfully',
 'Each structured context field (gain, payload format, geolocation, ephemeris, device and version identifiers, beam, polarization, threshold, spectrum, and the variable-length association lists, ASCII, index list and sector scan records) is encoded with its sub-fields at the standard offsets, sizes, byte order and radix, and decodes to the same value. Variable-length fields occupy exactly the number of words their content needs, and every following field stays correctly placed.',
 ['inputs', 'histories', 'configurations'],
 'all sub-field values, all list lengths and optional-list combinations, alone or followed by other fields',
 'Unit tests pack one literal value per structure; byte order of list entries, lengths that are not multiples of four, and a variable-length field in front of other fields are not covered.',
 ['include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/cif1.hpp', 'include/vrtgen/types/fixed.hpp', M+'types/user_class.jinja2', 'src/vrtgen/parser/model/cif1.py'],
 [('pack/unpack of structures', 'include/vrtgen/packing')], [], ['structure accessors and packed bytes'])

prop('C08', 'Fixed-point quantities keep every representable value exactly',
 'A physical quantity (frequency, level, gain, temperature, angle, ratio, distance) written through the API is encoded as a number with the radix point the standard assigns to that field, two\'s-complement unless the standard makes the quantity unsigned, and every encodable value the API\'s number type can express, negative ones and extremes included, is read back unchanged. A value between two representable ones is encoded as one of its two neighbours.',
 ['inputs'],
 'all fixed-point fields and sub-fields, all representable values and values between them',
 'Tests use one or two small positive values per field; sign extension, extremes and sub-resolution values for every width/radix pair are not sampled.',
 ['include/vrtgen/types/fixed.hpp', 'include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/cif1.hpp', 'src/vrtgen/parser/model/cif0.py', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/backend/cpp/type_helpers.py'],
 [('double to fixed conversion', 'include/vrtgen/types/fixed.hpp'), ('radix declared per field', 'src/vrtgen/parser/model')], [], ['accessors and bytes'])

prop('C09', 'A packet class recognises its own packets and no others',
 'The recognition test of a packet class accepts the bytes of every packet of that class, whatever its field values and optional fields. It rejects packets whose packet type, stream identifier presence, class identifier, timestamp types or indicator bits differ from the class definition, or whose command word differs from it where the definition configures it (action mode, kind of acknowledgement, identifier formats), so no receiver hands a packet to the wrong class. Bits the standard reserves are not compared.',
 ['inputs', 'configurations'],
 'all packet classes, all packets of each class in every reachable state, and all single-attribute deviations between a packet and a class definition',
 'Tests flip a handful of header bits for a few classes; the full cross product of class definitions against packets of other classes, in particular control versus the different acknowledge kinds, is not covered.',
 [M+'function_defs/match.jinja2', T+'packet.cpp.jinja2', T+'ack_packet.cpp.jinja2'],
 [('comparison of identifying attributes', M+'function_defs/match.jinja2')], [], ['result of the recognition test'])

prop('C10', 'Acknowledge warnings and errors stay consistent under any history',
 'In an acknowledge packet, a warning (error) response for a field is present exactly if it was added and not removed since; the warning/error flags in the command word, the indicator words and their enable bits, and the order and number of the response words all follow from that set. This holds after any sequence of adding, overwriting and removing responses over all indicator words, and after reconstruction from bytes.',
 ['histories', 'configurations'],
 'all sequences of add / overwrite / remove of warnings and errors over the three indicator words, whole-word removals, serialisation points in between, and reconstruction',
 'Tests add at most one response per indicator word and never remove the last one of a word; the presence of one word changes the position of all later ones.',
 [M+'types/weif.jinja2', T+'ack_packet.cpp.jinja2', T+'ack_packet.hpp.jinja2', 'src/vrtgen/parser/model/command.py'],
 [('indicator word insertion/removal', M+'types/weif.jinja2'), ('synchronisation', T+'ack_packet.cpp.jinja2')],
 [('responses', 'set of (kind, field, flags)', 'generated acknowledge packet')], ['accessors and bytes'])

prop('C11', 'A controllee answers each command with exactly the acknowledgements asked for',
 'For every control packet received, a controllee sends exactly the acknowledgements requested in it, of the kinds its class offers (validation, execution, query-state, in that order), each recognisable as the right kind and carrying the stream identifier, message identifier and controllee/controller identifiers of the request; it executes the command at most once, and only if execution or the state was requested. Packets that match no command class produce no answer and no action.',
 ['inputs', 'histories', 'configurations'],
 'all combinations of requested acknowledgements and configurations, identifier kinds, and sequences of matching and non-matching packets',
 'The existing tests never run a controllee; only its source is syntax-checked.',
 [T+'controllee_base.hpp.jinja2', T+'controllee.hpp.jinja2', 'include/vrtgen/socket/udp.hpp', 'include/vrtgen/socket/tcp.hpp'],
 [('command listener', T+'controllee_base.hpp.jinja2')],
 [('pending request', 'requested acknowledgements and identifiers', 'control packet')], ['datagrams/stream bytes sent by the controllee', 'callbacks invoked'])

prop('C12', 'A controller pairs each command with its own acknowledgements',
 'Every command a controller sends carries a fresh message identifier and its own controller identifier; the call returns exactly the acknowledgements that the command requested, in validation, execution, query-state order, however the peer splits or joins them on the transport. Replies to earlier commands that arrive late are passed over, never taken for the command\'s own; a missing, unexpected, out-of-order or wrong-kind reply makes the call fail with an error rather than return a wrong or partial result.',
 ['histories', 'fault_sequences', 'inputs'],
 'all combinations of requested acknowledgements, all segmentations of the replies, and faults: missing, reordered, wrong-class or no replies, over consecutive commands',
 'No test exercises the request/reply exchange; its outcome depends on how replies are grouped and on earlier commands on the same connection.',
 ['include/vrtgen/utility.hpp', T+'controller.hpp.jinja2', 'include/vrtgen/socket/socket_base.hpp', 'include/vrtgen/socket/tcp.hpp', 'include/vrtgen/socket/udp.hpp'],
 [('send and collect acknowledgements', T+'controller.hpp.jinja2')],
 [('message id', 'identifier of the last command', 'controller')], ['commands on the wire', 'returned acknowledgements or error'])

prop('C13', 'NATS client delivers messages and replies without loss, mix-up or hang',
 'Messages published to a subject are delivered to that subject\'s subscriber with the exact bytes and reply address, in order and exactly once; a request returns its own reply or reports a timeout, never another request\'s reply, and reading the inbox yields only messages of the current inbox. No interleaving of callbacks, requests, unsubscription and shutdown loses a wake-up or blocks forever.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of callback deliveries with subscribe / request / unsubscribe / destroy, and message sizes including empty',
 'The NATS headers are only syntax-checked: no broker and no stand-in is available to the tests, and lost wake-ups are schedule dependent.',
 ['include/vrtgen/nats/client.hpp', 'include/vrtgen/nats/message.hpp', 'include/vrtgen/nats/utility.hpp'],
 [('inbox queue with condition variable', 'include/vrtgen/nats/client.hpp')],
 [('inbox', 'received but not yet consumed messages', 'NATS client')], ['values returned by and calls made to the NATS library'])

prop('C14', 'Every YAML document is either rejected or given its one documented meaning',
 'A definition file is accepted exactly when every packet, field, option and value in it is one the documentation allows, and the accepted meaning (which fields are enabled, required or fixed, and to what value) is that of the text alone: it does not depend on the order of mapping keys, on letter case where case is documented as ignored, on earlier files or other packets, or on repeated parsing. Anything the documentation rules out is rejected with an error and generates nothing.',
 ['inputs', 'configurations', 'histories'],
 'all definition files built from valid and invalid keys and values at every level, all key orders, and sequences of parses in one process',
 'Parser tests check single valid fields and a few invalid values in one fixed order, each in its own parse.',
 ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/value.py', 'src/vrtgen/parser/__init__.py', 'src/vrtgen/parser/model'],
 [('constructors and mapping validation', 'src/vrtgen/parser/loader.py')], [], ['parsed model or error'])

prop('C15', 'Every accepted definition generates code that compiles and implements it',
 'For every set of accepted definition files (named together, or including one another) the generator produces, deterministically and under the chosen names, extensions, namespace and layout, a C++ class per packet class and, for an information class, the controller/controllee pair, all of which compile against the header library, as does a generated project. A packet class that appears twice is rejected, unless under different information codes. Each generated class offers a way to set and read exactly the fields its definition enables (read-only where the definition fixes the value), and a freshly constructed packet carries the fixed values, default modes and required fields of its definition.',
 ['configurations', 'programs'],
 'all accepted configurations: packet types, identifier kinds, timestamps, acknowledgement request sets, warnings/errors options, context words, transports and command-line options',
 'The tests compile one fixed set of about twenty definition files; combinations of options are not generated.',
 ['src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/backend/cpp/type_helpers.py', 'src/vrtgen/main.py', T, M],
 [('template selection from the model', 'src/vrtgen/backend/cpp/generator.py')], [], ['generated files, compiler verdict, bytes of a fresh packet'])

prop('C16', 'Acknowledgements mirror the control packet they respond to',
 'An acknowledge class takes its stream and class identifiers, timestamp format, identifier formats and context fields from the control class it responds to: the query-state acknowledgement carries the control\'s context fields, and the validation/execution acknowledgement accepts warnings/errors for exactly those fields, when requested. The query-state acknowledgement class always carries the query-state flag and never another kind\'s, and the validation/execution class carries the kinds its user sets.',
 ['configurations', 'histories'],
 'all control/acknowledge pairs: every subset of acknowledgement requests, warnings, errors, identifier formats and context fields',
 'Tests cover three fixed control/acknowledge pairs.',
 ['src/vrtgen/parser/model/command.py', T+'ack_packet.cpp.jinja2', T+'ack_packet.hpp.jinja2', M+'function_defs/command.jinja2'],
 [('derivation of the acknowledge model from the control model', 'src/vrtgen/parser/model/command.py')], [], ['bytes and accessors of acknowledge packets'])

prop('C17', 'Received packets reach exactly the listeners registered for their class',
 'While receiving is enabled, each data or context packet that arrives is handed, intact, in order and exactly once, to the listener registered for its class, and packets of other classes are ignored; after receiving is disabled or the object is destroyed, no listener is called and no thread remains blocked. Enabling and disabling can be repeated in any order without loss or hang.',
 ['schedules', 'histories', 'inputs'],
 'all sequences of register / enable / disable / destroy interleaved with arrivals of matching and foreign packets',
 'No test runs the receive threads; they are only syntax-checked.',
 [T+'controller.hpp.jinja2', T+'controllee_base.hpp.jinja2', T+'controller.hpp.jinja2', 'include/vrtgen/socket/udp.hpp', 'include/vrtgen/socket/socket_base.hpp'],
 [('receive thread and listener dispatch', T+'controllee_base.hpp.jinja2')],
 [('receiving', 'enabled or not', 'controller/controllee')], ['listener invocations'])

prop('C18', 'Truncated or malformed input is rejected, never misread',
 'Given an arbitrary byte sequence, the recognition test of a packet class returns an answer without reading outside the sequence, and rejects a sequence too short to hold the class\'s fixed part (header, identifiers, timestamps, command words, trailer) or whose declared size exceeds the bytes present. Decoding an accepted packet never reads or writes outside the given bytes: contents that do not fit are reported by an exception.',
 ['inputs'],
 'all truncations and single-field corruptions of valid packets of all classes, and arbitrary short inputs',
 'Tests only decode well-formed packets.',
 [M+'function_defs/match.jinja2', M+'function_defs/constructors.jinja2', 'include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/cif1.hpp'],
 [('recognition before construction', M+'function_defs/match.jinja2')], [], ['recognition result, memory accesses'])

prop('C19', 'Attribute indicator (CIF7) packets carry each field with its selected attributes',
 'When a definition selects context-field attributes (the current value among them), the attribute indicator word is present and says which, and every present context field is followed by the other selected attributes in indicator order, in the field\'s own format (probability and belief in theirs, narrow numbers in a word each). Setting or removing a field and setting attributes keep bytes, sizes and accessors in step, and the attributes survive reconstruction. Definitions that select none are laid out without the word.',
 ['configurations', 'histories', 'inputs'],
 'all attribute selections, all field kinds, required and optional, any edit history',
 'Tests cover attributes on required fields of two kinds, without edits.',
 ['include/vrtgen/packing/cif7.hpp', M+'function_defs/cif.jinja2', M+'types/user_class.jinja2', 'src/vrtgen/parser/model/cif7.py'],
 [('attribute structs per field', M+'types/user_class.jinja2')], [], ['bytes and accessors'])

prop('C20', 'Socket endpoints and transports move bytes faithfully',
 'An endpoint built from an address and port identifies exactly that address and port, and its text form agrees with them; a datagram or stream write delivers exactly the given bytes to the peer and reports the sender, a receive never reports more bytes than arrived, and a failed or timed-out receive is distinguishable from data.',
 ['inputs', 'histories', 'fault_sequences'],
 'all address/port values, message sizes from empty to the transport limit, and open/close/reopen/timeout sequences',
 'No test opens a socket.',
 ['include/vrtgen/socket/socket_endpoint.hpp', 'include/vrtgen/socket/socket_base.hpp', 'include/vrtgen/socket/udp.hpp', 'include/vrtgen/socket/tcp.hpp'],
 [('socket wrappers', 'include/vrtgen/socket')], [], ['bytes received by a peer, endpoint accessors'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
