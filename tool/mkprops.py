#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    P.append(d)

p('C01', 'Basic values are marshalled to the exact D-Bus wire bytes',
  'Marshalling a byte, boolean, 16/32/64-bit integer, double, string, object path or signature appends exactly: zero bytes up to the value\'s natural alignment counted from the start of the stream, then the value in native byte order (booleans as a 32-bit 0 or 1; strings as 32-bit length, bytes and a NUL; signatures as 8-bit length, bytes and a NUL). Bytes already in the stream are never altered. A signature over 255 bytes is refused instead of being written with a wrong length.',
  ['inputs'], 'every basic value, every prior stream content and therefore every alignment phase',
  'The unit tests marshal a handful of constants at one or two stream offsets; the claim is over all 2^64 values, all strings and all offsets.',
  ['src/dbus_messageostream.h', 'src/dbus_type_*.cpp', 'src/dbus_utils.cpp', 'src/dbus_type.cpp'],
  [('alignment padding', 'MessageOStream::pad, Utils::getPadding'), ('typed writers', 'MessageOStream::write*'), ('dispatch', 'Type::marshallData')],
  observe=['MessageOStream::data'])
p('C02', 'Basic values are unmarshalled exactly, in both byte orders',
  'Unmarshalling a basic value skips exactly the padding its type requires, yields exactly the value that the next bytes encode in the sender\'s byte order, and leaves the stream right behind it. If the stream ends before the value is complete the call throws, and it never throws when the bytes are there.',
  ['inputs'], 'every byte sequence, every stream position, both byte orders, every basic type',
  'Tests decode a few constants from aligned positions, almost always in native order; misaligned doubles and swapped 64-bit values at odd positions are not sampled.',
  ['src/dbus_messageistream.h', 'src/dbus_messageistream.cpp', 'src/dbus_octetbuffer.cpp', 'src/dbus_type_*.cpp'],
  [('alignment skip', 'MessageIStream::align'), ('swap', 'MessageIStream::read'), ('bounds', 'OctetBuffer::copy, remove_prefix')])
p('C03', 'Decoding never touches memory outside the received bytes',
  'No byte sequence, signature or byte order given to the decoder makes it read outside the buffer it was given, index past the end of a string or container, or read an uninitialised value; malformed input ends in an exception.',
  ['inputs'], 'every byte sequence (truncated, corrupt or hostile) and every signature found inside it',
  'Tests decode well-formed data and a few truncations; memory safety is a claim over all byte sequences.',
  ['src/dbus_octetbuffer.cpp', 'src/dbus_messageistream.cpp', 'src/dbus_type.cpp', 'src/dbus_type_*.cpp', 'src/dbus_messageprotocol.cpp', 'src/dbus_message.cpp'],
  [('checked buffer', 'OctetBuffer'), ('sub-stream bound', 'MessageIStream(MessageIStream&, size_t)')])
p('C04', 'Containers are marshalled to the exact D-Bus wire bytes',
  'Arrays are written as a 32-bit byte count aligned to 4, padding to the element type\'s alignment that the count excludes, then the elements; structs and dict entries start on an 8-byte boundary and hold their members in order; variants are the contained type\'s signature followed by the value, with no alignment of their own. This holds at every stream offset and every depth of nesting, and bytes already in the stream are never altered.',
  ['inputs'], 'every value tree that can be built with the API, every prior stream content',
  'Tests marshal a few fixed containers starting at offset 0.',
  ['src/dbus_type_array.cpp', 'src/dbus_type_struct.cpp', 'src/dbus_type_dictentry.cpp', 'src/dbus_type_variant.cpp', 'src/dbus_type.cpp', 'src/dbus_messageostream.h'],
  [('array length patching', 'Type::Array::marshall'), ('8-byte containers', 'Type::Struct::marshall, Type::DictEntry::marshall'), ('variant', 'Type::Variant::marshall')])
p('C05', 'Containers are unmarshalled exactly as the wire format prescribes',
  'Unmarshalling an array, struct, dict entry or variant yields exactly the sequence of members that the bytes encode under the signature, each decoded at its proper alignment, consumes exactly the bytes of the value, and throws exactly when the bytes are not such a value (an element runs past the announced array size, the data ends early, the type is unknown or nested too deep).',
  ['inputs'], 'every signature and every byte sequence, both byte orders',
  'Tests decode a few fixed nestings.',
  ['src/dbus_type_array.cpp', 'src/dbus_type_struct.cpp', 'src/dbus_type_dictentry.cpp', 'src/dbus_type_variant.cpp', 'src/dbus_type.cpp', 'src/dbus_messageistream.cpp'],
  [('array sub-stream', 'Type::Array::unmarshall'), ('member loop', 'Type::Struct::unmarshall'), ('contained signature', 'Type::Variant::unmarshall')])
p('C06', 'Decoding always terminates, with bounded nesting',
  'Decoding any finite byte sequence terminates: every element decoded from an array consumes at least one byte, values of an unknown or incomplete type are refused rather than skipped, and values nested more than 64 containers deep are refused, so neither time nor stack can be exhausted by a hostile message.',
  ['inputs'], 'every byte sequence and signature, including self-nesting variants and malformed signatures',
  'A test cannot show that no input loops or recurses without bound.',
  ['src/dbus_type.cpp', 'src/dbus_type_array.cpp', 'src/dbus_type_struct.cpp', 'src/dbus_type_variant.cpp', 'src/dbus_messageistream.cpp'],
  [('unknown type refusal', 'Type::unmarshallData'), ('nesting limit', 'MessageIStream::Nesting')])
p('C07', 'Signatures split into their complete types',
  'Asked for the complete type that starts at a position of a signature, the library returns exactly the substring that the grammar prescribes: one character for a basic type or variant, the bracketed group up to its matching bracket for a struct or dict entry, and an array prefix together with its element type. It terminates for every string.',
  ['inputs'], 'every string and every position in it',
  'Tests try a dozen signatures.',
  ['src/dbus_type.cpp'], [('splitting', 'Type::extractSignature')])
p('C08', 'The type table is consistent',
  'For every type code the value created from a signature is of the matching type, reports that type\'s signature back, and has the alignment the wire format gives it (1 for byte, signature and variant; 2 for 16-bit; 4 for 32-bit, boolean, strings and arrays; 8 for 64-bit, double, struct and dict entry); unknown codes create nothing. Exactly the basic type codes are accepted as dict keys.',
  ['inputs'], 'every signature string and every value',
  'Tests spot-check some codes; a wrong entry only shows in messages that use that type at an odd offset.',
  ['src/dbus_type.cpp', 'src/dbus_type_*.h', 'src/dbus_validation.cpp'],
  [('type table', 'Type::create, getAlignment, getMarshallingSignature'), ('basic types', 'Validation::isValidBasicType')])
p('C09', 'Value accessors return the value that was stored',
  'Reading a value as text gives the decimal representation of the integer it holds, or the exact string, object path or signature it holds, looking through variants; reading it as a byte or as a 32-bit unsigned number gives exactly the number stored, over its whole range.',
  ['inputs'], 'every value of every basic type, bare or inside variants',
  'Tests use small numbers; values above 2^31 are never read back.',
  ['src/dbus_type.cpp', 'src/dbus_type_*.cpp'], [('accessors', 'Type::asString, asByte, asUint32'), ('per-type text', '*::asString')])
p('C10', 'Message framing does not depend on how the bytes are chunked',
  'However a byte stream of messages is cut into pieces on arrival, the same messages are delivered, in the same order, each exactly once, with the header and body bytes that the stream contains, and each as soon as its last byte has arrived.',
  ['inputs', 'histories', 'schedules'], 'every byte stream and every way to cut it into chunks',
  'Tests feed a few messages whole or in a couple of fixed cuts.',
  ['src/dbus_messageprotocol.cpp', 'src/dbus_octetbuffer.cpp'],
  [('state machine', 'MessageProtocol::processData, getHeaderSize, unmarshallHeader, getBody'), ('cache', 'MessageProtocol::onReceiveData')],
  state=[('octet cache', 'received bytes not yet consumed', 'src/dbus_messageprotocol.h'), ('state, header size, body size', 'progress within the current message', 'src/dbus_messageprotocol.h')])
p('C11', 'Oversize messages are refused as soon as their size is known',
  'A message whose header-field array is announced larger than 64 MiB, or whose total size is announced larger than 128 MiB, is refused when the announcement arrives, in either byte order, and no message within these limits is refused for its size.',
  ['inputs'], 'every announced header and body size, both byte orders',
  'Tests check one value above the limit; the boundary, the swapped order and wrap-around are not reached.',
  ['src/dbus_messageprotocol.cpp'], [('limits', 'MessageProtocol::getHeaderSize, unmarshallHeader')])
p('C12', 'A malformed message neither replays nor poisons later messages',
  'After a malformed message has been refused, no message delivered before is delivered again, and the connection\'s decoder is back in its initial state, so that messages arriving afterwards are delivered exactly as on a fresh connection. A message whose contents cannot be decoded, or whose handler throws, does not disturb the framing of the messages behind it.',
  ['inputs', 'histories', 'fault_sequences'], 'every history of chunks with malformed messages and throwing handlers in it',
  'Tests only send well-formed streams.',
  ['src/dbus_messageprotocol.cpp', 'src/dbus_native.cpp'], [('reset', 'MessageProtocol::reset'), ('containment', 'MessageProtocol::onBodyComplete, Native::onReceiveMessageData')])
p('C13', 'Outgoing messages have the D-Bus message layout',
  'Every method call, reply, error and signal is marshalled as: endian mark, message type, flags, version 1, body length, its own serial, then the header fields that its kind requires with the caller\'s values (including destination, reply serial, error name, and the signature whenever there are parameters), padding to 8, and the marshalled parameters; the body length and field-array length are exact.',
  ['inputs'], 'every kind of message with every header value and parameter list',
  'Tests compare one or two packets byte by byte.',
  ['src/dbus_message.cpp', 'src/dbus_message_methodcall.cpp', 'src/dbus_message_methodreturn.cpp', 'src/dbus_message_error.cpp', 'src/dbus_message_signal.cpp'],
  [('packet assembly', 'Message::Base::marshallMessage'), ('header fields', '*::marshall')])
p('C14', 'Received messages expose exactly the header values that were sent',
  'For every received message the path, interface, member, sender, destination, serial, reply serial, reply-expected flag and parameters reported to the application are exactly those in the message, in whatever order the header fields come; fields that are absent read as empty or zero, and unknown fields are ignored.',
  ['inputs'], 'every set and order of header fields, every value, both byte orders',
  'Tests parse a couple of captured packets.',
  ['src/dbus_message.cpp', 'src/dbus_message_methodcall.cpp', 'src/dbus_message_methodreturn.cpp', 'src/dbus_message_error.cpp', 'src/dbus_message_signal.cpp', 'src/dbus_message.h'],
  [('field extraction', 'Message::Base::Base(header, body)'), ('parameters', 'Message::Base::parseParameters')])
p('C15', 'Serials are never zero and do not repeat',
  'Every message created for sending gets a serial that is not zero, and no two of any 2^32-1 successive messages created by any threads get the same one.',
  ['histories', 'schedules'], 'every history of message creations, by any threads, including wrap-around of the counter',
  'Tests create a handful of messages and cannot create four billion.',
  ['src/dbus_message.cpp'], [('serial counter', 'Message::Base::Base(serial)')],
  state=[('serial counter', 'next serial to hand out', 'src/dbus_message.cpp')])
p('C16', 'Error replies reach the application with their message',
  'Every well-formed error reply is surfaced as an error for the call it answers, whatever its body holds; its text is the first body argument when that is a string, and empty otherwise.',
  ['inputs'], 'every error body: none, string, other types, several arguments',
  'Tests do not receive errors at all.',
  ['src/dbus_message_error.cpp', 'src/dbus_native.cpp'], [('error parsing', 'Message::Error::Error(header, body)')])
p('C17', 'The authentication handshake follows the protocol for any chunking',
  'However the server\'s lines are cut into chunks, each complete line is acted on exactly once and in order: OK leads to BEGIN (or first to NEGOTIATE_UNIX_FD when that was asked for, and BEGIN after its agreement), other lines never complete the handshake, and bytes that follow the completing line are left for the message decoder.',
  ['inputs', 'histories'], 'every sequence of server lines and every way to cut it into chunks',
  'Tests need a live bus and see one accepted handshake.',
  ['src/dbus_auth.cpp', 'src/dbus_native.cpp'], [('line splitting', 'AuthenticationProtocol::onReceiveData, processData'), ('commands', 'AuthenticationProtocol::onCommand')],
  state=[('line buffer', 'received bytes of the unfinished line', 'src/dbus_auth.h')])
p('C18', 'Messages are held back until authentication, then sent once and in order',
  'No message is written to the socket before the BEGIN line; messages sent earlier are queued and written exactly once, in order, right after BEGIN and before any message sent later, whatever the interleaving of senders with the handshake.',
  ['histories', 'schedules'], 'every interleaving of sends with the completion of authentication',
  'Tests need a live bus and do not control the interleaving.',
  ['src/dbus_transport.cpp', 'src/dbus_auth.cpp'], [('gate', 'Transport::sendString, onAuthComplete, addToMessageQueue')],
  state=[('ready flag and message queue', 'messages waiting for BEGIN', 'src/dbus_transport.h')])
p('C19', 'Writes to the socket never overlap and keep their order',
  'At most one write is in progress on the socket at any time, each message is handed to the socket exactly once and unmodified, and messages reach it in the order in which they were sent, so that bytes of two messages are never interleaved.',
  ['histories', 'schedules'], 'every interleaving of senders and write completions',
  'Overlap needs partial writes under load, which tests do not produce.',
  ['src/dbus_transport.cpp'], [('write queue', 'Transport::sendStringDirect, handle_write_output')],
  state=[('write queue', 'messages handed over but not yet completely written', 'src/dbus_transport.h')])
p('C20', 'Each reply completes exactly the call it answers, once',
  'A method call that expects a reply has its callbacks registered before its bytes are sent, a reply or error invokes exactly the success or failure callback of the pending call with that serial, at most once, and a reply to no pending call invokes nothing; calls that expect no reply register nothing. This holds even if a callback throws or makes further calls.',
  ['histories', 'schedules'], 'every history of calls, replies, errors and duplicated or unknown replies',
  'Tests need a live bus and see one reply per call.',
  ['src/dbus_native.cpp'], [('pending calls', 'Native::sendMethodCall, onReceiveMethodReturn, onReceiveError')],
  state=[('pending call map', 'callbacks by serial', 'src/dbus_native.h')])
p('C21', 'Method calls and signals are routed to exactly their handlers',
  'A received method call or signal invokes the handler registered for its interface and member, if any, exactly once with that message, and no other such handler; a signal also invokes the handler of each match rule that matches it exactly once. Handlers may register and remove handlers and rules, including themselves, while they run.',
  ['histories', 'inputs'], 'every set of registrations, every message, handlers that change the registrations',
  'Tests need a live bus and register one handler.',
  ['src/dbus_native.cpp'], [('routing', 'Native::onReceiveMethodCall, onReceiveSignal'), ('registration', 'Native::register*, unRegister*, callAddMatch, callRemoveMatch')])
p('C22', 'A match rule matches exactly the signals it describes',
  'A rule matches a signal if and only if every one of sender, interface, member, destination and path that it sets equals the signal\'s, and the signal\'s path is the path namespace it sets or lies below it; deciding this never throws.',
  ['inputs'], 'every rule and every signal',
  'No test covers match rules.',
  ['src/dbus_matchrule.cpp'], [('matching', 'MatchRule::isMatched')])
p('C23', 'Match rule text is parsed safely and exactly',
  'A rule\'s elements end at the commas outside single quotes; parsing takes each known key\'s value exactly (the text after the first =, without the quotes around it), ignores keys it does not know, and refuses a rule with a non-empty element that has no = or with both path and path namespace; no rule text whatsoever causes out-of-bounds access.',
  ['inputs'], 'every rule text',
  'No test covers match rules.',
  ['src/dbus_matchrule.cpp'], [('parsing', 'MatchRule::MatchRule')])
p('C24', 'Shared state is only touched under its lock',
  'The pending calls, handler and rule registries, the callbacks of the decoder and transport, the outgoing queues and the serial counter are only read or changed while the lock that protects each of them is held, and every lock is released on every way out of a function, exceptions included.',
  ['schedules', 'histories'], 'every path through every function that touches shared state',
  'Tests are single-threaded and pass without any lock.',
  ['src/dbus_native.cpp', 'src/dbus_native_messages.cpp', 'src/dbus_transport.cpp', 'src/dbus_message.cpp', 'src/dbus_messageprotocol.cpp', 'src/dbus_auth.cpp'],
  [('scoped locks', 'boost::recursive_mutex::scoped_lock')])
p('C25', 'The hex codec is exact and inverse',
  'Binary-to-hex conversion appends exactly two lower-case hex digits per byte, in order, and hex-to-binary conversion of such text gives back exactly the original bytes.',
  ['inputs'], 'every byte string',
  'Tests do not cover it beyond the user id of the handshake.',
  ['src/dbus_utils.cpp'], [('codec', 'Utils::ConvertBinaryToHexString, ConvertHexStringToBinary')])
p('C26', 'Bus addresses yield the socket path they name',
  'For an address with a unix path or abstract name the library connects to exactly that path (with a leading NUL for an abstract name), without a trailing guid; anything else is used as it stands, and an absent address gives the documented default.',
  ['inputs'], 'every address string',
  'Tests try a few addresses.',
  ['src/dbus_platform.cpp'], [('address parsing', 'Platform::getSystemBus, getSessionBus')])
p('C27', 'Introspection data describes exactly what was added',
  'The serialised introspection document lists every interface added, in order, with all its properties, methods and signals, each with its own name, access and one argument element per complete type of its signatures, and nothing else.',
  ['inputs'], 'every collection of interfaces, methods, properties and signals',
  'No test covers introspection.',
  ['src/dbus_introspectable.cpp'], [('serialisation', 'Introspectable::*::serialize')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
