"""Properties and how each is decided; gen_meta.py writes properties.jsonl and MANIFEST.json from it."""
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=list(observe)))

U = 'src/core/include/URI.hpp'
prop('C01', 'Base64 coding is lossless and rejects everything that is not Base64',
     'Encoding any byte sequence yields its standard (RFC 4648, padded) Base64 text, and decoding that text returns exactly the original bytes. Decoding any other text returns either nothing or bytes whose encoding matches the text, and never reads outside the given text.',
     ['inputs'], 'all byte sequences and all texts, of any length',
     'the unit tests decode and encode about twenty fixed strings; the alphabet/padding/length cross product and arbitrary bytes are unbounded',
     ['src/majordomo/include/majordomo/base64pp.hpp'], [('encode/decode tables and padding rules', 'base64pp.hpp: encode, decode')],
     'property-based testing + coverage-guided fuzzing: round-trip, differential against an independent RFC 4648 codec, exhaustive over all 4-character quanta',
     'random bytes/texts (0-600 long), near-valid texts, exhaustive 1-3 byte inputs and padding quanta, libFuzzer with ASan/UBSan')
prop('C02', 'Percent-encoding is lossless, canonical and safe on any input',
     'Percent-encoding any byte string produces only unreserved characters and well-formed upper-case escapes, and decoding it returns the original bytes. Decoding arbitrary text decodes exactly the well-formed escapes and never reads outside the text; strict decoding reports malformed text with a syntax error.',
     ['inputs'], 'all byte strings and all texts',
     'tests encode a handful of fixed strings', [U], [('encode/decode', U + ': URI::encode, URI::decode')],
     'property-based testing + libFuzzer: round-trip and differential against an independent codec, exhaustive over all 1- and 2-byte strings and all escapes',
     'exact-size heap buffers under ASan so that any over-read is seen')
prop('C03', 'Parsing a URI reports its RFC 3986 components and rejects invalid ones',
     'For every text that starts with a scheme, "/", "?" or "#", the reported scheme, authority, user, password, host, port, path, query and fragment are those of the RFC 3986 decomposition. Strict parsing accepts exactly the texts whose components use the allowed characters and reports all others with a syntax error; relaxed parsing accepts every text; neither crashes.',
     ['inputs'], 'all texts, strict and relaxed',
     'tests parse some dozens of fixed URIs', [U], [('parse and lazy authority parsing', U + ': URI::parse_parts, parseAuthority, accessors')],
     'property-based testing + libFuzzer: differential against an independent RFC 3986 splitter, plus exhaustive over all strings of length <= 5 over 13 delimiter/literal characters',
     'structured generator with mutations, delimiter soup, exhaustive short strings; ASan/UBSan')
prop('C04', 'URI objects are independent values under any copy/move/assign history',
     'Copies, moved-to objects and assigned objects report exactly the components of the text they hold, whatever was read, cached, copied, moved, assigned or destroyed before, and equality, hashing and formatting depend on that text only. No operation on one object changes another one.',
     ['histories', 'inputs'], 'all sequences of construct/copy/move/assign/self-assign/read/destroy operations on a pool of URI objects',
     'tests perform two or three fixed copies; the lazily filled views into an owned string depend on the history', [U], [('special members re-basing the cached views', U + ': URI copy/move constructors, operator=, updateStringViews')],
     'stateful property-based testing: operation histories against a map-of-strings model under AddressSanitizer',
     'short (SSO) and long texts, up to 25 operations per history')
prop('C05', 'Building a URI and parsing it back preserves components and query map',
     'Setting any combination of components and query parameters (arbitrary bytes) and building gives a URI that reports exactly those components and parameters; building is repeatable and does not modify the builder. Rebuilding a parsed URI reproduces it, replacing one component leaves the others unchanged, and the query map has exactly the decoded key/value pairs of the query text.',
     ['inputs', 'histories'], 'all component combinations, all query texts and parameter maps (fragments without reserved characters when rebuilding)',
     'tests build a few fixed URIs', [U], [('factory', U + ': UriFactory::toString/build'), ('query map', U + ': URI::queryParamMap')],
     'property-based testing + libFuzzer: build/parse round-trip against the requested components, rebuild identity, query map against an independent parser',
     'three input classes with recorded defects are excluded by construction and probed separately (known-findings.txt)')
prop('C06', 'Reader-writer lock never holds read and write mode together in any schedule',
     'At no time is the lock held in read mode by one thread and in write mode by another, data written under the write lock is fully visible to later readers, and scoped guards release exactly what they acquired. The reported holder count is that of the current holders (positive: readers, negative: writers), an uncontended try-acquire succeeds exactly when the other mode is not held, and once all holders have left the lock is free and can be acquired again.',
     ['schedules', 'histories'], 'all interleavings of up to 4 threads over random programs of lock/try/guard operations',
     'the unit tests run one thread', ['src/core/include/ReaderWriterLock.hpp'], [('CAS protocol on the lock word', 'ReaderWriterLock.hpp: readLock/writeLock/readUnLock/writeUnLock, ScopedLock')],
     'schedule-controlled randomised testing (own fiber scheduler over instrumented atomics, random-walk/PCT-like schedules, shrinking) + ThreadSanitizer on real threads',
     'sequentially-consistent interleavings from the scheduler; memory-order errors only as far as ThreadSanitizer observes them')
prop('C07', 'Spin-wait and spin mutex: mutual exclusion, backoff and timeouts are exact',
     'The spin mutex admits one holder at a time in every schedule and makes its writes visible to the next one. Waiting for a condition returns true exactly when it was observed true, gives up only after the given timeout (never without one, after one evaluation for timeout 0) and refuses other negative timeouts; spinning counts its spins, starts yielding or sleeping (at most 1 ms per spin) after the configured number of spins, and reset starts over.',
     ['schedules', 'inputs'], 'all interleavings of up to 4 threads, all timeouts and condition flip times (virtual time)',
     'tests use one thread and one fixed timing', ['src/core/include/SpinWait.hpp'], [('spin loop / AtomicMutex', 'SpinWait.hpp: SpinWait::spinOnce, spinUntil, AtomicMutex')],
     'schedule- and clock-controlled randomised testing + ThreadSanitizer on real threads', 'virtual clock makes timeouts deterministic')
prop('C08', 'Real-time/non-real-time setting: no lost, torn or stale value in any schedule',
     'A value handed from the non-real-time to the real-time side is always one that was actually set (never torn), the latest set value is eventually seen, values read by one side never go back to an older one, and replace/update/access operations behave like operations on a single value when used sequentially. The real-time side never blocks on the other side.',
     ['schedules', 'histories'], 'all interleavings of real-time and non-real-time programs, all mutability modes',
     'no unit test of it runs here; interleavings are unbounded', ['src/disruptor/include/BasicSetting.hpp'], [('pointer-swap protocol', 'BasicSetting.hpp: realtimeAcquire/Release, nonRealtimeReplace, ScopedAccess')],
     'schedule-controlled randomised testing with torn-read detecting payloads + ThreadSanitizer; sequential model-based histories', '')
prop('C09', 'Thread/process names, affinity and scheduling reach the OS as requested',
     'Every name, CPU set, policy and priority requested for a valid thread or process is passed to the OS exactly (names cut to the OS limit) and read back as the OS reports it. Invalid threads, pids and priorities are refused with an error before the OS is asked, and every OS failure is reported as an error whose message can be read.',
     ['inputs', 'configurations', 'fault_sequences'], 'all names, masks, CPU counts, policies, priorities, thread kinds and injected OS errors',
     'tests can only set what an unprivileged process on this machine may set', ['src/core/include/ThreadAffinity.hpp'], [('set/get functions', 'ThreadAffinity.hpp')],
     'property-based testing with recording stand-ins for the OS calls and fault injection; names additionally against the real OS', 'no privileged call is executed')
prop('C10', 'Formatting, joining and debug logging render every value completely',
     'Joining a container gives exactly its elements in order, rendered as by the standard formatter, with the separator between neighbours only. Formatting ranges, maps, pairs, optionals and source locations renders every element once, honours the value format specification, writes no more than the given buffer holds, and a debug log line is the concatenation of everything streamed into it followed by one line break.',
     ['inputs'], 'all containers, nestings, separators, buffer sizes and chains of logged values',
     'tests format a few fixed containers', ['src/core/include/Formatter.hpp', 'src/core/include/opencmw.hpp', 'src/core/include/Debug.hpp'],
     [('range/pair/optional formatters', 'Formatter.hpp'), ('join', 'opencmw.hpp: join'), ('Debug stream', 'Debug.hpp: operator<<, log, log_with')],
     'property-based testing: differential against an independent renderer, two compilers with AddressSanitizer', 'nested depth 2; refl/units replaced by shims')
prop('C11', 'MIME type lookup finds the right type for every name and file extension',
     'Every listed type is found by its name (also with parameters and in any case) and by every one of its file extensions, a lookup never reports a type that was not named, the first named type of a list wins, unknown names give the unknown type, and two types are equal exactly if their names are. Compile-time and run-time lookups agree.',
     ['inputs'], 'all Accept-like lists and file names built from listed and unlisted types', 'tests look up a few types',
     ['src/core/include/MIME.hpp'], [('lookup', 'MIME.hpp: getType, getTypeByFileName, operator==')],
     'property-based testing against a reference lookup over the listed types; exhaustive over the registry', '')
prop('C12', 'Timing selectors: parsing, matching, order and hash follow the selector text',
     'A timing selector is accepted exactly if it is empty, ALL or FAIR.SELECTOR. followed by ALL or key=value pairs of the keys C, S, P, T with a 32-bit integer or ALL, in any case; all others throw invalid_argument. The reported ids, the printed text, matching (wildcard only on the subscribed side), equality, order and hash always reflect the current selector and time stamp, whatever was read, compared, copied or assigned before; printing and parsing back is the identity.',
     ['inputs', 'histories'], 'all selector texts and all histories of assign/copy/read/compare on several contexts', 'tests use a few fixed selectors; the lazily cached parse depends on the history',
     ['src/core/include/TimingCtx.hpp', 'src/core/include/opencmw.hpp'], [('lazy parse', 'TimingCtx.hpp: parse'), ('comparisons', 'TimingCtx.hpp: matches, operator==, operator<=>, hash')],
     'stateful property-based testing against an independent parser/matcher', '')
prop('C13', 'Topics: URI, subscription and network forms are consistent and unambiguous',
     'A topic built from a service and parameters, from its URI form or from its subscription (network) form is the same topic, reports exactly that service and those parameters, and hashes and compares equal; different topics never share a network subscription string. Service names are accepted exactly if they are legal after adding the leading slash; all others throw invalid_argument. Endpoint schemes mdp and mds are replaced by tcp and everything else is kept.',
     ['inputs'], 'all services, parameter maps (arbitrary bytes) and endpoint addresses', 'tests convert a few fixed topics',
     ['src/core/include/Topic.hpp'], [('conversions', 'Topic.hpp: fromMdpTopic, fromZmqTopic, fromString, toZmqTopic, toMdpTopic'), ('validation', 'Topic.hpp: isValidServiceName')],
     'property-based testing: round-trips between the representations, injectivity, reference validator', '')
prop('C14', 'Notifications reach exactly the subscriptions whose filters match',
     'A notification topic matches a subscription topic exactly if the services are equal and, for every registered filter key present on the subscription side, the notified value is present and matches by that filter\'s rule (timing wildcard match, content type equality, number and string equality, domain object). Parameters without a registered filter never influence the decision, and values that are not valid for the filter do not match instead of matching as a default.',
     ['inputs', 'configurations'], 'all registered filter sets and all pairs of topics', 'tests check a few pairs for one filter set',
     ['src/majordomo/include/majordomo/SubscriptionMatcher.hpp', 'src/core/include/Filters.hpp', 'src/core/include/Topic.hpp'], [('matcher', 'SubscriptionMatcher.hpp: operator()'), ('filters', 'Filters.hpp')],
     'property-based testing against an independent matcher', '')
prop('C16', 'Collections, lookup tables and annotated fields keep exactly what was put in',
     'A heterogeneous collection behaves per type like a vector (push, remove, clear, visit, size, compare, copy). A constant key/value map returns for every key exactly the value it was created with and reports absent keys as absent; string hashes agree at run time and compile time. Field modifiers combine and are queried as a set of flags. An annotated value behaves like the plain value under every copy, move, assignment, comparison and arithmetic, never alters the source of a copy, and keeps its annotations.',
     ['inputs', 'histories'], 'all key/value sets, modifier combinations and operation histories on annotated values', 'tests use a few fixed maps and assignments',
     ['src/core/include/collection.hpp', 'src/core/include/opencmw.hpp'], [('maps', 'opencmw.hpp: ConstExprMap, hash'), ('Annotated', 'opencmw.hpp: Annotated'), ('collection', 'collection.hpp')],
     'stateful property-based testing against std::map/plain-value models', 'units replaced by a shim')
prop('C24', 'Byte buffer: values are read back as written and no read leaves the buffer',
     'Any sequence of values (numbers, booleans, strings, arrays, containers) written to a buffer is read back in order, identical, whatever the initial capacity, growth, reserve, resize, shrink, copy, move, swap and allocator history in between. Buffers from the heap, from foreign memory (owned or viewed) and copies are independent and release their memory exactly once. For any (truncated, corrupted) content, a read either gives a value inside the buffer or throws; it never touches memory outside.',
     ['inputs', 'histories'], 'all value sequences and operation histories; all byte contents', 'tests write a few values to fresh buffers',
     ['src/serialiser/include/IoBuffer.hpp'], [('put/get', 'IoBuffer.hpp: put, get, getArray, at'), ('memory', 'IoBuffer.hpp: reallocate, move/copy/assign, MetaInfo')],
     'stateful property-based testing against a byte-string model under AddressSanitizer', 'sizes up to a few kB')
prop('C31', 'Multi-dimensional arrays address every element once in the declared layout',
     'For every number of dimensions, sizes, offsets, memory layout (row major, column major, custom) and access order, indices map one-to-one to elements in the order the layout declares, index/offset conversions are inverse to each other, element access reads what was last written through any path, and element-wise arithmetic equals the arithmetic of the elements and never writes outside the array.',
     ['inputs', 'histories'], 'all dimensions 1 to 4, sizes, strides, offsets and operation sequences', 'tests use two or three fixed shapes',
     ['src/serialiser/include/MultiArray.hpp'], [('offset/indices', 'MultiArray.hpp: offset, indices'), ('arithmetic', 'MultiArray.hpp: operators')],
     'property-based testing against an index-tuple map model under AddressSanitizer', '')
S = 'src/serialiser/include/'
prop('C25', 'YaS binary round-trip restores every object exactly',
     'Serialising any object of a supported type (numbers, booleans, strings, enums, containers, maps, sets, optionals, smart pointers, multi-arrays, nested and annotated structs) to the YaS format and deserialising it into any object of the same type gives an equal object, whatever the target held before; fields that follow are not disturbed, and nothing is reported as an error. Serialising the result again gives the same bytes.',
     ['inputs', 'histories'], 'all values of the covered types, all previous contents of the target, with and without field meta data, several objects in one buffer',
     'tests round-trip a few fixed objects into default-constructed ones', [S + 'IoSerialiserYaS.hpp', S + 'IoSerialiser.hpp', S + 'IoBuffer.hpp'],
     [('field header/value codecs', 'IoSerialiserYaS.hpp'), ('struct walk', 'IoSerialiser.hpp: serialise, deserialise')],
     'property-based testing: round-trip into dirty targets, re-serialisation identity, AddressSanitizer', 'clang build; refl/units replaced by shims')
prop('C26', 'CmwLight binary round-trip restores every object exactly',
     'Serialising any object of a supported type to the CmwLight format and deserialising it into any object of the same type gives an equal object, whatever the target held before, also when several objects follow each other in a buffer. The bytes are those of the documented CmwLight layout (field count, name, type id, little-endian value), so that other implementations can read them.',
     ['inputs', 'histories'], 'all values of the covered types and all previous contents of the target',
     'tests round-trip a few fixed objects', [S + 'IoSerialiserCmwLight.hpp', S + 'IoSerialiser.hpp', S + 'IoBuffer.hpp'],
     [('field header/value codecs', 'IoSerialiserCmwLight.hpp'), ('struct walk', 'IoSerialiser.hpp: serialise, deserialise')],
     'property-based testing: round-trip into dirty targets and comparison with an independent byte-layout encoder, AddressSanitizer', 'units are not part of this format')
prop('C27', 'JSON output is valid JSON and reading any equivalent JSON gives the object',
     'Serialising any object to JSON gives a valid RFC 8259 document whose content is the object (strings with arbitrary characters included), and deserialising it, or the same document with other white space, field order, escapes, number spelling or extra fields, gives an equal object whatever the target held before.',
     ['inputs', 'histories'], 'all values of the covered types, all equivalent spellings of their documents',
     'tests read and write a few fixed documents', [S + 'IoSerialiserJson.hpp', S + 'IoSerialiser.hpp'],
     [('value parsers/writers', 'IoSerialiserJson.hpp: readString, parseNumber, skipValue, writeString'), ('struct walk', 'IoSerialiser.hpp: deserialise')],
     'property-based testing: differential against an independent JSON parser and re-writer (metamorphic spellings), round-trip, AddressSanitizer', 'map keys with characters that need escaping are a recorded finding')
prop('C28', 'YAML round-trip restores every object with plain text values',
     'Serialising any object of a supported type to YAML and deserialising it into any object of the same type gives an equal object, whatever the target held before, also for values or field names that need a line of their own, for consecutive nested structs and for several documents in one buffer. Hand-written documents with reordered or unknown fields, comments, empty lines, quoted or unquoted strings and block or flow lists are read with the same meaning.',
     ['inputs', 'histories'], 'all values of the covered types; scalar strings without "#" and line breaks, strings inside containers without separators', 'tests round-trip two fixed objects',
     [S + 'IoSerialiserYAML.hpp', S + 'IoSerialiser.hpp'], [('line based reader', 'IoSerialiserYAML.hpp: FieldHeaderReader<YAML>::get, fieldParser'), ('writer', 'IoSerialiserYAML.hpp: fieldFormatter, FieldHeaderWriter<YAML>')],
     'property-based testing: round-trip into dirty targets, metamorphic spellings of hand-written documents, AddressSanitizer', 'characters the format cannot carry are recorded findings')
prop('C29', 'Different struct versions: common fields arrive, others stay, both are reported',
     'When sender and receiver use different versions of a struct (fields missing, added, reordered or of another type, on any nesting level), every field both have with the same type arrives, every other field of the receiver keeps its value, and data that follow are not disturbed, for all serialisation formats. Unknown and mistyped fields and data of another root type are silently skipped, collected in the result or rejected with an exception, as the checking mode (IGNORE, LENIENT, ALWAYS) says; the result lists exactly the unknown and the received fields. For YaS, which carries annotations, the checked modes do not overwrite a field whose unit differs or that the receiver declares read-only, and report it, as well as writes to deprecated or private fields.',
     ['inputs', 'configurations'], 'all contents of the sender and receiver versions, all formats and checking modes', 'tests use two or three fixed pairs of structs',
     [S + 'IoSerialiser.hpp', S + 'IoSerialiserYaS.hpp', S + 'IoSerialiserCmwLight.hpp', S + 'IoSerialiserJson.hpp', S + 'IoSerialiserYAML.hpp'],
     [('struct walk and skipping', 'IoSerialiser.hpp: deserialise, skipField, handleDeserialisationError'), ('skipping without size', 'IoSerialiserCmwLight.hpp: IoSerialiser<CmwLight, OTHER>; IoSerialiserJson.hpp: skipValue')],
     'property-based testing against a field-by-field overlay model', 'mistyped scalars only for the typed binary formats')
prop('C30', 'No received data can crash, hang or overrun a deserialiser',
     'For every byte sequence (truncated, corrupted, crafted), deserialising with any format and checking mode ends in bounded time with a result or an exception, without reading or writing outside the buffer and the target, without changing the data, and with the read position inside the buffer; the target is left as an ordinary object that can be used and serialised again.',
     ['inputs', 'fault_sequences'], 'all byte sequences', 'tests read a few malformed buffers',
     [S + 'IoSerialiser.hpp', S + 'IoSerialiserYaS.hpp', S + 'IoSerialiserCmwLight.hpp', S + 'IoSerialiserJson.hpp', S + 'IoSerialiserYAML.hpp', S + 'IoBuffer.hpp'],
     [('header parsing', 'FieldHeaderReader<...>::get of each format'), ('length fields', 'IoBuffer.hpp: get, getArray; IoSerialiserCmwLight.hpp: skipArray; IoSerialiserYaS.hpp: map reader')],
     'mutation-based and coverage-guided fuzzing (libFuzzer) of valid encodings under AddressSanitizer with a CPU-time limit', 'time limit 20 s CPU per case; structs of the covered types')
D = 'src/disruptor/include/disruptor/'
prop('C17', 'Ring buffer, pollers and gating sequences follow the claim/publish/consume rules',
     'For every one-threaded history of claims (single or several slots, blocking or trying), publications (in any order with several producers), polls, and gating sequences or consumers that come and go, and at any distance from the start of the sequence numbers: claims are consecutive and granted exactly if the slots are free of every registered consumer, reported capacities are exact, an event becomes readable exactly when it (and, for a poller, everything before it) has been published, and a poller gets every later event once, in order, with the content written and the right end-of-batch flag, also after its handler stopped early or threw.',
     ['inputs', 'histories'], 'all histories of up to 43 operations on rings of 1 to 16 slots with up to 3 pollers and 2 extra gating sequences; sequence numbers up to 2^40', 'tests use a few fixed histories with one consumer',
     [D + 'RingBuffer.hpp', D + 'ClaimStrategy.hpp', D + 'Sequence.hpp'], [('claiming', 'ClaimStrategy.hpp: next, tryNext, hasAvailableCapacity'), ('visibility', 'ClaimStrategy.hpp: publish, isAvailable, getHighestPublishedSequence'), ('polling', 'RingBuffer.hpp: EventPoller::poll')],
     'stateful property-based testing against a reference model of the ring under AddressSanitizer', '')
prop('C18', 'Ring buffer: every event reaches every consumer once, whole, for any schedule',
     'With any number of concurrent producers (or one), any consumers (pollers, batch processors, worker pools) and every wait strategy, each published event is delivered to every independent consumer exactly once, in sequence order and per producer in publication order, never before it was published, never torn or overwritten while a consumer can still read it; each event of a worker pool is handled by exactly one worker. No schedule deadlocks or loses an event.',
     ['schedules', 'histories'], 'all interleavings at the granularity of atomic operations, locks, waits and event memory accesses, of 1-3 producers and 1-3 consumers', 'tests run a few threads and hope for a bad interleaving',
     [D + 'RingBuffer.hpp', D + 'ClaimStrategy.hpp', D + 'WorkProcessor.hpp', D + 'WorkerPool.hpp', D + 'BatchEventProcessor.hpp', D + 'Sequence.hpp'], [('claiming', 'ClaimStrategy.hpp: next, publish'), ('workers', 'WorkProcessor.hpp: run'), ('minimum', 'Sequence.hpp: getMinimumSequence')],
     'property-based testing of generated schedules (controlled scheduler) with generated weak-ordering windows on the event memory, oracle over the delivery history', 'sequentially consistent interleavings; preemptions bounded by the generator')
prop('C19', 'Handler graphs: dependencies respected, shutdown drains, errors are routed',
     'For every graph of event handlers (chains, diamonds, worker groups), each handler sees every event once and in order, after all handlers it depends on have finished it, with consistent start/shutdown notifications and end-of-batch flags; an exception of a handler goes to its exception handler and does not stop the others; shutdown returns after everything published has been handled by all running consumers, and halt stops all of them whatever the moment.',
     ['schedules', 'histories', 'fault_sequences'], 'all schedules of generated graphs with up to 3 stages, exceptions at generated events and shutdown or halt at generated moments', 'tests build one chain',
     [D + 'Disruptor.hpp', D + 'ConsumerRepository.hpp', D + 'BatchEventProcessor.hpp', D + 'WorkProcessor.hpp', D + 'EventHandlerGroup.hpp'], [('graph', 'Disruptor.hpp: handleEventsWith, createEventProcessors'), ('life cycle', 'BatchEventProcessor.hpp: run, halt'), ('shutdown', 'Disruptor.hpp: shutdown, halt, hasBacklog')],
     'property-based testing of generated schedules and handler graphs (controlled scheduler), oracle over the delivery history', 'consumers that have not started when shutdown is called are a recorded finding')
prop('C20', 'Wait strategies: no lost wake-up, no early return, alerts always arrive',
     'Waiting on a barrier for a sequence returns only when all events up to the returned sequence are published and finished by all dependencies, and does return once they are; an alert releases every waiter, current and future, until it is cleared; a timeout is reported only after the configured time. Gating sequences can be added and removed while producers run without being lost. Items put into the blocking queue are taken exactly once, in order per producer, and a timed wait gives up only after its time.',
     ['schedules', 'histories'], 'all schedules of 1-2 waiters, a publisher, 0-2 dependencies and an alerter for every wait strategy', 'tests check each strategy once with one waiter',
     [D + 'WaitStrategy.hpp', D + 'ProcessingSequenceBarrier.hpp', D + 'BlockingQueue.hpp', D + 'Sequence.hpp'], [('waiting', 'WaitStrategy.hpp: waitFor, signalAllWhenBlocking'), ('alert', 'ProcessingSequenceBarrier.hpp: alert, waitFor')],
     'property-based testing of generated schedules (controlled scheduler with virtual time)', 'sequentially consistent interleavings')
prop('C33', 'Mustache rendering follows the template and shows the whole object, escaped',
     'For every template of the Mustache language (variables, escaped or not, sections, inverted sections, comments, partials, changed delimiters, white space rules) and every data tree, rendering gives the text the specification says; a malformed template is reported and never crashes or hangs. Serialising any pair of objects with a template renders each field value by name (nested structs, lists and maps included), HTML-escaped unless asked otherwise, with the template registered for that worker.',
     ['inputs', 'histories'], 'all templates of the covered grammar and all data trees; all values of the covered object types', 'tests render a few fixed templates',
     ['3rd_party/kainjow/kainjow/mustache.hpp', 'src/serialiser/include/MustacheSerialiser.hpp'], [('engine', 'mustache.hpp: parser, render'), ('serialiser', 'MustacheSerialiser.hpp')],
     'property-based testing: differential against an independent renderer, coverage-guided fuzzing of templates under AddressSanitizer', 'resources supplied by a stand-in for cmrc')
M = 'src/majordomo/include/majordomo/'
Z = 'src/zmq/include/zmq/'
prop('C36', 'Message frames: every message arrives intact, malformed ones are ignored',
     'Every protocol message, whatever bytes its fields hold, sent over any supported socket pair is received with exactly the same fields, once and in order, also when a send has to be repeated. A multi-part message that does not follow the protocol (wrong number of frames, unknown protocol or command, malformed topic) is consumed and reported as no message, without an exception and without affecting the messages around it. Frames own their data under every history of moves, assignments, swaps and sends: no buffer is lost, shared or released twice.',
     ['inputs', 'histories'], 'all field contents, all multi-part messages, all histories of frame operations', 'tests send a few fixed messages',
     [Z + 'ZmqUtils.hpp', 'src/core/include/MdpMessage.hpp'], [('codec', 'ZmqUtils.hpp: zmq::send, zmq::receive, MessageFrame')],
     'property-based testing: round-trip and frame-history model under AddressSanitizer, on an in-process stand-in for libzmq', 'libzmq itself is replaced by a deterministic fake (sockets, routing, subscriptions)')
prop('C37', 'Broker: each request goes to one matching worker, each reply to its client',
     'For every history of clients, REST requests and workers that come, answer, fall silent and go: a request for a service somebody offers is delivered, unchanged and with the identity of its client, to exactly one idle worker registered for that service (or for the longest registered prefix of its name), as soon as one is free, oldest first within a role and higher roles first; a request nobody can serve is answered with an error, and requests to the built-in mmi services by the broker. Each reply, partial or final, reaches exactly the client that asked, with its request id. A worker gets no further request before its final reply and none after it expired or disconnected; waiting workers get heartbeats, unknown ones are told to disconnect. No message of any peer ends the broker or keeps it from serving others.',
     ['histories', 'inputs', 'fault_sequences'], 'all histories of up to 65 events with up to 4 clients, 4 workers and 5 services, at any times; all multi-part messages', 'tests run fixed conversations with one client and one or two workers',
     [M + 'Broker.hpp', M + 'Rbac.hpp', Z + 'ZmqUtils.hpp'], [('dispatch', 'Broker.hpp: processClient, dispatch, processWorker, Service'), ('liveness', 'Broker.hpp: purgeWorkers, purgeClients, sendHeartbeats'), ('main loop', 'Broker.hpp: processMessages')],
     'stateful property-based testing: generated conversations against a model of requests, workers and clients, with virtual time on an in-process stand-in for libzmq', 'libzmq replaced by a deterministic fake; the broker runs on one thread, as designed')
prop('C42', 'Broker directory (mmi.dns) lists exactly the addresses of live brokers',
     'For every history of brokers that bind or register addresses, get services, announce themselves, fall silent and come back: the directory (mmi.dns) of a broker lists its own addresses and those of every broker that announced itself to it within the time limit (DNS time-out times liveness), each alone and combined with each of its services, and nothing of a broker that has been silent for one time-out longer than that; a live broker that uses it as directory stays listed. Registered brokers are asked regularly whether they are still there. A query returns, for each of its comma separated terms, exactly the listed addresses whose scheme (ignoring case, if given) and start of the path agree, sorted, or null; announcements without an address change nothing.',
     ['histories', 'inputs'], 'histories of up to 30 events with up to 3 brokers, which keep their addresses, and 3 other peers; queries without authority', 'one test queries a fixed pair of brokers once',
     [M + 'Broker.hpp', Z + 'ZmqUtils.hpp'], [('directory', 'Broker.hpp: findDnsEntry, /mmi.dns handler'), ('announcing', 'Broker.hpp: sendDnsHeartbeats, registerNewService, registerWithDnsServices'), ('expiry', 'Broker.hpp: purgeDnsServices')],
     'stateful property-based testing: several real brokers with virtual time on an in-process stand-in for libzmq, against a model of the directory', 'libzmq replaced by a deterministic fake')
prop('C38', 'Notifications reach each matching subscription once; workers know what is wanted',
     'Whatever the order in which SUB sockets, DEALER clients and the REST server subscribe, unsubscribe (repeatedly, or without having subscribed) and disappear, each published notification reaches every peer with a matching subscription exactly once and unchanged, and nobody else. Workers are told of each topic exactly while at least one subscription to it exists.',
     ['histories', 'inputs'], 'all histories of up to 50 subscribe/unsubscribe/close/publish events over topics with query parameters', 'tests use two or three subscriptions',
     [M + 'Broker.hpp', M + 'SubscriptionMatcher.hpp', 'src/core/include/Topic.hpp'], [('subscriptions', 'Broker.hpp: subscribe, unsubscribe, processSubscriptionEvents'), ('distribution', 'Broker.hpp: dispatchMessageToMatchingSubscribers')],
     'stateful property-based testing against a model of the subscriptions, on an in-process stand-in for libzmq', 'libzmq replaced by a deterministic fake')
prop('C32', 'Query parameters carry a context object without loss and survive any query text',
     'Turning any context object (strings, flags, numbers, MIME type, timing selector) into query parameters, or into the query of a URI, and back gives an equal object. Any parameter map is read without an exception: parameters that parse exactly (and are in range) set their field, missing, malformed, out-of-range and unknown ones leave the fields at their defaults. Filters registered for a context type deliver a notification with one context to exactly the subscriptions whose context it satisfies.',
     ['inputs'], 'all contexts with fields of the supported types (flags default to false) and all parameter maps', 'tests convert two fixed objects',
     [S + 'QuerySerialiser.hpp', 'src/core/include/opencmw.hpp', 'src/core/include/Filters.hpp'], [('field codecs', 'QuerySerialiser.hpp: QuerySerialiser<T>::serialise/deserialise'), ('filters', 'QuerySerialiser.hpp: registerTypes; Filters.hpp')],
     'property-based testing: round-trip directly and through a URI, differential against independent parsers, AddressSanitizer', 'flags whose default is true are a recorded finding')
prop('C34', 'Access tokens: the declared rights of the role decide every request',
     'The role and hash of a token RBAC=<role>,<hash> are read exactly, and any other text has neither. A worker serves a GET or SET exactly if the rights declared for the role allow it (ADMIN always; roles that are not declared have the rights of the last declared one); a denied request is answered with an error, without data and without calling the handler.',
     ['inputs', 'configurations'], 'all tokens, seven declarations of roles', 'tests use a dozen tokens and one declaration',
     [M + 'Rbac.hpp', M + 'Worker.hpp'], [('token', 'Rbac.hpp: parse_rbac'), ('decision', 'Worker.hpp: permissionMap, processRequest')],
     'property-based testing: differential against an independent parser and rights table, on an in-process stand-in for libzmq', 'libzmq replaced by a deterministic fake')
prop('C35', 'Signal registry (DNS): queries find exactly the live matching signals',
     'For every history of registrations, queries, removals, waiting and restarts, through the storage, the client or the REST functions: a query returns each signal that was registered, not removed and not older than an hour since its last registration (or the last restart), if it agrees with the filter in every given field (empty text, port -1 and rate NaN stand for any), exactly once and with all its fields; registering again renews instead of duplicating; a removal takes away exactly the matching signals and lists them. A restart keeps exactly the live signals. A list with fields of different length is answered with an error and changes nothing, and a damaged storage file does no harm. A blocking call of the client returns once its reply has arrived, in every schedule.',
     ['histories', 'inputs', 'schedules'], 'all histories of up to 25 operations on up to 12 signals; schedules of up to two callers', 'tests register three fixed signals; renewal, expiry and restart of arbitrary signals and reply timing are not sampled',
     ['src/services/include/services/dns_storage.hpp', 'src/services/include/services/dns_types.hpp', 'src/services/include/services/dns.hpp', 'src/services/include/services/dns_client.hpp'],
     [('storage and expiry', 'dns_storage.hpp: DataStorage'), ('filter and wire lists', 'dns_types.hpp: QueryEntry, FlatEntryList'), ('service and clients', 'dns.hpp: DnsHandler, registerSignals, querySignals; dns_client.hpp: DnsClient')],
     'stateful property-based testing against a reference model, with virtual time, a scratch storage file and AddressSanitizer; controlled-schedule testing of the blocking calls', 'the transport between client and service is replaced by a direct call of the real worker handler; order of results not checked; a call whose reply never arrives is outside')
prop('C39', 'Worker: one reply per request, stays registered, publishes what is wanted',
     'Whatever a broker sends and whenever, a worker announces itself on every connection, answers each request exactly once with the identity and request id it came with (the reply of the handler, or an error if the handler throws), sends heartbeats while idle, reconnects after the broker told it to or has been silent for too long (not earlier), and stops with a disconnect message on shutdown. A notification, from any thread, is sent exactly once and in order if a matching subscription is active, and not otherwise; the active subscriptions are those of the broker. Malformed messages are ignored. A typed worker hands the decoded context and body to its callback and returns the encoded result in the requested format with the reply context in the topic; bodies and formats it cannot read are answered with an error.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'], 'all histories of up to 40 broker events at any times; all contexts, formats and bodies of the covered types', 'tests run a few fixed conversations',
     [M + 'Worker.hpp', S + 'QuerySerialiser.hpp', Z + 'ZmqUtils.hpp'], [('main loop', 'Worker.hpp: run, connectToBroker, handleDealerMessage'), ('requests', 'Worker.hpp: processRequest, HandlerImpl'), ('notifications', 'Worker.hpp: notify, receiveNotificationMessage, receiveSubscriptionMessage')],
     'stateful property-based testing: generated conversations with virtual time against a model, real threads under ThreadSanitizer, on an in-process stand-in for libzmq', 'libzmq replaced by a deterministic fake')
prop('C40', 'Client: own reply exactly once; notifications reach their subscription',
     'Whatever the schedule of the user threads and of the client threads, every get or set issued through a ClientContext (as long as no more than 32 commands are queued) reaches the broker named by its URI exactly once, with its own request id, service, topic, parameters and data; its callback is called exactly once, with the broker reply that carries its request id, unaltered (data, error, rbac, topic), however late or out of order it comes, and not at all if there is none. A request that cannot be sent (unknown scheme, no or invalid address, invalid service name) is refused or answered with an error; it does not end the process. Duplicate replies, replies to other requests, notifications, messages of other kinds and malformed messages answer no request. A notification published by a server for a subscribed topic reaches the callback of that subscription (of that server and topic only) exactly once and in order; after unsubscribing the callback is not called any more, and a later subscription to the same topic gets its notifications at its own callback. After stop() or destruction no callback runs.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'], 'all histories of up to 60 commands by 2 threads to 2 brokers, all schedules at synchronisation and socket accesses', 'tests send one request at a time and wait',
     ['src/client/include/Client.hpp', 'src/client/include/ClientContext.hpp', 'src/client/include/ClientCommon.hpp'], [('dispatching of commands', 'ClientContext.hpp: queueCommand, poll'), ('requests and subscriptions', 'Client.hpp: MDClientCtx::request, handleRequests, poll'), ('messages', 'Client.hpp: Client::handleMessage, SubscriptionClient::handleMessage')],
     'stateful property-based testing: generated command histories and broker behaviours under a controlled scheduler with virtual time against a model, real threads under ThreadSanitizer, on an in-process stand-in for libzmq', 'libzmq replaced by a deterministic fake; REST clients are not covered')
prop('C41', 'File handlers serve exactly the files below their root, whole',
     'For every request path, a static file handler answers with the complete content, length and type of the regular file the path names below its root, or with an error; it never serves anything outside of the root, never throws, and adds the configured headers to every file. Embedded resources are served likewise.',
     ['inputs'], 'all paths (dot segments, empty segments, overlong, odd bytes except NUL), files of any size relative to the mapping threshold', 'tests request two or three existing files',
     [M + 'Rest.hpp'], [('files', 'Rest.hpp: fileSystemHandler, MappedFile'), ('resources', 'Rest.hpp: cmrcHandler')],
     'property-based testing on a scratch directory tree against an independent path resolver', 'the tree does not change while it is served; symbolic links are not followed into')
prop('C21', 'Transactional settings: history, staged transactions and expiry are exact',
     'A committed value becomes the latest one, derived from the one before; a staged value stays invisible until its transaction is committed (once, with the value staged last) or retired. Looking up by position or time returns the value that was valid there, or throws if there is none. Nothing disappears from the history except the oldest entries beyond its length and entries unused for longer than the time-out, which do disappear; transactions expire likewise. A commit function that throws changes nothing and is not reported as committed.',
     ['histories', 'inputs'], 'all histories of up to 60 operations with any time stamps, with and without time-outs', 'tests run one fixed history',
     ['src/disruptor/include/Transactions.hpp'], [('history', 'Transactions.hpp: SettingBase::stage, commit, get, modifySetting'), ('expiry', 'Transactions.hpp: SettingBase::retireExpired, retireStaged')],
     'stateful property-based testing against a reference model, with virtual time', 'one thread (see C23); a look-up done by a commit may or may not count as a use')
prop('C22', 'Context settings: each timing context gets its own or the nearest general value',
     'Looking up a setting for a timing context returns the value committed last for exactly that context or, if there is none, for the nearest more general one (without group, process, sequence, chain), and otherwise the default, together with the context it belongs to. Commits, retirements and expiry of one context do not affect others or earlier history, and results obtained before stay as they were. Contexts unused for longer than the time-out, and only those, expire.',
     ['histories', 'inputs'], 'all histories of up to 60 operations on contexts of all levels, with and without time-outs (requests with wildcards above stored contexts excepted)', 'tests run one fixed history',
     ['src/disruptor/include/Transactions.hpp'], [('look-up', 'Transactions.hpp: CtxSetting::get, CtxResult'), ('retirement', 'Transactions.hpp: CtxSetting::retire, retireExpired')],
     'stateful property-based testing against a reference model, with virtual time and AddressSanitizer', 'which of several more special contexts a request with wildcards gets is not specified and not checked')
prop('C23', 'Transactional settings lose, repeat or reorder nothing in any schedule',
     'Whatever the interleaving of threads that commit, modify, stage, commit or retire transactions and read: every committed value is part of the final setting exactly once, in the order of each thread; each staged value is committed at most once and exactly one of the competing commits reports success; a reader never sees the setting go back or miss a commit that had returned before; the history holds the consecutive versions.',
     ['schedules', 'histories'], 'all interleavings at the granularity of atomic operations and locks, of 2-3 threads with up to 5 operations each', 'tests are single threaded',
     ['src/disruptor/include/Transactions.hpp', 'src/core/include/ReaderWriterLock.hpp'], [('commits', 'Transactions.hpp: SettingBase::stage, modifySetting'), ('transactions', 'Transactions.hpp: SettingBase::commit, retireStaged, getPendingTransactions')],
     'property-based testing over generated schedules (controlled scheduler) with invariants over the history', 'sequentially consistent memory; the last-use time stamps are not synchronised')
prop('C15', 'Thread pool: each task runs once, its outcome arrives, shutdown leaves nothing',
     'Every task submitted from any thread runs exactly once with its arguments and name (tasks that a shutdown drops never run and break their future), queued tasks run by priority and then in order of submission, and results and exceptions arrive in the future. A task is started promptly if a thread is idle; threads never fall below the minimum and return to it after the keep-alive time; CPU affinity, names and scheduling reach exactly the pool\'s threads, spread over all CPUs of the mask. Shutdown, by request or destruction, waits for running tasks, ends all threads without delay and frees everything.',
     ['schedules', 'histories', 'configurations'], 'all interleavings of 1-2 submitters with pools of 1-3 threads, all priorities and masks', 'tests run a few tasks and hope for a bad interleaving',
     ['src/core/include/ThreadPool.hpp'], [('tasks', 'ThreadPool.hpp: execute, TaskQueue, worker'), ('shutdown', 'ThreadPool.hpp: requestShutdown, ~BasicThreadPool'), ('constraints', 'ThreadPool.hpp: updateThreadConstraints, distributeThreadAffinityAcrossCores')],
     'property-based testing over generated schedules (controlled scheduler, virtual time), and real threads under ThreadSanitizer', 'tasks without result do not throw; tasks of I/O-bound pools do not submit further tasks; the maximum is not a hard limit (so the tests); keepAliveDuration is set before threads use it')
