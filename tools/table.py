# Per property: harness stages, budgets (seconds of search), manifest and evidence texts.
TABLE = {}
NA = {}


def add(pid, technique, note, rule, stages, assumptions=()):
    TABLE[pid] = dict(technique=technique, note=note, rule=rule, stages=stages, assumptions=list(assumptions))


def st(harness, variant="asan", quick=25, thorough=240, **kw):
    return dict(harness=harness, variant=variant, quick=quick, thorough=thorough, **kw)


add("C01",
    "property-based testing: random value trees, serialise-then-parse round trip compared against the generating model, ASan/UBSan/LSan",
    "random search within stated size bounds (depth <= 60, width <= 1500, texts <= 200 KB)",
    "A case is a generated (method name, parameter list); it is serialised and parsed back. Non-trivial: at least one "
    "parameter; distinct by serialised text.",
    [st("c01")])

add("C02",
    "property-based testing: random results and faults, serialise-then-parse round trip against the generating model, ASan/UBSan/LSan",
    "random search within stated size bounds (depth <= 60, texts <= 200 KB)",
    "A case is a generated result value or (code, text) fault with the omit-string-tag option on or off. Every completed case is "
    "non-trivial; distinct by serialised text.",
    [st("c02")])

add("C03",
    "property-based testing, differential: random messages serialised by the library and decoded by an independently written strict XML and XML-RPC reader",
    "random search within stated size bounds (depth <= 60, texts <= 100 KB)",
    "A case is a generated call, result or fault decoded by the reference reader. Non-trivial: at least one value or a fault; distinct by serialised text.",
    [st("c03")],
    ["doubles are compared through the C library's strtod, as the XML-RPC text forms of the library include exponents"])

add("C04",
    "property-based testing, metamorphic: random value trees written in random spellings by an independent writer, parsed result compared with the generating model",
    "random search within stated size bounds (depth <= 4 nested containers in spellings, texts <= 60 KB)",
    "A case is a value tree and a spelling of it. Non-trivial: at least one value in the message; distinct by document text.",
    [st("c04")])

add("C05",
    "property-based testing: valid documents from a generator with one random damage of each refused kind; oracle: parsing must raise",
    "random search over single damages (truncation, unknown/misplaced/missing elements, bad scalars, bad faults, ill-formed markup)",
    "A case is a document with one damage. Every evaluated case is non-trivial; distinct by document text and message kind.",
    [st("c05")])

add("C06",
    "fuzzing: mutated valid documents, token soups, raw bytes and parametrised size/nesting/entity bombs; oracle: ASan/UBSan/LSan, exception type, CPU and memory budgets",
    "random search; documents up to about 2 MB",
    "A case is a byte string parsed as call or response. Every evaluated case is non-trivial; distinct by bytes and kind.",
    [st("c06")],
    ["time budget 5 s + 30 us/byte of CPU and memory budget 300 MB + 200 bytes/byte in the sanitized build"])

add("C07",
    "property-based testing: random documents with DTDs, external/parameter/internal entities and references; oracle: recorded open attempts of libxml2 must be none, canary text must not appear",
    "random search; every open attempt of the XML parser is intercepted",
    "A case is a document with a document type declaration. Every evaluated case is non-trivial; distinct by text.",
    [st("c07", quick=20)])

add("C08",
    "property-based testing: random byte strings against an independent base64 codec, whitespace insertion and corruptions; round trip",
    "random search; byte strings up to 100 KB",
    "A case is a byte string with a whitespace placement, or a corrupted text. Non-trivial: non-empty data or a corruption; distinct by data and text.",
    [st("c08", quick=20)])

add("C09",
    "property-based testing: random timestamps (print/parse round trip) and mutated texts against an independent shape and range rule",
    "random search over 1900-9999 and mutations of valid texts; no claim on day 31 of shorter months and second 61",
    "A case is a timestamp or a mutated text. Non-trivial: a timestamp, or a text with at least one mutation; distinct by text.",
    [st("c09", quick=20)])

add("C10",
    "stateful property-based testing: random operation histories on values compared step by step with a model of nested lists and maps, ASan/UBSan/LSan",
    "random search; histories up to 60 operations over 3 roots",
    "A case is an operation history. Non-trivial: at least two state-changing operations; distinct by operation list.",
    [st("c10")])

add("C11",
    "property-based testing, metamorphic: random message sequences fed to the packet reader in random segmentations, compared with an independent description of each message",
    "random search; bodies up to 40 KB, up to 4 messages per reader, segmentations down to single bytes",
    "A case is a sequence of messages with a segmentation of each. Non-trivial: at least one message in more than one piece, or a refused message; distinct by bytes and piece counts.",
    [st("c11", quick=20)],
    ["pieces are never empty (an empty piece means end of stream) and never span two messages"])

add("C12",
    "property-based testing: random headers, write-then-read round trip plus handwritten spellings (case, padding, repetition) against a model, and arbitrary texts under the sanitizers",
    "random search over header contents without CR, LF, NUL",
    "A case is a header. Non-trivial: written by the library, refused, arbitrary, or handwritten with at least two lines; distinct by text.",
    [st("c12", quick=20)])

add("C13",
    "property-based testing: random limits, request sizes around them, declared lengths and segmentations against a live server and the packet reader; oracle: the size arithmetic, recorded executions and the reference reader",
    "random search; limits up to 200 KB, sizes up to 6 MB without limit",
    "A case is a limit and a sequence of requests. Every evaluated case is non-trivial; distinct by sizes, limit and piece counts.",
    [st("c13", quick=30)],
    ["for lengths only declared, sizes from limit + 4 on are claimed", "a client that is still sending when refused may lose the answer to the reset of the connection"])

add("C14",
    "property-based testing: random sequences of valid and faulty HTTP requests on several connections to a live server; oracle: the table of the answers, recorded executions, independent response reader",
    "random search; up to 8 requests on up to 3 connections, HTTP and HTTPS, serial and pool",
    "A case is a request sequence. Non-trivial: more than one request, or a refused or faulting one; distinct by request texts and piece counts.",
    [st("c14", quick=35)],
    ["each client waits for the response before it sends the next request", "a client that is still sending when refused may lose the answer to the reset of the connection"])

add("C15",
    "property-based testing: random keep-alive sequences mixing requests with and without the expectation, random segmentations and waiting behaviour against a live server; oracle: count of interim responses, recorded executions",
    "random search; up to 6 requests per connection, HTTP and HTTPS, serial and pool",
    "A case is a request sequence. Non-trivial: a client that waits for the interim response, or more than one request; distinct by sizes, piece counts and flags.",
    [st("c15", quick=30)],
    ["a client that sends the body without waiting may get the interim response or not"])

add("C16",
    "property-based testing: random users, passwords, plug-in decisions and damaged authorisation headers in request sequences to a live server; oracle: decision table, arguments recorded by the plug-in and the method",
    "random search; up to 8 requests on 2 connections, HTTP and HTTPS, serial and pool",
    "A case is a request sequence with a plug-in configuration. Non-trivial: a refused request or more than one request; distinct by authorisation headers and decisions.",
    [st("c16", quick=30)])

add("C17",
    "stateful property-based testing: random registration tables, dispatchers, interceptor stacks, method outcomes and calls on a live server; oracle: a reference execution of the same history",
    "random search; up to 16 configuration steps in 2 runs of the serving loop, up to 6 calls each, serial and pool",
    "A case is a configuration history with calls. Non-trivial: a known method was called, or several interceptors or a dispatcher present; distinct by names, kinds and parameter counts.",
    [st("c17", quick=35)],
    ["the fault code for exceptions other than faults is not claimed", "introspection is judged when no interceptor changes results"])

add("C29",
    "property-based testing: random operation histories on header sets against a case-insensitive map model, and random header sets sent to a live server by the library's client and by a raw client, compared with what the method saw",
    "random search; up to 20 operations, up to 6 requests per connection",
    "A case is an operation history or a request sequence. Non-trivial: more than one operation, or any live request; distinct by names and headers.",
    [st("c29", quick=30)])

add("C18",
    "property-based testing: random call sequences of one to four concurrent library clients to a library server, values up to megabytes; round-trip oracle against the generating model",
    "random search; up to 5 calls per client, values up to 4 MB, nesting up to 150",
    "A case is a set of clients with their calls. Non-trivial: a call with parameters or several clients; distinct by values and configuration.",
    [st("c18", quick=40)])

add("C19",
    "property-based testing: random schedules of concurrent requests, answers, disconnects and pool growth against a live server; oracle: execution counts, matching of answers, a rendezvous of as many calls as threads; the same under ThreadSanitizer",
    "random search; up to 45 threads, 12 connections, 42 steps; thread interleavings as the scheduler produces them",
    "A case is a schedule. Non-trivial: several requests outstanding at once or a rendezvous; distinct by the order of steps and durations.",
    [st("c19", quick=25), st("c19", variant="tsan", quick=25, name="races")],
    ["interleavings are sampled, not enumerated"])

add("C20",
    "fuzzing of a live server with random hostile clients (garbage, mutated and partial requests, resets at random points, unread responses, broken handshakes, descriptor exhaustion) next to a well-behaved client; oracle: its answers, the serving loop's survival, descriptor count, ASan/UBSan",
    "random search; up to 8 hostile behaviours per case, HTTP and HTTPS, serial and pool",
    "A case is a sequence of hostile behaviours with well-behaved calls in between. Every evaluated case is non-trivial; distinct by behaviours.",
    [st("c20", quick=40)])

add("C22",
    "property-based testing: a library client against a scripted server that answers, fails, damages, cuts, delays or withholds its responses at random; oracle: the script (answer to this very call or exception, recovery afterwards), ASan/UBSan",
    "random search; up to 8 calls on one client, responses up to 200 KB, HTTP and HTTPS",
    "A case is a sequence of calls with the server's behaviour for each. Every evaluated case is non-trivial; distinct by behaviours and cut points.",
    [st("c22", quick=40)],
    ["the server sends at most one response per request", "a call on a connection that the server closed without announcing it may fail; the next one must not"])

add("C23",
    "property-based testing: random client configurations and option changes between calls, requests captured on the wire by a raw server and proxies; oracle: a strict independent reader of the request against the configuration",
    "random search; up to 6 calls per client, HTTP, HTTP proxy and HTTPS",
    "A case is a configuration history with its calls. Every evaluated case is non-trivial; distinct by the headers sent.",
    [st("c23", quick=30)],
    ["paths, host names and header values without blanks or line breaks that would change the framing", "user names are not empty and have no colon"])

add("C30",
    "property-based testing: random call sequences of an HTTPS client through a scripted CONNECT proxy that tunnels, refuses, closes or answers with garbage; oracle: the script",
    "random search; up to 6 calls per client, answers of the proxy in random segmentations",
    "A case is a sequence of calls with the proxy's behaviour for each. Every evaluated case is non-trivial; distinct by proxy answers, piece counts and keep-alive.",
    [st("c30", quick=25)])

add("C24",
    "property-based testing: random positions and lengths of silence of a scripted server (connection, handshake, request, answer) against a library client with a timeout; oracle: exception kind and elapsed time, and delivery of slow answers",
    "random search; timeouts of 1 to 3 s, up to 6 silences per answer; 'about n seconds' is judged as 0.95 n to n + 4 s",
    "A case is a server behaviour and a timeout. Non-trivial: the server is silent or slow; distinct by behaviour, sizes and positions.",
    [st("c24", quick=35)])

add("C25",
    "property-based testing: random sequences of connections from granted and refused loopback addresses with changing decisions and refusal texts against a live server; oracle: decision table, bytes received by refused peers, recorded executions, descriptor count",
    "random search; up to 13 connections per case, HTTP and HTTPS, refusal texts up to 2 KB",
    "A case is a sequence of connections and decision changes. Non-trivial: at least one refused connection; distinct by behaviours and text.",
    [st("c25", quick=25)],
    ["a refused peer that is sending may lose the text to the reset of the connection"])

add("C26",
    "property-based testing: random verifier decisions, client certificates, TLS versions, resumed sessions and broken handshakes in sequences of raw and library connections; oracle: decision table, recorded executions, fingerprints computed independently from the certificate files",
    "random search; up to 11 connections per case over three self-signed certificates",
    "A case is a sequence of configurations and connections. Non-trivial: at least one connection judged; distinct by decisions and connection kinds.",
    [st("c26", quick=30)],
    ["requiring a client certificate without installing a verifier is not claimed to have an effect", "a resumed session may be refused, but never served when its peer is to be refused"])

add("C28",
    "stateful property-based testing: random histories of registrations, readiness changes, faked events and callback actions on the reactor against a model; other threads registering while the loop runs, also under ThreadSanitizer",
    "random search; up to 5 handlers and 32 steps, up to 4 registering threads",
    "A case is a history. Non-trivial: at least one callback delivered; distinct by steps and actions.",
    [st("c28", quick=15), st("c28", variant="tsan", quick=15, name="races")],
    ["input has precedence when both events are pending", "effects of a change made by a callback on other handlers' events of the same round are claimed only for complete unregistration", "stoppers are covered by the stopping property"])

add("C21",
    "property-based testing: random rounds of running and stopping a live server (stop requested beforehand, at once, after a delay, from a method, by several threads, many times) under random load, and random pools destroyed at random moments; oracle: the loop returns, a fresh client is served after each restart, destruction ends and every accepted request was run; the same under ThreadSanitizer",
    "random search; up to 5 restarts, 4 loading clients, 7 serving threads, bare pools of up to 45 threads; 'never' is judged after 25 s",
    "A case is a sequence of runs or of pools. Non-trivial: a restart, load or probe, or a pool with several threads; distinct by stop modes, delays and loads.",
    [st("c21", quick=20), st("c21", variant="tsan", quick=20, name="races")],
    ["interleavings are sampled, not enumerated", "a pool without threads is only claimed to be destroyed"])

add("C27",
    "property-based testing: a random history of servers, clients, calls, failures, abandoned connections, pools and parsing is repeated within one process; oracle: descriptor count and allocated heap bytes (sanitizer allocator) must not grow with every repetition, and no close() may name a descriptor that is not open",
    "random search; up to 4 steps of up to 5 connections each, 4 to 10 repetitions",
    "A case is a history. Non-trivial: a connection, call or document is involved; distinct by steps and their options.",
    [st("c27", quick=35)],
    ["growth in the first run only (caches of the TLS library, of the resolver) is not counted", "memory still reachable through objects that live on is not judged: every object of the history is destroyed"])

add("C31",
    "property-based testing: random value trees walked by a recording visitor and printed to streams of random format; oracle: reference walk and reference rendering of the model tree",
    "random search; depth up to 6 (200 in chains), up to 4,000 members",
    "A case is a value and a stream format. Non-trivial: a container with at least one part; distinct by the printed text.",
    [st("c31", quick=15)],
    ["a field width set on the stream is not claimed to apply to anything but the next output"])

add("C32",
    "property-based testing: a library client against a scripted server that answers with random status lines, faults, unparsable or non-XML-RPC bodies, ends the stream at a random byte, refuses, stays silent or speaks no TLS, directly and by proxy; oracle: the script, as exception class, code and phrase",
    "random search; up to 4 calls per client, status codes 100 to 999, phrases of up to 5 words",
    "A case is a sequence of calls with the server's behaviour for each. Every evaluated case is non-trivial; distinct by behaviours, codes and cut points.",
    [st("c32", quick=25)],
    ["a body that is no XML-RPC response may be reported as a parse error or as a violation of the protocol", "damaged HTTP headers are not claimed to raise any particular exception"])

add("C33",
    "property-based testing: two or three servers with random, different configurations run at once and receive interleaved requests around each other's limits, users and methods, while some stop and run again; oracle: each server's own configuration, recorded executions",
    "random search; up to 3 servers, 12 rounds of up to 3 simultaneous requests",
    "A case is a set of configurations and a sequence of requests. Non-trivial: more than one request answered; distinct by configurations and requests.",
    [st("c33", quick=25)],
    ["the TLS context and the defaults for empty integers are process-wide by design"])

add("C34",
    "property-based testing: random serialising, parsing, printing and copying jobs run by several threads at once on their own and on one shared value; oracle: the results of the same jobs run alone; the same under ThreadSanitizer",
    "random search; up to 6 threads with up to 12 jobs each, three times over",
    "A case is an assignment of jobs to threads. Every evaluated case is non-trivial; distinct by jobs.",
    [st("c34", quick=12), st("c34", variant="tsan", quick=15, name="races")],
    ["interleavings are sampled, not enumerated", "a value that is being changed is not shared"])

add("C35",
    "property-based testing: random numbers of clients call methods that log random lines on servers with and without a pool; oracle: multiset and order of the lines given; the same under ThreadSanitizer",
    "random search; up to 4 clients, 5 calls each, 5 lines per call, up to 6 serving threads",
    "A case is a set of calls with their lines. Non-trivial: at least two messages; distinct by pool size and calls.",
    [st("c35", quick=12), st("c35", variant="tsan", quick=15, name="races")],
    ["interleavings are sampled, not enumerated"])

add("C36",
    "property-based testing: random strings with NULs, control characters, non-characters and broken UTF-8 in every place text can stand, through the codec and through live servers; oracle: refused by either side, or read back as exactly the same bytes",
    "random search; strings of up to about 60 bytes; up to 6 calls per server",
    "A case is a string and its place, or a sequence of calls. Every evaluated case is non-trivial; distinct by text and place.",
    [st("c36", quick=20)],
    ["a fault text is cut at a NUL where it becomes the text of an exception"])

add("C37",
    "property-based testing: raw clients at random source addresses send calls with random users and X- headers over kept and new connections, all before any answer is read, to servers with methods registered in every way; oracle: what each client really sent and where from",
    "random search; up to 4 connections, 5 rounds, pools of up to 4 threads",
    "A case is a server and the rounds of calls it gets. Non-trivial: more than one call; distinct by configuration and calls.",
    [st("c37", quick=25)],
    ["interleavings are sampled, not enumerated"])

add("C38",
    "property-based testing: valid calls damaged in one stated way, calls of unknown methods and good calls, in random sequences on kept and new connections of a live server; oracle: the fault code the kind of damage has, recorded executions",
    "random search; up to 12 requests per server; documents of up to about 50 nodes",
    "A case is a sequence of requests. Non-trivial: at least one of them cannot be served; distinct by requests.",
    [st("c38", quick=25)],
    ["for scalar text that cannot be read any fault will do"])

add("C39",
    "property-based testing: up to four servers at random loopback addresses and ports, at every address or at a host name, start, stop, restart and compete for an address while raw and library clients call those and neighbouring addresses; oracle: which server listens where",
    "random search; up to 4 servers and 11 steps",
    "A case is a set of addresses and a sequence of steps. Non-trivial: at least one call was made; distinct by steps.",
    [st("c39", quick=25)],
    ["IPv4 loopback only", "a port taken by another worker discards the case"])

add("C40",
    "differential property-based testing against Python's standard xmlrpc package: random values, faults and method names in both directions, over HTTP and HTTPS, HTTP/1.0 and HTTP/1.1 peers, kept and new connections; oracle: the value one side sent is the value the other side saw",
    "random search; values of up to about 60 kB or 40 levels, up to 8 calls per connection",
    "A case is a configuration and a sequence of calls. Every evaluated case is non-trivial; distinct by configuration, arguments and results.",
    [st("c40", quick=25)],
    ["Python sends no integers wider than 32 bits and writes CR unescaped; the oracle allows for exactly this", "a helper process that ends discards the case"])

add("C41",
    "metamorphic property-based testing: the same random values, documents, scalar texts, headers and live calls under the C locale and under compiled national locales or random number facets, as C locale and as global C++ locale; oracle: identical bytes written, identical outcomes of reading",
    "random search; seven national locales and random number facets",
    "A case is a locale and a value, document, header or sequence of calls. Every evaluated case is non-trivial; distinct by input.",
    [st("c41", quick=25)],
    ["the national locales are compiled by localedef; without it only number facets are used", "the locale does not change while a call runs"])

add("C42",
    "property-based testing: methods, method constructors, factories, dispatchers, interceptors before and after the call and the authentication plug-in raise random exceptions of twelve kinds in calls on several connections at once, also relayed from a second server; oracle: the fault the exception stands for, recorded executions, leak detector",
    "random search; up to 8 calls on 3 connections, 3 interceptors, pools of up to 3 threads",
    "A case is a server and its calls. Non-trivial: something is raised; distinct by calls.",
    [st("c42", quick=25)],
    ["after a fault text XML cannot carry the connection may be closed instead", "an exception raised by a firewall is not claimed to be survived"])

add("C43",
    "property-based testing with injected signals: while random calls, silent peers, idle phases and stops go on, every thread of the process gets signals at random intervals, handled without restarting system calls; oracle: results as without signals, timeouts neither early nor for ever late, the serving loop neither ends nor hangs",
    "random search; signals every 0.1 to 6.4 ms (timeouts: 50 to 850 ms); up to 3 clients, pools of up to 3 threads",
    "A case is a configuration and a rate of signals. Non-trivial: signals were delivered while the library ran (measured); distinct by configuration and values.",
    [st("c43", quick=25)],
    ["moments of delivery are sampled, not enumerated"])

add("C44",
    "property-based testing: up to 700 connections at once to one server, of which random shares ask, send half a request, leave or stay idle in each round; connections attempted while the process has no descriptor left; oracle: every complete request is answered and executed once, old and later connections are served",
    "random search; up to 700 connections (30 over HTTPS), 4 rounds",
    "A case is a number of connections and the rounds they go through. Non-trivial: more than one connection and at least one request, or descriptors run out; distinct by shape.",
    [st("c44", quick=25)],
    ["client and server live in one process and share its descriptors"])

add("C45",
    "fuzzing against a live client: scripted servers and proxies answer calls with mutated, contradictory, oversized and random HTTP and XML streams in random pieces, at once, within or after the request, then close, reset or fall silent; oracle: every call ends in a result or an exception in time, the client then works with a good server, memory errors, leaks and descriptors",
    "random search; up to 4 hostile answers per client of up to about 600 kB; nesting to 3000",
    "A case is a client and the answers it gets. Every evaluated case is non-trivial; distinct by answers and endings.",
    [st("c45", quick=25)],
    ["after a hostile answer on a kept connection one further call may fail"])

add("C46",
    "property-based testing: all threads of a pool are held busy while random calls, refused requests, unknown methods and callers that leave arrive one after another; then one thread is set free; oracle: requests that need no thread are answered at once, calls start in the order of their arrival (seen by the authentication plug-in), each is answered",
    "random search; pools of up to 4 threads, up to 80 waiting calls",
    "A case is a pool and a sequence of arrivals. Non-trivial: at least two calls wait; distinct by sequence.",
    [st("c46", quick=25)],
    ["calls whose caller left may be executed or not"])

add("C47",
    "property-based testing: random sets of connections are brought into random states of waiting (idle, in the middle of a request, method running, caller gone, response not read, handshake unfinished and others), likewise clients whose server falls silent; oracle: processor time the process uses meanwhile",
    "random search; up to 4 connections in 20 states, pools of up to 3 threads",
    "A case is a server or client and what it waits for. Every evaluated case is non-trivial; distinct by states and sizes.",
    [st("c47", quick=25)],
    ["busy means at least 15 % of a processor throughout 12 seconds", "accepting while descriptors have run out is not claimed to be calm"])

add("C48",
    "property-based testing: several threads make random calls - echoes, faults, unknown methods, relayed and large calls, calls with users and headers, calls to nobody - with clients of their own to one to three live servers over HTTP and HTTPS at once; oracle: each call's own outcome; the same under ThreadSanitizer",
    "random search; up to 6 threads with up to 8 calls each, up to 3 servers",
    "A case is a set of servers and an assignment of calls to threads. Every evaluated case is non-trivial; distinct by servers and calls.",
    [st("c48", quick=18), st("c48", variant="tsan", quick=22, name="races")],
    ["interleavings are sampled, not enumerated", "one client object is not used by two threads at once"])

add("C49",
    "property-based testing: random histories of settings - size limit, verification level, authentication plug-in, interceptors, methods, dispatchers, introspection, firewall, log - changed between runs of a server or by its own methods, with requests on new and kept connections; oracle: a model of the settings in force",
    "random search; up to 5 runs of a server, up to 5 changes between runs and 7 requests per run",
    "A case is a history of changes, runs and requests. It counts as non-trivial when settings change and the server runs more than once; distinct by the sequence of changes and requests.",
    [st("c49", quick=25)],
    ["while the server runs, settings are changed by its own methods in the serial executor only"])

add("C50",
    "property-based testing: random histories of a client's calls, changes of keep-alive and other settings, and destruction, against a scripted server whose responses promise to keep the connection or not; oracle: a model of which connection each request must arrive on and which connections may be open",
    "random search; up to 12 (rarely 130) steps per case",
    "A case is a history of one or more clients. It counts as non-trivial when one call used a kept connection again and another a connection of its own; distinct by the sequence of settings and responses.",
    [st("c50", quick=25)],
    ["the scripted server does not close connections it promised to keep (that is C22)"])
