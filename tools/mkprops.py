#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["libiqxmlrpc/"+f for f in files],
                          mechanism=[dict(name=n, where="libiqxmlrpc/"+w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where="libiqxmlrpc/"+w) for n, m, w in state]
    P.append(d)

p("C01", "A call survives serialisation and parsing unchanged",
  "For every method name and parameter list made of the library's value types, serialising the call to XML and parsing that XML gives back the same method name and the same parameters: same number, order, types, values and nesting. Strings, struct member names and method names range over all text XML 1.0 can carry (including empty or blank strings and member names), doubles over all finite values, integers over their whole 32- and 64-bit ranges.",
  ["inputs"], "all method names and all parameter trees (any width and size, nesting up to several hundred levels)",
  "The tests parse a handful of fixed documents and dump a few fixed values; none composes the two over generated trees, and nesting/blank/boundary cases are not reached.",
  ["request.cc", "request_parser.cc", "value_parser.cc", "value_type_xml.cc", "xml_builder.cc", "parser2.cc"],
  [("writer visitor", "value_type_xml.cc"), ("pull parser builders", "value_parser.cc")],
  ["dump_request()", "parse_request()"])

p("C02", "A response or fault survives serialisation and parsing unchanged",
  "For every result value, serialising the response and parsing it gives back an equal, non-fault response; for every fault code and fault message it gives back a fault with exactly that code and message, and asking it for a value raises an exception carrying that code and message. This also holds while the option that omits string tags in responses is on, for all strings that are not blank (whitespace only).",
  ["inputs", "configurations"], "all result trees, all 32-bit fault codes, all fault texts, both settings of the omit-string-tag option",
  "Tests check a few fixed responses; the omit option is only checked on one literal.",
  ["response.cc", "response_parser.cc", "value_parser.cc", "value_type_xml.cc"],
  [("fault struct reader", "response_parser.cc"), ("writer", "response.cc")],
  ["dump_response()", "parse_response()", "Response::value()"])

p("C03", "Emitted XML is standard XML-RPC that an independent reader decodes equally",
  "Every call, response and fault the library serialises is a well-formed UTF-8 XML document that follows the XML-RPC grammar (with the nil and i8 extensions), and an XML-RPC reader independent of the library decodes from it exactly the method name, values or fault the application supplied.",
  ["inputs", "configurations"], "all calls, results and faults; both settings of the omit-string-tag option",
  "A round trip through the library hides symmetric mistakes; the tests compare a few literal strings only.",
  ["value_type_xml.cc", "xml_builder.cc", "request.cc", "response.cc", "value_type.cc"],
  [("xmlwriter wrapper", "xml_builder.cc")], ["dump_request()", "dump_response()"])

p("C04", "Every spelling of a message parses to the value its markup denotes",
  "A valid XML-RPC call or response parses to exactly the values its markup denotes whatever insignificant spelling the sender chose: whitespace and comments between elements, an XML declaration, the encoding (UTF-8, UTF-16 or ISO-8859-1), namespace prefixes on tags, 'int' or 'i4', strings with or without string tags, CDATA sections, character references and predefined entities, comments inside text, self-closed or empty elements, omitted empty params. Empty int/i4/i8 elements yield the configured default integer if one is set.",
  ["inputs", "configurations"], "all value trees times all spellings of them, and the default-integer settings",
  "Tests hold about twenty literal documents; the product of value shapes and spellings is unbounded.",
  ["parser2.cc", "value_parser.cc", "request_parser.cc", "response_parser.cc", "value.cc"],
  [("builder state machines", "value_parser.cc"), ("tag prefix stripping", "parser2.cc")],
  ["parse_request()", "parse_response()"])

p("C05", "A damaged or malformed message is refused, never turned into a value",
  "Parsing a call or response raises an exception if the document was cut short at any byte before its root element closed, is not well-formed inside the root element, has an unknown or misplaced element or a wrong root, lacks a method name, parameter value, member name, member value or response value, holds text that is not a number of the declared type and range, not a dateTime.iso8601, or not base64, or is a fault whose struct is not exactly an integer faultCode and a string faultString. Text beside the element of a typed value is refused or ignored, never taken for the value.",
  ["inputs"], "all valid documents times all single structural or textual damages of the listed kinds",
  "Tests try a dozen fixed malformed documents.",
  ["parser2.cc", "value_parser.cc", "request_parser.cc", "response_parser.cc", "value_type.cc"],
  [("state machines", "parser2.cc"), ("lexical conversions", "value_parser.cc")],
  ["parse_request()", "parse_response()"])

p("C06", "No input document can crash, corrupt, leak or exhaust the process",
  "For every byte string, parsing it as a call or as a response either returns a result or raises an exception derived from std::exception; it never reads or writes memory it does not own, never overflows the stack however deeply the document nests, never leaks memory, and takes time and memory roughly proportional to the document's length.",
  ["inputs"], "all byte strings, including nesting, entity and size bombs",
  "Tests feed only small hand-written documents and run without sanitizers.",
  ["parser2.cc", "value_parser.cc", "request_parser.cc", "response_parser.cc", "value_type.cc"],
  [("error paths of the builders", "value_parser.cc"), ("reader options", "parser2.cc")],
  ["parse_request()", "parse_response()"])

p("C07", "Document type tricks never reach files, network or entity content",
  "Whatever DTD, external subset, or internal, external or parameter entity a document declares and wherever it references them, parsing never opens a file or network location named by the document and never puts the text of an external entity into a parsed method name, value or fault.",
  ["inputs"], "all documents carrying DTDs, entities and references in any position",
  "One fixed XXE document at most is tried by hand; positions and declaration kinds are not enumerated.",
  ["parser2.cc"], [("no-network, no-substitution reader options", "parser2.cc")],
  ["parse_request()", "parse_response()"])

p("C08", "Base64 values carry any bytes exactly",
  "Encoding any byte string yields its RFC 4648 base64 text, and decoding such a text, with any whitespace inserted anywhere, yields the original bytes; copies and assigned values agree. Text whose non-blank length is not a multiple of four, or with a character outside the alphabet (or a pad sign in the first two places of a group of four), is refused with the malformed-base64 exception.",
  ["inputs"], "all byte strings, all whitespace placements, all corruptions of the stated kinds",
  "Tests encode and decode a few short literals.",
  ["value_type.cc"], [("codec", "value_type.cc")],
  ["Binary_data::from_data()", "Binary_data::from_base64()", "get_data()", "get_base64()"])

p("C09", "Date-time values are printed and parsed exactly",
  "Every calendar timestamp of years 1900-9999 built from broken-down time prints as YYYYMMDDThh:mm:ss, and parsing that text gives the same year, month, day, hour, minute and second; a text is accepted only if it has exactly that shape with every field in range, and an accepted text prints back unchanged. Any other text is refused with the malformed-date exception; a date-time made without a given time is the current one, local or universal as asked, whatever the time zone.",
  ["inputs"], "all timestamps and all strings (mutations of valid ones in particular)",
  "Tests use a handful of literal dates.",
  ["value_type.cc", "value_type.h"], [("parser and printer", "value_type.cc")],
  ["Date_time constructors", "Date_time::to_string()", "Date_time::get_tm()"])

p("C10", "Values are independent, strictly typed copies under any history",
  "Under every history of building, copying, assigning (also to itself or from its own parts), indexing, inserting, replacing, erasing, swapping and clearing, values, arrays and structs hold what the same history gives on plain nested lists and maps: changing one copy never changes another, no memory is leaked or used after release. A value answers true to exactly one type question, converting it to any other type raises the bad-cast exception, and a missing index or member raises the out-of-range or no-field exception without changing anything.",
  ["histories"], "all operation sequences over values, arrays and structs",
  "Tests run a few short scripted sequences without leak or lifetime checking.",
  ["value.cc", "value_type.cc", "value_type.h", "value_type.inl"],
  [("deep copy and ownership", "value_type.cc"), ("checked casts", "value.cc")],
  ["Value", "Array", "Struct"])

p("C11", "HTTP messages are recognised the same however the bytes are segmented",
  "For every sequence of HTTP requests or responses (CRLF or LF line ends) read one after another through the library's packet reader, each message yields the same header and body, or the same refusal, however its bytes are split into pieces, and a message is delivered exactly when its last byte has arrived, with a body of exactly Content-Length bytes.",
  ["inputs", "schedules"], "all message sequences times all segmentations of each",
  "Tests feed a few literal packets in one or two fixed splits.",
  ["http.cc", "http.h"], [("packet reader", "http.cc")],
  ["http::Packet_reader::read_request()", "http::Packet_reader::read_response()"],
  [("header and content caches", "bytes received so far", "http.h")])

p("C12", "HTTP headers written by one side are read back by the other",
  "Every request or response header the library writes is read back by the library with the same URI, host, user agent, status code and phrase word, content length, keep-alive choice, authorisation user and password (user without colon) and X- headers; header names match in any letter case, values lose only surrounding blanks, and of a repeated header the last wins. A header line without a colon, a non-POST method line or a non-numeric content length is refused. Any other text either is read as a header, whose parts can be asked for, or raises an exception, without touching memory that is not its own.",
  ["inputs"], "all header contents without CR/LF/NUL, all letter cases and blank paddings",
  "Tests check a few literal headers.",
  ["http.cc", "http.h", "xheaders.cc"], [("header parse and dump", "http.cc")],
  ["http::Request_header", "http::Response_header"])

p("C13", "The request size limit is exact and enforced in every segmentation",
  "With a maximum request size set, a request whose total size (header plus body) reaches the limit is answered with 413 and never executes, even if its body, whose declared length takes it there, never comes, while a smaller one is served normally; this holds for each request of a keep-alive connection separately and for every way the bytes arrive. Without a limit requests of any size are served.",
  ["inputs", "schedules", "configurations"], "all limits, request sizes around them, declared lengths, segmentations and positions in a keep-alive sequence",
  "One test sends one oversized request.",
  ["http.cc", "server.cc", "http_server.cc"], [("size accounting in the packet reader", "http.cc")],
  ["Server::set_max_request_sz()", "bytes on the server's socket"])

p("C14", "Each HTTP request gets exactly the answer its form calls for",
  "A live server answers every complete HTTP request of a client that waits for the response before sending the next one with exactly one response: 200 with the call's XML-RPC response or fault if the request is valid, 400 for an unparsable header, 405 for a method other than POST, 411 without content length, 415 for a content type other than text/xml under strict verification, 417 for an unknown expectation; every response's Content-Length equals its body's length and its Date is the current time in the form HTTP prescribes. No refused request executes a method, and a connection stays open after the response (and the response to a valid request says so) exactly if the HTTP request was well-formed and asked for keep-alive.",
  ["inputs", "histories"], "all request headers and bodies, valid and faulty, in keep-alive sequences",
  "Tests hit one or two of the refusals with fixed requests.",
  ["http.cc", "http_errors.h", "http_server.cc", "server.cc"],
  [("verification on header parse", "http.cc"), ("error responses", "http_server.cc")],
  ["bytes on the server's socket"])

p("C15", "Expect: 100-continue is answered once per request that asks for it",
  "For each request of a connection that carries Expect: 100-continue and whose body is sent only after the interim response, the server sends one interim 100 response and then, once the body is complete, the normal response; no request gets more than one interim response, requests without it get none, and the body may arrive in any number of pieces at any time.",
  ["schedules", "histories"], "all keep-alive sequences mixing requests with and without the expectation, all body segmentations",
  "One test drives one such request.",
  ["http.cc", "http_server.cc"], [("continue flag of the packet reader", "http.cc")],
  ["bytes on the server's socket"])

p("C16", "No method runs unless the authentication plug-in allows the caller",
  "With an authentication plug-in installed, a method executes if and only if the request carries well-formed Basic credentials the plug-in accepts, or carries none and the plug-in allows anonymous access; otherwise the answer is 401 (or a fault for undecodable credentials) and nothing executes. The plug-in sees exactly the user and password the client supplied and the method sees exactly that user name, for each request on a connection separately.",
  ["inputs", "histories"], "all credential strings, malformed authorisation headers, plug-in decisions and request orders on shared connections",
  "Tests check a few fixed users.",
  ["server.cc", "auth_plugin.cc", "http.cc", "method.h"],
  [("authentication before dispatch", "server.cc"), ("credential decoding", "http.cc")],
  ["Auth_Plugin_base", "Method::authname()"])

p("C17", "Calls reach exactly the right method and its outcome reaches the caller",
  "A call runs the method registered under exactly its name (the latest registration; the default table before additional dispatchers in the order they were pushed), once, with exactly the sent parameters, and the caller receives its result, or the code and message of the fault it raised, or a fault carrying the message of any other exception it raised; an unknown name gives a fault with code -32601 and runs nothing. Interceptors wrap every call with the most recently pushed outermost, and introspection lists exactly the methods of all dispatchers.",
  ["inputs", "configurations"], "all registration tables, dispatcher and interceptor stacks, names, parameters and method outcomes, serial and pooled",
  "Tests use one table of a few methods.",
  ["server.cc", "dispatcher_manager.cc", "method.cc", "method.h", "executor.cc", "builtins.cc"],
  [("dispatcher chain", "dispatcher_manager.cc"), ("exception translation", "executor.cc")],
  ["Server::register_method()", "Server::push_dispatcher()", "Server::push_interceptor()", "client-visible responses"])

p("C18", "Client and server of the library deliver any call end to end unchanged",
  "A client of the library calling a server of the library gets back exactly the value the method returned for exactly the parameters it passed, whatever their size and content, over HTTP or HTTPS, with or without keep-alive, with the serial or the pool executor, for every call of any sequence and with several clients at once.",
  ["inputs", "schedules", "configurations"], "all values up to megabytes, all call sequences, transports, executors, concurrency degrees",
  "Tests echo a few small values; HTTPS cases fail outright on the base.",
  ["client.cc", "client_conn.cc", "http_client.cc", "https_client.cc", "http_server.cc", "https_server.cc", "server.cc", "socket.cc"],
  [("session state machines", "http_client.cc"), ("response writing", "http_server.cc")],
  ["Client::execute()"])

p("C19", "The thread pool runs each request once and never mixes or loses any",
  "With a pool executor of any size, every request received is executed exactly once, up to as many at the same time as the pool has threads, and each client receives the response to its own request no matter in which order the methods finish or the threads are scheduled; no two threads ever race on the server's data.",
  ["schedules", "histories"], "all interleavings of concurrent requests, method durations, pool sizes and client counts",
  "The tests run small stress loops whose schedules are whatever the machine gives, without a race detector.",
  ["executor.cc", "server.cc", "reactor_impl.h", "reactor_interrupter.cc"],
  [("request queue and locks", "executor.cc"), ("reactor lock and interrupter", "reactor_impl.h")],
  ["client-visible responses", "method execution counts"])

p("C20", "No client behaviour can take the server down or disturb other clients",
  "Whatever bytes clients send and whenever they disconnect or reset - before, within or after a request, while its method runs, while its response is being sent, or before being accepted - the server keeps running, keeps answering every well-behaved client correctly, and releases what the broken connection held.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams and disconnect points of any number of hostile connections next to well-behaved ones, HTTP and HTTPS",
  "Only a manual script for one broken TLS client exists.",
  ["http_server.cc", "https_server.cc", "acceptor.cc", "reactor_impl.h", "server.cc", "server_conn.cc"],
  [("exception containment in the event loop", "reactor_impl.h"), ("connection teardown", "http_server.cc")],
  ["responses to well-behaved clients", "Server::work()", "open descriptors"])

p("C21", "Stopping always works, at any moment, and the server can run again",
  "A stop request from any thread or from inside a method, at any moment before or during the serving loop and under any load, makes the loop return; running it again serves requests again, any number of times. Destroying a thread pool of any size at any moment after construction or load always completes, after running every request it had accepted.",
  ["schedules", "histories"], "all stop times, threads, loads, restart counts and pool sizes",
  "Tests stop an idle server once per process.",
  ["server.cc", "executor.cc", "reactor_interrupter.cc"],
  [("exit flag and interrupter", "server.cc"), ("pool destruction", "executor.cc")],
  ["Server::work()", "Server::set_exit_flag()", "Pool_executor_factory destructor"])

p("C22", "A client call never returns anything but the answer to that call",
  "Whatever a server that sends at most one response per request does - answers in any segmentation, answers late, with an error status, with garbage, closes or resets at any byte, or never answers - each call either returns the response the server sent to that very request or raises an exception; it never crashes or returns an earlier call's answer, and after a failed call the same client object succeeds again as soon as the server behaves, with or without keep-alive.",
  ["inputs", "schedules", "fault_sequences"], "all server byte streams, segmentations, delays and close points over sequences of calls on one client",
  "Tests always talk to the library's own well-behaved server.",
  ["client.cc", "client_conn.cc", "http_client.cc", "http.cc", "reactor_impl.h"],
  [("connection cache", "client.cc"), ("response reader", "http_client.cc")],
  ["Client::execute()"])

p("C23", "A client's request on the wire carries exactly what was configured",
  "For every configuration, a call sends exactly one well-formed POST request: the configured path (the absolute URL when an HTTP proxy is set, sent to the proxy), the host and port or the virtual host, the exact body length with type text/xml, keep-alive or close as set, Basic credentials exactly if a user is set, and every X- header set on the client or given with the call, the call's value winning for equal names in any letter case. Options changed between calls apply to the next call.",
  ["configurations", "inputs", "histories"], "all option combinations and call sequences",
  "Tests look at what the library's own server sees in a few configurations; proxies are never exercised.",
  ["client.cc", "client_opts.h", "client_conn.cc", "http_client.cc", "http.cc", "xheaders.cc"],
  [("request header building", "client_conn.cc"), ("option merging", "client.cc")],
  ["bytes received by an independent server"])

p("C24", "A client with a timeout does not wait for ever",
  "With a timeout of n seconds set, a call during which the peer - the server, or the proxy asked for a way through - stays silent for longer, before accepting, before responding or in the middle of its response, ends with the timeout exception after about n seconds, while a peer that answers, however slowly in total but with no silence that long, gets its answer delivered.",
  ["schedules", "configurations"], "all timeouts, silence positions and response segmentations",
  "One test covers one silence position.",
  ["client.cc", "http_client.cc", "connector.cc", "reactor_poll_impl.cc"],
  [("poll timeouts", "http_client.cc")], ["Client::execute()", "elapsed time"])

p("C25", "Peers refused by the firewall never reach a method and cost nothing",
  "With a firewall installed, a connection is served if and only if the firewall grants its peer address; a refused peer receives exactly the configured refusal text of up to a few kilobytes (nothing if empty) and end of stream, none of its bytes cause a method to run, the server goes on serving granted peers, and no descriptor stays open for it.",
  ["histories", "inputs"], "all sequences of granted and refused connections, refusal texts and client behaviours",
  "One test refuses one connection.",
  ["acceptor.cc", "firewall.h", "socket.cc", "server.cc"],
  [("firewall check on accept", "acceptor.cc")], ["bytes on the socket", "open descriptors"])

p("C26", "HTTPS serves exactly the peers the certificate verifier accepts",
  "Over HTTPS a call succeeds if and only if every installed certificate verifier (of the client, of the server) accepts their peer (and the client presents a certificate when the server's verifier requires one); a refused or broken handshake, or a call of a client made while no TLS context is set, executes nothing and does not disturb other connections. The certificate fingerprint a verifier sees is the SHA-256 of the peer's certificate.",
  ["configurations", "fault_sequences"], "all verifier decisions, certificate presence, handshake breakages and orders of connections",
  "All HTTPS tests abort on the base with the installed OpenSSL.",
  ["ssl_lib.cc", "ssl_connection.cc", "https_client.cc", "https_server.cc"],
  [("verify callback", "ssl_lib.cc")], ["Client::execute()", "method execution"])

p("C27", "Histories of use do not accumulate descriptors or memory",
  "After any history of creating, using and destroying servers, clients, pools and connections - successful, refused, failed or aborted calls included - and once all of them are gone, the process holds no more open descriptors and no more heap objects than before; on the way nothing closes a descriptor that is not open any more.",
  ["histories", "fault_sequences"], "all histories of construction, use, failure and destruction",
  "No test counts descriptors or runs under a leak checker.",
  ["acceptor.cc", "connector.cc", "connection.cc", "reactor_interrupter.cc", "server.cc", "http_server.cc", "dispatcher_manager.cc"],
  [("socket ownership", "connection.cc")], ["/proc/self/fd", "leak checker"])

p("C28", "The event loop delivers exactly the registered events",
  "For every history of registering and unregistering handlers and masks, each round of event handling calls a handler's input or output callback only if it is registered for that event and the event is pending (or was faked while registered), and does call it if so, input taking precedence when both are pending; unregistering one kind of event leaves the other registered, a handler may unregister itself or others from within a callback, and other threads may register at any time.",
  ["histories", "schedules"], "all registration histories, readiness patterns and callback actions",
  "Reactor behaviour is only exercised through the server tests.",
  ["reactor.h", "reactor_impl.h", "reactor_poll_impl.cc"],
  [("handler table and poll set", "reactor_impl.h")], ["Reactor_base", "Event_handler callbacks"])

p("C29", "X- headers travel case-insensitively and only they do",
  "A set of X- headers accepts exactly names beginning with X- in any letter case (others raise the header exception on writing and are dropped on bulk assignment), looks names up case-insensitively, the last write winning. Sent with a call, exactly these headers with exactly these values are what the method sees for that request, and never those of another request on the same connection.",
  ["inputs", "histories"], "all header sets, letter cases, values without CR/LF, and request orders",
  "Tests send one or two fixed headers.",
  ["xheaders.cc", "http.cc", "client.cc", "method.h", "server.cc"],
  [("header map", "xheaders.cc"), ("propagation to methods", "server.cc")],
  ["XHeaders", "Method::xheaders()"])

p("C30", "HTTPS calls through a proxy arrive as if sent directly",
  "With a proxy set, an HTTPS client asks the proxy for a tunnel to exactly the server's host and port, once per tunnel, and every call through the tunnel is answered as if sent directly; kept connections reuse their tunnel. If the proxy refuses, closes at any byte or answers with garbage, the call raises an exception without any byte of the request having been sent, and the next call succeeds as soon as the proxy behaves.",
  ["inputs", "histories", "fault_sequences"], "all call sequences, proxy answers, their segmentations and failures",
  "No test uses a proxy.",
  ["https_client.cc", "client.cc", "client_conn.cc", "ssl_connection.cc"],
  [("tunnel setup", "https_client.cc")], ["Client::execute()", "bytes received by the proxy"])

p("C31", "Visiting and printing a value reaches every part once, in order",
  "Applying a visitor to a value calls exactly the callback of its type with exactly its contents, and a visitor that descends sees every element in order and every member once under its name, in ascending order of names. Printing a value renders exactly that walk - NIL, numbers and booleans as the stream prints them, strings and date-times in single quotes, binary data as RAWDATA, arrays as '[ a, b, ]' and structs as '{ 'k' => v, }' - and changes neither the value nor the format of the stream.",
  ["inputs"], "all values and stream formats",
  "Tests print nothing that is compared.",
  ["value_type_visitor.h", "value_type_visitor.cc", "value_type.cc", "value.cc"],
  [("visitor dispatch", "value_type.cc"), ("printing visitor", "value_type_visitor.cc")],
  ["Value::apply_visitor()", "print_value()"])

p("C32", "A failed call says what failed",
  "A response (of the server, or of the proxy when a tunnel is asked for) with a status other than 200 raises the HTTP error exception carrying exactly its status code and reason phrase (one that is no number raises some exception); a complete response whose body is not well-formed XML or lacks the structure of an XML-RPC response raises the parse-error or protocol-violation exception; a refused connection or a stream that ends before the response is complete raises a network error (or, over HTTPS, a TLS error), silence beyond the timeout the timeout exception. A fault is returned as such with its code and text, and raises them only when its value is asked for.",
  ["inputs", "fault_sequences", "configurations"], "all status lines, bodies, cut points and failures, over HTTP, HTTPS and proxies",
  "Tests provoke two or three failures and look at none of the codes or phrases.",
  ["client_conn.cc", "client.cc", "http.cc", "http_client.cc", "https_client.cc", "connector.cc", "response_parser.cc", "except.h"],
  [("status line parsing", "http.cc"), ("mapping of failures to exceptions", "client_conn.cc")],
  ["exceptions of Client::execute()"])

p("C33", "Servers in one process do not influence each other",
  "Several servers running at once in one process, each in its own thread, answer every request as each would alone: by its own methods, introspection, size limit, content checks, authentication, interceptors, firewall and executor. Stopping or restarting one neither disturbs the others nor leaves its address accepting connections.",
  ["configurations", "histories", "schedules"], "all combinations of configurations and interleavings of requests, stops and restarts",
  "Tests run one server per process.",
  ["server.cc", "http_server.cc", "https_server.cc", "dispatcher_manager.cc", "executor.cc", "acceptor.cc"],
  [("per-server state", "server.cc")], ["HTTP responses", "recorded executions"])

p("C34", "Encoding and decoding from several threads gives the same results",
  "Any number of threads may serialise, parse, copy, print and base64-code values and messages at the same time, also reading one value that none of them changes: each gets exactly the result it would get alone, and there is no data race.",
  ["schedules", "inputs"], "all assignments of documents and values to threads and their interleavings",
  "Tests use the codec from one thread.",
  ["parser2.cc", "xml_builder.cc", "value.cc", "value_type.cc", "http.cc"],
  [("parser and builder state", "parser2.cc")], ["parse_request() and others", "race detector"])

p("C35", "The error log receives every message once and whole",
  "With an error log installed, each message a method logs, from whatever serving thread, appears in it exactly once as a line of its own, never torn or mixed with another, those of one call in order; a call of an unknown method is logged once with its name. Without a log nothing is written, and logging never disturbs the calls.",
  ["schedules", "histories"], "all numbers of clients, serving threads and messages",
  "Tests do not look at the log.",
  ["server.cc", "method.cc", "http_server.cc", "https_server.cc"],
  [("log writing", "server.cc")], ["the installed stream", "race detector"])

p("C36", "Text that XML cannot carry is never silently changed",
  "A string that contains NULs, control characters or malformed UTF-8, used as a value, member name, method name or fault text, is either refused with an exception by the side that writes or by the side that reads the document, or read back as exactly the same bytes; never as something else. A method that returns such a string gets its caller a fault or an exception, and the server goes on serving.",
  ["inputs"], "all byte strings in all places where text can stand",
  "Tests use printable text.",
  ["xml_builder.cc", "value_type_xml.cc", "parser2.cc", "server.cc", "executor.cc"],
  [("text output", "xml_builder.cc")], ["dump_request(), parse_request() and others", "Client::execute()"])

p("C37", "A method is told the true facts of its own call",
  "While it runs, a method and every interceptor around it are told exactly the facts of their own call: the name it was called by, the address and port of the peer's end of the connection, the authenticated user's name (none when there is none) and the X- headers of this very request. This holds whatever runs at the same time and whatever came before on the connection.",
  ["histories", "schedules", "configurations"], "all users, headers, source addresses, method names and sequences of calls on kept and new connections, under both executors",
  "Tests look at none of these from more than one call at a time.",
  ["server.cc", "method.cc", "server_conn.cc", "http.cc", "executor.cc", "xheaders.cc"],
  [("filling of the method's data", "server.cc")], ["Method::name(), peer_addr(), authname(), xheaders()"])

p("C38", "A call that cannot be served gets the fault that says why",
  "A request body that is no well-formed XML is answered with fault -32700, well-formed XML that is no XML-RPC call with fault -32600, a call of a method nobody registered with fault -32601 naming it, and a call with a scalar that cannot be read with some fault. None of them executes anything or disturbs the connection, which serves the calls that follow.",
  ["inputs", "histories"], "all documents damaged in one place, all unknown names, in all sequences with good calls",
  "Tests call one unknown method and send no damaged document to a server.",
  ["server.cc", "request_parser.cc", "value_parser.cc", "parser2.cc", "dispatcher_manager.cc", "except.h"],
  [("mapping of exceptions to faults", "server.cc"), ("standard fault codes", "except.h")], ["HTTP responses", "recorded executions"])

p("C39", "A server listens, and a client connects, exactly where it was told",
  "A server accepts connections at the address and port it was given (at every local address if it was given only a port, at the address a host name stands for) and nowhere else, from the moment its work loop runs until it is destroyed; its address can be used again at once by a new server, and a second server for an address in use fails with a network error without disturbing the first. A client's calls reach the server at its address and no other, and a name that stands for no host is never given an address, however often it is tried.",
  ["configurations", "histories"], "all loopback addresses, ports, host names and orders of starts, stops, restarts and competing servers",
  "Tests use one fixed address.",
  ["inet_addr.cc", "socket.cc", "acceptor.cc", "connector.cc", "server.cc"],
  [("address setup and binding", "inet_addr.cc")], ["TCP connections", "Client::execute()"])

p("C40", "Values and calls are exchanged unchanged with an independent implementation",
  "Calls between this library and an independently written XML-RPC implementation, in either direction, over HTTP and HTTPS, on kept and new connections, deliver every argument, result and fault that both sides can express exactly as it was sent.",
  ["inputs", "configurations"], "all values both sides can express, both directions, transports and protocol versions",
  "Tests let the library talk only to itself, so both ends may share an error.",
  ["value_type_xml.cc", "value_parser.cc", "request.cc", "response.cc", "http.cc", "client_conn.cc", "http_server.cc"],
  [("encoding and decoding", "value_type_xml.cc")], ["Client::execute()", "methods of a server called by the other implementation"])

p("C41", "The locale of the process changes nothing that is exchanged",
  "Whatever locale the application sets, for C or for C++, values, messages and HTTP headers are written byte for byte as in the C locale (but for the current time), reading any document or header has the same outcome as in the C locale, and calls between clients and servers work alike.",
  ["configurations", "inputs"], "all locales (decimal points, digit grouping, case rules, character sets) and all values, documents and headers",
  "Tests run in the C locale.",
  ["value_type_xml.cc", "value_parser.cc", "http.cc", "http_client.cc", "https_client.cc", "xheaders.cc"],
  [("conversion of numbers", "util.h"), ("case folding of header names", "http.cc")], ["dump_request(), parse_request() and others", "bytes sent by clients and servers"])

p("C42", "An exception of application code becomes the fault of its own call",
  "Whatever a method, its creation, an interceptor around it or the authentication plug-in throws ends that call alone with a fault: a fault exception with its code and text, any other standard exception with its text, anything else with some text; an exception an interceptor catches is no fault. Other calls in progress or later, on the same or other connections, are answered as if it had not happened, and nothing leaks.",
  ["fault_sequences", "histories"], "all sequences of calls, places and types of exceptions, executors, interceptor chains",
  "Tests raise one Fault from one method.",
  ["server.cc", "executor.cc", "method.h"],
  [("outcome of a call becomes a response", "executor.cc"), ("calls are authenticated, parsed and started", "server.cc")], ["responses of a live server", "recorded executions"])

p("C43", "Signals the application handles disturb neither calls nor servers",
  "Signals that the application handles, delivered to any thread at any time and at any rate that leaves it time to work, change nothing: calls return what they would return, a timeout of n seconds still ends a call with a silent peer after about n seconds and not earlier, and the serving loop neither ends nor stops serving.",
  ["schedules", "configurations"], "all moments and threads of delivery, transports, executors and calls",
  "Tests handle no signals.",
  ["reactor_poll_impl.cc", "reactor_impl.h", "socket.cc", "connector.cc", "client_conn.cc"],
  [("waiting for events", "reactor_poll_impl.cc")], ["return values and exceptions of calls", "time a call takes"])

p("C44", "A server serves every connection the system lets it have",
  "However many connections are open at once, idle, in the middle of a request or asking, every complete request on any of them is executed and answered once. When the process has no descriptor left for a further connection, the established ones are served on, and new ones are served as soon as descriptors are free again.",
  ["histories", "fault_sequences"], "all numbers of connections and rounds of requests on them, moments at which descriptors run out",
  "Tests open a handful of connections.",
  ["acceptor.cc", "reactor_impl.h", "reactor_poll_impl.cc", "socket.cc", "server_conn.cc"],
  [("accepting", "acceptor.cc"), ("table of handlers", "reactor_impl.h")], ["responses of a live server", "recorded executions"])

p("C45", "No server behaviour can crash, hang or corrupt a client",
  "Whatever bytes a server or proxy sends in answer to a call, in whatever pieces, before it closes, resets or falls silent, the call of a client with a timeout ends in a response or an exception; it never corrupts or leaks memory or descriptors, and the same client then works with a well-behaved server.",
  ["inputs", "fault_sequences"], "all byte streams and segmentations a server or proxy can send, all moments of closing, kept and new connections",
  "Tests talk only to well-behaved servers.",
  ["client_conn.cc", "http_client.cc", "https_client.cc", "http.cc", "response_parser.cc"],
  [("reading of a response", "http.cc"), ("connection kept for the next call", "client.cc")], ["outcome of calls"])

p("C46", "Waiting calls start in order and keep nobody else waiting",
  "While all threads of the pool are busy, the server goes on accepting connections, receiving requests and refusing those that need no thread (wrong form, wrong credentials, unknown method). Calls that wait are started in the order in which they were received, and however many wait, each of those whose caller stays is executed and answered.",
  ["schedules", "histories"], "all pool sizes and sequences of calls, refused requests and leaving callers that arrive while the threads are busy",
  "Tests never fill the pool.",
  ["executor.cc", "server.cc", "server_conn.cc"],
  [("queue of waiting calls", "executor.cc")], ["order in which methods start", "responses of a live server"])

p("C47", "Waiting takes no processor time",
  "A server that waits - for connections, for the rest of a request or handshake, for a method to end, for a caller to read its response or to close - and a client that waits for its server use practically no processor time meanwhile, whatever states the connections are in and even if their peers have closed or send what nobody asked for.",
  ["histories", "schedules"], "all sets of connections in all states of waiting, transports and executors, while descriptors are free",
  "A loop that never sleeps still gives the right answers.",
  ["reactor_impl.h", "reactor_poll_impl.cc", "http_server.cc", "https_server.cc", "ssl_connection.cc", "executor.cc"],
  [("events a connection is registered for", "http_server.cc"), ("waiting for events", "reactor_poll_impl.cc")], ["processor time of the process"])

p("C48", "Threads with clients of their own do not influence each other",
  "When several threads of one process make calls at the same time, each with client objects of its own, to the same or different servers over HTTP or HTTPS, every call has the outcome it would have alone: its own result or fault, or its own failure. What one thread sets for its clients (users, headers, keep-alive) is never seen in calls of another, and there are no data races.",
  ["schedules", "inputs"], "all sets of calls spread over all numbers of threads and servers, interleavings as they occur",
  "Tests use one client at a time.",
  ["client.cc", "client_conn.cc", "http_client.cc", "https_client.cc", "inet_addr.cc", "ssl_connection.cc", "ssl_lib.cc"],
  [("session of a call", "client_conn.cc"), ("name resolution", "inet_addr.cc")], ["outcome of calls", "what methods saw"])

p("C49", "A server obeys the settings in force, whenever they were changed",
  "A change of a server's settings made while it does not run, or by one of its own methods in the serial executor - request size limit, verification level, authentication plug-in, added interceptors, methods, dispatchers or introspection - holds for every request that arrives afterwards, on new and on kept connections, until it is changed again; so do firewall and log stream set while it does not run, the firewall for new connections. What is not changed survives every stop and restart.",
  ["histories", "configurations"], "all histories of changes, runs and requests",
  "Tests configure a server once, before its only run.",
  ["server.cc", "server_conn.cc", "dispatcher_manager.cc", "acceptor.cc", "method.h"],
  [("settings", "server.cc"), ("settings applied to a request", "server_conn.cc")], ["responses of a live server", "recorded executions", "log streams"])

p("C50", "Keep-alive decides how a client uses its connections",
  "With keep-alive off every call of a client uses a connection of its own, which is closed when the call ends; with keep-alive on, a call follows on the connection of the call before it exactly if that call returned a result or fault and its response said keep-alive. A client never has more than one connection open, and turning keep-alive off or destroying the client closes the one it keeps.",
  ["histories", "configurations"], "all histories of calls, responses and settings of a client, over HTTP and HTTPS",
  "Tests make single calls and look only at their results.",
  ["client.cc", "client_conn.cc", "http_client.cc", "https_client.cc", "connection.cc"],
  [("kept connection", "client.cc"), ("promise of the server", "client_conn.cc")], ["connections and requests a scripted server sees"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
