"""The properties. P(id, title, statement, over, quantifier text, why tests can't, files, mechanisms)"""
PROPS = []
NA = {}
def P(id, title, statement, over, text, why, files, mech, na=None):
    assert len(title) <= 80, title
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na: NA[id] = na

J = "bomba_json.hpp bomba_core.hpp"
P("C01", "JSON strings survive a round trip byte for byte",
  "Any sequence of bytes written as a JSON string (as a value, an array element, a member name or a member value) produces text that is valid JSON in which control characters, quotes and backslashes are escaped, and that any conforming reader decodes to the same bytes. Reading it back with this library gives exactly the bytes written, consumes exactly the string, and leaves what follows intact.",
  "inputs", "every string content, including control characters, quotes, backslashes, NUL and non-ASCII bytes, in every place a string may be written",
  "tests write a handful of fixed strings; a wrong escape only shows for particular bytes and their neighbours", J,
  [("string escaping", "bomba_json.hpp BasicJson::Output::writeString"), ("escape decoding", "bomba_json.hpp BasicJson::Input::readString")])
P("C02", "JSON numbers, booleans and null survive a round trip",
  "Every integer of every supported width, every boolean, null and the tested floating-point values are written as valid JSON text of exactly that value, are identified as their type when read, and read back as the same value. Reading consumes exactly the token, whether the input ends after it or whitespace, a comma or a closing bracket follows; decimal, signed and exponent forms of numbers are read as their value, rounded towards zero where an integer is expected, and a number that does not fit into the variable it is read into is refused with an error.",
  "inputs", "every integer value of 8 and 16 bits and windows around all digit-count boundaries and extremes of 32 and 64 bits, in front of every kind of following text",
  "tests use a few small numbers; extremes, digit-count boundaries and end-of-input positions are not reached", J,
  [("number writing", "bomba_json.hpp BasicJson::Output::writeInt/writeFloat"), ("number reading", "bomba_json.hpp BasicJson::Input::readInt/readFloat/identifyType")])
P("C03", "JSON objects and containers survive a round trip",
  "Serialising an object with members of scalar, string, vector, fixed array, optional, pointer, map and nested object types produces one valid JSON document holding every member under its name. Deserialising that document into another object - freshly made or already holding different content - makes all members equal to the original's, with no leftovers of the previous content.",
  "inputs histories", "all member values within the size bounds, all combinations of present and absent optional members and container sizes, target objects with and without previous content",
  "tests read into fresh objects holding one fixed set of values", J,
  [("member iteration", "bomba_core.hpp Serialisable, SerialisableMember"), ("container serialisers", "bomba_core.hpp TypedSerialiser")])
P("C04", "Every conforming JSON text is read as what it means",
  "Any text that is valid JSON - with any legal whitespace between tokens, members in any order, strings using any legal escape form including \\uXXXX and surrogate pairs - is read as the value it denotes: strings as UTF-8, arrays with all their elements, objects with each member reported exactly once with its name. An array with more or fewer elements than the fixed-size array it is read into fills what fits and keeps reading in step; a stored reading position can be returned to and gives the same values again.",
  "inputs", "every arrangement of whitespace, escapes, member orders and array lengths within the bounds",
  "tests read texts formatted one way, mostly written by the library itself", J,
  [("token reading", "bomba_json.hpp BasicJson::Input"), ("array elements", "bomba_json.hpp nextArrayElement; bomba_core.hpp TypedSerialiser<std::array>")])
P("C05", "Malformed JSON never breaks memory safety or hangs",
  "Reading any sequence of bytes as JSON either succeeds or reports a parse error or remote error. It never reads outside the input, never crashes, never loops forever, and throws nothing else.",
  "inputs", "all byte sequences up to the bound after every kind of valid beginning, with every reading operation",
  "tests contain almost no malformed input; out-of-bounds reads need particular truncation points", J,
  [("bounds checks", "bomba_json.hpp BasicJson::Input::getChar and callers"), ("error reporting", "bomba_core.hpp parseError, remoteError")])
P("C06", "Unknown JSON content is skipped exactly",
  "Skipping a JSON value of any kind - including strings containing brackets, quotes and escapes, and nested arrays and objects - moves to exactly behind it, whatever encloses it. An object whose input has unknown members anywhere among known ones, in any order, or lacks some members, gets exactly the known members that are present and keeps the values of the others, and what follows the object is read correctly.",
  "inputs", "every kind of skipped value within the depth and size bounds, every name not being a member, every position among present and absent members",
  "tests skip one or two simple values", J,
  [("skipping", "bomba_json.hpp BasicJson::Input::skipObjectElement"), ("member lookup", "bomba_core.hpp Serialisable::deserialiseInternal")])
B = "bomba_binary_protocol.hpp bomba_core.hpp"
P("C07", "Binary numbers and strings keep their exact layout and value",
  "In the binary format every number is written in little-endian order in exactly the size of its C++ type or of the type its flags ask for, a boolean in one byte, and a string as its size in the chosen size type followed by its bytes. Reading them back in the same order gives the same values and consumes exactly what was written. A string or array too long for the size type is refused when written instead of being written with a truncated size.",
  "inputs", "every value of every integer width and signedness, every string content, every size type, lengths around the limit of the size type",
  "tests write a few small positive numbers and short strings with one size type", B,
  [("number layout", "bomba_binary_protocol.hpp LittleEndianNumberFormat"), ("sizes", "bomba_binary_protocol.hpp BinaryFormat::Output::writeSize, BinaryFormat::Input::readSize"), ("typed flags", "bomba_core.hpp SerialisationFlags::typeWithFlags")])
P("C08", "Binary objects and containers survive a round trip",
  "An object with members of scalar, string, vector (also nested), fixed array, optional, nested object and map types, written in the binary format, is read back equal, whether the object it is read into is fresh or has other content, and reading it consumes exactly its bytes so that what follows stays in step. A stored reading position can be returned to. Nesting of arrays works up to the maximal depth and is refused beyond it.",
  "inputs histories", "all member values and container sizes within the bounds, target objects with and without previous content",
  "tests check one object with fixed values and do not put maps or nested vectors into objects", B + " bomba_object.hpp",
  [("arrays", "bomba_binary_protocol.hpp BinaryFormat::Input::startReadingArray/nextArrayElement/endReadingArray"), ("objects without names", "bomba_binary_protocol.hpp readObject; bomba_object.hpp Serialisable::deserialiseInternal")])
P("C09", "Malformed or truncated binary data is refused safely",
  "Reading any sequence of bytes as binary data either succeeds or reports a parse error: it never reads outside the input, never accepts a strict prefix of a message, never crashes, hangs or allocates elements that the input has no bytes for, whatever sizes (also negative or huge ones) it contains.",
  "inputs", "all byte sequences up to the bound, with every size type, read as every kind of value; every strict prefix of valid messages",
  "tests contain no malformed binary input", B,
  [("bounds checks", "bomba_binary_protocol.hpp BinaryFormat::Input::readNumber/readString/readBool"), ("error reporting", "bomba_core.hpp parseError")])
R_ = "bomba_binary_protocol.hpp bomba_core.hpp bomba_rpc_object.hpp"
P("C10", "Binary RPC frames carry calls, results and errors exactly",
  "A call made through the binary protocol's client reaches the server's method once with the same arguments, and the client gets the returned value or the error, whatever way the stream of bytes is cut into pieces in either direction; frames are consumed exactly, so several calls in a row over one connection all work and sessions of one server do not mix up their state. This holds also for arguments that other formats leave out because they are false. Any bytes arriving at the server either wait for more, are answered by whole responses, or end the connection; any response bytes arriving at the client are accepted or reported as a parse error or remote error. Neither reads outside its input, hangs or lets other exceptions out.",
  "inputs schedules", "all argument values within the bounds for every method, every cut of the stream, every malformed frame within the bounds",
  "tests make a few calls with fixed arguments over an unbroken stream and no malformed frames", R_,
  [("server session", "bomba_binary_protocol.hpp BinaryProtocolServer::Session::respond"), ("client", "bomba_binary_protocol.hpp BinaryProtocolClient")])
H = "bomba_http.hpp bomba_core.hpp"
P("C11", "HTTP serving does not depend on how the stream is cut",
  "However the bytes of a sequence of HTTP requests are divided among the pieces in which they arrive at a server session - byte by byte, in the middle of a method, header name, line ending or body - the requests are served with the same paths, types and bodies and the same responses are sent as if they came at once.",
  "inputs schedules", "every position at which the stream can be cut, for requests of every method with symbolic contents",
  "tests cut the input at a few places", H,
  [("session state between pieces", "bomba_http.hpp HttpServer::Session::respond"), ("incremental parsing", "bomba_http.hpp HttpParseState")])
P("C12", "HTTP requests are framed exactly as their headers say",
  "A server session reads a request's method, path, Content-Type and body of Content-Length bytes exactly, with header names in any letter case and any of the usual spacing, headers in any order and unknown headers among them; it consumes exactly the request, so that following pipelined requests are served in order, each once. An unusable Content-Length (negative, not a number, too large, or several different ones) and a body whose size is encoded in itself (Transfer-Encoding) are refused rather than misunderstood, and nothing of such a body is taken for a request.",
  "inputs", "all symbolic paths, bodies, types, letter cases, spacings and header orders within the bounds, every Content-Length text of up to 2 bytes and extreme ones",
  "tests use a few fixed requests with canonical headers", H,
  [("request parsing", "bomba_http.hpp HttpParseState::parse"), ("body framing", "bomba_http.hpp HttpServer::Session::respond")])
P("C13", "Malformed HTTP input does not break the server",
  "Any bytes arriving at an HTTP server session make it wait for more, send whole responses, or disconnect. It never reads outside the input, never hangs, never raises an exception out of the session, and never serves a request with a body other than the one sent.",
  "inputs", "all byte sequences within the bound after each of 12 valid beginnings, cut in several ways; all Content-Length texts within the bounds",
  "tests contain next to no malformed HTTP", H,
  [("request parsing", "bomba_http.hpp HttpParseState::parse"), ("failure handling", "bomba_http.hpp HttpServer::Session::respond")])
P("C14", "Each HTTP request gets one well-formed response",
  "Every request gets exactly one response, in the order of requests, that is well-formed HTTP: its Content-Length agrees with the body, the body and type are what the responder wrote whatever the sizes and pieces in which it wrote them, with the size known or unknown beforehand. A missing resource, an unsupported method, a responder that writes nothing and a failing responder result in an error response, an empty response or a closed connection, never in a broken or doubled response. Connection: close, in any letter case, ends the connection after its response.",
  "inputs histories", "all combinations of responders' outcomes in pipelines of 3, bodies of sizes around all buffer boundaries written in 4 ways, failures after any part of the body",
  "tests look at responses to single requests that fit into one buffer", H,
  [("response writing", "bomba_http.hpp HttpServer::Session writeKnownSize/writeUnknownSize"), ("chunks", "bomba_core.hpp StreamingBuffer")])
P("C16", "HTTP sessions of one server do not affect each other",
  "Connections to one HTTP server are independent: however the pieces of their requests interleave, each connection gets exactly the responses to its own requests.",
  "inputs schedules", "every cut of two connections' streams with symbolic contents",
  "tests use one session at a time", H,
  [("session state", "bomba_http.hpp HttpServer::Session, HttpServer::getSession")])
JR = "bomba_json_rpc.hpp bomba_json.hpp bomba_rpc_object.hpp"
P("C19", "JSON-RPC server answers each request once and correctly",
  "A JSON-RPC request object with its members in any order calls the method it names exactly once with its parameters given by name and is answered by one valid JSON-RPC 2.0 response with the same id (integer, string, fractional or null) holding either the result or an error with a code and a message: -32601 for an unknown or missing method, -32602 or -32603 for a failed call. A request without id is not answered. A batch gets an array with one response per request with an id, in order, and its methods are called in order. Nothing of a previous request, valid or not, affects the following ones.",
  "inputs histories", "all 24 orders of members, ids, methods and outcomes, symbolic argument values, all batches of up to 2 requests, 8 kinds of bad requests preceding a request",
  "tests check a handful of requests with members in canonical order", JR,
  [("request handling", "bomba_json_rpc.hpp JsonRpcServerProtocol::respondInternal"), ("batches", "bomba_json_rpc.hpp JsonRpcServerProtocol::post")])
P("C20", "JSON-RPC client sends exact requests and returns exact results",
  "Calling a method of an RPC object connected to a JSON-RPC client sends one valid request with version 2.0, an id, the method's name and all arguments by name with their values, and returns the result of the response, whatever order the response's members are in, both in the blocking and in the Future form. A response that is an error, has the wrong id or version, or is no response at all is reported as an exception and does not affect the following calls.",
  "inputs", "all methods, symbolic arguments and results, 3 forms of responses, 28 kinds of responses that are not results",
  "tests check one request text and one response", JR,
  [("request writing", "bomba_json_rpc.hpp JsonRpcClientProtocol::send"), ("response reading", "bomba_json_rpc.hpp JsonRpcClientProtocol::getResponse")])
P("C21", "Malformed JSON-RPC input is survived",
  "Any bytes received as a JSON-RPC request, alone or in a batch, or as a JSON-RPC response are accepted, refused or reported as a parse error or remote error; a method is called at most once per request; whatever is responded is valid JSON; nothing outside the input is read and there is no endless loop.",
  "inputs", "all byte sequences within the bound after each of 13 valid beginnings of requests and 9 of responses",
  "tests contain no malformed JSON-RPC", JR,
  [("request handling", "bomba_json_rpc.hpp JsonRpcServerProtocol::respondInternal"), ("batches", "bomba_json_rpc.hpp JsonRpcServerProtocol::post"), ("responses", "bomba_json_rpc.hpp JsonRpcClientProtocol::getResponse")])
RO = "bomba_rpc_object.hpp bomba_core.hpp bomba_object.hpp"
P("C22", "RPC calls bind arguments by name and return results exactly",
  "When an RPC method is called through its structured interface, the arguments given by name in any order, with unknown ones among them, are bound to the parameters of those names, missing ones having their default value; The method is called exactly once and its result is written exactly once. Calling an RPC member locally calls its function directly with the given arguments.",
  "inputs", "symbolic arguments of every type, all orders, subsets and unknown arguments within the bounds",
  "tests pass a few fixed arguments in order", RO,
  [("argument binding", "bomba_rpc_object.hpp RpcLambdaHolder/RpcMember::call"), ("result writing", "bomba_rpc_object.hpp RpcMember::call")])
P("C23", "RPC paths find exactly the member they name",
  "A path given to the path lookup, with names of any length joined by the separator (also a separator of two characters), finds exactly the child it names through nested objects; the empty path finds the object itself; any other text - prefixes, extensions, empty parts, names existing elsewhere - finds nothing. The path built for a callable by going up through its parents leads back to it, and names and indexes of children agree.",
  "inputs", "all texts of up to 4 arbitrary bytes as paths, nested objects with symbolic names, separators of 1 and 2 characters",
  "tests look up two or three names", RO + " bomba_dynamic_object.hpp",
  [("path lookup", "bomba_core.hpp PathWithSeparator::findCallable"), ("path building", "bomba_core.hpp PathWithSeparator::constructPath")])
P("C24", "Remote calls over JSON-RPC and HTTP behave like local ones",
  "With a JSON-RPC client and server connected through HTTP, each call of a method calls the remote one exactly once with equal arguments and gives an equal result or reports its failure, however the connection cuts the streams, and pending asynchronous results can be polled and read in any order.",
  "inputs schedules", "all orders of reading 3 pending results, polled or not, failing or not, streams cut in pieces of 1 byte or whole (thorough 1, 7, 100 or whole) in each direction, symbolic arguments",
  "tests make a few calls, one at a time", JR + " bomba_http.hpp",
  [("pending responses", "bomba_http.hpp HttpClient; bomba_json_rpc.hpp JsonRpcClient"), ("futures", "bomba_core.hpp Future")])
P("C25", "A Future gives its result exactly once and errors whenever asked",
  "A Future of a remote call becomes ready only when its response has come, gives exactly the value of the response, and reports the error of a failed call when its value is taken, whatever sequence of checking and taking precedes it; it asks for its response once. A Future destroyed without being used leaves no pending response behind. A Future of a local call is ready with its result at once.",
  "histories inputs", "all sequences of up to 3 operations on futures with values, without values and with errors, responses arriving at any step, symbolic values",
  "tests take one value from each of a few futures", "bomba_core.hpp bomba_rpc_object.hpp",
  [("future states", "bomba_core.hpp Future"), ("asynchronous calls", "bomba_rpc_object.hpp RpcMember::async")])
P("C28", "Buffers keep exactly the bytes put into them",
  "Whatever sequence of characters, strings and spans of any sizes is appended to any of the library's buffers, an expanding buffer contains exactly their concatenation, a non-expanding buffer contains it as long as it fits and never writes outside its space, and a streaming buffer passes on exactly the concatenation in order, however it is flushed.",
  "histories inputs", "all sequences of 3 appends of sizes around the capacities with symbolic contents",
  "tests append a few short texts", "bomba_core.hpp",
  [("expanding", "bomba_core.hpp ExpandingBuffer"), ("streaming", "bomba_core.hpp StreamingBuffer, NonOwningStreamingBuffer"), ("fixed", "bomba_core.hpp NonExpandingBuffer")])
P("C30", "Dynamic, copied and moved RPC objects stay consistent",
  "A lambda held as an RPC method keeps its captured values, whatever their size and type, through any moves and assignments of its holder and destroys them exactly once. A dynamic RPC object finds exactly the members added to it, by name and by index, with itself as their parent, calls the right one, and keeps doing so after being moved and when nested in another. Static RPC objects that are copied, assigned or moved have methods of their own: calls reach the new object and paths lead to its members.",
  "histories inputs", "closures of 21 kinds (none, one byte, 40 bytes, with a destructor, with a pointer) through sequences of moves and assignments; dynamic objects of 1..4 members of any kinds, moved and nested; copies of static objects with symbolic contents",
  "tests add two members and call them", "bomba_dynamic_object.hpp bomba_rpc_object.hpp",
  [("closure storage", "bomba_dynamic_object.hpp RpcLambdaHolder"), ("member table", "bomba_dynamic_object.hpp DynamicRpcObject"), ("copies of members", "bomba_rpc_object.hpp RpcMember, RpcObject")])
P("C15", "HTTP client sends exact requests and returns each response once",
  "An HTTP client sends well-formed requests with exactly the path, type, host and body it is given. Each request is given its own response - the body exactly, and whether its code means success - exactly once, in whatever order the responses are asked for or polled, however they are cut into pieces, with header names in any letter case and with or without a body. A method called through the client is sent to its path with its arguments in a form, its result is read from the response, and a response with a code other than success is reported as an error that does not affect the following calls. A response whose size is not given in a way the client knows, or is given in several different ways, is reported as an error rather than as another body.",
  "inputs schedules", "8 response codes, bodies and paths with symbolic bytes, spellings and orders of headers, all orders of reading 3 responses, polled or not, cut in 4 ways; pairs of calls of 4 methods each failing or not; calls to a real server cut in either direction",
  "tests read one response of each kind, at once", H,
  [("requests", "bomba_http.hpp HttpClient::post/get"), ("responses", "bomba_http.hpp HttpClient::findResponse/getResponse/hasResponse")])
P("C17", "URL-encoded forms carry texts, numbers and calls exactly",
  "A text or number written into a URL-encoded form consists only of characters allowed there and is read back, by this library and by the rules browsers follow, as the same characters, including spaces, reserved characters, non-ASCII characters and texts that look like encoded ones. Anything a browser may send (any percent-encoded byte with digits in either case, numeric entities, plus for a space) is read as what it means. Members of a form are read by name in any order, with unknown ones skipped and missing ones left as they were. A form sent by POST or in the address of a GET request calls the method its path names once with the values of the form, and anything else calls nothing. Floating point numbers and optional members, also absent ones, are read back equal, and what forms cannot hold (objects within objects, arrays, nulls and false values that were not asked to be left out) and what is no integer or does not fit where an integer is expected is refused with an error.",
  "inputs", "texts of 0..2 characters with all of ASCII, all two-byte Latin ones and windows of longer ones; sequences of 4 parts of encodings; any unit of a browser's encoding; all orders and subsets of members with unknown ones anywhere",
  "tests encode two fixed texts", H,
  [("encoding", "bomba_http.hpp HtmlMessageEncoding::Output"), ("decoding", "bomba_http.hpp HtmlMessageEncoding::Input"), ("calls by pages", "bomba_http.hpp HtmlPostResponder, RpcGetResponder")])
P("C18", "Malformed forms and HTTP responses are survived",
  "Any bytes received as a URL-encoded form or as an HTTP response are either read or reported as a parse error or remote error: nothing outside the input is read, there is no crash, no endless loop and no other exception. Any bytes, also ones that are not UTF-8, can be written into a form and only characters allowed there come out.",
  "inputs", "all byte sequences within the bounds after each of 13 beginnings of forms and 14 beginnings of responses",
  "tests contain no malformed forms or responses", H,
  [("forms", "bomba_http.hpp HtmlMessageEncoding"), ("responses", "bomba_http.hpp Detail::HttpParseState, HttpClient::findResponse")])
P("C26", "TCP server gives each connection its stream and survives failures",
  "Whatever sizes messages have - shorter or much longer than the receive buffer - and in whatever pieces they arrive, each message is given to the session's responder exactly as it came, once, as soon as it is whole, and responses are sent completely even if the network accepts only parts of them. Whatever history of connections coming, sending, failing and closing, each connection gets exactly its own responses, a connection that ended, failed or whose responder failed is closed and its session destroyed, the others keep being served, and further ones keep being accepted, also after accepting one has failed.",
  "inputs schedules histories", "sequences of messages of sizes around all boundaries of the buffer received in pieces of boundary sizes; messages and pieces of any size below 4096 where nothing is moved; all histories of 4 events on up to 4 connections",
  "tests use short messages over one connection in a real network, where the division into pieces is up to chance", "bomba_tcp_server.hpp",
  [("receive buffer", "bomba_tcp_server.hpp TcpServerBuffer"), ("sessions", "bomba_tcp_server.hpp TcpServer::Session, startSession, destroySession")])
P("C27", "Synchronous client matches responses and reports lost connections",
  "A synchronous network client sends requests completely even if the network accepts only parts of them, and gives each request its own response whatever order the responses arrive and are asked for in, whatever pieces they come in, however long they are and whatever was polled before. Polling neither waits nor loses anything. When the connection is lost or refused at any point, responses that came whole are still given and every other one is reported as an error instead of waiting forever. Whole stacks of client and server over it behave like local calls.",
  "inputs schedules", "three responses arriving and read in all orders with the first pieces of any size, polled at any point; loss of the connection at every byte; long responses around the buffer's boundaries; JSON-RPC and binary RPC sessions of 5 calls over the TCP server with streams cut in either direction",
  "tests use the client with one response at a time in a working network", "bomba_sync_client.hpp bomba_http.hpp",
  [("response search", "bomba_sync_client.hpp SyncNetworkClient::searchRequests"), ("sending", "bomba_sync_client.hpp SyncNetworkClient::writeRequest")])
P("C29", "File servers send exactly the visible files of their folder",
  "Whatever path is asked for, a file server, reading from the disk or caching, accesses nothing outside its folder and never sends a hidden file or one in a hidden folder (files starting with a dot). A path naming a visible file gets exactly its contents with its size and the type belonging to its extension, the root path gets the index page, and any other path gets nothing or, if it leads to one in another way, one of the visible files. A file that cannot be read completely is not sent as if it was complete. Generated files precede files of the same name in the folder and generated ones added before; those of a server reading files from the disk are generated anew whenever asked for. A caching server keeps sending what the files contained until it is told to reload, and then exactly what they contain then.",
  "inputs histories", "every path made of a beginning, arbitrary bytes and an ending, including .., //, NUL and hidden names; file sizes around the reading chunks; files that cannot be opened or read to their end; changes before and after a reload",
  "tests ask for two or three plain names", "bomba_download_server.hpp",
  [("path filter", "bomba_download_server.hpp DynamicFileServer::get"), ("contents and types", "bomba_download_server.hpp FileServerBase"), ("cache", "bomba_download_server.hpp CachingFileServer")])
P("C31", "Service descriptions list every method and type exactly once",
  "The JSON-WSP description of a callable object is valid JSON naming the service and its address. It holds every method, also of nested objects, exactly once under the path it can be called by, with all its arguments in order, with their types, whether they are optional and their documentation, and its result. Every object type used by arguments or results, directly, within containers, or within other types, even within itself, is described exactly once with the types of all its members.",
  "inputs", "all texts within the bounds as names, addresses and documentation, nested static and dynamic objects, types nested in each other in all container kinds, hand-written descriptions with all combinations of types and optionality",
  "tests compare one description of an object with two scalar arguments", "bomba_json_wsp_description.hpp bomba_object.hpp bomba_rpc_object.hpp bomba_dynamic_object.hpp",
  [("description writer", "bomba_json_wsp_description.hpp describeInJsonWsp"), ("types of members", "bomba_object.hpp addMemberType; bomba_core.hpp TypedSerialiser::listTypes"), ("methods", "bomba_rpc_object.hpp RpcLambdaParent::info")])
P("C32", "A TCP server run by several threads serves every connection as one thread would",
  "When several threads run one TcpServer at once, in every order of what they do, each connection gets exactly the responses to its own messages in their order, a connection that ends or fails is closed and its session destroyed exactly once without affecting other connections, connections are accepted all along, asking for the average response time is possible at any moment (and gives zero before any response), and no thread waits forever. A server with its own background thread serves meanwhile, and can be destroyed at any moment, leaving no thread, session or half a response behind. No memory is accessed by two threads without synchronisation.",
  "schedules", "all interleavings, at the points where locks are taken, of 2 or 3 threads serving 2 or 3 connections that send messages, end, fail or send parts; a background server of 1 or 2 connections destroyed early or late; data races at any access",
  "tests run the server by one thread; losing or destroying the wrong session needs two connections ending at the same time", "bomba_tcp_server.hpp",
  [("session list", "bomba_tcp_server.hpp TcpServer::startSession, destroySession, _sessionsLock"), ("handler", "bomba_tcp_server.hpp TcpServer::Session::readSome"), ("statistics", "bomba_tcp_server.hpp averageResponseTime"), ("background thread", "bomba_tcp_server.hpp BackgroundTcpServer")])
P("C33", "The JavaScript client and the TLS transport behave like the C++ ones",
  "The client library for browsers in public_html and the TLS variants of server and client in tls give the same guarantees as the C++ client and server: exact requests, responses matched once, streams of each connection kept apart.",
  "inputs schedules", "all values and orders of messages", "no test of the suite covers them", "public_html tls",
  [("browser client", "public_html"), ("TLS transport", "tls")],
  na="JavaScript has no symbolic executor here that reads the real code, and the TLS transport says itself that it does not work and needs the headers of OpenSSL, which are not installed, so it can be neither compiled nor encoded.")
P("C34", "Members of objects of any layout are found where they are",
  "Whatever members a serialisable object has - of any supported types and sizes in any order, with padding, other members that are not serialised, any default values, base classes after Serialisable or a polymorphic one before it - serialising it writes exactly the values of its serialised members in the order of their declarations, and deserialising sets exactly the members named in the input, or all of them if the format has no names. Default values are those given. Members that are not serialised, or not named, never change.",
  "inputs", "15 classes covering these layouts, all values of their members within the bounds, every single member named",
  "tests use objects whose members have common types and defaults; a wrong offset depends on the layout and the default values", "bomba_object.hpp bomba_core.hpp",
  [("offsets of members", "bomba_object.hpp Serialisable::setup"), ("members' serialisers", "bomba_object.hpp ObjectInfo, serialiseWithOffset"), ("defaults", "bomba_object.hpp InitialiserInitialiser")])
P("C35", "A caching file server used by several threads is consistent",
  "When several threads ask one CachingFileServer for files, reload it, reset it and add generated files at once, in every order, what each of them sees and what is there at the end can be explained by some order of their operations one after another: a file is served whole, as it was when loaded or as it is after a reload, never a mixture; a generated file is there once added and until a reset, also after reloads. No thread waits forever, no lock stays locked and no memory is accessed by two threads without synchronisation.",
  "schedules", "all interleavings, at the points where locks are taken, of 2 threads making 2 of 6 kinds of operations each, or 3 threads making one; data races at any access",
  "tests use it from one thread", "bomba_download_server.hpp",
  [("cache and its lock", "bomba_download_server.hpp CachingFileServer get, reload, reset, addGeneratedFile, _mutex")])
P("C36", "Threads using different objects or sessions do not affect each other",
  "Threads that each use their own objects (RPC objects constructed for the first time or copied, dynamic objects, clients, servers, serialised objects, buffers, descriptions of services), or their own sessions of a shared server, or call methods of a shared RPC object that has no state of its own, each get exactly what they would get alone, and no memory is accessed by two of them without synchronisation.",
  "schedules", "all pairs and triples of 16 kinds of work done by 2 or 3 threads with symbolic texts; data races at any access",
  "tests use one thread; hidden shared state (static variables, values cached by const functions) has no effect in one thread", "bomba_rpc_object.hpp bomba_core.hpp bomba_object.hpp bomba_json_rpc.hpp bomba_http.hpp bomba_binary_protocol.hpp",
  [("setup of RPC objects", "bomba_rpc_object.hpp setupInstance, childOffset"), ("responder", "bomba_core.hpp IRemoteCallable::getResponder"), ("types containing themselves", "bomba_core.hpp TypedSerialiser listTypes"), ("sessions", "bomba_http.hpp HttpServer::Session; bomba_json_rpc.hpp JsonRpcServerProtocol; bomba_binary_protocol.hpp BinaryProtocolServer")])
