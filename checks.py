"""What each check runs. A run is one harness entry with its bounds (params); `covers` are the outcomes that must be reachable."""
CHECKS = {}
def R(module, entry, covers=(), quick=None, thorough=None, **kw): return dict(module=module, entry=entry, covers=list(covers), quick=quick or {}, thorough=thorough or {}, **kw)
def L(module, entry, covers): return R(module, entry, covers, steps=400000000) # long and many things: long paths
def C(pid, runs, bounds, outside="", assumptions=(), note=""): CHECKS[pid] = dict(runs=runs, bounds=bounds, outside=outside, assumptions=list(assumptions), note=note)

# ---- JSON
C("C01", [R("json", "h_json_string", ["alone", "array", "object"], thorough={"n": 4}), L("json", "h_json_long_string", ["long"])],
  "strings of 0..3 (thorough 0..4) arbitrary bytes, alone, as array element and as object member; strings of 19 lengths from 15 to 70000 with an arbitrary byte (from 3000 on one of 5) at 3 places")
C("C02", [R("json", "h_json_int8", ["int"]), R("json", "h_json_uint8", ["int"]), R("json", "h_json_int16", ["int"]), R("json", "h_json_uint16", ["int"]),
          R("json", "h_json_int32", ["int"], thorough={"w": 8}), R("json", "h_json_uint32", ["int"], thorough={"w": 8}), R("json", "h_json_int64", ["int"], quick={"coarse": 1}, thorough={"w": 8, "coarse": 0}), R("json", "h_json_uint64", ["int"], thorough={"w": 8}),
          R("json", "h_json_bool", ["bool"]), R("json", "h_json_float", ["float"]), R("json", "h_json_float_texts", ["number"]), R("json", "h_json_ranges", ["read", "refused"]), R("json", "h_json_too_large", ["refused"])],
  "all 8- and 16-bit integers; 32- and 64-bit integers in windows of 16 (thorough 256) values around every power of ten (signed 64-bit ones around 10 selected numbers in quick runs), powers of two and the extremes, both signs; both booleans; null; floating-point numbers from a fixed list; numbers around 13 limits in 3 spellings read into variables of 7 types, 12 spellings of other numbers, 9 numbers too large for any integer",
  "32/64-bit integers outside the windows; floating-point values outside the list (their conversion is the standard library's)")
C("C03", [R("json", "h_json_object", ["into fresh object", "into used object"]), R("json", "h_json_containers", ["containers"]), L("json", "h_json_many", ["many"])],
  "an object with bool, vector, optional, nested object, map and string members, and one with array, vector of objects, unique_ptr to object and vector of strings; up to 2 elements, strings up to 1 byte, integers -12..12, 16-bit in optional; read into a default-constructed and into a differently filled object; one member of 5 container kinds with 18 numbers of elements from 3 to 1000")
C("C04", [R("json", "h_json_decode_string", ["decoded"], thorough={"k": 2}), R("json", "h_json_decode_object", ["object"], quick={"tok": 0}, thorough={"tok": 1}), R("json", "h_json_decode_array", ["array"]), R("json", "h_json_fixed_array", ["longer", "short"]), R("json", "h_json_float_texts", ["number"]), R("json", "h_json_reposition", ["re"]), L("json", "h_json_long_decode", ["decoded"])],
  "string tokens of 0..1 (thorough 0..2) units, each any plain byte, any short escape, any \\u escape with any hex digits or any surrogate pair; objects of 3 members in all 6 orders with up to one arbitrary whitespace character at each position; arrays of 0..3 integers with whitespace in 5 positions; fixed arrays of 2 read from 0..4 elements; whitespace of 50 kinds and lengths up to 3000 at 7 positions, strings of up to 1000 escapes of 6 kinds",
  "longer tokens, more whitespace")
C("C05", [R("json", "h_json_hostile_visit", ["ParseError", "RemoteError", "accepted"], quick={"n": 3}, thorough={"n": 4}), R("json", "h_json_hostile_object", ["ParseError", "RemoteError", "accepted"], quick={"n": 4}, thorough={"n": 5}), R("json", "h_json_hostile_calls", ["ParseError", "RemoteError", "accepted"], quick={"n": 4}, thorough={"n": 5})],
  "0..3 or 0..4 (thorough one more) arbitrary bytes after each of 12 valid beginnings, read by a visitor driven by the reported types, into an object, and by every single reading call")
C("C06", [R("json", "h_json_skip", ["alone", "element", "member"], quick={"k": 0}, thorough={"k": 1}), R("json", "h_json_unknown_members", ["unknown"], quick={"depth": 0}), R("json", "h_json_unknown_members", ["unknown"], quick={"k": 0}), R("json", "h_json_skip_nested", ["nested"], quick={"levels": 2}, thorough={"levels": 3}), L("json", "h_json_skip_long", ["skipped"])],
  "any value of depth 0..1 (null, booleans, numbers, strings with escapes and symbolic bytes, arrays and objects of 0..2) skipped alone, in arrays and in objects; unknown members with any 3-byte name before, between and after known ones present in any combination and order; unknown values of 7 kinds of length or depth 3..5000")

# ---- binary format
C("C07", [R("binary", "h_bin_scalars", ["number"]), R("binary", "h_bin_flagged", ["flagged"]), R("binary", "h_bin_floats", ["float"]), R("binary", "h_bin_float_bits", ["bits"]), R("binary", "h_bin_nan", ["nan"]), R("binary", "h_bin_strings", ["string"], thorough={"n": 12}), R("binary", "h_bin_sizes", ["kept", "refused"]), R("binary", "h_bin_long", ["long", "refused"])],
  "all values of all integer types from 8 to 64 bits, all numeric type flags; all float, double and half precision values (what is not a number only has to stay so); strings of 0..3 (thorough 0..12) arbitrary bytes with size types uint8, uint16, int32, int64; strings and arrays of 250..261 elements with size type uint8; strings of lengths up to 70000 around the limits of the size types",
  "big-endian machines; the payloads of NaN")
C("C08", [R("binary", "h_bin_nums", ["default", "known layout"]), R("binary", "h_bin_texts", ["default", "known layout"]), R("binary", "h_bin_map", ["default", "known layout"]), R("binary", "h_bin_depth", ["nested", "too deep"]), R("binary", "h_bin_reposition", ["re"]), L("binary", "h_bin_many", ["many"])],
  "three objects covering all member types; vectors of 0..3, nested vectors of 0..2 x 0..2, maps of 0..2 entries, strings of 0..2 bytes, all numeric values; arrays nested 1..5 deep with maximal depth 3; containers with up to 1000 elements")
C("C09", [R("binary", "h_bin_hostile", ["ParseError", "accepted"], quick={"n": 8}, thorough={"n": 11}), R("binary", "h_bin_truncated", ["truncated"])],
  "0..8 (thorough 0..11; 3 more for 4-byte sizes, 9 for 8-byte ones) arbitrary bytes read as numbers, strings, vectors, maps, objects and fixed arrays with size types uint8, uint16, int32, int64; every strict prefix of an object's encoding")

# ---- RPC over the binary protocol, buffers
C("C10", [L("binrpc", "h_binrpc_wrap", ["wrap"]), R("binrpc", "h_binrpc_call", ["set", "sub", "get", "info", "ping", "fail", "list"]), R("binrpc", "h_binrpc_call_u8", ["set", "list"]), R("binrpc", "h_binrpc_call_i32", ["set", "list"]), R("binrpc", "h_binrpc_stream", ["cut", "bytewise"]), R("binrpc", "h_binrpc_sessions", []), R("binrpc", "h_binrpc_tree", ["called", "refused"]),
          R("binrpc", "h_binrpc_hostile", ["answered", "closed", "waits"], quick={"n": 10}, thorough={"n": 13}), R("binrpc", "h_binrpc_hostile_args", ["closed", "set", "get", "ping", "list", "fail"], quick={"n": 6}, thorough={"n": 8}), R("binrpc", "h_binrpc_client_hostile", ["accepted", "ParseError", "RemoteError"], quick={"n": 10}, thorough={"n": 14}), L("binrpc", "h_binrpc_long", ["long", "refused"]), L("binrpc", "h_binrpc_pending", ["pending"]), R("binrpc", "h_binrpc_flagged", ["all", "some"])],
  "7 methods with symbolic integers, strings up to 2 bytes, vectors of 0..2, nested objects, with size types uint8, uint16 and int32; streams of several calls cut at any position or bytewise; two sessions interleaved; calls of members of indexes 0..300 and of members nested up to the maximal depth and beyond; malformed frames of up to 10 (thorough 13) bytes, malformed arguments of up to 6 (8) bytes, malformed responses of up to 10 (14) bytes; arguments and results of 17 lengths from 64 to 70000 around the limits of the size types; 10..300 calls waiting for responses that come in 2 orders and are read in 4; calls with 3 truth values, 2 of which other formats leave out when false, all values of them; calls waiting while 255, 32767 or 65535 others are sent")
C("C28", [R("buffers", "h_buf_expanding", ["long", "expanded", "short"]), R("buffers", "h_buf_nonexpanding", ["full", "short"]), R("buffers", "h_buf_streaming", ["flushed", "short"]), R("buffers", "h_buf_default", ["default"])],
  "3 appends, each of a character or of a text of 0..13 bytes, into expanding buffers of static sizes 1..5 and 7 (one of them over a vector), non-expanding ones of 1, 8 and 13 and streaming ones of 2, 4 and 9; pairs of texts of 16 lengths from 0 to 30000 with characters between into an expanding buffer of the default size", "buffers of other static sizes (the size is a template parameter used uniformly)")
# ---- HTTP server
C("C11", [R("http", "h_http_split", ["split"], quick={"cuts": 1}, thorough={"cuts": 2}), L("http", "h_http_long", ["long"])], "two requests (POST, GET, GET with body, unknown method; symbolic path byte, body of 0..2 bytes, Content-Type) cut at every position (thorough: at any two) or bytewise; paths, bodies, types and headers of 18 lengths from 15 to 70000 in pieces of 4 sizes")
C("C12", [R("http", "h_http_names", ["ignored"]), R("http", "h_http_request", ["served", "other method"]), R("http", "h_http_spacing", ["open", "closed"]), R("http", "h_http_coding", ["coded", "different", "same"]), R("http", "h_http_pipeline", ["pipeline"]), R("http", "h_http_length", ["refused", "obeyed"]), L("http", "h_http_long", ["long"]), L("http", "h_http_many", ["many"])],
  "6 methods, paths of 1..3 characters, bodies of 0..2 bytes, types with a symbolic byte, 4 spellings of header names, 4 spacings, optional unknown header, both orders; 3 pipelined requests; Content-Length texts of up to 2 arbitrary bytes and 17 extreme ones; paths, bodies, types, values and names of headers of 18 lengths from 15 to 70000, up to 257 headers; 4..260 requests on 1..9 connections; 4 kinds of blanks before and after values, 4 letter cases, 6 values of Connection; 3 transfer codings and 3 pairs of sizes in either order, any cut; names with any character of a known name changed, inserted or missing, parts and extensions of known names")
C("C13", [R("http", "h_http_coding", ["coded", "different", "same"]), R("http", "h_http_hostile", ["answered", "closed", "waits"], quick={"n": 1}, thorough={"n": 2}), R("http", "h_http_length", ["refused", "obeyed"]), R("http", "h_http_failing", ["closed", "error"])],
  "0..1 (thorough 0..2) arbitrary bytes after each of 12 valid beginnings with 3 endings and 3 cuts; Content-Length texts of up to 2 arbitrary bytes and 17 extreme ones")
C("C14", [R("http", "h_http_response", ["known size", "unknown size"], steps=20000000), R("http", "h_http_failing", ["closed", "error"]), R("http", "h_http_close", ["closed"]), R("http", "h_http_huge", ["huge"], steps=400000000), R("http", "h_http_pipeline", ["pipeline"]), R("http", "h_http_late", ["fails late", "answered", "method fails"]), L("http", "h_http_many", ["many"])],
  "bodies of sizes from 0 to 100000 around the buffer's multiples and the growth of the number of digits written whole, by characters (up to 9000), in 2 or 3 parts, or around 1000000; failures after 0..1500 bytes or after the whole response; 3 pipelined requests of 4 kinds with 5 behaviours of the responder; 4..260 requests on 1..9 connections")
C("C16", [R("http", "h_http_sessions", ["sessions"]), L("http", "h_http_endings", ["ended"]), L("http", "h_http_many", ["many"])], "two connections, one with 1 and one with 2 requests, the first cut anywhere, the second at 8 positions; a connection ending in 6 ways at 4 positions while another one is in the middle of a request; 4..260 requests on 1, 5 or 9 connections, in turns or one after another")
# ---- JSON-RPC
C("C19", [R("jrpc", "h_jrpc_server", ["error", "result", "notification"]), R("jrpc", "h_jrpc_batch", ["batch"], quick={"kinds": 6}, thorough={"kinds": 8}), R("jrpc", "h_jrpc_sequence", ["after error", "after failure"]), R("jrpc", "h_jrpc_repeated", ["called", "not called"], quick={"n": 4}, thorough={"n": 5}), L("jrpc", "h_jrpc_long", ["long"]), L("jrpc", "h_jrpc_batch_many", ["batch"])],
  "requests with members in all 24 orders, 8 kinds of ids, 11 kinds of methods and outcomes, symbolic arguments (integers -11..11, strings of 1 byte); batches of 0..2 requests; one of 8 bad requests followed by a request; requests of 4 (thorough 5) members with repetitions of any kind; arguments, names and ids of up to 70000 bytes; batches of up to 300 requests")
C("C20", [R("jrpc", "h_jrpc_client", ["set", "sub", "get", "info", "ping", "fail", "list"]), R("jrpc", "h_jrpc_client_errors", ["ParseError", "RemoteError"]), L("jrpc", "h_jrpc_loop_many", ["many", "long"])],
  "7 methods, symbolic integers -11..11 and strings of 1 byte in arguments and results, 3 forms of responses, blocking and asynchronous; 28 kinds of wrong responses; 9..300 calls at once, texts of up to 70000 bytes")
C("C21", [R("jrpc", "h_jrpc_hostile", ["failed", "refused", "responded", "silent"], quick={"n": 2}, thorough={"n": 3}), R("jrpc", "h_jrpc_client_hostile", ["accepted", "ParseError", "RemoteError"], quick={"n": 2}, thorough={"n": 4})],
  "0..2 (thorough 0..3) arbitrary bytes after each of 13 beginnings of requests with 2 endings; 0..2 (thorough 0..4) after each of 9 beginnings of responses with 2 endings")
C("C24", [R("jrpc", "h_jrpc_loop", ["failure", "results"], quick={"cuts": 2}, thorough={"cuts": 4}), L("jrpc", "h_jrpc_loop_many", ["many", "long"])],
  "a session of 5 calls, 3 of them pending at once, read in all 6 orders, polled or not, streams in each direction whole or in pieces of 1 (thorough also 7 and 100) bytes; one symbolic string byte, one symbolic integer 3..9; 9..300 calls at once, texts of up to 70000 bytes")
# ---- RPC objects
C("C22", [R("rpcobj", "h_rpc_arguments", ["set", "sub", "info", "list"]), R("rpcobj", "h_rpc_local", ["set", "sub", "get", "info", "ping", "fail"]), L("rpcobj", "h_rpc_wide", ["wide"]), L("rpcobj", "h_rpc_many", ["many"])],
  "4 methods with any subset of arguments in any order, one of 4 unknown arguments at any place, symbolic integers -11..11 and strings of 1 byte; local calls with any 32- and 16-bit integers and strings of 2 bytes; a method with 12 arguments by name in 4 orders, any one or half of them missing, or by position; an object of 35 methods")
C("C23", [R("rpcobj", "h_rpc_paths", ["paths"]), R("rpcobj", "h_rpc_lookup", ["found", "not found"], quick={"n": 4}, thorough={"n": 5}), R("rpcobj", "h_rpc_names", ["found", "not found"]), L("rpcobj", "h_rpc_dynamic_many", ["many"]), L("rpcobj", "h_rpc_many", ["many"])],
  "paths of 0..4 (thorough 0..5) arbitrary bytes over an object with 3 children and 2 grandchildren, and names of 1..2 arbitrary bytes without the separator; separators . and ::; 6 similar names of 1..31 characters with one character changed, inserted or anything cut off, in static and dynamic objects; 9..300 children with names of up to 400 characters under up to 130 levels; a static object of 35 methods", "other depths of nesting")
C("C25", [R("rpcobj", "h_rpc_future", ["value", "void", "error"], quick={"steps": 3}, thorough={"steps": 5}), R("rpcobj", "h_rpc_future_unused", ["unused"]), R("rpcobj", "h_rpc_local", ["set", "sub", "get", "info", "ping", "fail"])],
  "all sequences of 3 (thorough 5) operations (take, poll with the response there or not, reuse), results with and without value and errors; 5 ways of discarding, replacing and moving futures")
C("C30", [R("rpcobj", "h_rpc_holder", ["holder"]), R("rpcobj", "h_rpc_typed", ["local", "elsewhere"]), R("rpcobj", "h_rpc_dynamic", ["dynamic"], quick={"count": 4}), R("rpcobj", "h_rpc_copies", ["copies"]), L("rpcobj", "h_rpc_dynamic_many", ["many"])],
  "21 kinds of closures (of 16 sizes) in pairs through moves and assignments; 7 kinds of closures of known types in pairs, called directly and remotely; dynamic objects of 1..4 members; copies, assignments and moves of a static object; dynamic objects of 9..300 members")
# ---- HTTP client, forms
C("C15", [R("httpc", "h_httpc_names", ["ignored"]), R("httpc", "h_httpc_unsent", ["all", "some", "none"]), L("httpc", "h_httpc_wrap", ["wrap"]), R("httpc", "h_httpc_request", ["sent"], steps=400000000), R("httpc", "h_httpc_response", ["success", "failure"]), R("httpc", "h_httpc_order", ["order"]), R("httpc", "h_httpc_coding", ["failure"]), R("httpc", "h_httpc_calls", ["failure", "results"]), R("httpc", "h_httpc_loop", ["called"], thorough={"n": 2}), L("httpc", "h_httpc_long", ["long"]), L("httpc", "h_httpc_many", ["many"])],
  "paths of 1..3, bodies of 0..3 symbolic bytes or of selected sizes up to 1000000 and types of 1 symbolic bytes; responses with 8 codes, bodies of 0..2 bytes or none, 3 spellings and orders of headers cut at 8 positions; 3 responses in all orders; pairs of calls; loops with a real server with symbolic texts of 1 (thorough 2) bytes and integers -2..11; long requests and responses of up to 70000 bytes, many requests at once; responses with 3 transfer codings or with 2 pairs of different sizes; names of headers with any character changed, inserted or missing; 3 requests of which any are of 6 kinds that cannot be written; 65536 requests before the numbers are compared")
C("C17", [R("form", "h_form_floats", ["read", "refused"]), R("form", "h_form_text", ["text"], quick={"more": 1, "bases": 6}, thorough={"more": 2, "bases": 12}), R("form", "h_form_entities", ["entities"], thorough={"n": 5}), R("form", "h_form_decode", ["decoded"], thorough={"n": 3}), R("form", "h_form_numbers", ["numbers"], quick={"coarse": 1, "w": 2}, thorough={"coarse": 0, "w": 4}), R("form", "h_form_types", ["float", "integer", "string"]), R("form", "h_form_object", ["object"]), R("form", "h_form_call", ["called", "page", "nothing"]), R("form", "h_form_paths", ["called", "page", "nothing"]), R("form", "h_form_values", ["present", "absent"]), R("form", "h_form_refused", ["reading", "writing"]), R("form", "h_form_integers", ["read", "refused"]), L("form", "h_form_long", ["long"]), L("form", "h_form_many", ["many"]), L("form", "h_form_call_many", ["many"])],
  "texts of 0..2 characters (all ASCII, U+80..U+FF, windows of 16 around 6 (thorough 12) boundaries), the second one ASCII in quick runs; 4 (thorough 5) parts of 10 kinds; encodings of 1..2 (thorough 3) units; 64-bit integers in windows around selected numbers; texts of up to 2 arbitrary bytes and 20 selected ones identified; forms of 3 members in 6 orders, any subset, 6 kinds of unknown members anywhere; 5 paths by POST and GET with values; any path of 0..2 bytes after 6 beginnings; texts of 13 lengths from 15 to 10000 of 9 kinds of characters with a symbolic one; forms of 3..1000 unknown fields around the known ones; 4..44 calls and pages on one connection; objects of 24 doubles, 8 floats, 5 selected 64-bit integers, symbolic bytes and two optional members, each there or not; 6 things forms cannot hold; 19 spellings of integers and other texts read into variables of 3 types; 17 spellings of floating point numbers and other texts")
C("C18", [R("form", "h_form_hostile", ["accepted", "ParseError"], thorough={"n": 4}), R("form", "h_form_write_hostile", ["written"], thorough={"n": 4}), R("httpc", "h_httpc_hostile", ["accepted", "ParseError", "RemoteError"], quick={"n": 3}, thorough={"n": 4})],
  "0..3 (thorough 0..4) arbitrary bytes after each of 13 beginnings of forms with 2 endings read in 3 ways, and after each of 14 beginnings of responses with 3 endings; 0..3 (0..4) arbitrary bytes written")
# ---- network
NET = ["the network is a stand-in for the Networking TS controlled by the harness (mock/experimental/net): reads give any part of what was sent, writes accept any part, a closed connection reads as 0 bytes; one thread"]
C("C26", [R("tcp", "h_tcp_buffer", ["buffer"], quick={"sizes": 5}, thorough={"sizes": 7, "forks": 3}), R("tcp", "h_tcp_lengths", ["lengths"], thorough={"pieces": 5}), R("tcp", "h_tcp_refused", ["refused"]), R("tcp", "h_tcp_server", ["server"], thorough={"steps": 5}), L("tcp", "h_tcp_many", ["many"]), L("tcp", "h_tcp_long", ["long"])],
  "two messages of sizes in windows of 4 around 5 (thorough 7) boundaries of the buffer and one of 700 bytes, with symbolic first and last bytes, the first 2 (thorough 3) pieces of 9 sizes; 3 messages and 3 (thorough 5) pieces of all sizes from 1 to 4095 where no data need to be moved; all histories of 4 (thorough 5) of 10 kinds of events on up to 4 connections; 5..65 connections ending in 5 orders; 5 or 40 messages of up to 70000 bytes in pieces of 5 sizes", "several threads; io_context's own scheduling", NET)
C("C27", [R("netc", "h_net_order", ["order"], thorough={"pieces": 3, "n": 3}), R("netc", "h_net_lost", ["lost", "refused"], thorough={"pieces": 3}), R("netc", "h_net_long", ["long"]), R("netc", "h_net_jsonrpc", ["failure", "results"], quick={"cuts": 2}, thorough={"cuts": 3}), R("netc", "h_net_binary", ["results"]), L("netc", "h_net_many", ["many"]), L("netc", "h_net_longer", ["longer"])],
  "3 responses of 0..1 (thorough 0..2) symbolic bytes in all orders of arriving and reading, the first 2 (thorough 3) pieces of any size; 2 responses cut off at every byte; 2 responses of sizes around 2048 and 4096; sessions of 5 calls over JSON-RPC and binary RPC with pieces of 1 byte or whole (thorough also 7); 4..120 responses in 4 orders of arriving and of reading; 2 responses of up to 70000 bytes in pieces of 4 sizes", "several threads", NET)
# ---- file servers, descriptions
C("C29", [R("files", "h_file_paths", ["file", "equivalent", "refused"], quick={"n": 3}, thorough={"n": 5}), R("files", "h_file_contents", ["failed", "sent"]), R("files", "h_file_generated", ["generated"], thorough={"n": 4}), R("files", "h_file_cache", ["file", "none"], thorough={"n": 4}), R("files", "h_file_http", ["missing", "sent"], quick={"n": 5}, thorough={"n": 7}), L("files", "h_file_long", ["long"]), R("files", "h_file_shadow", ["caching", "dynamic"]), R("files", "h_file_unreadable", ["caching", "dynamic"]), L("files", "h_file_many", ["many"])],
  "a tree of 10 visible files, hidden files and folders and files around the served folder; paths of 0..3 (thorough 0..5) arbitrary bytes between 15 beginnings and 8 endings; file sizes 0..8193 around the chunk size, files that get shorter while read; generated files with names of 2 (thorough 4) arbitrary bytes; 4 changes of the files behind a cache; names and extensions of up to 255 characters, folders up to 31 deep, files of up to 100000 bytes; 10..100 files behind a cache", "symbolic links; several threads", ["the file system is a stand-in (mock/filesystem, mock/fstream) resolving paths as the kernel does, without symbolic links"])
C("C31", [R("wsp", "h_wsp_static", ["static"], thorough={"n": 3}), R("wsp", "h_wsp_tree", ["tree"]), R("wsp", "h_wsp_containers", ["containers"]), R("wsp", "h_wsp_deep", ["deep"], quick={"depth": 4}, thorough={"depth": 6}), R("wsp", "h_wsp_dynamic", ["static", "dynamic"], thorough={"n": 3}), R("wsp", "h_wsp_hand", ["hand"], quick={"args": 2}, thorough={"args": 3}), L("wsp", "h_wsp_many", ["many"])],
  "service names, addresses, documentation and method names of 0..2 (thorough 0..3) arbitrary bytes; a fixed tree of static and dynamic objects 3 deep whose arguments and results use types in optionals, vectors, arrays, maps and each other; a type containing itself; dynamic objects nested 1..4 (thorough 1..6) deep with names of 1..2 printable characters; hand-written descriptions of 2 (thorough 3) arguments of 4 types each optional or not; 9..100 methods and objects with names of up to 300 characters")
# ---- reflection
C("C34", [R("objects", "h_obj_whole", ["whole"]), R("objects", "h_obj_single", ["single"]), L("objects", "h_obj_large", ["whole", "single"])],
  "15 classes of 1..13 members of all member types; all integers of all widths, strings of 2 bytes and containers of 1..2 elements in the binary format; integers -11..11 and strings of 1 byte in JSON, each member alone; a class of 70 members and one with arrays of up to 400 elements and members up to 70000 bytes behind each other", "layouts of other classes (the layout of a class is fixed when it is compiled); bases with members before a Serialisable base that is the first polymorphic one")
# ---- threads
THR = ["the order in which threads go on changes only where a lock is taken or a thread starts or ends, which is enough if there are no data races; data races are searched for with vector clocks at every access to a known address"]
C("C32", [R("threads_tcp", "h_thread_tcp_serve", ["served"]), R("threads_tcp", "h_thread_tcp_close", ["served"]), R("threads_tcp", "h_thread_tcp_accept", ["served"]), R("threads_tcp", "h_thread_tcp_three", ["served"]), R("threads_tcp", "h_thread_tcp_measure", ["served"]), R("threads_tcp", "h_thread_tcp_background", ["served"]), R("threads_tcp", "h_thread_tcp_destroy", ["served"]), R("threads_tcp", "h_thread_tcp_background2", ["served"], thorough_only=True)],
  "2 threads serving 2 connections of 6 behaviours, 3 of 3, or one accepted before and one meanwhile; 3 threads serving 2 connections of 3 behaviours; one thread serving while another one asks for the average; a background server of 1 connection of 4 behaviours destroyed when everything was read or at any moment (thorough: also 2 connections of 2 behaviours)", "the scheduling of io_context itself; more threads or connections", THR + ["the network is a stand-in for the Networking TS controlled by the harness (mock/experimental/net)"])
C("C35", [R("threads", "h_thread_cache2", ["as it was", "generated", "reloaded"]), R("threads", "h_thread_cache3", ["as it was", "generated", "reloaded"])],
  "2 threads making 2 of 6 kinds of operations each, and 3 threads making one each", "more threads and operations", THR + ["the file system is a stand-in (mock/filesystem, mock/fstream)"])
C("C36", [R("threads_objects", "h_thread_objects2", ["together"]), R("threads_objects", "h_thread_objects3", ["together"])],
  "all pairs and triples of 16 kinds of work, with a symbolic letter each", "objects of other classes; more threads", THR)
