"""Single source of truth for properties.jsonl (see bin/gen)."""

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    if hook:
        d["anchors"]["hook_needed"] = hook
    return d

PROPERTIES = [
P("P01", "JSON values survive serialisation and re-parsing unchanged",
  "Serialising any JSON value built through the public constructors or obtained from the parser yields valid JSON text that parses back to an equal value: same kinds, same strings byte for byte, same booleans and numbers (those JSON cannot express become null), same array order, same object members. Serialisation never emits an unescaped quote, backslash or control character inside a string.",
  ["inputs"], "all strings over all byte values and all small value trees",
  "Tests round-trip a handful of literals; escaping bugs depend on which byte follows which and on buffer growth boundaries.",
  ["src/json/mcp_json_parser.c", "src/json/mcp_json_stringifier.c", "src/json/mcp_json.c"],
  [("escaping", "mcp_json_stringifier.c"), ("unescaping", "mcp_json_parser.c parse_string"), ("node construction", "mcp_json.c")]),

P("P02", "The JSON parser is memory safe and accepts exactly well-formed text",
  "For every byte sequence handed to the JSON parser it terminates, touches no memory outside the text and its own allocations, and either returns a value or fails, leaving nothing allocated. Text that is not a JSON document (truncated, trailing garbage, missing separators, bad number, literal or escape, an escaped null character, nesting beyond its limit of 100 levels) is rejected, and every well-formed document up to that limit is accepted with the value it denotes.",
  ["inputs"], "all NUL-terminated byte strings",
  "Tests feed about twenty documents; acceptance must be right for every byte string, including truncations at each position.",
  ["src/json/mcp_json_parser.c", "src/json/mcp_json.c"],
  [("recursive descent parser", "mcp_json_parser.c"), ("depth limit", "mcp_json_parser.c")]),

P("P03", "JSON-RPC messages are classified by content with their id, method and payload",
  "Parsing a JSON-RPC message yields a request exactly when it has a method and an id, a notification when it has a method and no id, and a response when it has an id with either a result or an error; the id, method, parameters, result, error code and error text reported are those in the text, ids and error codes being whole numbers in range. A batch yields one entry per element, in order, with the same classification and with invalid elements marked as such, and text that is not a valid message is refused without a partial result. No memory is lost.",
  ["inputs"], "all messages and batches assembled from present, absent and wrongly typed members",
  "Tests parse one example per kind; the property ranges over all combinations of members, types and batch positions.",
  ["src/json/mcp_json_message.c", "src/json/mcp_json_rpc.c", "src/common/mcp_types.c"],
  [("message classification", "mcp_json_message.c"), ("batch parsing", "mcp_json_message.c")]),

P("P04", "Formatted JSON-RPC requests and responses carry exactly what was asked",
  "Every request, notification, response, error or set of call parameters the library formats parses back to the same id, method, parameters, result or error that the caller supplied, and to nothing else. The caller's strings cannot inject members or break the text, whatever characters they contain.",
  ["inputs"], "all ids, methods, names, URIs and payloads",
  "Tests compare fixed examples; injection and truncation depend on unusual characters and id widths.",
  ["src/json/mcp_json_rpc.c", "src/json/mcp_json_message.c", "src/json/mcp_json_utils.c"],
  [("request formatting", "mcp_json_rpc.c"), ("response building", "mcp_json_message.c")]),

P("P05", "No request is executed without valid credentials when a key is configured",
  "When the server is configured with an API key, no request in a message or batch reaches a resource, tool or listing handler, and no application callback runs, unless the message carries exactly that key; unauthenticated messages get an authentication error. Absent, empty, longer, shorter, differing or wrongly typed credentials never authenticate, and when no key is configured anonymous access is granted.",
  ["inputs", "configurations"], "all configured keys, presented credentials and message shapes",
  "Tests do not exercise authentication; a single accepted wrong key or unauthenticated batch position is a bypass.",
  ["src/server/mcp_auth.c", "src/server/mcp_server_dispatch.c"],
  [("credential comparison", "mcp_auth.c"), ("authentication gate", "mcp_server_dispatch.c handle_message")]),

P("P06", "An authenticated identity reaches only the resources and tools it is granted",
  "Access to a resource or tool is granted only to a context that has not expired and whose grants list that exact name, a prefix ending in '*' that covers it, or '*'; everything else is denied and the application callback for it does not run.",
  ["inputs", "configurations"], "all grant lists, names and clock values",
  "No test covers permission checks; prefixes, empty lists and expiry boundaries need all combinations.",
  ["src/server/mcp_auth.c", "src/server/mcp_server_handlers.c"],
  [("grant matching", "mcp_auth.c"), ("enforcement in handlers", "mcp_server_handlers.c")]),

P("P07", "Every request gets exactly one response carrying its own id",
  "For each request in a message the server produces exactly one response with that request's id, being either a result or an error; unknown methods and missing parameters give errors. Notifications and responses produce none, and a batch of several messages is answered in order in one array.",
  ["inputs", "configurations"], "all single messages and batches of requests, notifications and junk",
  "Dispatch is not unit-tested; the id/response pairing must hold for every mix and order.",
  ["src/server/mcp_server_dispatch.c", "src/server/mcp_server_handlers.c", "src/server/mcp_server_response.c"],
  [("dispatch", "mcp_server_dispatch.c"), ("batch assembly", "mcp_server_dispatch.c handle_message")]),

P("P08", "A client never exceeds its request quota within one rate-limit window",
  "For each client the rate limiter admits at most the configured number of requests in a window and admits every request up to that number; once the window has passed the client is admitted again. One client's requests never change the decisions made for another.",
  ["histories", "inputs", "configurations"], "all sequences of checks by several clients at arbitrary non-decreasing times",
  "Tests use sleeps and one or two clients; the bound must hold for all timings and interleavings of clients.",
  ["src/server/mcp_rate_limiter.c"],
  [("fixed window counter", "mcp_rate_limiter.c mcp_rate_limiter_check")],
  [("entry", "per client count and window start")]),

P("P09", "Each advanced rate-limit algorithm admits no more than its rule allows",
  "For requests that carry one key, the advanced limiter admits a request exactly when the algorithm of the rule that applies to the key permits (fixed window: max per window; sliding window: max in any window-long span; token bucket: burst plus refill; leaky bucket: capacity plus leak); the rule that applies is the covering one of the highest priority, also after rules have been replaced. Keys are independent and statistics count every decision once.",
  ["histories", "inputs", "configurations"], "all request sequences, times and rule parameters",
  "Tests check a few sequences per algorithm using real time.",
  ["src/server/mcp_advanced_rate_limiter.c"],
  [("algorithms", "mcp_advanced_rate_limiter.c")]),

P("P10", "The resource cache returns only the latest unexpired content for a URI",
  "A cache lookup returns exactly the content most recently stored under that URI, as an independent copy, and never content stored under another URI, content past its lifetime, or content that was invalidated or pruned. The cache never holds more entries than its capacity, dropping the least recently used one for a new one, and every other unexpired entry is found; no history, race or lack of memory leaks or corrupts content.",
  ["histories", "inputs"], "all sequences of put, get, invalidate, prune and clock advances",
  "Tests run fixed sequences; expiry and eviction interplay has many histories.",
  ["src/server/mcp_cache.c"],
  [("expiry and eviction", "mcp_cache.c"), ("content copy", "mcp_cache.c")]),

P("P11", "Template access control admits only listed roles and valid parameters",
  "A caller presenting a role is admitted to a template with registered roles only if that role, or '*', is among the roles registered for it, whatever the order in which roles and validators were registered and however often. Parameters rejected by the validator registered for a template, or by the default validator where it has none, are refused to everyone, and a listed role with accepted parameters is admitted.",
  ["histories", "inputs"], "all registration orders, roles and templates",
  "No test registers entries in different orders or repeats a template.",
  ["src/server/mcp_template_security.c"],
  [("ACL table", "mcp_template_security.c")]),

P("P12", "URI templates: expansion, matching and extraction agree",
  "A URI obtained by expanding a template matches that template and extracting its parameters gives back the values used; a URI that matches a template has the template's literal text at the right places and parameter values satisfying their declared types. The plain and the optimised implementations give the same answer for every URI, and neither touches memory outside its inputs.",
  ["inputs"], "all URIs against templates with literal, required, optional, default and typed parameters",
  "Tests try about thirty URI/template pairs; agreement must hold for every URI.",
  ["src/common/mcp_template.c", "src/common/mcp_template_optimized.c"],
  [("plain matcher", "mcp_template.c"), ("cached matcher", "mcp_template_optimized.c")]),

P("P13", "Every accepted message is accounted for and shutdown waits for it",
  "The count of in-flight messages returns to its previous value after each incoming message has been dealt with, whether it was answered, refused because it was too large, refused because the server is stopping, or dropped for lack of memory. While any message is being processed a shutdown does not complete its drain as finished, and after shutdown has begun no new message reaches a handler.",
  ["schedules", "fault_sequences", "inputs"], "all message sizes, allocation failures and shutdown timings",
  "Tests never drive the message callback with faults or concurrently with shutdown.",
  ["src/server/mcp_server_task.c", "src/server/mcp_server.c"],
  [("in-flight counter", "mcp_server_task.c")]),

P("P14", "The hash table behaves as a map for every history",
  "After any sequence of put, remove, get and clear, a lookup returns the value most recently put under that key and nothing for keys never put or since removed; the size equals the number of live keys and iteration visits each live pair once. Growth, collisions and allocation failure lose or duplicate nothing, and the value destructor runs exactly once per displaced value.",
  ["histories", "inputs", "fault_sequences"], "all short histories over colliding and distinct keys with allocation faults",
  "Tests use fixed keys; collisions, rehashing and allocation failures are not combined.",
  ["src/common/mcp_hashtable.c"],
  [("chaining and resize", "mcp_hashtable.c")]),

P("P15", "Arena allocations are aligned, disjoint and never outlive a reset",
  "Every block returned by an arena is suitably aligned, at least as large as requested, disjoint from all other live blocks and usable until the arena is reset or destroyed. Reset makes the space reusable without releasing it, destroy releases everything, and a request that cannot be met, including one whose size is close to the largest representable, fails without corrupting earlier blocks.",
  ["histories", "inputs", "fault_sequences"], "all sequences of allocation sizes including huge sizes, resets and allocation failures",
  "Tests allocate fixed sizes; overflow and block-boundary cases need all sizes.",
  ["src/common/mcp_arena.c"],
  [("bump allocation", "mcp_arena.c")]),

P("P16", "Buffer, object and memory pools never hand one block to two holders",
  "Each buffer or object obtained from a pool is distinct from every other one currently held, has the configured size, and stays valid until it is given back; giving it back makes it obtainable again. A pool with a maximum never exceeds it, also when two threads take from it at once, and destroying a pool releases all memory it obtained. Giving a buffer back twice, giving back NULL or giving a buffer to the wrong pool is refused without corrupting the pool.",
  ["histories", "fault_sequences", "schedules"], "all acquire/release histories with allocation faults",
  "Tests run simple acquire/release; double hand-out needs particular histories.",
  ["src/common/mcp_buffer_pool.c", "src/common/mcp_object_pool.c", "src/common/mcp_memory_pool.c"],
  [("free lists", "the three pool files")]),

P("P17", "Linked lists keep their elements in order with exact size",
  "After any sequence of insertions, removals and moves a list holds exactly the elements inserted and not removed, in the order the operations imply, readable both forwards and backwards; its size is the number of elements and destroying or clearing it hands every remaining element to the destructor exactly once. An operation that fails for lack of memory changes nothing, and on a shared list two threads' operations take effect as if one ran after the other.",
  ["histories", "fault_sequences", "schedules"], "all operation histories with allocation faults, and all interleavings of two operations on a shared list at its lock operations",
  "Lists have no unit test; head/tail handling must be right for every history.",
  ["src/common/mcp_list.c"],
  [("doubly linked list", "mcp_list.c")]),

P("P18", "The thread pool runs every accepted task exactly once",
  "Every task a thread pool accepts is run exactly once, whichever worker takes it and however submissions, workers and thieves interleave, also after the pool was made smaller and when it is destroyed. A task is refused exactly when every queue is full, and never overwrites a queued one. Waiting for the pool reports success only once every task submitted before has finished, and the statistics count each task once.",
  ["schedules", "histories"], "all interleavings of one owner and thieves over short operation sequences",
  "Races on the last element occur in a window of a few instructions that tests cannot hit deterministically.",
  ["src/common/mcp_thread_pool_deque.c", "src/common/mcp_thread_pool_tasks.c"],
  [("Chase-Lev deque", "mcp_thread_pool_deque.c")]),

P("P19", "Length-prefixed framing delivers messages intact over any segmentation",
  "A frame sent is a four-byte big-endian length followed by exactly the payload, even when the connection accepts it in pieces, is interrupted or is only briefly unable to take more; receiving hands over exactly the bytes of each frame, whole and in order, for any segmentation. A length above the limit, a peer that closes mid-frame, a failing connection, a stop request and lack of memory give an error with no partial message, no leak and no memory error.",
  ["inputs", "schedules", "fault_sequences"], "all payloads, lengths, limits, segmentations and failing calls",
  "Loopback tests always deliver whole segments.",
  ["src/common/mcp_framing.c", "src/common/mcp_socket_utils.c", "src/transport/mcp_tcp_client_receiver.c", "src/transport/mcp_tcp_client_handler.c"],
  [("send and receive loops", "mcp_framing.c and mcp_socket_utils.c"), ("receive loops", "mcp_tcp_client_handler.c, mcp_tcp_client_receiver.c")]),

P("P20", "String buffers and escaping are exact and stay in bounds",
  "Appending to a growable string buffer yields the concatenation of what was appended, always NUL-terminated and within its capacity, and an allocation failure leaves the earlier content intact. Text appended as a JSON string is a valid JSON string literal denoting exactly that text, and the splitting, copying, prefix, suffix, wildcard and case-insensitive comparison helpers agree with their definitions.",
  ["inputs", "fault_sequences"], "all strings, including control characters, and all buffer sizes",
  "String helpers have no unit test; buffer growth boundaries and control characters need all inputs.",
  ["src/common/mcp_string_utils.c"],
  [("dynamic buffer", "mcp_string_utils.c")]),

P("P21", "The gateway routes each request by its own content to the configured backend",
  "The backend chosen for a request is the one whose routing entry covers the resource URI or tool named in that request, or none when no entry covers it, and depends on nothing but the request and the current configuration: earlier requests and earlier configurations never influence it.",
  ["inputs", "histories", "configurations"], "all backend tables, requests and request histories",
  "The gateway has no unit test; stale routing appears only after particular histories.",
  ["src/gateway/mcp_gateway_routing.c", "src/gateway/mcp_gateway_config_manager.c", "src/gateway/mcp_gateway_config.c"],
  [("routing table", "mcp_gateway_routing.c"), ("lookup cache", "mcp_gateway_config_manager.c")]),

P("P22", "A client call completes only with the response to its own request",
  "Each response is delivered to the pending call with that id and to no other; a call returns that response's result or error, or a timeout, or a transport error, never another call's data. Unknown, duplicate and malformed responses change no pending call, and a call that has failed or timed out leaves nothing pending.",
  ["histories", "schedules", "inputs"], "all arrival orders and contents of responses relative to pending calls",
  "Tests only check null handling; correlation errors need particular arrival orders.",
  ["src/client/mcp_client_request.c", "src/client/mcp_client_core.c", "src/client/mcp_client_hash_table.c"],
  [("response correlation", "mcp_client_core.c mcp_client_receive_callback"), ("waiting", "mcp_client_request.c")]),

P("P23", "The pending-request table finds exactly the requests still outstanding",
  "After any sequence of adding, looking up and removing request ids, a lookup finds an id exactly if it was added and not removed since; an id that was removed can be added again, adding never fails while capacity can grow, and growing preserves every outstanding entry.",
  ["histories", "inputs"], "all histories over arbitrary ids, including colliding ones and growth",
  "The table has no unit test; collisions with removed entries need particular ids.",
  ["src/client/mcp_client_hash_table.c"],
  [("open addressing", "mcp_client_hash_table.c")]),

P("P24", "The connection pool bounds connections and never lends a dead or shared socket",
  "The pool never has more connections than its maximum and never lends one connection to two holders; a connection it has closed, or one returned as invalid, is never lent again. The counts it reports equal the connections lent and idle, and waiting callers are served or time out.",
  ["histories", "fault_sequences", "schedules"], "all get/release/maintenance histories with connect failures, timeouts and health results",
  "The pool has no unit test; idle-timeout and failure paths need particular histories.",
  ["src/connection_pool/mcp_connection_pool.c", "src/connection_pool/mcp_connection_pool_maintenance.c", "src/connection_pool/mcp_connection_pool_health.c"],
  [("get and release", "mcp_connection_pool.c"), ("maintenance", "mcp_connection_pool_maintenance.c")]),

P("P25", "The gateway pool shares backend clients safely and within its limit",
  "Each backend's pool lends a client connection to at most one holder at a time, holds no more than its maximum, and never lends one it has destroyed; every path leaves its lock released exactly once. A place given up, also because a connection could not be made, is never lost and wakes whoever waits for one.",
  ["histories", "fault_sequences", "schedules"], "all get/release histories with creation and health failures",
  "The gateway pool has no unit test; failure paths need injected faults.",
  ["src/gateway/mcp_gateway_pool.c"],
  [("get and release", "mcp_gateway_pool.c")]),

P("P26", "Cached name lookups stay valid while they are in use",
  "A name-resolution result handed to a caller stays valid until that caller releases it, however many other lookups, expiries and evictions happen meanwhile, and always belongs to the host and port asked for. Expired results are not handed out anew, and released results are eventually freed exactly once.",
  ["histories", "fault_sequences", "schedules"], "all lookup/release/expiry histories with more names than slots",
  "No test covers the cache; eviction of in-use entries needs a full table.",
  ["src/connection_pool/mcp_connection_pool_dns_cache.c"],
  [("reference counts", "mcp_connection_pool_dns_cache.c")]),

P("P27", "HTTP sessions are found only while alive",
  "A session is found by its identifier from creation until it is terminated or has been idle longer than its timeout, and not after; using it renews it, and a session without timeout never expires. Identifiers are unique and well formed, no session is made without randomness or beyond the capacity, and after a clean-up the active count equals the sessions alive.",
  ["histories", "inputs", "fault_sequences"], "all create/use/terminate/cleanup histories, clock advances and failures of the random source",
  "No test covers the session manager; expiry boundaries need all clock values.",
  ["src/transport/mcp_http_session_manager.c"],
  [("session table", "mcp_http_session_manager.c")]),

P("P28", "SSE replay resends exactly the missed events in order",
  "After a client reconnects with the last event id it saw, replay sends exactly the stored events newer than that one, each once, in the order they were stored; the store keeps the most recent events up to its capacity.",
  ["histories", "inputs"], "all store histories beyond capacity and all last-event ids",
  "No test covers the event store; wrap-around behaviour needs histories longer than the capacity.",
  ["src/transport/mcp_sthttp_utils.c", "src/transport/mcp_sthttp_dynamic_utils.c"],
  [("event ring", "mcp_sthttp_utils.c")]),

P("P29", "HTTP responses and event streams parse the same however they are segmented",
  "The HTTP response parser and the SSE parser report the same status, headers, body and events for every way of cutting the same byte stream into pieces, never read outside the piece given, and report malformed input as an error.",
  ["inputs", "schedules"], "all byte streams and cut points",
  "Tests never cut the stream inside a token.",
  ["src/transport/mcp_sthttp_http_parser.c", "src/transport/mcp_sthttp_sse_parser.c"],
  [("state machines", "the two parser files")]),

P("P30", "A saved MQTT session loads back unchanged or not at all",
  "Loading a session returns exactly what was last saved for that client identifier, in the same order, and nothing for an identifier never saved, deleted or expired; different identifiers never share a session. A save that fails leaves the previously saved session, and one that is interrupted leaves the old or the new one. A truncated file is refused, and no file contents cause a memory error.",
  ["crash_points", "fault_sequences", "inputs", "histories"], "all session contents, identifiers, failing or interrupted file operations and file contents",
  "No test covers persistence; crash points and malformed files cannot be enumerated by hand.",
  ["src/transport/mqtt_session_persistence.c"],
  [("file names", "mqtt_session_persistence.c: get_session_path"), ("file format", "mqtt_session_persistence.c: mqtt_session_save, mqtt_session_load"), ("expiry", "mqtt_session_persistence.c: mqtt_session_is_expired, mqtt_session_cleanup_expired")]),

P("P31", "WebSocket client slots are exclusive, recycled and bounded",
  "A connecting WebSocket client gets a slot no other active client holds or is refused when all are taken; a slot is free again after its client has gone, and slot bookkeeping never touches memory outside its table for any index.",
  ["histories", "inputs"], "all occupancy patterns, indices and table sizes",
  "No test covers the slot bitmap.",
  ["src/transport/mcp_websocket_server_bitmap.c", "src/transport/mcp_websocket_server_client.c"],
  [("bitmap", "mcp_websocket_server_bitmap.c")]),

P("P32", "The schema cache never changes what validation would decide",
  "A cached schema is returned only for exactly the schema text it was compiled from, for every history of adding, finding, removing, evicting and clearing; the cache stays within its capacity, its statistics count each lookup once, and no history makes it use freed memory.",
  ["histories", "inputs"], "all histories over schema texts, including repeated and colliding ones",
  "Tests add and find distinct schemas once.",
  ["src/json/mcp_json_schema_cache.c", "src/json/mcp_json_schema_validate.c"],
  [("LRU list and hash", "mcp_json_schema_cache.c")]),

P("P33", "Cross-origin requests are accepted only from allowed origins",
  "When an origin allow-list is configured, a request to the HTTP endpoint that carries an origin, whether it posts a message, opens an event stream or ends a session, is served only if the origin equals one of the entries or begins with the text before an entry's final '*'. Any other origin, including one too long to be examined, gets an error and has no effect; requests without an origin and from allowed origins are served.",
  ["inputs", "configurations"], "all allow-lists and origin strings, for each kind of request",
  "No test covers origin validation; prefix confusions and overlong headers need adversarial strings.",
  ["src/transport/mcp_sthttp_utils.c", "src/transport/mcp_sthttp_callbacks.c", "src/transport/mcp_sthttp_threads.c"],
  [("origin check", "mcp_sthttp_utils.c validate_origin"), ("allow-list", "mcp_sthttp_utils.c parse_allowed_origins"), ("header extraction", "mcp_sthttp_callbacks.c extract_origin_header")]),

P("P34", "Locks are released on every path of the shared components",
  "Every public operation of the caches, limiters, pools, lists and tables returns with each lock it took released exactly once and never re-acquires a lock it holds, on every path including allocation failure and invalid arguments, so no later caller can block forever.",
  ["inputs", "fault_sequences", "histories"], "all operations with arbitrary arguments and allocation failures",
  "Tests do not take the failing paths where an unlock is missing.",
  ["src/server/mcp_cache.c", "src/server/mcp_rate_limiter.c", "src/common/mcp_list.c", "src/gateway/mcp_gateway_pool.c"],
  [("lock pairing", "every file using mcp_sync")]),

P("P35", "Timed waits last as long as requested and report what ended them",
  "A timed wait on a condition variable that nobody notifies ends with a timeout once the requested time has passed, neither earlier nor later, whatever the current time of day; a notified wait succeeds, and any other failure is reported as neither. Mutexes are held exactly between lock and unlock, a recursive one as often as it was taken, and failed creation leaks nothing.",
  ["inputs", "fault_sequences"], "all timeouts, all states of the real-time and monotonic clocks, all outcomes of the underlying wait",
  "Tests that use a timed wait pass whether it lasts the requested time or ends at once; clock mix-ups and carry errors depend on the current time.",
  ["src/common/mcp_sync.c"],
  [("deadline computation", "mcp_sync.c mcp_cond_timedwait"), ("clock selection", "mcp_sync.c mcp_cond_create")]),

P("P36", "Reads, calls and listings return exactly what the application provides",
  "A successful resource read returns every content item the application, a template route or the cache supplied, once and in order, with its type and text and the URI asked for; a successful tool call returns the tool's items and error flag likewise. Listings name every registered tool, resource and template once with its attributes and required parameters, and each supplied item is released exactly once.",
  ["inputs", "configurations"], "all numbers and kinds of items, present and absent attributes, names and texts",
  "The request handlers are not unit-tested; ownership and ordering mistakes show only with several items or absent attributes.",
  ["src/server/mcp_server_handlers.c"],
  [("content assembly", "mcp_server_handlers.c build_content_json, build_tool_content_json"), ("listing callbacks", "mcp_server_handlers.c list_*_callback"), ("read order: cache, route, handler", "mcp_server_handlers.c handle_read_resource_request")]),

P("P37", "WebSocket messages reach the server exactly as the client sent them",
  "A message received over a WebSocket connection in any number of fragments is handed to the server once, complete, terminated and in order, whatever the fragment sizes, and the answer is sent back. Receive buffers grow as needed without corrupting memory, are never shared between clients, and are all given back when the client has gone.",
  ["inputs", "histories"], "all fragmentations over pool, heap and mixed buffers, small and larger than a pool buffer",
  "No test sends fragments through the server callback; growth beyond a pool buffer needs a particular size sequence.",
  ["src/transport/mcp_websocket_server_client.c", "src/transport/mcp_websocket_server_callback.c", "src/common/mcp_buffer_pool.c"],
  [("receive buffer growth", "mcp_websocket_server_client.c ws_server_client_resize_buffer"), ("reassembly", "mcp_websocket_server_client.c ws_server_client_handle_received_data")]),

P("P38", "HTTP request bodies reach the server exactly as sent",
  "A request posted to the HTTP endpoint is handed to the server once, after its body is complete, with exactly the bytes sent however they were cut into pieces, and the server's answer is sent back. When memory runs out the request is dropped without a memory error, and everything is released when the connection closes.",
  ["inputs", "fault_sequences"], "all bodies and segmentations, every allocation failure",
  "Tests post one short body; growth at exact buffer sizes and allocation failure are not exercised.",
  ["src/transport/mcp_sthttp_callbacks.c", "src/transport/mcp_sthttp_threads.c"],
  [("body accumulation", "mcp_sthttp_callbacks.c handle_http_body"), ("completion", "mcp_sthttp_callbacks.c handle_http_body_completion")]),
]
