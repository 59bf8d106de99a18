import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','A message survives encoding and parsing unchanged',
 'Encoding any request, notification, result or error message and parsing the bytes gives back a message of the same kind with the same id (integer or string, type kept), method, params (both their values and whether they were a list or one bare value), result or error code/message/data, and trace id, with every number kept digit for digit and every string kept character for character. The encoding is a JSON-RPC 2.0 object with exactly the members of its kind. The byte, string, pretty-printed and map forms of one message all denote the same JSON object.',
 ['inputs'],'every message kind x every id, method, trace id and JSON-valued params/result/error data (any nesting, size, number literal, unicode string)',
 'Tests encode or parse a dozen fixed messages; none compares encode-then-parse for arbitrary payloads, big numbers, bare params, empty containers or trace ids.',
 ['messageimpl.go','parse.go','types.go','utils.go'],
 [('per-kind wire templates','messageimpl.go Interface()'),('parse with exact number literals','parse.go DecodeMessage'),('struct to map conversion','utils.go DecodeInterface')],
 ['ParseBytes','MessageBytes','MessageString','EncodePretty','MessageMap'])
p('C02','Parsing is total and classifies every input the same way',
 'For any bytes, parsing returns either one message or an error and never crashes. A JSON object with a non-null error member is an error message, else with a non-null result member a result, else with a non-empty method a request when it has an id and a notification when it has none, else with an id alone a null result; anything else is rejected, as are error and result together, a method without params, an id that is neither an integer nor a string, an error member that is not an object or whose code or message has the wrong type, and a method or trace id that is not a string. Whatever is accepted can be encoded and parsed again to the same message.',
 ['inputs'],'all byte strings, and all JSON objects over the message members with values of every JSON type',
 'Tests parse about ten literals; precedence between members, wrong member types and malformed bytes are almost entirely unsampled.',
 ['parse.go'],[('member union then precedence chain','parse.go DecodeMessage'),('id decoding','parse.go decodeId'),('params decoding','parse.go decodeParams')],
 ['ParseBytes result, error, message predicates'])
p('C03','A stream of messages decodes the same however it is chunked',
 'Decoding a byte stream that is a concatenation of messages, with or without whitespace between them and delivered in chunks of any size, yields exactly the messages that parsing each one alone yields, in order, followed by end of stream. A stream cut in the middle of a message yields the complete messages before the cut and then an error, never a partial or invented message; a stream that fails to be read further yields an error that is not the end of the stream.',
 ['inputs','fault_sequences'],'all sequences of messages x separators x chunk boundaries x cut points',
 'One test decodes five messages from one buffer and one splits a single message at one point.',
 ['parse.go','http/h2_client.go','http/h2_server.go'],[('streaming decode','parse.go DecodeMessage'),('newline framing','http/h2_client.go WriteMessage')],
 ['DecodeMessage over a chunked reader'])
p('C04','Messages derived from another message carry everything but what changed',
 'Replacing the id of a request, result or error, or cloning a request, gives a message of the same kind that differs from the original only in its id, and leaves the original untouched. A result or error built in reply to a request carries the request\'s id and trace id and the given result or error code, message and data; attaching data to an error never alters the shared error it came from. Accessors return the corresponding member, and panic exactly when the message kind has no such member; the cache key of a request depends only on prefix, method and params and differs when method or params differ.',
 ['inputs','histories'],'all messages of all kinds x all new ids, chains of derivations, and pairs of requests for the cache key',
 'Tests derive a handful of messages with list params, never with bare params or trace ids, and never check that originals or shared error values stay untouched.',
 ['messageimpl.go','errors.go'],[('ReplaceId/Clone','messageimpl.go'),('reply constructors','messageimpl.go NewResultMessage, NewErrorMessage, ToMessage'),('WithData','messageimpl.go'),('CacheKey','messageimpl.go')],
 ['encoded form of derived and original messages','accessor values and panics'])
p('C05','Schema validation accepts exactly the conforming documents',
 'Validating a JSON document against a schema accepts it exactly when it conforms: the base types; inclusive number bounds unless marked exclusive; string length bounds counted in bytes; list item schema and count bounds; tuples position by position, with extra items only when an additional-items schema accepts them; objects with required, declared and additional properties; anyOf, allOf and not; and methods, whose params are checked like a tuple and whose result is checked against the declared return. When it rejects, the reported path names a place in the document where a rule really is broken, and the answer does not depend on what the same validator or schema checked before.',
 ['inputs','histories'],'all schemas (any nesting) x all JSON documents, near-misses included, x all earlier validations with the same validator',
 'Tests validate about forty literals against twelve schemas; bounds with equality, nested combinators, additional schemas and reuse after failure are barely touched.',
 ['schema/schema.go','schema/validator.go'],[('per-type Scan','schema/schema.go'),('path stack','schema/validator.go pushPath/popPath')],
 ['Validate / ValidateBytes verdict and error path'],[('paths','stack of the location being validated','schema/types.go SchemaValidator')])
p('C06','Schemas are built faithfully from JSON or YAML, or refused',
 'Building a schema from a well-formed description, in JSON or the equivalent YAML, in shorthand (a type name for a whole node, or a type inferred from params, properties, anyOf, allOf or not) or spelled out, and with any property names, gives schemas that are all equal and give the same verdicts the description calls for. A description with a missing or unknown type, a child that is not a schema, a missing items, params, anyOf, allOf or not member, a required property that is not declared, a name or description that is not a string, or a non-string YAML key is refused with an error at any depth. No JSON or YAML input makes the builder crash.',
 ['inputs'],'all schema descriptions, well-formed and malformed at any position and depth, in both syntaxes',
 'Tests build about twenty descriptions, three of them YAML, with the malformation always at the top level.',
 ['schema/builder.go','schema/convert.go'],[('type inference and shorthand','schema/convert.go convertTypeMap'),('per-type builders','schema/builder.go'),('YAML map normalisation','schema/builder.go FixYamlMaps')],
 ['BuildBytes','BuildYamlBytes','Build','Equal','validation verdicts'])
p('C07','A schema\'s own description rebuilds an equal schema',
 'Rebuilding a schema from its printed description gives a schema equal to the original, so every constraint, name and description it has is in the description and the rebuilt schema gives the same verdict on every document. Equality is reflexive and symmetric, holds between schemas built from descriptions that differ only in member order, and fails when any type, constraint, name, description, child, required property or additional schema differs.',
 ['inputs'],'all schemas, all single-point edits of a schema, all documents',
 'No test rebuilds a schema from its description, and equality is tested once on two bare string schemas.',
 ['schema/schema.go'],[('Map / SchemaToString','schema/schema.go'),('Equal','schema/schema.go')],
 ['SchemaToString -> BuildBytes','Equal'])
p('C08','Calls are routed to the one handler the registrations select',
 'A request or notification is handled, exactly once, by the handler its actor registered for that method, else by the first child actor (in the order added, recursively) that has the method, else by the actor\'s missing handler; with none of these a request is answered "method not found" and a notification is ignored, and a message that is not a call goes only to the missing handler. Registering a method twice is refused and keeps the first handler, unregistering removes only that method, and the queries for whether a method exists, for the list of methods and for a method\'s schema always agree with where a call would be routed. A closed stream notifies every actor in the tree that has a close handler exactly once. A server handler made without an actor gets one of its own.',
 ['histories','inputs'],'all sequences of register, unregister, add-child, missing and close registrations over a tree of actors, interleaved with calls and queries',
 'One test builds one parent with one child and asks three questions; precedence, nesting, removal and duplicates are not tested.',
 ['http/request.go'],[('Feed','http/request.go'),('Has / MethodList / GetSchema','http/request.go'),('OnRequest, Off, AddChild','http/request.go'),('HandleClose','http/request.go')],
 ['Feed result','which handler ran','Has, MethodList, GetSchema'],[('methodHandlers','method to handler table of one actor','http/request.go Actor'),('children','child actors in order','http/request.go Actor')])
p('C09','Every request gets exactly one matching reply, a notification none',
 'Whatever a handler does with a request, the actor produces exactly one reply carrying the request\'s id and trace id: its value as the result, an RPC error it returned (also when wrapped in other errors) with that code, message and data, and an internal error for any other error. A handler that panics with an error value is answered the same way as if it had returned that error, and does not disturb later calls. A notification never produces a reply, and a message a handler returns as its result is passed on as it is.',
 ['inputs','histories'],'all handler outcomes (values, plain/RPC/wrapped errors, panics with errors) x all requests and notifications x handler registered on root, child or as missing handler',
 'Tests reach normal results and two RPC errors; wrapped errors, panics, trace ids and notifications that fail are not tested.',
 ['http/request.go','messageimpl.go'],[('wrapResult','http/request.go'),('recoverCallHandler / recoverCallMissingHandler','http/request.go')],
 ['Feed result for a request or notification'])
p('C10','Handlers with a schema only ever see conforming params',
 'When schema checking is on for the actor that has it, a handler registered with a method schema runs exactly when the params list conforms to the schema, for requests and notifications alike, and a request that does not conform is answered with an invalid-schema error carrying its id. When checking is off, or no schema was given, the handler always runs. The schema may be given as an object, JSON text or YAML text with the same effect.',
 ['inputs','configurations'],'all method schemas x all params x checking on or off x schema given in each form x handler on root or child actor',
 'One test sends one conforming and one non-conforming call over one schema.',
 ['http/request.go','schema/validator.go'],[('schema check in Feed','http/request.go'),('WithSchema setters','http/request.go')],
 ['whether the handler ran','Feed result'])
p('C11','Typed handlers get exactly the arguments sent, or are not called',
 'A typed handler receives each param converted to its declared type with the value sent (integers and floats, strings, booleans, lists, maps, structs by JSON name, pointers and any-typed values, with null giving the zero value), preceded by the request or context when it asks for one, and extra params are ignored, except that the last argument of a variadic function takes all the rest. When there are too few params or one does not have the declared type, the caller gets a params error and the handler is not called. What the handler returns reaches the caller as the JSON value of that result, or as the error it returned; a function that does not fit a typed registration is refused when registering.',
 ['inputs','programs'],'handler signatures over the supported parameter types x params of every JSON type and count',
 'Tests use two signatures (string, and two ints) and five argument lists; null, any-typed, struct, pointer, list and map arguments are never sent.',
 ['http/typewrap.go','http/request.go'],[('wrapTyped','http/typewrap.go'),('interfaceToValue / valueToInterface','http/typewrap.go')],
 ['arguments seen by the handler','reply'])
p('C12','The HTTP endpoint answers every request as JSON-RPC prescribes',
 'For every HTTP/1 request the endpoint answers 405 to a method other than POST, 400 to a body that is not a JSON-RPC message, and 200 otherwise: with the JSON reply of the right id and a JSON content type for a request, with an empty body for a notification its handler accepted; a notification whose handler failed gets 500. A trace id sent in the body or the trace header comes back in the trace header and not in the body (one that no header can carry spoils no reply), a result that cannot be encoded becomes an internal error with the same id, and a wrapped HTTP response returned by a handler (or a simple one, for a notification) is relayed with its status, headers and body. Handlers are not run for rejected requests.',
 ['inputs'],'all HTTP methods, bodies (valid, malformed, any message kind), trace headers and handler outcomes',
 'Tests send one GET and a few well-formed POSTs through the library\'s own client and never look at headers, bodies or status of the raw reply.',
 ['http/h1_server.go'],[('ServeHTTP','http/h1_server.go')],['raw HTTP response'])
p('C13','Every transport gives the same answer to the same call',
 'The same request sent through the HTTP/1, websocket, HTTP/2 and cleartext HTTP/2 clients, to a dedicated server or through the shared gateway (secure or not), reaches the handler with the same method, params and trace id and returns the same id, trace id and result or error, with payloads of any size and all numbers exact. Unwrapping a call decodes that result into the caller\'s value or returns the RPC error itself. A notification sent through any of them reaches its handler exactly once.',
 ['inputs','configurations'],'all transports and server compositions x all requests and notifications (payload sizes past every buffer) x all handler outcomes',
 'Tests send one or two tiny calls per transport with hand-picked results and never compare transports or large payloads.',
 ['http/h1_client.go','http/h1_server.go','http/ws_client.go','http/ws_server.go','http/h2_client.go','http/h2_server.go','http/gateway_handler.go','http/streaming_client.go','http/client_factory.go'],
 [('protocol dispatch','http/gateway_handler.go'),('transports','http/*_client.go, http/*_server.go'),('scheme dispatch','http/client_factory.go')],
 ['what the handler saw','what the client returned'])
p('C14','Concurrent streaming calls each get their own reply',
 'On one streaming connection, whatever the number of calls in flight, the order, duplication or absence of replies, and even when several calls in flight use the same id, each call returns the reply the server gave to that very call, carrying the caller\'s own id. Replies nobody waits for and all non-reply messages go to the message handler, once each and in the order received. Frames that carry no message disturb nothing. Ids of any integer type or string are supported, and the ids the library makes are never the same twice.',
 ['histories','schedules','inputs'],'all interleavings of calls, same-id calls, replies in any order, duplicates, unknown replies and server pushes on one connection',
 'Tests make one call at a time and never have two calls in flight.',
 ['http/streaming_client.go'],[('pending request table','http/streaming_client.go request, handleResult'),('id substitution','http/streaming_client.go request / handleResult')],
 ['Call results','message handler invocations','messages written to the transport'],[('pendingRequests','calls waiting for a reply by wire id','http/streaming_client.go')])
p('C15','Every streaming call ends, on time, whatever the connection does',
 'Every call on a streaming connection returns: its reply when one arrives within ten seconds of the call, otherwise a timeout error at ten seconds or a connection error, never earlier because of another call and never later, even if the connection breaks, is closed or fails to write while calls are in flight. After a connection has ended, the wait has returned what ended it (nothing when it was closed on purpose), the close handler has run once, and the next call or send connects again and works. The connected handler runs once per established connection and may itself use the client. A second handler of a kind that is already set is refused and changes nothing.',
 ['fault_sequences','histories','schedules'],'all histories of calls, replies, delays, breaks, write failures, deliberate closes, context cancellations and reconnects on a virtual clock',
 'Tests close a server once with no call in flight; timeouts, reconnects and failures under load are never exercised, as a ten second timeout is too slow for them.',
 ['http/streaming_client.go'],[('expire','http/streaming_client.go'),('Reset / handleError / Connect','http/streaming_client.go'),('sendLoop / recvLoop','http/streaming_client.go')],
 ['Call outcome and virtual time','Wait, OnClose, OnConnected'],[('sendChannel, closeChannel','queues of the current connection','http/streaming_client.go')])
p('C16','Streaming sessions deliver pushes in order and end exactly once',
 'A message a server handler sends on a session reaches that session\'s client only, exactly once and in the order sent, interleaved with that client\'s replies but never lost, merged or held back; one that cannot be encoded is left out alone. Each connection has its own session, with a unique id that stays the same for all its requests, and its close callback runs exactly once, after the connection ended, with that session. With concurrent handling on, as it is by default, a slow message does not hold up those after it; switched off, the messages of one connection are handled one at a time in the order they were sent.',
 ['histories','schedules'],'all histories of connects, calls that push, cross-session pushes and disconnects over websocket and HTTP/2',
 'No test uses a session or a push at all.',
 ['http/ws_server.go','http/h2_server.go','http/request.go'],[('session send queue','http/ws_server.go, http/h2_server.go sendLoop'),('HandleClose','http/request.go')],
 ['messages received per client','session ids','close callbacks'])
p('C17','No client can crash or wedge a server for the others',
 'Whatever bytes, messages and disconnections clients produce over HTTP/1, websocket or HTTP/2 - malformed or oversized input, null or wrongly typed arguments, results that cannot be encoded, disconnecting with requests running or replies unsent - the server process keeps running and keeps answering other clients correctly. On a connection that is still open, one bad call does not stop later calls from being answered. A websocket connection answers pings and is not disturbed by pongs. When a connection has ended and its handlers have returned, nothing of it stays running.',
 ['inputs','fault_sequences','schedules'],'all histories of hostile client behaviour on every transport, against handlers of every outcome and speed',
 'Tests only use well-behaved clients.',
 ['http/ws_server.go','http/h2_server.go','http/h1_server.go','http/typewrap.go','http/request.go'],[('session teardown','http/ws_server.go ServeHTTP, http/h2_server.go ServeHTTP'),('panic recovery','http/request.go'),('send loops','http/ws_server.go, http/h2_server.go')],
 ['server process alive','replies to a witness client'])
p('C18','Requests pass authentication exactly when their credentials match',
 'Behind the authentication handler, a request reaches the protected handler exactly when no authentication is configured or its credentials match a configured basic user and password, bearer token or an unexpired token signed with the configured secret; every other request, malformed credentials included, is answered 401 and the protected handler never runs; clients of every transport report that refusal as an error. The identity (user name and settings) the handler sees is that of the matching credential. Configurations loaded from JSON and from YAML mean the same, and validation refuses those with an empty user, password, token or secret.',
 ['inputs','configurations'],'all authentication configurations x all Authorization headers, right, wrong, near-miss and malformed',
 'Tests try four fixed credentials against two configurations; malformed headers, near misses, forged tokens and settings are not tried.',
 ['http/auth_handler.go'],[('TryAuth','http/auth_handler.go'),('jwtAuth','http/auth_handler.go'),('ValidateValues','http/auth_handler.go')],
 ['status code','whether the next handler ran','AuthInfoFromContext'])
p('C19','A signed token stops working when it expires, cached or not',
 'Over any history of requests carrying any number of signed tokens, each request is admitted exactly when its own token is correctly signed and not expired at the time of that request, with the identity in that token. Earlier requests, successful or not, with the same or other tokens, and the size of the token cache, never change the decision.',
 ['histories','inputs'],'all histories of token presentations and clock advances, with more tokens than the cache holds',
 'One test presents one valid token once; expiry and the cache are never exercised because the wall clock would have to pass.',
 ['http/auth_handler.go'],[('jwtAuth cache and expiry check','http/auth_handler.go')],
 ['admit/deny and identity per request on a virtual clock'],[('jwtCache','verified tokens by header','http/auth_handler.go')])
p('C20','Shutting down ends every session and frees the port',
 'When the context of a running server is cancelled, serving returns, the port stops accepting connections and can be served again, and every open websocket and HTTP/2 session ends: its close callback runs once, its client\'s wait returns and close handler runs, and no reply is invented for calls still in flight. Nothing of the ended sessions stays running, even where a client reads nothing. Cancelling one server does not affect another. Serving uses TLS exactly when TLS settings are given, and returns an error, keeping no port, when its certificate files are unusable or the address cannot be listened at; validation refuses TLS settings without a certificate or a key file.',
 ['histories','configurations'],'all transports x numbers of sessions and in-flight calls at the time of shutdown',
 'Two tests cancel one server with one idle client each and check only the client\'s close handler.',
 ['http/server_utils.go','http/ws_server.go','http/h2_server.go','http/streaming_client.go'],[('ListenAndServe','http/server_utils.go'),('session wait on server context','http/ws_server.go, http/h2_server.go wait')],
 ['ListenAndServe return','close callbacks','client Wait and OnClose'])
p('C21','Command line values become the JSON values they spell',
 'A command line argument that spells a JSON value becomes that value: 64-bit integers and floats, true, false and null, arrays, objects and quoted strings (numbers inside them digit for digit); @file gives the JSON in that file and anything else is the string itself. Malformed arrays, objects, quoted strings and files are refused with an error, the result can always be sent as JSON, and a list of arguments converts element by element in order or fails as a whole.',
 ['inputs'],'all argument strings and lists of them',
 'Tests try about fifteen literals.',
 ['utils.go'],[('GuessJson','utils.go'),('GuessJsonArray','utils.go')],['returned value and error'])
p('C22','Positional params fill a struct field by field',
 'Decoding a params list into a struct gives each exported field, in declaration order, the value of the param at the same position converted to the field\'s type; null gives the zero value; fields beyond the params and unexported fields keep what they had; extra params are ignored. A param of the wrong type, or a target that is not a pointer to a struct, gives an error and never a crash. A single value decoded into a variable is converted the same way.',
 ['inputs','programs'],'structs over the supported field types x params of every JSON type and length',
 'One test fills one struct with three params and checks two errors.',
 ['utils.go'],[('DecodeParams','utils.go')],['struct contents and error'])
p('C23','Big integers keep every digit through JSON',
 'An arbitrary-precision integer of any size and sign is written to JSON as a string of its decimal digits, which is also its printed form, and read back, alone or inside a structure, quoted or as a bare number, it is the same integer. JSON that is not a decimal integer is refused with an error.',
 ['inputs'],'all integers (thousands of digits) and all JSON values in their place',
 'One test round-trips one positive integer.',
 ['utils.go'],[('Bigint MarshalJSON/UnmarshalJSON/Load/String','utils.go')],['marshalled bytes','decoded value'])
p('C24','Method name rules accept exactly the permitted names',
 'A string is a method name exactly when it is non-empty and made only of ASCII letters, digits and - _ : + . characters. It is a public method name exactly when it starts with a letter or digit, continues with those characters or / \\ & #, and does not start with the reserved prefix "rpc.".',
 ['inputs'],'all strings, including control, newline and non-ASCII characters',
 'One test tries five names.',
 ['validators.go'],[('IsMethod','validators.go'),('IsPublicMethod','validators.go')],['IsMethod','IsPublicMethod'])
p('C25','A client call leaves the caller\'s message and other clients alone',
 'Calling or sending a message through any client leaves the caller\'s message exactly as it was, trace id included, so that it can be sent again with the same effect. The extra headers last given to a client and its TLS settings apply to every later connection or request of that client and to no other client or other user of the process. A header flag list becomes exactly the named headers, or an error for an entry without "=".',
 ['histories','configurations','inputs'],'all transports x repeated use of one message x several clients with different headers and TLS settings in one process',
 'Tests use each message once and never look at it afterwards, and use one client at a time.',
 ['http/h1_client.go','http/ws_client.go','http/h2_client.go','http/client_util.go'],[('trace id moved to a header','http/h1_client.go request, Send'),('extra headers','http/h1_client.go, http/streaming_client.go'),('TLS config','http/ws_client.go Connect, http/h2_client.go HTTPClient')],
 ['encoded message before and after','headers seen by the server','TLS outcome per client'])
p('C26','The command line tools send what was typed and print what came back',
 'The call tool sends one request with the given method and the converted arguments and headers over the transport of its server url, prints exactly the reply as JSON and exits 0; the notify tool sends exactly one notification; the watch tool stays connected, connects again after each end of the connection as long as it may retry, and prints the reply and every pushed message in order; the benchmark makes exactly the requested number of calls with as many at once as requested and prints times that fit each other and what the calls took. Bad arguments, urls, headers and flags give a non-zero exit and no call, and so do unreachable, untrusted and refusing servers and those that hang up in the middle of the message, except that the benchmark goes on and counts them.',
 ['inputs','configurations'],'all method names, argument lists, headers and server urls',
 'No test runs any command line tool.',
 ['cli/call/main.go','cli/notify/main.go','cli/watch/main.go','cli/benchmark/main.go'],[('argument handling','cli/*/main.go'),('client selection','http/client_factory.go')],
 ['what the server received','stdout and exit status'])
p('C27','Clients report servers that misbehave and recover when they work',
 'A client whose server cannot be reached, drops the connection, does not speak its protocol, answers another HTTP status, or over HTTP/1 cuts its answer short or answers anything that is not a JSON-RPC reply, fails each call and unwrapped call with an error, never with an invented reply and never with a crash; so do notifications and explicit connects, except that over HTTP/1 the body of the answer to a notification is not looked at. Over HTTP/1 the error for another status carries that status, the response headers and, for calls, the body. A server that stays silent holds up a connecting client or an HTTP/1 request until the deadline of the given context, and an HTTP/1 request no longer, and no shorter, than the time limit of the client. A streaming session that receives junk ends at the latest when the server ends it. As soon as the server works again, so does the same client.',
 ['histories','configurations','inputs'],'all client and server kinds x sequences of kinds of misbehaviour and working phases x operations, one after another or at once',
 'Tests only meet a server that works; one test gets an HTTP error status.',
 ['http/h1_client.go','http/streaming_client.go','http/ws_client.go','http/h2_client.go','http/errors.go'],[('request, Send, WrappedResponse','http/h1_client.go, http/errors.go'),('Connect','http/ws_client.go, http/h2_client.go'),('establish','http/streaming_client.go')],
 ['returned error, reply and output of each operation','its duration','whether the client is connected'])
p('C28','A url leads every client to the same place',
 'Creating a client from a url succeeds exactly when the url is well formed and its scheme, in any letter case, is http, https, ws, wss, h2 or h2c; it makes an HTTP/1 client for the first two, a websocket client for the next two and an HTTP/2 client for the last two, unconnected, and never crashes. Every call, notification and reconnection of that client goes to the host of the url and carries its path and query exactly, over TLS for https, wss and h2 and in the clear for http, ws and h2c, and the handler sees them. The caller\'s url value is left as it was.',
 ['inputs','configurations'],'all url strings, well formed or not x all transports and servers x all paths and queries',
 'Tests use six fixed urls without a path or a query.',
 ['http/client_factory.go','http/h1_client.go','http/ws_client.go','http/h2_client.go','http/request.go'],[('NewClient','http/client_factory.go'),('constructors','http/h1_client.go, http/ws_client.go, http/h2_client.go')],
 ['type and error of NewClient','request target, host, TLS state and protocol seen by the handler'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
