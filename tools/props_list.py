RT = "runtime monitoring"
prop("C01", "Every conforming wire value survives reading and writing, in every version",
     "A JSON value that conforms to the published schema of a public wire type is accepted by that type in that protocol version, whatever the order of its members and whichever way it is read. Writing it back gives the same value - nothing lost, invented, renamed or altered, absent and null kept apart where the schema does - and what is written conforms to the schema. Cloning and re-reading what was written change nothing.",
     ["inputs", "configurations"], "all conforming JSON values of every public type of all six protocol versions, read from text, bytes, a slow reader or an in-memory value",
     "The tests round-trip some dozens of hand-written messages, mostly of the default version; optional members, extra members, unusual numbers and strings, nested unions and the older versions' types are not sampled.",
     SCH, [("derived and hand-written serde implementations of the wire types", "src/generated_schema/*/mcp_schema.rs"), ("number and constant validators", "src/generated_schema/*/*_validators*.rs")],
     "schema-driven workload with an online round-trip monitor on every public type",
     "for every public type, values are generated from its published schema in six profiles (minimal, maximal, random, sparse, dense, hostile); one evaluation is one conforming value observed through all reading paths; distinct by type and value",
     "Seeded exploration: 120 values per type and version in the quick tier, 1500 in the thorough tier, each through six reading paths; the oracle is the committed schema, not the code.", 20000, quick_scale=200)
prop("C05", "A message is classified as what it is, and its accessors agree with the wire",
     "A JSON-RPC message either side may send is read as exactly one of request, notification, response or error, the one the JSON-RPC rules give it, with the payload its method names. Every predicate and accessor (kind, id, protocol tag, method, initialize checks) reports what is on the wire, and extracting the message as its own kind returns it whole while extracting it as another kind is an error, never a panic. A JSON object that is none of the four, or lacks the protocol tag where the version requires it, is refused, and another protocol's tag is never passed off as 2.0.",
     ["inputs", "configurations"], "all messages of both sides: every standard method and result type, custom methods (including near-misses of standard ones), every id form, with any conforming payload, in all six versions",
     "The tests classify a few messages per version; untagged matching makes the outcome depend on every member present, and accessor match arms per message type are mostly unvisited.",
     UTL, [("untagged message unions and their match arms", "src/generated_schema/*/schema_utils.rs: ClientMessage, ServerMessage"), ("message predicates and accessors", "schema_utils.rs: RpcMessage, McpMessage")],
     "schema-driven message workload with a classification monitor",
     "messages of each side, kind and standard type (plus custom methods) are generated from the schema; one evaluation is one message classified through four reading paths and all accessors, or one non-message refused; distinct by message",
     "Seeded exploration; expected kind, id, method and payload are computed from the wire by the monitor's own model.", 5000)
prop("C06", "Envelopes are written as they were read; text form, parser and serde agree",
     "Reading any message or per-kind envelope and writing it gives the same JSON message: same id, method, parameters, result or error, with absent members still absent. The printed form is that JSON, and parsing the printed form gives the same message again. Parsing from a string agrees with reading the JSON directly.",
     ["inputs", "configurations"], "all messages and envelopes of both sides, standard and custom, in all six versions",
     "The tests print and re-parse a handful of messages; each envelope writes each method's parameters through its own hand-written arm.",
     UTL, [("hand-written envelope serializers and deserializers", "src/generated_schema/*/schema_utils.rs: Serialize/Deserialize for *Jsonrpc{Request,Notification,Response}"), ("Display and FromStr of envelopes", "schema_utils.rs")],
     "schema-driven message workload with an envelope round-trip monitor",
     "messages of each side, kind and type are generated from the schema; one evaluation is one message written and re-read through the union and its per-kind envelope; distinct by message",
     "Seeded exploration; known finding: in the three oldest versions a custom message is written with method and params nested inside params.", 5000)
prop("C07", "Messages built from a payload carry the right kind, id, version and content",
     "Building a message from a payload gives a message of that payload's kind with protocol tag 2.0, the payload's method, the given id and exactly the payload's content. A request or response without an id, and a notification with one, is refused with an internal error; an error may lack an id only where the protocol version allows it. All ways of building the same message agree.",
     ["inputs", "configurations"], "all payloads of both sides, standard and custom, with and without every form of id, in all six versions",
     "The tests build a few messages; there are over a hundred conversion arms per version, each of which could drop, swap or mislabel something.",
     UTL, [("message construction", "src/generated_schema/*/schema_utils.rs: FromMessage, ToMessage, *::new")],
     "payload workload with a construction monitor (rebuilds each message with another id)",
     "each generated message is taken apart into its payload and rebuilt with another id or none; one evaluation is one construction judged; distinct by message and id",
     "Seeded exploration; the expected message is the original with the id replaced.", 8000)
prop("C03", "A value that breaks its schema's structure is refused, not silently reshaped",
     "A JSON value that a public wire type's schema rules out - a required member missing, a member or item of the wrong JSON type, an unlisted name, a wrong method or type constant, a non-value where an object is required - is refused by that type with an error. Nothing is defaulted, dropped or coerced to make it fit. Stated leniencies apart (a fixed version tag, numeric ranges, an absent nullable member, an absent resultType), what is accepted conforms.",
     ["inputs", "configurations"], "all JSON values one or two structural mutations away from a conforming value of any public type, in all six versions",
     "The tests only feed valid messages; refusal depends on every field attribute, constant validator and union member order, none of which a sample of good input exercises.",
     SCH, [("field attributes, constant validators and untagged unions", "src/generated_schema/*/mcp_schema.rs"), ("constant validators", "src/generated_schema/*/*_validators*.rs")],
     "mutation workload with an acceptance monitor (schema validator as oracle)",
     "conforming values of every public type are mutated (member removed, retyped, renamed, constant altered, item replaced); one evaluation is one mutant that the schema rules out, observed to be refused; distinct by type and value",
     "Seeded exploration; the oracle is a lax reading of the committed schema that lists its leniencies.", 5000)
prop("C04", "A union value is read as the member the schema gives it, and only that one",
     "Where the schema says a value is one of several types, reading a conforming value yields a member whose schema the value satisfies, never one it does not conform to because constants went unchecked, and, for a value made of one member's contents, never a poorer member that also happens to accept it and loses some of them. The union's own accessors, if any, report that member. A value that satisfies no member is refused.",
     ["inputs", "configurations"], "all conforming values of every union type (content, contents, results, elicitation schemas, input requests and responses, ids), with any combination of optional and extra members, in all six versions",
     "Untagged matching takes the first member that parses, so the outcome depends on member order and on every optional member of every earlier member; the tests show each member at most once in its plainest form.",
     SCH, [("untagged unions and hand-written deserializers", "src/generated_schema/*/mcp_schema.rs")],
     "schema-driven union workload with a member-choice monitor",
     "for every union and every member, conforming values are generated; one evaluation is one value whose chosen member is compared with the members its schema allows; distinct by union and value",
     "Seeded exploration; the expected member is computed from the schema by specificity.", 3000)
prop("C08", "Conversions keep the content, land in the right member and come back",
     "Every conversion between a type and a union, message or result that can hold it keeps the content exactly and puts it in the member that names it. Converting back succeeds exactly when the union holds that member and returns the content; otherwise it is an internal error that says so, never a panic or another member's content. Messages made directly from a payload obey the id rule of their kind.",
     ["inputs", "configurations"], "all conforming values of every type with a conversion (From, TryFrom, FromMessage, ToMessage), held and not held, with and without ids, in all six versions",
     "There are hundreds of conversions per version, nearly all written by macro or generator arm by arm; the tests use a dozen.",
     SCH + UTL, [("From and TryFrom implementations", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs"), ("FromMessage and ToMessage implementations", "src/generated_schema/*/schema_utils.rs")],
     "payload workload with a conversion monitor over the crate's conversion table",
     "each conversion is run on generated values; one evaluation is one conversion whose result, member and content are judged; distinct by conversion and value",
     "Seeded exploration over a committed table of the public conversions.", 5000)
prop("C12", "Request ids keep their identity through parsing, printing and correlation",
     "A request id read from the wire is a string or an integer exactly as written, and stays so: two ids are equal exactly when they are the same JSON value, equal ids hash alike, printing shows the value, and every message built from or answering a request carries that very id. Numbers and digit strings are never confused, and extreme integers are exact. A peer that matches responses to requests by id serves each exactly once.",
     ["inputs", "histories"], "all ids (strings of any content, 64-bit integers), and all interleaved histories of requests, responses, errors and cancellations correlated by id, in all six versions",
     "The tests use small integer ids; mixing up 1 and \"1\", truncating large ids or losing one in a conversion arm shows only for unusual ids or longer histories.",
     SCH + UTL, [("RequestId and ProgressToken", "src/generated_schema/*/mcp_schema.rs"), ("request_id accessors", "src/generated_schema/*/schema_utils.rs")],
     "identity workload, and histories of messages checked by an exactly-once correlator",
     "ids of every form are parsed, compared, hashed, printed and carried through messages, and histories of interleaved exchanges are replayed through a correlation table; one evaluation is one id judged or one message matched; distinct by id or message",
     "Seeded exploration; histories of up to a few dozen interleaved exchanges.", 3000)
prop("C13", "A batch is read and written as exactly the messages it holds, in order",
     "Reading a JSON array of messages gives those messages, each as it would be read alone, in the same order and number; a single message is read as a single one. The batch's kind checks agree with its members, ids and errors included, and writing it gives the same array. An array with one malformed entry is not accepted as a shorter batch.",
     ["inputs", "histories"], "all arrays of messages of either side, of mixed kinds and any length, with a malformed entry in any place, in all six versions",
     "The tests read one or two batches of two messages; mixing kinds and positions, or losing an entry, is not sampled.",
     UTL, [("ClientMessages, ServerMessages and their conversions", "src/generated_schema/*/schema_utils.rs"), ("batch types", "src/generated_schema/*/mcp_schema.rs")],
     "batch workload with an order and conservation monitor",
     "batches of mixed messages are read, taken apart, put together and written; one evaluation is one batch judged entry by entry against the same messages read alone; distinct by batch",
     "Seeded exploration; batches of up to about a dozen messages.", 500)
prop("C19", "Listed names print and parse as they are on the wire, and nothing else parses",
     "For every closed list of names in the protocol (logging levels, roles, task statuses, formats, content and value kinds, ...), each listed value is written and printed as its wire name and parses back to itself; distinct names are distinct values. No other string - another case, padding, a near miss, a name from another list - is accepted.",
     ["inputs", "configurations"], "all listed names of every closed list and all strings near or far from them, in all six versions",
     "The tests read a few of the names inside larger messages; a swapped or misspelt printed form of one name of one version is not seen.",
     SCH, [("Display, FromStr and serde of enumerations", "src/generated_schema/*/mcp_schema.rs")],
     "name workload with a print/parse monitor",
     "every listed name and many unlisted strings are read, printed and parsed; one evaluation is one string judged; distinct by list and string",
     "Listed names exhaustively, unlisted ones by seeded exploration.", 1000)
prop("C22", "Constructors and getters agree with the wire, member by member",
     "Building a value from its members with a type's constructor gives the same wire value as reading one with those members, with the fixed members (method, type, version tag) filled in as the schema says. A getter or public member holds what is on the wire under its own name, and the named constants equal the schema's. A type's default value holds no member that may be absent.",
     ["inputs", "configurations"], "all member combinations of every type with a constructor or getter, in all six versions",
     "Constructors take many positional optional arguments of the same type, so two swapped ones compile; the tests call few of them and mostly with absent values.",
     SCH, [("new functions and fixed-member getters", "src/generated_schema/*/mcp_schema.rs")],
     "member workload with a construction monitor over the crate's constructor and getter tables",
     "each constructor is fed the members of a parsed value, and each getter and public member compared with the wire; one evaluation is one such comparison; distinct by function and value",
     "Seeded exploration over committed tables of the public constructors and getters.", 5000)

prop("C09", "Exactly the requests a peer's capabilities cover are said to be handled",
     "Asked whether it can handle a request, a peer's declared capabilities say yes exactly when they hold what the request's method needs (and, in 2025-11-25, what its task augmentation or provided tools need); otherwise the answer is an internal error naming the side, the method and the missing capability. The same holds for notification methods, where one that needs nothing is accepted, and for the task capability queries.",
     ["inputs", "configurations"], "all capability declarations with any members present or absent, against all standard and custom requests and notification methods, in versions 2025-11-25, 2026-07-28 and draft",
     "The decision is a table of methods against nested optional capabilities; tests check a handful of cells. A wrong cell, an or for an and, or one method missing from a group shows only for the right combination of capabilities.",
     [f"src/generated_schema/{v}/schema_utils.rs" for v in V[3:]] + [f"src/generated_schema/{v}/mcp_schema.rs" for v in V[3:]], [("can_handle_request, can_accept_notification and the task queries", "src/generated_schema/*/schema_utils.rs and mcp_schema.rs: ServerCapabilities, ClientCapabilities, ServerTasks, ClientTasks")],
     "capability workload with a decision monitor",
     "capability declarations (all, all but one, only what is needed, that less one, random) are asked about generated requests and methods; one evaluation is one answer compared with the capability table of the protocol; distinct by declaration and request",
     "Seeded exploration; the oracle is the monitor's own table of methods and needed capabilities. Left open: includeContext none, sampling sub-capabilities in 2026-07-28 and draft, elicitation modes.", 3000, versions=V[3:])
prop("C10", "Every error carries the code, message and data of its kind, and reads back",
     "Each error constructor produces the code the specification gives its kind, its own message (or the caller's) and the caller's data; distinct kinds have distinct codes and codes convert back and forth. Errors as messages, strings and results read back as the same error, and foreign codes are kept. Timeouts report any duration, id mismatches both ids, and text that is no message is a parse or internal error, never a panic.",
     ["inputs", "configurations"], "all error kinds, all integer codes, messages and data values, all durations and ids, and all texts offered to the parsers, in all six versions",
     "The constructors are near-identical copies differing in one constant and one string; tests look at few, so a swapped code or message (one was found) goes unseen.",
     SCH + UTL, [("RpcError, SdkError, RpcErrorCodes and SdkErrorCodes", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs"), ("error envelopes and parsers", "src/generated_schema/*/schema_utils.rs")],
     "error workload with a code/message/data monitor",
     "every constructor is called with generated messages and data, errors are written, printed, embedded and read back, and the parsers are offered malformed text; one evaluation is one error or refusal judged; distinct by constructor and input",
     "Constructors exhaustively, their inputs by seeded exploration; the oracle is a committed table of codes.", 3000)
prop("C14", "Tool errors and content helpers report exactly what they were given",
     "An error turned into a tool result is a result flagged as an error whose text contains the caller's message, keeping causes reachable, whatever the error; errors of unknown tools and invalid arguments name the tool and the reason. Helpers that make text, image, audio, link, resource and structured content put every part in its own member, keep metadata and order, change nothing else of a result they are applied to, and their typed accessors return that content for its own kind and an error for every other.",
     ["inputs", "configurations"], "all error types and messages, all content values, metadata and sequences of them, in all six versions",
     "The helpers take several positional strings of the same type, and accessors differ by one variant name; the tests call few of them with one value.",
     SCH + UTL, [("CallToolError and CallToolResult helpers", "src/generated_schema/*/schema_utils.rs"), ("ContentBlock and content helpers", "src/generated_schema/*/schema_utils.rs")],
     "tool-result workload with a content monitor",
     "errors, contents, resources and sequences of them are built through the helpers and compared with the wire value expected from their parts; one evaluation is one such construction; distinct by helper and value",
     "Seeded exploration; expected wire values are written by the monitor.", 3000)
prop("C15", "An elicitation property becomes the schema type it describes, or an error",
     "Turning a plain JSON object into an elicitation property schema gives, for a conforming property, exactly the member type that describes it with all its constraints, titles, defaults and choices, the same as reading the JSON. An object of no supported type is refused with a parse error, never a panic. What is taken conforms, keeps its type and its choices, and has nothing the property did not have.",
     ["inputs"], "all JSON objects: conforming properties of every member type, those with one member removed, retyped or altered, lists of choices well- and malformed, in the versions with typed elicitation (2025-06-18 on)",
     "The conversion is written by hand over nested optional members, arm by arm; two defects (a panic and lost choices) were in arms no test reached.",
     [f"src/generated_schema/{v}/schema_utils.rs" for v in V[2:]], [("TryFrom<&Map> for PrimitiveSchemaDefinition", "src/generated_schema/*/schema_utils.rs"), ("elicitation schema unions", "src/generated_schema/*/mcp_schema.rs")],
     "property workload with a conversion monitor",
     "conforming and altered property objects are converted; one evaluation is one conversion judged against the schema and against reading the JSON; distinct by object",
     "Seeded exploration; numbers beyond 2^53 and non-integers in integer members are offered but not judged for content.", 3000, versions=V[2:])

prop("C11", "Protocol versions are listed, ordered, named and parsed consistently",
     "The supported versions are the five released ones in order of release, with the draft after them only when asked for; latest is the newest released one and the order of values is the order of release. Each version's printed name parses back to it; every other string is refused with an error that repeats it and lists the released versions and not the draft. Each version module's constants (its own version, the JSON-RPC tag, the error codes) are those its specification gives.",
     ["inputs", "configurations"], "all pairs of versions, all strings offered as a version name, and the constants of all six version modules",
     "The tests compare neighbours of the list and one or two names; swapped names, a prefix match, a fallback for an unknown name or one module's wrong constant are not sampled.",
     ["src/generated_schema/protocol_version.rs", "src/generated_schema.rs"] + SCH, [("ProtocolVersion and its conversions", "src/generated_schema/protocol_version.rs"), ("version and error-code constants", "src/generated_schema/*/mcp_schema.rs")],
     "version-name workload with a naming and ordering monitor",
     "all versions pairwise, and names and near-names as strings; one evaluation is one comparison, print, parse or refusal judged; distinct by input",
     "Versions and pairs exhaustively, other strings by seeded exploration.", 2000)
prop("C16", "Any text ends in a value or an error, the same way in every form, and stays",
     "Whatever text is offered to any reader of the crate - cut short, garbled, nested as deep as JSON readers admit, very large, with repeated members, extreme numbers or broken escapes - reading ends with a value or an error: never a panic, a stack overflow or an unreasonable delay; text that is no JSON is refused. Text, bytes, streams, FromStr and in-memory JSON agree on the outcome. What is taken can be written and printed, and reading what was written gives the same again.",
     ["inputs", "configurations"], "all byte strings offered to the readers of every public type, message and envelope of all six versions",
     "The tests offer well-formed messages and a few broken ones; hand-written deserializers, constant validators and untagged unions each have paths only odd input reaches.",
     SCH + UTL, [("hand-written Deserialize implementations", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs"), ("FromStr of messages and envelopes", "src/generated_schema/*/schema_utils.rs")],
     "mutation workload over texts with a totality and agreement monitor (thorough: also under AddressSanitizer)",
     "texts of messages, batches and values are mutated up to five times by bytes, tokens and members; one evaluation is one text offered to one reader in five forms; distinct by reader and text",
     "Seeded exploration; a member given twice has no one meaning, so agreement and stability are judged on the plain JSON reading. In the three oldest versions stability of custom messages is left to C06's known finding.", 20000, quick_scale=300, runner="hostile")
prop("C17", "Request metadata holds exactly what was put there, on every request",
     "The metadata object required on every request is built from its parts in any order, each addition setting its own member and leaving all others, foreign members included, as they were; the trace-context members are returned exactly as stored, and only if they are strings. Stamping metadata on a request replaces that request's metadata and nothing else, for every standard method; a custom request is left unchanged and reports none.",
     ["inputs", "histories"], "all metadata objects, read or built, all histories of additions to them, and all requests, in versions 2026-07-28 and draft",
     "The arms per method and the near-identical accessors differ in one name each; the tests stamp one or two methods and set each member once.",
     [f"src/generated_schema/{v}/schema_utils.rs" for v in V[4:]], [("RequestMetaObject helpers", "src/generated_schema/*/schema_utils.rs"), ("RequestFromClient::with_meta and meta", "src/generated_schema/*/schema_utils.rs")],
     "metadata histories with a member-conservation monitor",
     "metadata is built or read and changed by random histories of additions, and stamped on every kind of request; one evaluation is one state compared with the monitor's own copy; distinct by history or request",
     "Seeded exploration; histories of up to seven additions.", 3000, versions=V[4:])
prop("C18", "Mid-request input: asked, answered and retried with nothing lost or mixed up",
     "A result that asks for input is seen as such and every other result, whatever members it has, as complete. All requests it asks for are reachable by key and by iteration, each seen as its own kind only. Responses gathered by key - each key's last answer - and the request state given are put on the retried request exactly, replacing those of an earlier round and changing nothing else, and arrive so; only tool calls, prompt gets and resource reads take them, other requests are refused as invalid parameters naming the method.",
     ["inputs", "histories"], "all requests, all input-required results and answers, over several rounds of asking and retrying, in versions 2026-07-28 and draft",
     "The flow spans both sides and several types; the tests walk one round with one key. A stale state, a lost key or a wrong arm shows only over rounds, with unusual keys, or for another method.",
     [f"src/generated_schema/{v}/schema_utils.rs" for v in V[4:]] + [f"src/generated_schema/{v}/mcp_schema.rs" for v in V[4:]],
     [("input-required helpers", "src/generated_schema/*/schema_utils.rs"), ("ServerResult deserialization by resultType", "src/generated_schema/*/mcp_schema.rs")],
     "multi-round request histories with an exactly-once answer monitor",
     "requests are put through rounds of input-required results, answers and retries, both ends through wire text; one evaluation is one step judged against the monitor's own record; distinct by step",
     "Seeded exploration; up to three rounds with up to five requests each.", 3000, versions=V[4:])
prop("C20", "Switching on further protocol versions changes no version's behaviour",
     "Each protocol version behaves the same whether it is the only one built or built together with others: the same values and messages are taken, refused, classified and written, byte for byte, and the same errors and capability decisions are given; the crate's root exports the same version's items. Every documented combination builds: any of the older versions together with at most one of 2025-11-25, 2026-07-28 and draft.",
     ["inputs", "configurations"], "twelve combinations of version features, each against its version alone, over the workloads of the other monitors",
     "The test suite runs one version per build, so a module that reaches into another version, or a conditional that prefers one, passes every run.",
     ["src/generated_schema.rs", "Cargo.toml"], [("version modules and feature switches", "src/generated_schema.rs")],
     "differential monitoring of two builds of the same version under the same workload",
     "the workloads of other monitors run on a build of the version alone and on builds with the other versions on; one evaluation is one observation of the combined build, and all counts and outcome digests must match; distinct by observation",
     "All twelve combinations of one version with every other that can be built with it (the three newest exclude one another); every other monitor is run on each.", 5000, runner="coexist", scale=30)
prop("C21", "Tasks: final states, augmentation and related-task metadata are as on the wire",
     "A task is final exactly when its status is completed, failed or cancelled. A message is task-augmented exactly when it is a tool call, sampling or elicitation request that carries task metadata, at every level it is asked at; setting it changes nothing else. The related task is the string under its metadata key or none; setting it keeps every other entry, and metadata maps hold after any history of changes what a plain map would; builders put each part in its own member.",
     ["inputs", "histories"], "all task statuses, all requests with and without task metadata, all metadata maps and histories of changes to them, in version 2025-11-25",
     "Each query exists at five levels with its own match, and metadata may hold anything under the key; the tests ask one level with one well-formed value.",
     ["src/generated_schema/2025_11_25/schema_utils.rs"], [("task queries and McpMetaEx", "src/generated_schema/2025_11_25/schema_utils.rs")],
     "task and metadata histories with a conservation monitor",
     "requests with and without task metadata, and metadata maps under random histories of changes; one evaluation is one answer or state compared with the monitor's own copy; distinct by case",
     "Statuses exhaustively, the rest by seeded exploration.", 3000, versions=[V[3]])
prop("C23", "A result without a result type reads as a complete result",
     "In versions 2026-07-28 and draft, a server's result that carries no result type, as servers of earlier versions send it, reads exactly as the same result marked complete: the same result type is held, the same content, and it is written marked complete, however it is read (result, response, payload or message; value, text or bytes). It is never taken to ask for input, whatever other members it has. A result type that is another word is kept as it is and is no request for input.",
     ["inputs"], "all server results, with and without a result type and with members of other forms, in versions 2026-07-28 and draft",
     "The default is filled in by hand-written code before a chain of attempts at each result type; the tests leave the member out of one or two results.",
     [f"src/generated_schema/{v}/mcp_schema.rs" for v in V[4:]], [("ServerResult deserialization by resultType", "src/generated_schema/*/mcp_schema.rs")],
     "metamorphic monitoring of paired readings",
     "every server result is read without a result type, marked complete and with a foreign word, through six readings; one evaluation is one judged comparison; distinct by result",
     "Seeded exploration over generated results.", 3000, versions=V[4:], quick_scale=200)
prop("C24", "Calls stand apart: history, threads and failing streams change no outcome",
     "Reading, writing, printing, converting, comparing or checking gives an outcome that depends only on the values given to it: not on what was done before, in what order, or on what other threads are doing, with the same value or others; and using a value never changes it. A source or sink that fails part way, or a printed form's destination without room, yields an error (a reading or writing error of the failure's kind), never a panic and never a value, and leaves values and later calls as they were. Every public type may be sent to and shared between threads, and calls beside one another race on nothing.",
     ["inputs", "schedules", "histories", "fault_sequences"], "all calls of the public API on any values, in any order and on any number of threads, with sources and sinks that fail, pause or hand over pieces at any byte, in all six versions",
     "Every test makes its few calls once, on one thread, over memory: state kept between calls (a cache, a counter, a last value, a lazily made table), a race on it, or a stream's failure taken for something else never shows.",
     SCH + UTL, [("serde implementations, conversions and checks, all free of state", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs"), ("messages' printed forms and parsers", "src/generated_schema/*/schema_utils.rs")],
     "multithreaded replay of every monitor against its solo run, shared values under fault-injecting streams, ThreadSanitizer (thorough)",
     "values of every type and message are used by six threads through faulty streams, and every other monitor runs alone, after the others and beside them on six threads; one evaluation is one use whose outcome is compared with the solo outcome; distinct by use, type and value",
     "Seeded exploration; schedules are those the machine gives, reported as thread changes and distinct interleavings of six steps; the race detector runs in the thorough tier only.", 20000, runner="schedules", quick_scale=200)
