#!/usr/bin/env python3
# Source of /verif/properties.jsonl:  python3 tools/genprops.py > properties.jsonl
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A single read returns exactly what the controller holds",
 "Reading one tag - any supported scalar, string, array or structure, by any of the single-tag read calls - either fails with an error or yields exactly the value the controller holds for the addressed elements at that moment, with the right Go type and element count. The request that goes out names exactly the requested tag and number of elements, and a read never changes anything in the controller.",
 ["inputs", "histories"],
 "every tag name, data type, element count, starting index and stored value, in any sequence of reads on one client interleaved with changes of the stored values",
 "The tests read a handful of fixed values through hand-written byte replies or need a real PLC (tests/); no test relates arbitrary stored values to what is returned, nor histories in which the value, the type asked for or the element count of the same tag changes between reads.",
 ["read.go", "types.go", "sendreceive.go", "items.go"],
 [("Read / Read_single / ReadPacked", "read.go"), ("readValue", "types.go")],
 observe=["client API result", "bytes on the TCP connection"])

prop("C02", "A single write stores exactly the given value in exactly that tag",
 "Writing one tag - scalar, string, array or structure - either fails with an error or leaves the controller holding exactly the given value in exactly the addressed elements, with every other tag and element unchanged, and a following read returns the written value. The write that goes out carries the data type, structure handle and element count that belong to the Go value.",
 ["inputs", "histories"],
 "every tag name, supported Go value and starting index, in any sequence of writes and reads on one client",
 "Existing tests check type-code strings and one struct image; they never let a controller interpret the written bytes, and a few fixed values cannot cover layouts, lengths, empty or over-long strings, or index ranges.",
 ["write.go", "udt_write.go", "messages.go", "items.go"],
 [("Write / write_single / write_udt", "write.go, udt_write.go"), ("item serialisation", "items.go")],
 observe=["controller memory after the write", "bytes on the TCP connection"])

prop("C03", "A batch read equals reading each tag individually",
 "Reading many tags in one call - by struct, by map, by list or by tag group - yields for every requested tag the same value an individual read of it would give, delivered to that tag's own field, key or position, however many tags are requested and however the library splits the batch over messages. If any one of them cannot be read the call reports an error.",
 ["inputs", "configurations"],
 "every number, order, mix of types, element counts and names of requested tags, every negotiated connection size",
 "Batch reads are only tested against real hardware; splitting only happens for particular combinations of name lengths, data sizes and connection size, and misplacement only shows when positions, sizes and types differ.",
 ["read.go", "partialread.go", "taggroup_readmap.go", "taggroup.go"],
 [("ReadMulti / ReadMap / readList", "read.go"), ("ReadList / countIOIsThatFit", "partialread.go"), ("ReadTagGroup", "taggroup_readmap.go")],
 observe=["client API result", "bytes on the TCP connection"])

prop("C04", "A batch write applies every entry, or reports an error",
 "A batch write by map or by struct that reports success has stored every given value in its own tag with the right data type and element count, and nothing else. If the controller refuses any part of it, or a value cannot be represented, the call reports an error.",
 ["inputs", "fault_sequences"],
 "every map or (nested) struct of tag values of any size, every negotiated connection size, every subset of entries the controller refuses",
 "There is no test of batch writes without hardware, and none injects a refusal of some entries or counts enough entries to exceed one message.",
 ["write.go"],
 [("WriteMap / WriteMulti / multi_to_dict", "write.go")],
 observe=["controller memory after the write", "client API error"])

prop("C05", "A controller refusal is never reported as success",
 "When the controller answers a request - or any one part of a batched or continued request - with an error status, the corresponding call returns an error rather than success or made-up data. The client stays usable: the next request on the same connection gets its own correct answer.",
 ["fault_sequences", "histories"],
 "every operation, every non-zero status code with or without extended status words, refused at any point of any sequence of operations",
 "Tests inject one status on one kind of read; the guarantee ranges over all operations, all codes, all positions in multi-part exchanges and what happens afterwards.",
 ["read.go", "write.go", "udt_write.go", "getattr.go", "connect.go", "listalltags.go", "listsubtags.go", "listmembers.go", "datatable.go"],
 [("status checks in each operation", "read.go, write.go, udt_write.go, getattr.go, datatable.go"), ("parseResponse", "connect.go")],
 observe=["client API error", "result of following operations"])

prop("C06", "Large transfers are reassembled byte for byte",
 "When the controller returns only part of an array at a time, the client keeps asking for the remainder from exactly where the previous part ended and returns the complete array, identical to the stored one, whatever the sizes of the parts. If any continuation fails the read fails.",
 ["inputs", "fault_sequences"],
 "every element type, array length and way of cutting the data into parts, failing at any part",
 "Tests cover three DINT cuts at element boundaries; cuts differ by controller, size and type.",
 ["read.go"],
 [("readFragmented / sendFragReadRequest", "read.go")],
 observe=["client API result", "byte offsets requested on the wire"])

prop("C07", "No request is bigger than the negotiated connection size",
 "For any list of tags to read in a batch, every request the client sends on an open connection fits the connection size negotiated when it was opened, and the client asks for a connection size no larger than configured. Tags are only spread over several requests, never dropped, repeated or reordered.",
 ["inputs", "configurations"],
 "every configured connection size, standard or large, with or without fallback, and every batch",
 "Nothing in the tests measures request sizes; overruns need particular totals of name lengths near the limit.",
 ["partialread.go", "read.go", "connect.go"],
 [("countIOIsThatFit", "partialread.go"), ("recursive split in readList", "read.go"), ("forward open parameters", "connect.go")],
 observe=["length of each connected request on the wire", "forward open parameters on the wire"])

prop("C08", "A tag name always addresses exactly that tag",
 "For any tag name - program scoped, nested members, one or more array indexes of any size, in any letter case - the path sent to the controller denotes exactly that tag and element. This stays so when the same names are used repeatedly, mixed with others, or after the controller's tags have been listed and the client may address them by number instead of by name.",
 ["inputs", "histories"],
 "every syntactically valid tag path and every history of reads and writes with and without a previous listing",
 "Tests compare about a dozen fixed paths with fixed bytes, with a fresh client each; caching, letter case and number-based addressing only matter over histories.",
 ["ioi.go", "client.go", "cip_definitions.go", "listalltags.go"],
 [("newIOI / marshalIOIPart / cache", "ioi.go"), ("KnownTag.Bytes", "client.go")],
 state=[("ioi cache", "tag name to encoded path", "client.go"), ("known tags", "names to instance numbers", "client.go")],
 observe=["request path on the wire"])

prop("C09", "CIP paths encode to the specified bytes and decode back",
 "Every path built from text, from the path builder or from individual segments (port, link address, class, instance, attribute, element, symbol) has exactly the byte form the CIP specification gives, in segment order and always an even number of bytes, and decoding a segment gives back its number. Every segment reports as its length the number of bytes it produces, and invalid path text is refused with an error rather than a crash or a wrong path.",
 ["inputs"],
 "every segment value over its full numeric range and every path text",
 "Tests encode a few small fixed values; the width boundaries (255/256, 65535/65536), every value and malformed texts are not covered.",
 ["path.go", "cip_definitions.go", "items.go"],
 [("ParsePath / PathBuilder / Serialize", "path.go"), ("segment Bytes/Len/Read", "cip_definitions.go")],
 observe=["API results"])

prop("C10", "Structure packing follows the controller's memory layout, both ways",
 "Packing a Go structure produces exactly the bytes a controller stores for the equivalent user-defined type - natural alignment, padding, consecutive booleans sharing bytes, nested structures and arrays - and unpacking those bytes gives back an equal structure. The reported counts equal the bytes produced and consumed, whatever the pieces in which the bytes are delivered, and truncated data is reported as an error.",
 ["inputs", "programs"],
 "every structure type built from supported member types in any order and nesting, every value of it, every way of chunking the reader",
 "Tests pack about ten hand-chosen structs; layout errors appear only for particular orders of widths, boolean runs and nesting.",
 ["pack.go"],
 [("Pack / Unpack / Align / bit packing", "pack.go")],
 observe=["API results"])

prop("C11", "A structure's type code is the one a controller computes",
 "For every Go structure the library's type description and 16-bit type handle equal those obtained by independently applying the published encoding rules (member type names in order, boolean runs, nested and array members, checksum of the description) - and predefined names and handles are used where a type declares its own. The handle depends only on the type, never on the values.",
 ["inputs", "programs"],
 "every structure type built from supported member types in any order and nesting, every value",
 "Tests check a few fixed structs; runs of booleans, nesting and arrays combine freely.",
 ["udt_write.go", "lgxtypes"],
 [("TypeEncode / typeEncode / crc16", "udt_write.go"), ("TypeAbbr", "lgxtypes")],
 observe=["API results", "write request on the wire"])

prop("C12", "Reply items are a faithful cursor over their bytes",
 "Values taken from or put into a message item correspond one to one, in order, to the little-endian bytes it carries; reading past the end returns an error and consumes nothing, resetting rereads the same values, and the recorded length always equals the number of bytes held.",
 ["inputs", "histories"],
 "every sequence of typed reads, raw reads, appends and resets over every byte string",
 "Tests use one buffer and a fixed order; the boundary conditions of each accessor at each remaining length are not covered.",
 ["items.go"],
 [("CIPItem accessors, Serialize/DeSerialize", "items.go")],
 observe=["API results"])

prop("C13", "Addressing a bit reads exactly that bit",
 "Reading tag.N as a boolean returns bit N of the integer the controller holds, for every integer width, signedness, bit number, array element or structure member, in single and batch reads alike. A bit number the integer does not have is an error, never a value.",
 ["inputs"],
 "every integer type, value and bit number, single or batched, cached or not",
 "No offline test reads a bit; the result depends on width and sign of the value actually returned.",
 ["ioi.go", "types.go", "read.go"],
 [("bit access parsing", "ioi.go"), ("getBit", "types.go")],
 observe=["client API result", "request path on the wire"])

prop("C14", "Connection state is truthful and always recoverable",
 "After any sequence of connects, disconnects, operations, refusals and connection losses, the client reports itself connected exactly when it holds a session and connection that the controller accepted, operations on an unconnected client either connect first (when enabled) or fail with an error, and connecting again works once the controller is reachable. A failure at any step of connecting or of an exchange leaves the client disconnected, with its socket released, and never panics or hangs beyond its timeout.",
 ["histories", "fault_sequences", "crash_points"],
 "every history of API calls and every point at which the controller refuses, drops, stalls or truncates",
 "Tests connect once to a cooperative server; failures at each byte of each handshake step and reuse afterwards are histories they do not reach.",
 ["connect.go", "disconnect.go", "sendreceive.go", "client.go"],
 [("connStatus state machine", "connect.go, disconnect.go"), ("forced disconnect on transport error", "sendreceive.go")],
 state=[("connection status", "disconnected/connecting/connected/disconnecting", "client.go")],
 observe=["Connected()", "API errors", "session and connection tables of the peer"])

prop("C15", "Concurrent use of one client never mixes answers",
 "When several goroutines use one client at the same time, every call gets the answer to its own request, every write is applied exactly once, and the results are those of some one-at-a-time order. There are no data races, deadlocks or corrupted messages, and requests sent one after another always carry different sequence numbers.",
 ["schedules", "histories"],
 "every interleaving of reads, writes, batch reads, attribute requests and connection checks from several goroutines",
 "No test uses a client from two goroutines.",
 ["sendreceive.go", "client.go", "ioi.go", "read.go"],
 [("send/receive mutex", "sendreceive.go"), ("sequencer", "client.go"), ("cache lock", "ioi.go")],
 observe=["client API results", "race detector", "order of requests at the peer"])

prop("C16", "Corrupt replies produce errors, never crashes",
 "Whatever bytes a peer sends in reply to any client operation - truncated, lengthened, bit-flipped, with wrong counts, offsets or lengths - the operation returns within its timeout, never panics, and never demands memory out of proportion to the reply. Replies cut short are reported as errors rather than as a value.",
 ["inputs", "fault_sequences"],
 "every client operation and every mutation of every reply in its exchange",
 "The tests only send well-formed replies.",
 ["read.go", "write.go", "udt_write.go", "getattr.go", "connect.go", "listalltags.go", "listsubtags.go", "listmembers.go", "listidentity.go", "listservices.go", "datatable.go", "items.go"],
 [("length checks on parsing", "items.go, read.go, getattr.go")],
 observe=["client API result", "process survival"])

prop("C17", "No peer can take the server down",
 "Whatever bytes a peer sends to the server over TCP or UDP, the server process keeps running, keeps serving its other connections correctly and keeps accepting new ones.",
 ["inputs", "histories", "fault_sequences"],
 "every byte stream, in particular every mutation of every valid conversation, split and cut off anywhere",
 "Tests send the server a few well-formed requests; a single unguarded slice or length in any handler ends the whole process.",
 ["server.go", "server_connected.go", "server_unconnected.go", "server_router.go", "server_connections.go", "server_io.go", "server_listidentity.go", "cip_definitions.go"],
 [("per-connection handler", "server.go"), ("request parsing", "server_connected.go, server_unconnected.go")],
 observe=["process survival", "health probes over other connections"])

prop("C18", "Server and client agree: what is written is what is read",
 "A client talking to the library's own server sees a consistent tag store: every read, single or batched, returns what was last written to that tag by any client or by the hosting program, and every write accepted over the network reaches the hosting program's provider with the exact value, type and element count. Reads of missing tags are refused with an error and leave the connection usable.",
 ["histories", "inputs"],
 "every history of single, batched, array and string reads and writes by several clients and the hosting program",
 "Tests do one read over a real connection; multi-service batches, arrays, strings, types and histories are not exercised end to end.",
 ["server_connected.go", "server_unconnected.go", "server_router.go"],
 [("connected read/write/multi handlers", "server_connected.go"), ("provider interface", "server_router.go")],
 observe=["client API results", "provider calls"])

prop("C19", "Every server request gets exactly one matching reply",
 "Every complete request the server receives is answered by exactly one well-formed reply that echoes the sender context, session, sequence number, connection and service of that request, carries consistent lengths, and holds a success status only if the request was carried out. Requests it does not support or cannot satisfy get an error status rather than silence.",
 ["inputs", "histories"],
 "every sequence of supported, unsupported and unsatisfiable well-formed requests on one connection, pipelined or not",
 "Tests look at a few replies for fixed requests; ordering, echoing and framing over a sequence, and unsupported requests, are not covered.",
 ["server.go", "server_connected.go", "server_unconnected.go", "server_listidentity.go"],
 [("request dispatch and reply builders", "server.go, server_connected.go, server_unconnected.go")],
 observe=["bytes on the TCP connection"])

prop("C20", "Server connections are isolated from one another",
 "Each opened connection is bound to the endpoint registered for the path it was opened with, keeps its own identifiers, and serves only requests addressed to it; opening, closing or losing one connection never affects another. A request on a closed or never-opened connection, or an open to an unregistered path, is not served.",
 ["histories", "schedules"],
 "every history of opens, closes, drops and reads/writes by several clients over several registered paths, interleaved or concurrent",
 "Tests open one connection to one path.",
 ["server_connections.go", "server_router.go", "server.go", "server_unconnected.go"],
 [("connection table", "server_connections.go"), ("path resolution", "server_router.go")],
 state=[("open connections", "ids to path", "server_connections.go")],
 observe=["client API results", "provider calls"])

prop("C21", "The server's identity is the same however it is asked",
 "The identity attributes configured by the hosting program are reported unchanged and consistently through every identity query - all attributes, single attributes, list identity and list services, connected or not - and the client's own calls decode them to the same values.",
 ["inputs", "configurations"],
 "every configured identity (numbers over their full ranges, any product name) and every way of asking",
 "Tests compare fixed configurations with fixed bytes.",
 ["server.go", "server_unconnected.go", "server_listidentity.go", "listidentity.go", "listservices.go"],
 [("identity reply builders", "server_unconnected.go, server_listidentity.go"), ("client parsers", "listidentity.go, listservices.go")],
 observe=["client API results", "bytes on the TCP connection"])

prop("C22", "The in-memory tag provider behaves like a typed map",
 "Tags in the built-in provider are found regardless of letter case; a read returns the last value written, or exactly the requested elements of an array; an element or range write changes only those elements; a write of an unsuitable type or outside the array, and a read of a missing tag or element, is an error that changes nothing.",
 ["histories", "inputs"],
 "every history of whole-tag, element and range reads and writes over all supported types",
 "The provider has almost no direct tests; range and type combinations and histories are unexplored.",
 ["server_router.go"],
 [("MapTagProvider TagRead/TagWrite/TagList", "server_router.go")],
 state=[("tag map", "name to value", "server_router.go")],
 observe=["API results"])

prop("C23", "Cyclic I/O data arrives intact in both directions",
 "Output data a controller sends to the server's I/O endpoint is delivered to the hosting program equal, member for member, to what was sent, newest last and only from the connection it belongs to; input data set by the program is what the controller receives in the next cyclic packet, with increasing sequence numbers. Packets that are too short or wrong are ignored without changing the data.",
 ["inputs", "histories", "schedules"],
 "every I/O structure value, any sequence of packets - valid, short, for other connections - and any timing of program access",
 "Nothing tests I/O endpoints.",
 ["server_io.go", "server_iochannel.go", "server.go", "server_unconnected.go"],
 [("IOProvider / IOChannelProvider", "server_io.go, server_iochannel.go"), ("UDP dispatch and cyclic sender", "server.go, server_unconnected.go")],
 observe=["API results", "UDP packets"])

prop("C24", "Tag discovery finds exactly the controller's tags",
 "Listing tags and programs finds every user-visible tag and program the controller has - name, instance, type, array dimensions, owning program - exactly once, none that it does not have, however the controller splits the list over replies. Afterwards each listed tag is addressable and reads correctly.",
 ["inputs", "histories"],
 "every set of controller and program tags and every way of splitting the listing into partial replies",
 "Discovery is only tested on hardware; partial replies depend on the number and length of names.",
 ["listalltags.go", "listsubtags.go", "listallprograms.go", "listmembers.go"],
 [("ListAllTags / ListSubTags / ListAllPrograms", "listalltags.go, listsubtags.go, listallprograms.go")],
 state=[("known tags / programs", "discovery results", "client.go")],
 observe=["client API result maps"])

prop("C25", "Type discovery reproduces the controller's type definitions",
 "Asking for a structure type yields its name, size-relevant attributes and every member with name, type, array length or bit number and offset, in order and recursively, exactly as the controller's template defines them. The answer is the same the second time, and a refused or inconsistent template is an error.",
 ["inputs", "programs"],
 "every template - any member names, types, nesting and counts, including hidden and bit members",
 "Template decoding is only tested on hardware.",
 ["listmembers.go", "getattr.go"],
 [("ListMembers / GetTemplateInstanceAttr", "listmembers.go, getattr.go")],
 state=[("known types", "template cache", "client.go")],
 observe=["client API result"])

prop("C26", "A data table buffer tracks exactly its registered tags",
 "After any sequence of adding and removing tags and changes of their values, reading the buffer returns exactly the currently registered tags, each with its current controller value and type; nothing removed remains, nothing registered is missing or swapped. A failed addition or removal is reported and leaves the buffer consistent.",
 ["histories", "inputs", "fault_sequences"],
 "every history of single, bulk, group and struct additions, removals, value changes, reads, refusals and close over all supported types",
 "Tests check two encoders with fixed bytes; slot bookkeeping across removals and batches needs histories.",
 ["datatable.go"],
 [("DataTableBuffer add/remove/read", "datatable.go")],
 state=[("buffer slots", "order and batches of registered tags", "datatable.go")],
 observe=["client API results", "controller-side buffer contents"])

prop("C27", "Tag templates and group results resolve predictably",
 "Substituting arguments into a tag template replaces every numbered placeholder by its own argument and changes nothing else; a group read returns one result per defined tag under its resolved name, and each typed accessor returns the value if and only if it has that type (the unsigned 32-bit accessor also takes a DINT) and an error otherwise.",
 ["inputs"],
 "every template, argument list, set of definitions and accessor",
 "Tests use a few templates and types.",
 ["taggroup.go", "taggroup_readmap.go"],
 [("formatName / TagGroup / TagGroupResult", "taggroup.go")],
 observe=["API results"])

prop("C28", "Generic CIP requests are transmitted and answered verbatim",
 "A generic service request or attribute request is delivered to the controller with exactly the given service, path and data, and the caller receives exactly the reply data bytes of a successful answer. Attribute lists are requested completely and in the given order.",
 ["inputs"],
 "every service, path, data, class, instance, attribute list and reply payload",
 "Only hardware tests and demos use these calls.",
 ["getattr.go"],
 [("GenericCIPMessage / GetAttrSingle / GetAttrList", "getattr.go")],
 observe=["bytes on the TCP connection", "client API result"])

prop("C29", "Importing an L5X project yields exactly its tag values and comments",
 "Loading tags from a controller project export yields, for every controller and program tag with decorated data, its value converted to the Go type of its data type without loss, arrays in order and structures by member name; the descriptions of tags (controller's and programs'), of module points, of rungs and of types are found under their own location. Values that do not fit their type are an error and no well-formed file causes a crash.",
 ["inputs"],
 "every well-formed project with any tags, types, values, dimensions and comments",
 "The decoding test needs a private project file and is skipped or fixed to it.",
 ["l5x/load_tags.go", "l5x/types.go", "l5x/schema.go"],
 [("LoadTags / LoadRungComments / L5xTypeToGoType", "l5x")],
 observe=["API results"])

prop("C30", "Timers, counters and control structures map bit for bit",
 "The built-in timer, counter, control and string structures convert to the controller's 12-byte (or string) image and back without loss: each member, including each status bit, corresponds to its own documented position and no other.",
 ["inputs"],
 "every combination of members and every 12-byte image",
 "Tests need hardware; no round trip over all bit combinations exists offline.",
 ["lgxtypes"],
 [("Pack / Unpack", "lgxtypes/timer.go, counter.go, control.go, string.go")],
 observe=["API results"])

prop("C31", "Device discovery replies are decoded exactly",
 "Listing a device's identity or services returns exactly the fields and every service entry the device sent - address, vendor, type, product, revision, status, serial, name, state, capability flags - for any values and any number of entries.",
 ["inputs"],
 "every identity and every list of service entries",
 "Tests decode one or two captured replies.",
 ["listidentity.go", "listservices.go"],
 [("ListIdentity / ListServices parsers", "listidentity.go, listservices.go")],
 observe=["client API result"])

prop("C32", "Keep-alive watches the connection without disturbing it",
 "While keep-alive runs, the client keeps polling the controller at the configured interval, other operations keep getting their own correct answers, and a failing poll leaves the client disconnected; after disconnecting or cancelling no more polls are sent, and connecting again starts it again.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of polls with operations, disconnects, reconnects and failures",
 "No test runs keep-alive.",
 ["connect.go", "disconnect.go"],
 [("KeepAlive / KeepAliveCancel", "connect.go, disconnect.go")],
 observe=["requests at the peer", "Connected()"])

prop("C33", "Browsing the server lists exactly the endpoint's tags",
 "An originator that lists the tags of the server's endpoint over its connection gets each tag exactly once with its name and type, whatever number of tags, start instance and attributes it asks for; no reply is larger than the connection takes, what does not fit is left for the next request and said so; the instance numbers stay those of the same tags, and the endpoint's own list is not disturbed.",
 ["inputs", "histories"],
 "every list of tags, connection size, start instance and set of attributes, over any sequence of listings",
 "No test lists the server's tags.",
 ["server.go", "server_unconnected.go", "server_router.go", "server_connections.go"],
 [("symbol list", "server.go, server_unconnected.go"), ("TagList", "server_router.go")],
 observe=["wire replies at an independent originator", "the library's client", "the endpoint's list"])

prop("C34", "Controller faults, forces and program properties arrive as given",
 "The controller's fault bits, force state and property list (project, revision and programme hashes) come back from the convenience calls exactly as the controller sent them: each fault bit is reported under its own type, code and description, no bit is lost, invented or doubled, two property lists match exactly when the values the controller sent are the same, and a short or refused reply is an error.",
 ["inputs"],
 "every combination of fault bits, force words and property values, and every truncated or refused reply",
 "Tests need hardware.",
 ["canned"],
 [("GetFaults, GetForces, GetControllerPropList", "canned/*.go")],
 observe=["canned API results"])

prop("C35", "A call that cannot be carried out is refused and changes nothing",
 "A read, write, list or pack call that cannot be carried out as given - a destination or value of a kind that has no controller representation, a nil or unexported target, a name that addresses nothing, a wrong count, lists of different lengths, no group or program - returns an error: it does not panic or hang, does not report success, does not change any tag when the library can know beforehand, and leaves the client, its connection and every later operation unaffected.",
 ["inputs", "histories"],
 "every unusable argument, alone or within a batch of good ones, at any point of a client's history",
 "Tests call the API with good arguments; the few negative tests need hardware.",
 ["read.go", "write.go", "udt_write.go", "partialread.go", "pack.go", "ioi.go", "taggroup_readmap.go", "listsubtags.go"],
 [("Read, Write, ReadMulti, WriteMulti, ReadList, ReadMap, WriteMap, Pack, Unpack", "read.go, write.go, udt_write.go, partialread.go, pack.go"), ("name parser", "ioi.go")],
 observe=["client API result", "tags of the controller", "sockets and connections at the controller"])

only = set(sys.argv[1:])
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(json.dumps(p))
