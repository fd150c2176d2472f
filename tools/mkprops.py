import json
L='lib/go/src/thrift/'
def f(*a): return [L+x for x in a]
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":f(*files),"mechanism":[{"name":n,"where":L+w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":L+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","RPC delivers exactly the called method's result, once, on a healthy network",
"On a network that may delay and split data but loses nothing, every call completes, the server executes the called method exactly once with exactly the arguments the caller passed, and the caller gets exactly the result that execution returned. This holds for every number of concurrent clients and every sequence of calls on one connection, for the simple and the nonblocking server over socket or nonblocking-socket transports, framed or unframed, with the binary, compact, JSON and simple-JSON protocols, and for HTTP. No call waits for data beyond its own reply, so it completes within the network delay.",
["schedules","inputs","configurations","histories"],
"all interleavings of client, acceptor and handler tasks; all chunkings and latencies of both byte streams; all argument and result values; all protocol x transport x server stacks; any number of clients and calls per connection",
"The tests run each protocol against an in-memory buffer or one real socket with one goroutine and one delivery pattern; they never run a client and a server concurrently, never split a message, and never use a JSON protocol on a live stream.",
["tsimple_server.go","tnonblocking_server.go","tsocket.go","tnonblocking_socket.go","tserver_socket.go","tnonblocking_server_socket.go","tframed_transport.go","tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","thttp_client.go"],
[("Serve/processRequest","tnonblocking_server.go"),("ReadAllTransport","ttransport.go"),("TSocket.Flush","tsocket.go"),("TFramedTransport.readFrame","tframed_transport.go")],
["values seen by the service handler","values returned to the caller","simulated completion time"])
add("C02","RPC is at-most-once and never returns a wrong answer under faults",
"When connections are reset, cut, stalled or refused, writes fail part-way, or the server crashes and restarts, every call either returns exactly the result of its own single execution or returns an error; it never returns another value, never succeeds without having been executed, and is never executed twice or with altered arguments. With a socket timeout configured every call ends within a bounded time. Once faults stop, a fresh connection with fresh protocol objects to a running server works again.",
["schedules","fault_sequences","crash_points","inputs","configurations"],
"all placements of connection reset, truncation, stall, dial refusal, partial write and server crash/restart relative to every byte of every request and reply, in all interleavings of clients and handlers",
"No test injects a transport fault; the error paths of reads, writes, flushes and dials are never executed by the suite.",
["tsocket.go","tnonblocking_socket.go","ttransport.go","tframed_transport.go","tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tnonblocking_server.go","tsimple_server.go","ttransport_exception.go"],
[("error propagation of Read/ReadAll/Write/Flush","ttransport.go"),("pushDeadline","tsocket.go"),("processRequest exits on error","tnonblocking_server.go")],
["execution log of the service handler","outcome of each call","simulated duration of each call"])
add("C03","Decoding does not depend on how the stream is delivered",
"A reader of a byte stream holding one or more messages written back to back decodes exactly the messages that were written, in order, with every field value intact, no matter into what pieces the stream is split or how long it pauses between them. It finishes a message as soon as the message's last byte has arrived, never waiting for or consuming into the result anything that belongs to a later message. This holds for the binary, compact, JSON and simple-JSON protocols, directly, framed, and through the stream transports.",
["inputs","schedules"],
"all message values and sequences, all segmentations and arrival times of the stream, including one byte at a time and pauses at every byte; readers that return data together with end of stream and readers that return zero bytes without error",
"The tests decode from a complete in-memory buffer, which delivers everything in one piece, so incremental arrival is never exercised.",
["tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","ttransport.go","tframed_transport.go","tiostream_transport.go","tsocket.go","tnonblocking_socket.go"],
[("ReadAllTransport","ttransport.go"),("ParsePreValue / readNonSignificantWhitespace / ReadFieldBegin","tsimple_json_protocol.go"),("lastField stack","tcompact_protocol.go"),("readFrame","tframed_transport.go")],
["decoded value tree against the written one","bytes still undelivered when the message completes"])
add("C04","A truncated or broken message is always reported, never returned as data",
"If the stream ends or fails at any byte before the end of a message, reading that message returns an error; it never returns a complete-looking message, never reports a missing field, element or string byte as a real value, and never blocks once the end of the stream is known. The values decoded before the cut are the ones written. This holds whether a value is read or skipped, in all protocols and transports.",
["inputs","fault_sequences","crash_points"],
"every cut point of every message; clean close, reset and stream error; cut arriving together with the last data or after it; reading and skipping",
"No test feeds a truncated message; short reads are only ever whole buffers.",
["ttransport.go","tprotocol.go","tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","tframed_transport.go","tapplication_exception.go"],
[("ReadAllTransport","ttransport.go"),("Skip","tprotocol.go"),("TCompactProtocol.ReadBinary","tcompact_protocol.go"),("TFramedTransport.Read","tframed_transport.go")],
["error returned by the read or skip of a message","values returned before the error"])
add("C05","A write that could not be delivered is reported",
"If the underlying stream refuses or loses any byte of a message while it is being written or flushed, at least one of the write, flush or close-of-message calls for that message returns an error. When every one of them succeeds, the complete message has been handed to the underlying stream, so a peer that received all of it decodes it. A binary value written from a reader that ends or fails before the announced size is reported as well. This holds for all protocols over all writing transports, for every position of the failure.",
["fault_sequences","inputs","configurations"],
"a stream that fails, or accepts only part of a write, at every byte offset of every message; once or permanently",
"No test uses a failing writer; the write error branches are never executed.",
["tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","tframed_transport.go","tsocket.go","tnonblocking_socket.go","tiostream_transport.go","thttp_client.go","tapplication_exception.go"],
[("error returns of Write*/OutputPreValue/WriteBinary","tsimple_json_protocol.go"),("TFramedTransport.Flush","tframed_transport.go"),("TSocket.Flush","tsocket.go")],
["errors returned while writing","bytes accepted by the underlying stream"])
add("C06","Every transport carries a byte stream unchanged",
"Bytes written and flushed on one end of a transport arrive at the other end in order, none lost, duplicated, changed or invented, whatever the sizes of the writes and reads and however the network splits them, including empty writes. Reading an exact amount returns that amount and nothing else, or an error; when the peer closes after its last byte, everything it sent is readable before end of stream is reported.",
["inputs","schedules","configurations"],
"all sequences of write sizes (including zero and larger than every internal buffer), read sizes and flush points; all segmentations; socket, nonblocking socket, framed, nested framed, stream and memory transports",
"The transport tests write one short string and read it back once.",
["tsocket.go","tnonblocking_socket.go","tframed_transport.go","tiostream_transport.go","tmemory_buffer.go","ttransport.go"],
[("writeBuffer/Flush","tsocket.go"),("readBuffer","tframed_transport.go"),("ReadAllTransport","ttransport.go")],
["bytes read at the far end against the bytes written"])
add("C07","Frames are atomic: one flush, one whole frame",
"A framed transport sends nothing before a flush, and each flush sends exactly one frame, a 4-byte big-endian length followed by exactly the bytes written since the previous flush. A framed reader never returns a byte of a frame that has not arrived completely, reports an error when a frame is cut short, treats an empty frame as containing nothing rather than as end of stream, and rejects a negative frame length. A flush or read that fails does not let bytes of the failed frame leak into a later connection.",
["inputs","schedules","fault_sequences"],
"all write and flush sequences, all frame sequences including empty and very large ones, all segmentations, cuts at every byte of length and payload, close and reopen after failure",
"The framed transport test writes and reads one frame over a memory buffer.",
["tframed_transport.go"],
[("Flush","tframed_transport.go"),("readFrame","tframed_transport.go")],
["bytes on the wire between flushes","bytes and errors returned by reads"])
add("C08","Timeouts fire when configured, on time, and are recognisable",
"With a timeout configured on a socket transport, a connect, read or flush that makes no progress ends with an error no earlier than the timeout and not materially later, and a timed-out read or write reports the timed-out exception type. An operation the peer serves within the timeout never fails because of it, however long the connection was idle or the message was being assembled before. Without a timeout an operation waits as long as the peer takes.",
["schedules","fault_sequences","configurations"],
"all timeout values including values changed between operations, all stall points and durations of peer and network in connect, read, write and flush, idle periods before and between operations",
"The tests use one fixed timeout on a responsive peer; a stalled peer or an idle period never occurs, and the time-dependent tests are the ones that are unstable here.",
["tsocket.go","tnonblocking_socket.go","tserver_socket.go","tnonblocking_server_socket.go","ttransport_exception.go","tframed_transport.go"],
[("pushDeadline","tsocket.go"),("pushDeadline","tnonblocking_socket.go"),("net.DialTimeout","tsocket.go"),("NewTTransportExceptionFromOsError","ttransport_exception.go")],
["simulated duration and exception type of each operation"])
add("C09","Transports can be closed and reopened, and never mix connections",
"A socket transport is open exactly between a successful open and the next close; opening it twice reports already-open, and reading, writing or flushing while closed reports not-open instead of panicking or succeeding (a framed transport and an HTTP client only buffer a write, so for them the flush is what reports it). After a close, whatever its cause, the transport can be opened again, and the new connection carries only bytes written after it was opened and delivers only bytes the new peer sent. This holds for framed transports and for HTTP clients (whose close discards an unsent request) too; a memory buffer is always open and its close discards what it holds, and a transport that has no usable address or stream reports that from every operation.",
["histories","fault_sequences","schedules"],
"all sequences of open, close, interrupt, write, flush and read with failures (reset, failed flush, refused dial) at every step",
"The tests open and close each transport once.",
["tsocket.go","tnonblocking_socket.go","tframed_transport.go","thttp_client.go","tiostream_transport.go","tmemory_buffer.go"],
[("Open/Close/IsOpen","tsocket.go"),("Open/Close/IsOpen","tnonblocking_socket.go"),("Open/Close","tframed_transport.go")],
["IsOpen and the exception type of each operation against a state model","bytes received by each peer connection"])
add("C10","Stopping a server always ends it",
"Once a server is serving, a stop from any other task makes its serve call return after the connections it is handling have ended, whether it is accepting, about to accept, or handling a request at that moment, and regardless of concurrent connects. Stop returns, never panics in any task, stops new connections from being served, and releases the listening address so that a new server can listen on it, or the same server can serve again and be stopped again; a server that reports whether it is stopped reports exactly that.",
["schedules","histories"],
"every interleaving of stop with listen, accept, connection hand-off and request processing; repeated stops; both server kinds and both server sockets",
"No test starts a server, so no interleaving of stop with accept is ever run.",
["tsimple_server.go","tnonblocking_server.go","tserver_socket.go","tnonblocking_server_socket.go","tserver_transport.go"],
[("Serve/Stop","tsimple_server.go"),("Serve/Stop","tnonblocking_server.go"),("Accept/Interrupt/Close","tserver_socket.go"),("Accept/Interrupt/Close","tnonblocking_server_socket.go")],
["return of Serve and Stop","panics in any task","whether the address can be listened on again"])
add("C11","One bad client cannot hurt the others",
"A client that connects and then stays silent, stalls in the middle of a message, sends garbage or a hostile length, or disconnects or resets at any point does not stop the nonblocking server from answering the other clients correctly and within the network delay, nor the simple server from answering the next client once the bad one's connection has ended. No client input makes any server task panic. A handler error or panic-free failure on one connection closes at most that connection.",
["schedules","fault_sequences","inputs"],
"any mixture of well-behaved and faulty clients, every byte position of the fault, every interleaving of their connections",
"No test runs a server with more than zero clients.",
["tnonblocking_server.go","tsimple_server.go","tserver_socket.go","tnonblocking_server_socket.go","tframed_transport.go","tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go"],
[("one goroutine per connection","tnonblocking_server.go"),("processRequest ends on error","tsimple_server.go"),("accept loop","tserver_socket.go")],
["results and completion times of the healthy clients","panics","whether the server still accepts"])
add("C12","Connections and tasks are released",
"When a client's conversation with a server ends, normally or by any fault, the server closes its side of the connection and the task that handled it ends; after the clients are gone and the server has been stopped nothing opened by the library remains open and none of its tasks remains running. Closing a client transport closes its connection, and the HTTP client closes every response body it no longer reads from.",
["schedules","fault_sequences","histories"],
"all endings of a conversation (close, reset, truncation, protocol error, server stop) in all interleavings",
"The tests never count open connections or running goroutines.",
["tnonblocking_server.go","tsimple_server.go","tsocket.go","tnonblocking_socket.go","tframed_transport.go","thttp_client.go","tiostream_transport.go"],
[("deferred Close in processRequest","tnonblocking_server.go"),("Close","tsocket.go"),("Close","thttp_client.go")],
["open simulated connections and live tasks at the end of the run"])
add("C13","An HTTP client posts each flush once and reads only its reply",
"Each flush of an HTTP client sends exactly one POST request whose body is exactly the bytes written since the previous flush, and reads then return exactly the bytes of that flush's response body, however the body is delivered. A flush that fails, including a response status other than 200, returns an error; after it no bytes of an older or failed response are readable as if they were the reply, and the next request does not contain bytes of the failed one.",
["inputs","fault_sequences","histories","schedules"],
"all sequences of writes, flushes and reads; connection errors, error statuses, truncated and slow bodies at every position; body readers that return data together with end of stream",
"The HTTP test sends one request to a local server that echoes it, and is unstable at this commit.",
["thttp_client.go","ttransport.go"],
[("Flush","thttp_client.go"),("Read","thttp_client.go")],
["requests received by the simulated HTTP server","bytes and errors returned by reads","open response bodies"])
add("C14","Arbitrary input cannot crash, hang or exhaust the reader",
"Reading or skipping a message from any byte sequence whatsoever, including corrupted real messages and hostile lengths, ends with a value or an error: it never panics, never runs for a time or allocates memory out of proportion to the bytes actually received, and never keeps going after the stream has ended. This holds for all protocols, directly and framed.",
["inputs","fault_sequences"],
"any byte sequence: random bytes, bit flips, inserted, deleted and duplicated bytes in valid messages, negative and huge sizes and counts, in any delivery pattern",
"The tests only decode what the library itself has just encoded.",
["tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","tprotocol.go","tframed_transport.go","tapplication_exception.go"],
[("size checks in ReadBinary/readStringBody","tbinary_protocol.go"),("readVarint64 / ReadBinary","tcompact_protocol.go"),("Skip","tprotocol.go"),("readFrame","tframed_transport.go")],
["panics","statement budget","requested allocation sizes"])
add("C15","Independent protocol stacks do not influence each other",
"Tasks that each use their own transport and protocol objects, in one process at the same time, each get exactly the results they would get alone, in every interleaving of their operations. Nothing done with one stack changes how another behaves, at the same time or later.",
["schedules","inputs"],
"all interleavings, down to single statements, of any number of encoders and decoders of all protocols",
"The tests are sequential; a hidden shared buffer or table would never be seen.",
["tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","tframed_transport.go","tmemory_buffer.go","tprotocol.go"],
[("all codec state lives in the protocol object","tcompact_protocol.go"),("package variables are set only in init","tsimple_json_protocol.go")],
["result of each task against its solo result"])
add("C16","One reader and one writer may share a connection; interrupt unblocks",
"One task may read from a socket transport while another writes and flushes on it: neither blocks the other, both byte streams arrive unchanged, and requests may be pipelined on one connection with replies coming back in request order. Interrupting a socket transport from another task makes a blocked read or flush on it return an error promptly, without a panic in any task, after which the transport can be closed.",
["schedules","fault_sequences"],
"all interleavings of one reading, one writing and one interrupting task, all segmentations and back-pressure patterns",
"The tests never use a connection from two goroutines.",
["tsocket.go","tnonblocking_socket.go","tframed_transport.go","tnonblocking_server.go"],
[("separate read and write paths","tsocket.go"),("Interrupt","tsocket.go"),("Interrupt","tnonblocking_socket.go")],
["both byte streams","return of the interrupted operation","order of the replies"])
add("C17","Unknown fields are skipped exactly",
"A reader that knows only some of the fields of a message, at any nesting level, reads exactly the values of the fields it knows and skips the others, whatever their types and nesting, consuming exactly their bytes so that everything after them is read correctly. This holds for the binary, compact and JSON protocols for every delivery of the stream, and a cut inside a skipped value is reported as an error. Skipping fails exactly when a value is nested deeper than the configured limit.",
["inputs","schedules","fault_sequences"],
"all value trees, all subsets of known fields, all delivery patterns and cut points",
"No test skips a nested value or a value that arrives in pieces.",
["tprotocol.go","tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go"],
[("Skip","tprotocol.go"),("ReadStructEnd","tcompact_protocol.go")],
["values of the known fields","position in the stream after the message"])
add("C18","Exceptions and one-way calls reach the other side intact",
"An application exception returned by a server (unknown method, handler failure) arrives at the caller as an application exception with the same type and message and the matching name and sequence number, and the connection stays usable for the next call whenever the processor keeps it open. Message types call, reply, exception and one-way arrive unchanged in every protocol; a one-way call is executed exactly once, gets no reply, and does not disturb the calls after it on that connection.",
["schedules","inputs","histories"],
"all sequences of ordinary, failing, unknown and one-way calls on one connection, all exception types and messages, all delivery patterns and protocols",
"The tests never send an exception or a one-way message.",
["tapplication_exception.go","tmessagetype.go","tcompact_protocol.go","tbinary_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","tnonblocking_server.go"],
[("Read/Write","tapplication_exception.go"),("ReadMessageBegin/WriteMessageBegin","tcompact_protocol.go")],
["outcome of each call","execution log of the handler"])
add("C19","Server transports listen, accept and release their address",
"A server transport is open, and holds its address, exactly from a successful Open or Listen (or from its construction where the constructor listens) until the next Close or Interrupt; IsOpen and Peek report that, Listen on an open one does nothing, Open on an open one reports ALREADY_OPEN, and listening on an address that is in use is an error. While it is open every connecting client is accepted exactly once, as an open transport of that client's own connection with the configured client timeout, and no client is lost between two Accepts, nor by an Accept that fails. A serve call on an address that is in use returns an error and can be repeated. Close and Interrupt, from any task at any time, make every blocked Accept return promptly with an error and free the address; after an Interrupt Accept does not listen again by itself (an Accept on a transport that is not listening reports NOT_OPEN), and after the next Listen the transport works as before. It carries no data itself: reading, writing or flushing on it reports an error at once.",
["histories","schedules","configurations"],
"all histories of open, listen, accept, close and interrupt on both server transports however constructed (directly, from a listener, by a factory); all interleavings of accepting, connecting, interrupting and inspecting tasks",
"Only one accepted connection of one server socket is ever used by the tests; nothing is closed, interrupted, reopened or accepted concurrently.",
["tserver_socket.go","tnonblocking_server_socket.go","tserver_transport.go"],
[("Open/Listen/Accept/Close/Interrupt","tserver_socket.go"),("Open/Listen/Accept/Close/Interrupt","tnonblocking_server_socket.go")],
["IsOpen, Peek, Addr","whether the address is bound","results of Accept","bytes on accepted connections"])
add("C20","Nodes built on other implementations of the formats interoperate",
"A node using this library and a node using any other implementation of the same wire format understand each other, in both roles (client and server), plain and framed: the values, message headers, application exceptions and one-way calls one side writes are exactly what the other side reads, whichever legal encoding the other side picks (binary with or without the version header, long or short compact field and list headers, JSON white space and string escapes) and however the bytes are delivered. A message header that names another protocol or version is refused, and so is one without a version by a binary reader set up to be strict. The formats are Apache Thrift's binary and compact protocols, the JSON and simple JSON formats as this library publishes them, and frames of a four-byte big-endian length.",
["inputs","schedules","configurations"],
"all values, messages, protocols, transports and legal encodings; both roles; all deliveries and interleavings",
"Unit tests read back what the same code wrote, so a change made to both sides passes them; the interoperability tests of the repository need a Java server and never run.",
["tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go","tsimple_json_protocol.go","tframed_transport.go","tapplication_exception.go"],
[("Write*/Read*","tbinary_protocol.go"),("Write*/Read*","tcompact_protocol.go"),("WriteFieldBegin/ReadFieldBegin","tjson_protocol.go"),("Flush/readFrame","tframed_transport.go")],
["values decoded by the other node","results of calls","bytes of the stream"])
add("C21","Iterating over a container delivers every element once and leaves nothing behind",
"Receiving from the channel that Iter, KeyIter or ValueIter of a list, a map or the fields of a struct returns delivers every element exactly once (those of a list in order) and then ends, and Keys and Values of a map return exactly its keys and values. This holds for containers of every size, maps with keys of every type, and any number of iterations of the same and of different containers at the same time, in every interleaving, also when other iterations have been given up half-way, as long as nobody changes the container meanwhile. Once an iteration has been read to its end no task of it remains; nor does one after comparing or looking for structs, lists, sets or maps. Two maps or two sets with the same content are equal, and two maps that differ in a value or two sets that differ in an element are not, in whatever order they were filled or are gone through.",
["schedules","inputs","configurations"],
"all containers, all interleavings of the iterating and the receiving tasks, all orders of going through a map, all points of giving up",
"The tests iterate over one small map in one task; the goroutine behind each iteration, its end, and the random order of Go's maps are never controlled.",
["tlist.go","tmap.go","tset.go","tfield.go","ttype.go"],
[("Iter/KeyIter/ValueIter/Keys/Values","tmap.go"),("Iter","tlist.go"),("Iter","tfield.go"),("Compare","ttype.go")],
["elements received from the channels","tasks that remain","results of Equals, CompareTo and Contains"])
# not applicable
def na(id,title,st,text,files,mech):
    add(id,title,st,["inputs"],text,"The tests sample a few values; the property quantifies over all of them.",files,mech,["return values"])
na("N01","Containers behave as lists, sets and maps","A list, set or map container holds exactly the elements put into it, finds an element exactly when an equal one is present, and reports its length accordingly, for every element type and operation sequence.","all operation sequences and element values",["tlist.go","tset.go","tmap.go","tcontainer.go"],[("Contains/Find/Set/Get","tmap.go")])
na("N02","Value comparison is a consistent total order","Comparing two values of one type is antisymmetric, transitive and consistent with equality, and containers compare element by element.","all pairs and triples of values",["ttype.go","tcompare.go"],[("Compare/Equals","ttype.go")])
na("N03","Numeric coercions preserve every representable value","Coercing a value to another type keeps it unchanged whenever the target can represent it and reports failure otherwise; JSON number text is parsed to the nearest value.","all numeric values and texts",["ttype.go","tnumeric.go"],[("CoerceData","ttype.go"),("NewNumericFromJSONString","tnumeric.go")])
na("N05","The generator emits correct Go for every IDL","For every valid IDL the generator emits Go that compiles against the library and implements the IDL's types and services.","all IDL files",["../../../../compiler/cpp/src/generate/t_go_generator.cc"],[("t_go_generator","../../../../compiler/cpp/src/generate/t_go_generator.cc")])
na("N06","Struct and field metadata lookups agree","Looking up a field by id, by name and by position in a struct description yields the same field for every description.","all struct descriptions",["tfield.go","tstruct.go"],[("FieldFromFieldId/FieldFromFieldName","tstruct.go")])
for p in P:
    p["anchors"]["files"]=[x.replace(L+'../../../../','') for x in p["anchors"]["files"]]
    for m in p["anchors"]["mechanism"]: m["where"]=m["where"].replace(L+'../../../../','')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s); assert len(p['title'])<=80,p['title']
print(len(P))
