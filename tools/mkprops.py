#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so that statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})

# ---------------------------------------------------------------- wire
prop("W01", "Text survives the wire unchanged",
     "Every byte sequence without NUL given as a message argument or property value is handed over by the peer's reader exactly as it was given: the escaping done when a message is written and the unescaping done when it is read are inverse for every byte, in every position. (An argument that itself begins with a valid key followed by '=' is, by the protocol, a named argument.)",
     ["inputs"], "all byte strings without NUL, as argument or as property value",
     "Tests send a handful of ASCII paths and region strings; none contains every byte value next to every other, and no test composes writer and reader over all bytes.",
     ["src/message.c", "src/buffer.h"],
     [("escaping writer", "src/message.c write_buffer_escaped / write_message"), ("unescaping state machine", "src/message.c read_message")],
     observe=["trax_server_wait", "trax_client_wait", "bytes written to the stream"])
prop("W02", "Only a complete message of this call is ever delivered",
     "A receive reports a message only if the prefix at the start of a line and a known message name were read during that very call; after end of stream, or after lines that are not messages, it reports an error and never repeats an earlier message. Arguments and properties delivered with a message come only from that message's own line, never from a message that was discarded as malformed. A malformed message line does not take the line that follows it with it.",
     ["inputs", "histories"], "all byte streams from the peer and all positions at which the stream can end",
     "Tests exchange well-formed messages only and stop at quit; the behaviour after a malformed line, or when the peer dies after a valid message, depends on parser state kept across calls.",
     ["src/message.c"],
     [("message type reset and parser state machine", "src/message.c read_message")],
     [("input.message_type", "type recognised so far", "src/message.h input_cache"), ("input.state", "parser state", "src/message.h input_cache")])
prop("W03", "Every byte value from the peer is data; only the OS ends a stream",
     "Each byte received from the peer, whatever its value from 0 to 255, is processed exactly once and in order. A receive treats the stream as ended only when the operating system's read reports end of file or an error, and from then on it terminates without reading further in that call.",
     ["inputs", "fault_sequences"], "all byte values and all ways the reads can be split into chunks",
     "All test traffic is 7-bit ASCII, so a byte that is mistaken for the end-of-stream marker, dropped or read twice at a chunk boundary is never exercised.",
     ["src/message.c"], [("buffered character reader", "src/message.c read_character")],
     [("buffer_position / buffer_length", "unread part of the receive buffer", "src/message.h message_stream")])
prop("W04", "Writer and reader share one vocabulary",
     "For message names, region kinds, image kinds, channels, pixel formats and compressed-buffer formats, the name that is written for a value is read back as that same value, every supported value has a name, two different values never share a name, and an unknown name is never taken for a value of another kind (an unknown region prefix is no prefix; unknown image, channel and format names are refused or ignored).",
     ["inputs", "configurations"], "all values of each enumeration and every subset of the format bit sets",
     "Tests negotiate one format combination (path images, rectangles or polygons); a name swapped or missing on one side shows only with the combinations that are not run.",
     ["src/trax.c", "src/message.c"],
     [("encode/decode pairs", "src/trax.c image_formats_*, region_formats_*, channels_*, decode_*_format, image_encode"), ("message names", "src/message.c write_message, __parse_message_type")])
prop("W05", "Whatever is handed to the transport is written completely and in order",
     "For every way the operating system may split a write, sending a piece of text either transfers exactly its bytes, each once and in order, or reports failure; after a failed write the sender does not loop and does not write the same bytes again. Sending to a closed socket reports failure instead of raising a signal.",
     ["fault_sequences", "inputs"], "all sequences of short writes and write errors",
     "Pipes on a test machine accept whole messages; short writes happen with large in-memory images and slow peers only.",
     ["src/message.c"], [("write loop", "src/message.c write_buffer")])
prop("W06", "Every outgoing message is exactly one well-formed line",
     "Each message sent consists of the prefix, the name of the requested message type, each argument in order in double quotes, each property as a quoted key=value, and a single final newline; nothing else is written, no argument or property is skipped or repeated, and a raw newline or an unescaped quote from argument or value text never reaches the stream.",
     ["inputs", "histories"], "all message types, argument lists and property sets",
     "Tests look at sessions that succeed with few arguments, never at the written bytes for all types, list lengths and values.",
     ["src/message.c"], [("message writer", "src/message.c write_message, __output_properties, write_buffer_escaped")])
prop("W07", "The protocol log mirrors the traffic",
     "When a logger is installed it is given every byte received and every successfully sent piece of text, once each and in order, and it is flushed at the end of each message; when none is installed no callback is made.",
     ["inputs", "histories", "configurations"], "all traffic, with and without a logger",
     "No test compares the log with the traffic.",
     ["src/message.c", "src/message.h"], [("LOG_* hooks in reader and writer", "src/message.c read_message, write_buffer, write_message")])

# ---------------------------------------------------------------- session
prop("S01", "A finished session never touches the stream again",
     "Once a session has ended - because either side terminated it - every later wait, initialize, frame or reply on that handle returns an error without reading from or writing to the stream, and asking whether the handle is alive says no.",
     ["histories"], "all sequences of API calls on a client or server handle",
     "Tests call a few operations in the intended order and clean up; calls after the end are not made on every entry point, version and mode.",
     ["src/trax.c"], [("liveness test at the head of each operation", "src/trax.c HANDLE_ALIVE"), ("termination mark", "src/trax.c TRAX_FLAG_TERMINATED")],
     [("handle.flags", "valid / server / terminated bits", "include/trax.h trax_handle")])
prop("S02", "Quit is sent at most once and never answered with quit",
     "Over the life of a handle at most one quit message is sent, and none after a quit message has been received; terminating or cleaning up a live handle sends exactly one, and repeating it does nothing. A wait that returns the quit status leaves the handle not alive.",
     ["histories"], "all sequences of terminate, cleanup and received quit messages, for both roles",
     "Tests end each session in one way; repeated termination and quit crossing from both sides need call histories they do not contain.",
     ["src/trax.c"], [("termination mark set with quit", "src/trax.c trax_terminate, trax_client_wait, trax_server_wait_sot, trax_server_wait_mot")],
     [("handle.flags", "terminated bit", "include/trax.h trax_handle")])
prop("S03", "A refused request leaves nothing on the wire",
     "When an initialize, frame or reply call returns an error, that call has written no message at all: everything that can make it refuse (wrong mode, wrong object count, missing image channel, region that cannot be encoded) is found out before the first message of the call is written.",
     ["inputs", "histories"], "all argument combinations and session states that make a request call fail",
     "Tests issue requests that succeed; a request that fails half-way desynchronises the peer only in failing multi-object or multi-channel calls.",
     ["src/trax.c"], [("validation before write_message", "src/trax.c trax_client_initialize, trax_client_frame, trax_server_reply_sot, trax_server_reply_mot")])
prop("S04", "Object counts stay in step between the two sides",
     "A client never has more than one object in a session whose peer did not declare multi-object support; a server reply succeeds only with exactly as many regions as there are active objects and sends that many state messages (a single-object session sends one per reply); a client wait asks for exactly one state per active object. Every accepted initialize adds its objects to the active count exactly once.",
     ["histories", "inputs"], "all sequences of initialize, frame, reply and wait with any number of objects",
     "The multi-object tests use one fixed number of objects, so that a count that is not updated or not compared shows only in sequences that are not run.",
     ["src/trax.c"], [("object counters and their checks", "src/trax.c trax_client_initialize, trax_client_frame, trax_server_wait_mot, trax_server_reply_mot")],
     [("handle.objects", "number of active objects", "include/trax.h trax_handle")])
prop("S05", "What a wait hands out matches the status it returns",
     "When a server wait returns frame or initialize, the image list is set and holds a decoded image, of a kind the server declared, for every declared channel; when any wait returns an error or quit, no image, region or object list is handed to the caller and whatever was decoded so far has been released. A client wait returning the state status hands out an object list.",
     ["inputs", "histories"], "all messages a peer can send, well-formed or not",
     "Tests only receive well-formed messages with one channel, so that the clean-up and the output values on rejected messages are never observed.",
     ["src/trax.c"], [("failure and end paths of the waits", "src/trax.c trax_server_wait_sot, trax_server_wait_mot, trax_client_wait")])
prop("S06", "No message from the peer can crash the session layer",
     "Whatever message a peer sends - any known type at any time, any number of arguments, missing or odd properties, regions and images that do not decode - the receiving library call returns a status: it does not read a missing argument, dereference a missing value, or abort on an assertion.",
     ["inputs", "histories"], "all parsed messages in all session states, on client and server, including the hello message",
     "Fixed test peers send the expected messages; malformed or unexpected ones are unbounded and are not sent.",
     ["src/trax.c"], [("argument-count and NULL checks in the receive paths", "src/trax.c client_setup, trax_client_wait, trax_server_wait_sot, trax_server_wait_mot")])
prop("S07", "Operations succeed or fail with the documented status and error text",
     "A request or wait that fails because of the state of the handle or because the peer broke the argument count leaves a readable error text, formatted with the values it names; a call that starts on a live handle first forgets the text of an earlier failure, and a request that succeeds leaves none. Every failing return of those calls is the error status, never the OK status.",
     ["histories", "inputs"], "all calls on client and server handles",
     "Tests do not look at error texts and hardly provoke errors.",
     ["src/trax.c"], [("set_error / clear_error", "src/trax.c")], [("handle.error", "text of the last failure", "include/trax.h trax_handle")])

prop("S08", "What one side passes is what the other side is handed, each thing in its place",
     "A request, reply or greeting carries exactly what the caller gave: one image text per declared channel in channel order, the text of the i-th object's region together with that object's own properties, the frame's own properties with the frame, and the name, description, family, formats, channels and further properties of the tracker each under its own key. A wait hands out what the messages carried in the same places: images at their channels, the i-th region and its properties at the i-th object, the frame's properties to the caller; and a client's session describes the tracker with what the greeting said.",
     ["inputs", "histories"], "all session calls, any number of objects and any set of channels",
     "Tests run with one object, one channel and mostly empty properties, where every mix-up of places gives the same result.",
     ["src/trax.c"], [("client_setup / server_setup / client_frame / trax_client_* / trax_server_*", "src/trax.c")], [("trax_object_list", "regions and properties by index", "include/trax.h"), ("trax_image_list", "images by channel", "include/trax.h")])

# ---------------------------------------------------------------- memory
prop("M01", "C library calls release everything they allocate",
     "On every way out of a C library call - success, refusal, malformed message, early return - each block of memory the call allocated has been released, is reachable from the handle or object it was called on, or has been handed to the caller.",
     ["inputs", "histories"], "all paths through the public C functions",
     "Leaks on rejected messages and refused calls do not change any test result.",
     ["src/trax.c", "src/region.c", "src/strmap.c", "src/message.c", "src/buffer.h"],
     [("release calls on every exit", "src/trax.c, src/region.c, src/strmap.c, src/message.c")])
prop("M02", "No freed, missing or uninitialised memory is used by the C library",
     "On every path through a C library call with valid arguments no block is used after it was freed or freed twice, no null or uninitialised pointer is dereferenced, and no value that was never set decides a branch, is returned, or is stored in a session.",
     ["inputs", "histories"], "all paths through the public C functions with arguments their documentation allows",
     "The tests run without sanitizers and take the common paths only.",
     ["src/trax.c", "src/region.c", "src/strmap.c", "src/message.c", "src/buffer.h", "src/base64.c"],
     [("ownership discipline", "src/trax.c, src/region.c, src/strmap.c, src/message.c")])
prop("M03", "Growing buffers never overflow",
     "Text buffers and string lists used to build and parse messages always have room for what is appended: after any sequence of appends the number of elements in use is at most the allocated size, every store lies inside the allocation, and the stored text ends with its terminator when it is extracted.",
     ["inputs", "histories"], "all sequences of appends of any length",
     "The first allocation is larger than nearly everything the tests append, so the growth paths and their boundaries are hardly run.",
     ["src/buffer.h"], [("growth checks", "src/buffer.h buffer_push, buffer_append, list_append, list_append_direct, buffer_extract")],
     [("position/size", "used and allocated elements", "src/buffer.h")])
prop("M04", "Decoding a region or image text never corrupts memory or aborts",
     "For any text whatsoever - empty, truncated, with wrong counts, negative or huge sizes, invalid Base64 - decoding a region or an image returns an object or reports failure: every store lies within memory allocated for it and no assertion is hit.",
     ["inputs"], "all strings given to the region and image decoders",
     "Tests decode a dozen well-formed strings; the malformed ones are unbounded.",
     ["src/region.c", "src/trax.c", "src/base64.c"],
     [("counts checked before use", "src/region.c region_parse, _parse_sequence; src/trax.c image_decode; src/base64.c base64decode")])
prop("M05", "Indexed access to lists, polygons and rows stays in range",
     "In the C library, reading or writing an element by index - object lists, image lists, polygon points, image rows, mask rows - touches memory only for an index inside the container; any other index is refused (ignored, null result, or assertion) before memory is touched.",
     ["inputs"], "all index values, including negative ones and the exact size",
     "Tests use valid indices only.",
     ["src/trax.c"], [("range checks of the accessors", "src/trax.c trax_object_list_*, trax_image_list_*, trax_region_*_polygon_point, *_row")])

# ---------------------------------------------------------------- data
prop("D01", "A property dictionary behaves as a map",
     "After storing a value under a key, reading that key returns exactly that value, whatever was stored under it before and whatever other keys share its slot; other keys are unaffected, the number of entries grows by one only for a new key, and enumeration visits every stored entry exactly once.",
     ["inputs", "histories"], "all sequences of set, get, has, count and enumerate with any keys and values",
     "Tests store a few keys that never collide and rarely overwrite one value with a longer or shorter one.",
     ["src/strmap.c", "src/trax.c"], [("hash table", "src/strmap.c sm_put, sm_get, sm_enum, get_pair")])
prop("D02", "Merging properties honours overwrite and reserved keys",
     "Merging one property set into another without overwrite leaves every existing key of the destination as it was, merging with overwrite replaces it, and in both cases keys missing from the destination are added. Keys reserved for the protocol (starting with 'trax.') never enter the custom properties of a session's metadata.",
     ["inputs", "configurations"], "all pairs of property sets and both merge modes",
     "Tests merge into empty sets only, where all merge modes give the same result.",
     ["src/trax.c"], [("merge modes", "src/trax.c copy_properties, trax_properties_append, client_setup")])
prop("D03", "Base64 coding is lossless and its sizes agree",
     "The encoding and decoding alphabets are inverse to each other for all 64 symbols, every other byte ends or is rejected by decoding, the length computed for an encoded or decoded buffer is the number of bytes the coder really writes, and an image buffer that is sent and decoded has the same length and bytes.",
     ["inputs"], "all byte strings of all lengths modulo 3",
     "Tests send file paths; the Base64 path is run on one or two images at most.",
     ["src/base64.c", "src/trax.c"], [("alphabet tables", "src/base64.c pr2six, basis_64"), ("length formulas", "src/base64.c base64encodelen, base64decodelen; src/trax.c image_encode, image_decode")])
prop("D04", "Image and mask rows tile their pixel block exactly",
     "For every width, height and pixel format, the address returned for row r of an in-memory image is r times the row's byte size from the start, the rows follow each other without gap or overlap, and height rows fill exactly the block that was allocated and that is transmitted; the same holds for mask rows.",
     ["inputs"], "all image and mask dimensions, pixel formats and row numbers",
     "Tests only touch row 0 or copy whole images.",
     ["src/trax.c", "src/region.c"], [("row address computation", "src/trax.c trax_image_get_memory_row, trax_image_write_memory_row, trax_region_get_mask_row, trax_region_write_mask_row, trax_image_create_memory, image_encode, image_decode")])
prop("D05", "Every region kind is handled by every region operation",
     "Creating, cloning, encoding, converting, bounding and releasing handle each region kind: a clone or a successful conversion has the kind asked for and its own storage, encoding gives text for every non-empty kind, releasing frees exactly the arrays that kind owns, and a conversion that does not exist yields no region instead of a half-filled one. What is given to a new region or a setter is what the accessors return, and no operation reads the storage of another kind.",
     ["inputs", "configurations"], "all pairs of region kinds and operations",
     "Tests convert between a few kinds in the working direction.",
     ["src/region.c", "src/trax.c"], [("kind dispatch", "src/region.c region_convert, region_release, region_string, region_compute_bounds")])
prop("D06", "Bounds and conversions cover the whole coordinate plane",
     "A bounding box computed from points or pixels is the tightest one for any coordinates, negative ones included: running minima start above and running maxima start below every possible coordinate, horizontal and vertical coordinates are never mixed, and a polygon turned into a mask keeps its position. A point test of a mask reads the pixel under the point and never one outside, a mask copied into a window keeps its pixels in place, and the window given to an overlap reaches it unmixed.",
     ["inputs"], "all polygons and masks, any sign of coordinates",
     "The region tests use positive coordinates, for which wrong starting values of the running extremes do not show.",
     ["src/region.c"], [("running extremes", "src/region.c compute_bounds_polygon, compute_bounds_mask, region_convert"), ("polygon to mask", "src/region.c region_convert")])

# ---------------------------------------------------------------- isolation
prop("R01", "Sessions in one process do not share hidden state",
     "Library calls on different handles, regions, images and property sets can run in different threads without influencing each other: the C library keeps no mutable state outside the objects passed to it, except the documented region rasterization flags, and calls no C library function that does.",
     ["schedules"], "all interleavings of calls on disjoint objects",
     "All tests are single-session and single-threaded on the library side.",
     ["src/trax.c", "src/region.c", "src/message.c", "src/strmap.c", "src/base64.c"],
     [("absence of writable globals and non-reentrant calls", "src/*.c")])
prop("R02", "The library never pollutes the tracker's standard output",
     "A tracker that talks over standard output can rely on the library writing nothing to standard output besides protocol messages: every byte the library writes there goes through the message writer, and diagnostics never do.",
     ["inputs", "histories"], "all library calls on the server side",
     "Stray output is skipped by the reader as a non-message line unless it splits a message, so tests rarely notice.",
     ["src/trax.c", "src/region.c", "src/message.c", "src/debug.c", "src/traxpp.cpp"], [("all output through the stream", "src/message.c write_buffer")])

# ---------------------------------------------------------------- bindings
prop("B01", "The Python binding matches the C interface",
     "Every C function, structure and constant the Python package declares exists in the C header with the same number, order and kinds of parameters, the same kind of result, the same structure layout, and the same constant value; callbacks have the C callback's signature.",
     ["configurations"], "all declarations of the Python binding",
     "The Python tests call a fraction of the functions; a wrong declaration for the others, or a wrong constant, is silent until used.",
     ["support/python/trax/_ctypes.py", "support/python/trax/__init__.py", "support/python/trax/image.py", "support/python/trax/region.py", "include/trax.h"],
     [("ctypes declarations", "support/python/trax/_ctypes.py"), ("constants", "support/python/trax/*.py")])
prop("B02", "C++, Octave/MATLAB and Python name and number things alike",
     "The names under which the C++, MATLAB/Octave and Python bindings accept or report region kinds, image kinds and channels denote the same value when given as input and when reported as output, every value they can report is also accepted as input, and the numbers agree with the C interface.",
     ["configurations", "inputs"], "all names and codes of the bindings",
     "Binding tests use one region kind and one image kind.",
     ["support/matlab/helpers.cpp", "support/python/trax/region.py", "support/python/trax/image.py", "src/traxpp.cpp"],
     [("code tables", "support/matlab/helpers.cpp, support/python/trax/*.py")])
prop("B03", "C++ wrappers release their native object exactly once",
     "Whatever sequence of construction, copy, move, assignment (self-assignment included), reset and destruction is applied to C++ images, lists, regions, properties, metadata and handles, the shared native object stays valid while any wrapper refers to it and is released exactly once, by the last one.",
     ["histories"], "all sequences of wrapper operations",
     "Tests copy wrappers in a few patterns and would not notice a leak or a late double free.",
     ["src/traxpp.cpp", "include/trax.h"], [("reference count", "src/traxpp.cpp Wrapper::acquire, release, claims; class cleanup functions")])
prop("B04", "An empty C++ wrapper never reaches the native library",
     "Calling an operation of a C++ client, server or handle object that holds no session, or handing it an empty image list, object list or region, never passes a null object to a native function that dereferences it: the call returns an error status, false or an empty value.",
     ["histories", "inputs"], "all methods of Handle, Client and Server on objects without a session, and with empty lists, regions and properties as arguments",
     "Tests use constructed objects only.",
     ["src/traxpp.cpp"], [("claims()/emptiness checks", "src/traxpp.cpp")])
prop("B05", "Changing a shared C++ value does not change its copies",
     "Modifying a C++ region, properties object or object list through any of its modifying methods (setting, clearing, writing mask rows) leaves every other object that was copied from it or to it unchanged.",
     ["histories"], "all sequences of copies and modifications",
     "Tests modify objects that have no copies.",
     ["src/traxpp.cpp"], [("copy on write", "src/traxpp.cpp Properties::ensure_unique, Region::set*")])

prop("B06", "C++ calls hand everything through to the native call unchanged",
     "Whatever a caller gives to a C++ operation - images, objects, regions, properties, sizes, coordinates, texts - reaches the native function it stands for in the place of the same meaning; the status that function answers is the status the caller gets; and the description of a session or tracker tells the values, including the custom properties, of the native one.",
     ["inputs"], "all public operations of the C++ classes, from every state of their operands",
     "Tests use square sizes, equal formats and empty properties, where most mix-ups give the same result.",
     ["src/traxpp.cpp"], [("Client / ServerSOT / ServerMOT / Region / Image / Metadata / Properties methods", "src/traxpp.cpp")])

# ---------------------------------------------------------------- client process
prop("C01", "The client never deadlocks on its own locks",
     "In the tracker-process client no thread ever blocks on a lock it already holds unless that lock is recursive, no two threads can take the same two locks in opposite orders, and every lock taken in a function is released on every way out of it, including by exception.",
     ["schedules", "fault_sequences"], "all interleavings of user calls, watchdog and logger threads",
     "Tests run one schedule per run and exceptions are rare.",
     ["support/client/client.cpp", "support/client/threads.cpp", "support/client/threads.h"],
     [("mutexes and RAII locks", "support/client/client.cpp TrackerProcess::State")])
prop("C02", "The watchdog is armed for every blocking exchange and always disarmed",
     "Every exchange of the client with the tracker that can block on the peer runs with the watchdog armed, and on every way out of the call - reply, quit, error, exception thrown by the client - the watchdog has been disarmed, so that it can neither miss a hang nor kill a tracker that is idle.",
     ["schedules", "fault_sequences"], "all outcomes of each client operation",
     "The timeout tests cover one hanging operation; the others and the exceptional exits are not run.",
     ["support/client/client.cpp"], [("start_watchdog / stop_watchdog", "support/client/client.cpp")])
prop("C03", "State shared between client threads is only touched under its lock",
     "The tracker process reference, the watchdog timer and the logger's line buffer that are shared by the user's thread, the watchdog thread and the logger thread are read and written only while holding the lock that protects them, apart from construction and destruction when no other thread runs.",
     ["schedules"], "all interleavings of the three threads",
     "Races show only in rare schedules.",
     ["support/client/client.cpp"], [("lock discipline", "support/client/client.cpp TrackerProcess::State")])
prop("C04", "A tracker process never leaks descriptors or the working directory",
     "Starting a process either succeeds or leaves no open pipe behind; the descriptors of the pipes that a process object holds are closed exactly once, by the time the object is destroyed, and a process that was never started closes nothing; what was set up for the spawn is released and the current directory is restored on every way out of the start.",
     ["fault_sequences", "histories"], "all outcomes of each system call made while starting, and all start/stop histories",
     "Tests start processes successfully or with one missing executable and do not count descriptors.",
     ["support/client/process.cpp"], [("start and cleanup", "support/client/process.cpp Process::start, cleanup, ~Process")])
prop("C05", "Stopping a tracker escalates until the process is gone",
     "When the client stops a tracker it first asks over the protocol, then sends the termination signal, then the kill signal, checking after each step whether the process is still there; it never ends the stop with a live process that was not sent the kill signal, never signals a process known to have ended, and drops its reference only after that.",
     ["fault_sequences", "schedules"], "all reactions of the tracker to being stopped",
     "Tests stop well-behaved or already dead trackers.",
     ["support/client/client.cpp", "support/client/process.cpp"], [("stop_process escalation", "support/client/client.cpp; support/client/process.cpp Process::stop, kill, is_alive")])
prop("C06", "A failed exchange surfaces to the caller of the client",
     "When an exchange with the tracker fails - the native call reports an error, the tracker is gone, or the operation is not allowed in the current state - the client call returns false or throws; it never reports success, the tracker is stopped after a communication error, and an error object that is built is also thrown.",
     ["fault_sequences", "histories"], "all failures of the underlying protocol calls in every client operation",
     "Tests have trackers that crash in one or two operations only.",
     ["support/client/client.cpp"], [("status handling", "support/client/client.cpp TrackerProcess::initialize, frame, wait, query")])
prop("C07", "Client teardown stops its threads before freeing what they use",
     "Destroying a tracker-process object signals the watchdog and the logger to stop and waits for both threads before the process and session those threads use are released; both loops observe the stop signal on every iteration.",
     ["schedules"], "all interleavings of destruction with the two threads",
     "Use after free in teardown needs a thread that is late by a few instructions.",
     ["support/client/client.cpp", "support/client/threads.cpp"], [("destructor order", "support/client/client.cpp TrackerProcess::State::~State")])

# ---------------------------------------------------------------- beyond static reach
prop("N01", "Region overlap is the true intersection over union",
     "The overlap reported for two regions is the area of their intersection divided by that of their union, between 0 and 1, symmetric, and 1 for identical regions.",
     ["inputs"], "all pairs of regions and bounds", "Tests compare a few pairs.",
     ["src/region.c"], [("rasterized overlap", "src/region.c region_compute_overlap")])
prop("N02", "Saved trajectories load back identically",
     "A trajectory saved to a file and loaded again has the same number of regions with equal values up to the written precision.",
     ["inputs"], "all trajectories", "Tests load one sequence.",
     ["support/client/client.cpp"], [("load/save", "support/client/client.cpp load_trajectory, save_trajectory")])
prop("N03", "A hung tracker is ended within the configured timeout",
     "A tracker that does not answer within the configured time is terminated within a bounded delay after it, and one that answers in time is never terminated.",
     ["schedules", "fault_sequences"], "all timings", "Timeout tests sample two durations.",
     ["support/client/client.cpp"], [("watchdog loop", "support/client/client.cpp watchdog_loop")])
prop("N04", "A mask survives encoding and decoding",
     "Encoding a mask as run lengths and decoding it gives the same pixels, size and offset.",
     ["inputs"], "all masks", "Tests encode one or two masks.",
     ["src/region.c"], [("run-length coder", "src/region.c region_string, region_parse")])
prop("N05", "Numbers keep their value in text whatever the locale",
     "Coordinates and numeric properties written by one side are read by the other as the same number up to the written precision, for every locale of the host process.",
     ["inputs", "configurations"], "all numbers and locales", "Tests run in the C locale.",
     ["src/region.c", "src/trax.c"], [("printf/strtod", "src/region.c region_string, _parse_sequence")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
