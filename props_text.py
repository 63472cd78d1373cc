prop("F01", "Field identifiers encode and decode field type and number exactly",
     "Creating a field identifier succeeds exactly for a supported field type and a field number from 1 to 16777215, and the identifier then yields back the same type and the same number. "
     "Every other combination is refused with the bad-identifier value and the error code that names the wrong part (type first).",
     ["inputs"], "all 2^32 types x 2^32 numbers, and all 2^32 identifiers for decoding",
     "tests try a handful of identifiers; the guarantee is over every 32 bit pair, and refusals depend on exact range ends",
     ["src/fml32.cpp"], [("Fmkfldid32 range checks and packing", "src/fml32.cpp Fmkfldid32"), ("Fldtype32, Fldno32", "src/fml32.cpp")])
prop("B03", "Base64 text round-trips and malformed text is refused without overruns",
     "Encoding any data gives exactly its RFC 4648 text when the output has room for it and is refused otherwise; decoding that text gives back exactly the data. "
     "Decoding refuses text whose length is not a multiple of four, with a character outside the alphabet or padding anywhere but at the end, and an output smaller than three bytes for every four characters. "
     "Neither operation ever reads or writes outside its input and output or changes output bytes after its result.",
     ["inputs"], "all inputs up to 2^30 bytes, all output sizes",
     "tests use a few strings; the guarantee spans every byte value, length residue and output size",
     ["src/base64.cpp"], [("block loops, tail handling", "src/base64.cpp base64encode, base64decode"), ("decoding table", "src/base64.cpp")])
prop("T03", "The transaction table never mixes up, loses or leaks transactions",
     "Starting a transaction hands out an entry of no active transaction inside the table's capacity, with the given identifier recorded and the starting group as only participant, and is refused only for an invalid group or when every entry is in use, changing nothing. "
     "Joining marks exactly one group, releasing an entry leaves it free without participants, and an out-of-range transaction or group is refused; none of these touches another transaction. "
     "Looking up a transaction finds an entry only when format, lengths and every data byte of its identifier are equal, and a recorded transaction is always found.",
     ["inputs", "histories"], "all table contents, capacities up to 65535 and group counts up to 2^20; each operation preserves the table's invariant, so all histories",
     "tests run one short start/join/end sequence on one table; slot reuse, bounds and isolation must hold for every history",
     ["src/trx.h", "src/misc.cpp"], [("transaction_table::start/find/join/has_joined/end/at/init/needed", "src/trx.h"), ("nearest", "src/misc.cpp")],
     [("entries", "fixed-stride records with XID and participant flags")])

prop("T05", "ATMI transaction calls report exactly what the transaction manager did",
     "tpopen, tpclose, tpbegin, tpcommit, tpabort, tpgetlev, tpsuspend and tpresume each perform exactly the one TX operation they stand for (tpbegin: set the timeout and, only if that succeeds, begin), succeed with no error exactly when it succeeds, and otherwise return -1 with the error the result stands for (rolled back, heuristic, hazard, protocol, permanent, system). "
     "Non-zero flags or a missing argument are refused with TPEINVAL before anything is done. "
     "tpsuspend stores exactly the identifier of the suspended transaction when it fits in TPTRANID and never writes outside it; tpresume resumes exactly the stored identifier.",
     ["inputs"], "all arguments, all results of the TX operations, all transaction identifiers",
     "tests see only the few results a healthy resource manager produces; the mapping must hold for every result and every identifier length",
     ["src/trx.cpp"], [("tpbegin, tpcommit, tpabort, tpsuspend, tpresume ...", "src/trx.cpp")])
prop("T01", "TX calls follow the transaction state machine of the calling thread",
     "In a state that does not allow it every TX call returns a protocol error without asking the resource manager or changing anything; otherwise opening, closing, beginning, suspending, resuming, joining and ending ask the own resource manager exactly once about the right transaction with the right flags, move the state only when it agrees, and map its refusal to the documented error. "
     "tx_begin takes one table entry for one new identifier and releases it when the resource manager refuses, ending or a chained successor follows the same rules, and the characteristics change only to valid values. "
     "tx_info always reports the context as it is: whether there is a transaction, its identifier, and a transaction control equal to the mode the calls act in.",
     ["inputs", "histories"], "all contexts that satisfy the state invariant (preserved by every call, so all histories), all resource manager results, all configurations of the own group. Not covered: what remains of the identifier after the resource manager fails to end a branch",
     "tests follow a few call sequences with a resource manager that agrees; refusals in the middle, chained mode and suspended transactions must hold for every history",
     ["src/tx.cpp"], [("tx_open, tx_close, tx_begin, tx_info, tx_set_*", "src/tx.cpp"), ("_tx_suspend, _tx_resume, tx_join, tx_end", "src/tx.cpp"), ("tx_context", "src/tx.cpp")])
prop("T02", "All participants of a transaction get one decision, the one reported",
     "tx_commit asks every group that joined the transaction, and no other, to prepare exactly that transaction; it tells all of them that did not vote read-only to commit when every vote was OK or read-only, and otherwise to roll back, and reports exactly that outcome. tx_rollback tells every participant to roll back. "
     "A participant that cannot be called or whose answer fails counts as not agreeing, and each participant's own answer is the one that counts. The table entry is released once, and the outcome is reported even when a chained successor cannot begin. "
     "A transaction manager performs exactly the requested operation on the requested transaction and resource manager and answers with its result; unknown operations are refused.",
     ["inputs", "fault_sequences"], "any number of participants up to 2^16, all combinations of votes, call failures and time-outs. Not covered: answers of the second phase (not used by the code) and crashes between the phases (the code keeps no log)",
     "tests commit with one or two agreeing resource managers; the decision must be right for every combination of votes and failures",
     ["src/tx.cpp"], [("tx_commit, tx_rollback, collect, command", "src/tx.cpp"), ("tm", "src/tx.cpp")])
prop("F03", "Lookups in a fielded buffer return exactly the stored occurrence",
     "For every well formed buffer, field and occurrence number: Fpres32, Flen32, Ffind32, Fget32 and Fgetalloc32 act on exactly that occurrence (its length and bytes) and report FNOTPRES when the field has no such occurrence; Foccur32 counts the occurrences and Ffindlast32 returns the last one with its number. "
     "Fnext32 steps from an occurrence to the field stored after it, with the right id, occurrence number, length and value, and reports the end only after the last field. "
     "A value longer than the given room is refused with FNOSPACE, giving the needed length and copying nothing; Fgetalloc32 returns memory for the value and the extra length. Ids of unknown types and id 0 are refused (FTYPERR, FBADFLD). No lookup changes the buffer or reads outside it.",
     ["inputs"], "all buffers that satisfy the representation invariant (sorted sections, up to 4 GB), all ids, occurrence numbers and lengths. Not covered: Ffindocc32",
     "tests look up a few fields in small buffers; type sections, many occurrences, neighbouring ids and lengths at the limit must all be right",
     ["src/fbfr32.h", "src/fml32.cpp"], [("Fbfr32::where, wheren, next_, find, findlast, get, getalloc, next, occur", "src/fbfr32.h"), ("Ffind32 ... Fnext32", "src/fml32.cpp")])
prop("C01", "Every outstanding call has its own descriptor, until it is answered or cancelled",
     "A new call descriptor is positive and differs from all outstanding ones; descriptors are handed out in a cycle, so a recently used one is not reused while others are free. A descriptor is refused (TPELIMIT) only when more than a thousand calls are outstanding, and never more than 1025 are. "
     "Releasing or checking a descriptor that is not outstanding gives TPEBADDESC and changes nothing; releasing one frees exactly it. A reply that is kept belongs to its own descriptor, is found as long as the descriptor is outstanding, and is not touched by operations on other descriptors.",
     ["inputs", "histories"], "all tables of outstanding calls and all positions of the sequence, including wrap-around; each operation preserves the invariant, so all histories",
     "tests make a few calls with descriptors 1, 2, 3; wrap-around with long outstanding calls and any mix of replies need 2^31 calls to reach",
     ["src/resp.h"], [("responses::allocate, release, check, buffer, buffered, any_buffered", "src/resp.h")], [("calls_", "outstanding descriptors with kept replies"), ("seq_", "last descriptor")])
prop("C02", "A request is sent once as asked, and a reply goes to the call it answers",
     "tpacall sends exactly one request: to the service's queue, with the caller's data, service name, flags and block time, as part of the transaction exactly when there is one and TPNOTRAN is not given, and with a new descriptor and the client's reply queue, or neither for TPNOREPLY. It returns that descriptor exactly when the request was sent; otherwise it reports TPEBLOCK, TPETIME, TPELIMIT or another error and keeps no descriptor. "
     "tpgetrply delivers the reply to the descriptor asked for (any outstanding one for TPGETANY) with its data, length, tpurcode and outcome and frees exactly that descriptor; replies to other outstanding calls that arrive meanwhile are kept unchanged until asked for, replies to cancelled calls are dropped, and only a time-out ends the wait without a reply. "
     "tpcall awaits the reply to its own request, with the caller's transaction suspended meanwhile and resumed afterwards.",
     ["inputs", "histories", "fault_sequences"], "all flags and arguments, all tables of outstanding calls, any sequence of arriving messages of any length, failures of sending, receiving and importing. Not covered: termination of the wait",
     "tests exchange a few messages in order; replies out of order, late, after cancel or after failures must be matched for every arrival sequence",
     ["src/client.cpp", "src/resp.h"], [("client::tpacall_queue, tpgetrply, tpcancel; tpcall", "src/client.cpp")])
prop("C03", "Block times bound exactly the operations they are set for",
     "tpsblktime sets the time of the next blocking operation (TPBLK_NEXT) or of all (TPBLK_ALL) to the given number of seconds or milliseconds, tpgblktime reports it in the requested unit, and other flags are refused with TPEINVAL without effect. "
     "The time in effect for an operation is the TPBLK_NEXT one, used once, otherwise the TPBLK_ALL one, otherwise the configured one. "
     "Sending to a full queue gives up neither before that time nor more than a retry interval after it, does not try again with TPNOBLOCK, and never gives up with TPNOTIME; a message reported as sent was sent exactly once, one reported as not sent was not.",
     ["inputs", "fault_sequences", "schedules"], "all block times, flags, configured times, message lengths up to 2^31, any sequence of results of the queue operations. Not covered: the accuracy of the operating system's sleep, the enforcement of reply time-outs by the BBL process",
     "tests set a few values and never fill a queue; units, precedence, single use and the retry loop must hold for every value up to INT_MAX seconds",
     ["src/client.cpp", "src/ipc.cpp"], [("client::tpsblktime, tpgblktime, next_blocktime", "src/client.cpp"), ("msgsnd_timed, qsend", "src/ipc.cpp")], [("blocktime_next, blocktime_all", "milliseconds, 0 when unset")])
prop("I01", "Messages arrive exactly as sent, whatever their size",
     "A message that was sent is received with the same header and the same bytes, in the same number, whether it fits a queue entry or travels through a file; a message up to the limit is put in the queue itself, a longer one in a fresh private file whose name is what the queue carries, and the file is removed once it was read. "
     "Taking data into a message and out of it again gives an equal typed buffer (or none), with its length. "
     "A failure of any system call while sending or receiving is reported as an error and never yields a partial message or access outside the message's memory.",
     ["inputs", "fault_sequences"], "all contents and lengths up to 2^31 bytes, all previous sizes of the receiver's memory, failure or short transfer of every system call",
     "tests send messages of a few sizes that succeed; the boundary between queue and file, short transfers and reuse of the receiving memory must hold for every length",
     ["src/ipc.cpp", "src/ipc.h"], [("qsend, qrecv", "src/ipc.cpp"), ("msg::set_data, get_data, resize", "src/ipc.h")])
prop("B01", "Typed buffers keep type, contents and memory across every operation",
     "Allocating gives a buffer of the requested type and subtype with at least the requested size (at least the type's default) that the caller can write up to that size, an unknown type or missing argument is refused, and a failed allocation is reported without harm. "
     "Resizing keeps the type, the contents up to the smaller size and the integrity of a fielded buffer, which never shrinks below its contents; freeing releases exactly that memory, and a buffer owned by the call in progress is neither freed twice nor left dangling. "
     "Asking for the type reports exactly type, subtype and size, and memory that is no typed buffer is refused.",
     ["inputs", "fault_sequences"], "all types, sizes up to 4 GB, contents and ownership states, failure of every allocation",
     "tests allocate and grow a few small buffers; shrinking, huge sizes, failing allocation and owner bookkeeping must hold for every size",
     ["src/mem.cpp"], [("tpalloc, tprealloc, tpfree, tptypes", "src/mem.cpp"), ("memory type table", "src/mem.cpp")])
prop("B02", "An exported buffer is restored equal, and a bad import changes nothing",
     "Exporting a typed buffer writes its type, subtype and used contents to the caller's memory and reports the written length, refusing memory that is too small without writing past it; importing what was exported gives an equal typed buffer, growing the target when needed, in binary and in text form. "
     "The sizes computed for a transported buffer are inverse to each other. "
     "An import of invalid arguments, of a malformed or truncated text or when memory is exhausted is refused and leaves the target buffer as it was.",
     ["inputs", "fault_sequences"], "all buffer types, contents and sizes up to 4 GB, output sizes, texts and failures of allocation",
     "tests export and import one buffer per type; exact sizes, too small output and rejected imports must be right for every length",
     ["src/mem.cpp", "src/base64.cpp"], [("tpexport, tpimport, bufsize, datasize", "src/mem.cpp")])
prop("M01", "Bulletin board tables are exact: every entry found, none confused",
     "Each search returns the entry with exactly the given key, and nothing only when there is none; creating a queue, group, server or service adds one entry with the given contents at the end or is refused when the table is full or the text too long, leaving all other entries alone. "
     "Advertising adds exactly the asked (service, server, queue) once and reuses a freed place only; unadvertising frees exactly that one; both tell all readers through a new revision. "
     "The tables lie in disjoint parts of the shared memory, indexes outside a table are refused, and generated identifiers combine a never repeating counter, time and machine.",
     ["inputs", "histories", "configurations"], "all table contents and capacities (16 bit for services, servers, groups), all keys and texts; each operation from every state, so all histories",
     "tests create a handful of entries in one configuration; keys that nearly match, full tables, reuse of freed places and every capacity must be right",
     ["src/mib.cpp", "src/mib.h"], [("find_*, make_*, advertise, unadvertise, make_accesser", "src/mib.cpp"), ("mibarrptr, needed, init_memory, genuid", "src/mib.h, src/mib.cpp")],
     [("bulletin board", "tables in shared memory")])
prop("C04", "Requests are routed only to servers that currently advertise the service",
     "A client's list of servers for a service is rebuilt whenever advertisements changed, and then contains each current advertisement of that service with its queue and group exactly once and nothing else. "
     "Requests without a transaction take the list's entries in turn; requests to a given group go to an entry of that group; no entry, or an unknown service, is reported as TPENOENT. "
     "The lists of different services are never confused.",
     ["inputs", "histories", "schedules"], "all tables of advertisements, all lists, groups and positions of the round robin, any change of the advertisements by other processes at every moment the table's lock is free",
     "tests have one or two servers; unadvertising, re-advertising, several groups and any position of the round robin must route right",
     ["src/svcrepo.h"], [("service_entry::refresh, load_balance; service_repository::get_entry, get_queue", "src/svcrepo.h")], [("cached revision", "revision of the advertisements the list was built from")])
prop("S01", "A server runs the service asked for and answers each request once",
     "A server calls the function advertised under the name in the request, once, with the request's data, length, flags and descriptor, inside the request's transaction. "
     "tpreturn sends exactly one reply, to the caller's queue and descriptor, with the outcome, tpurcode and data the service gave; tpforward sends the same request on with the same reply address and transaction; nothing is sent for a request without reply. "
     "When the service fails to return, is unknown, or its answer cannot be sent as asked, the caller gets one failure reply and the transaction branch ends as failed. "
     "The dispatcher takes the next request only when the last one is done, gives a stop request meant for another server back to the queue, and stops exactly for its own. "
     "tpadvertise and tpunadvertise keep the server's own table and the bulletin board in step.",
     ["inputs", "histories", "fault_sequences"], "all requests, flags, return values and data, any sequence of requests (loop invariant), failures of sending, receiving and joining. Not covered: starting threads and the boot of a server, the code of the services",
     "tests run a few services that return properly; failing tpreturn or tpforward, calls without reply, stop requests on shared queues and unadvertised services must be handled in every combination",
     ["src/server.cpp"], [("server_thread::tpreturn, tpforward, reply, fail", "src/server.cpp"), ("dispatch", "src/server.cpp"), ("server_main::tpadvertisex, tpunadvertise, handle, mtype", "src/server.cpp")],
     [("advertisements", "services of the server with their functions"), ("stop", "the server was asked to stop")])
na("F04", "Changes to a fielded buffer affect only the occurrence they name",
   "Fadd32, Fchg32, Fdel32, Fdelall32, Finit32, Fproj32 and Fupdate32 leave every other occurrence with its value and order, keep the buffer well formed, and a refused change leaves the buffer as it was.",
   ["inputs", "histories"], "all well formed buffers, fields, occurrences and values",
   "tests change a few fields of small buffers; moves across type sections and the limits of the buffer must be right for every layout",
   ["src/fbfr32.h", "src/fml32.cpp"], [("Fbfr32::add, chg, del, delall, update, join", "src/fbfr32.h")],
   "contracts of the moves were written (a change is a splice at the place the lookup finds) but their obligations over 64-bit sums of section offsets were not all discharged within the time of a check, and that every change keeps the buffer well formed was not proved; the lookups (F03) assume a well formed buffer")
na("E01", "Boolean expressions evaluate as documented for every buffer",
   "Fboolco32 accepts exactly the documented grammar and Fboolev32/Ffloatev32 give the value its semantics prescribe for the buffer.",
   ["inputs", "programs"], "all expressions and buffers", "tests evaluate some dozens of expressions",
   ["src/expr.cpp"], [("parser and tree of nodes", "src/expr.cpp")],
   "recursive-descent parser and tree over std::string, std::regex, shared_ptr and virtual calls: the argument would rest almost wholly on assumed library contracts and the engine has no contract form for inductive trees; several defects found by reading are listed in DESIGN.md")
na("U01", "Configuration and table files are accepted and compiled exactly as written",
   "UBB configurations, view and field table files yield exactly the entries they state, malformed ones are refused with the line.",
   ["inputs", "configurations"], "all files", "tests load a few files", ["src/ubb2mib.cpp", "src/mkfldhdr32.cpp", "src/basic_parser.h"],
   [("parsers", "src/ubb2mib.cpp, src/basic_parser.h")],
   "parsers over iostreams, std::string and std::map with callbacks; no contract within reach states the language they accept without transcribing the grammar and trusting the library")
na("X01", "Servers are watched, restarted and stopped, and nothing waits for ever",
   "A blocked caller is released when its time is up, a dead server's resources are released, shutdown stops every server and leaves no IPC resource behind.",
   ["schedules", "crash_points", "fault_sequences"], "all schedules and crashes of the processes of an application", "tests boot and shut down one healthy application",
   ["src/BBL.cpp", "src/tmshutdown.cpp", "src/tmboot.cpp"], [("watchdog loop, process control", "src/BBL.cpp")],
   "liveness and crash behaviour of several processes over the operating system's scheduler: function contracts for sequential code cannot express it")
na("L01", "The user log gets every message complete and in its own line",
   "Each userlog call appends one line with time, process and the formatted message, whole and in order, to the log file of the day.",
   ["inputs", "schedules"], "all formats, lengths and concurrent writers", "tests write two lines", ["src/userlog.cpp"], [("vuserlog", "src/userlog.cpp")],
   "rests on vsnprintf, strftime and the atomicity of write(2) between processes; contracts would assume what is to be shown")
