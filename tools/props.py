#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
T='srcs/toolbox/'
ALL=[T+f for f in ('array.c','b64.c','bst.c','buf.c','config.c','config_fs.c','env.c','fs.c','hmap.c','json.c','lexer.c','list.c','log.c','memory.c','misc.c','net.c','pqueue.c','pwd.c','rb.c','str.c','test.c','uri.c')]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Everything a function acquires is released or handed over on every exit',
 'Every heap block, stream, file descriptor, socket, pipe, memory mapping and library object that a library function acquires is, on every path out of that function - each success path and each failure path - either released by it or handed over to the caller or to a longer-lived object. No call, whatever its input and whichever internal step fails, leaves behind a resource nobody can release.',
 ['inputs','fault_sequences'],'all inputs and every subset of failing internal steps (allocation, I/O, syscalls, callbacks) of every library function',
 'The tests take the success path and a handful of malformed inputs; no test makes an allocation or a system call fail, and none looks for leaks.',
 ALL,[('goto-err cleanup idiom',T+'*.c: every function with an err: label'),('destructors',T+'*.c: *_free')])
p('C02','Released memory and closed handles are never used again',
 'Once a library function has released a heap block, stream, descriptor or library object - directly or through a function it calls - no path through it reads, writes, releases again or hands out that resource. This includes links left inside objects that stay alive: removing an element from a container leaves no link to it in the container or its index or eviction structures.',
 ['inputs','fault_sequences','histories'],'all inputs, failing steps and operation sequences',
 'Double frees and stale links need a failing step at one particular point or a particular order of operations; tests run neither and are not instrumented.',
 ALL,[('destructors and err: labels',T+'*.c'),('hash map element removal',T+'hmap.c: u_hmap_del, __queue_del'),('tree/list unlinking',T+'json.c, config.c, bst.c, list.c')])
p('C03','Running out of memory is an error return, never a crash or a false success',
 'Wherever the library asks for memory - straight from the allocator or through one of its own functions that can run out - it looks at the result before using the memory. When memory is refused the operation fails through its documented error value; it never dereferences the missing block and never goes on to report success for work it could not store.',
 ['fault_sequences'],'every allocation site, failing at any call',
 'No test injects allocation failure.',
 ALL,[('allocator wrappers',T+'memory.c'),('constructors',T+'*.c: *_new, *_create, u_strdup, u_strndup')])
p('C04','All heap traffic goes through the application-configured allocator',
 'An application that installs its own allocation functions gets every library allocation, reallocation and release through them, each kind routed to the function installed for that kind, and memory obtained from one family is never released through the other. Only the allocator module itself and blocks which the platform library allocates on its own behalf are exempt.',
 ['programs','configurations'],'every allocation and release site in the library, for any installed allocator',
 'Tests run with the default allocator, where mixing families is invisible.',
 ALL,[('pluggable allocator',T+'memory.c: u_memory_set_malloc & co'),('allocation sites',T+'*.c')])
p('C05','NULL arguments that a function rejects are rejected before they are touched',
 'When a public function checks a pointer argument for NULL, no path dereferences that argument while it can still be NULL: not before the check, and not in the clean-up code its error path runs. Passing NULL to such a function yields its documented error value and nothing else.',
 ['inputs'],'every public function and every pointer argument it checks',
 'Tests pass valid pointers; the NULL cases and their error-path clean-up are not exercised.',
 ALL,[('dbg_return_if / dbg_err_if guards',T+'*.c'),('err: labels',T+'*.c')])
p('C06','A step that failed is never reported as success',
 'When a library function relies on another fallible library operation (building, copying with truncation detection, parsing, inserting, resizing, deleting...) and that operation fails, the function reports failure to its own caller. The only failures that may be absorbed are the documented best-effort ones.',
 ['inputs','fault_sequences'],'every call of a fallible library operation inside the library, for every input or fault that makes it fail',
 'Tests check results for inputs on which all inner steps succeed.',
 ALL,[('msg_err_if family','include/toolbox/carpal.h'),('call sites',T+'*.c')])
p('C07','A successful constructor delivers a live object; a failed one delivers none',
 'A function that returns a new object through a result pointer stores a live object there on every path on which it reports success. On every path on which it reports failure, it never leaves in the result pointer an object that it has already released.',
 ['inputs','fault_sequences'],'every constructor-like function, every path',
 'Failure paths of constructors are not exercised by the tests.',
 ALL,[('*_new, *_create, *_decode, *_crumble, *_load',T+'*.c')])
p('C08','Failed or short file I/O is never reported as success',
 'When the platform reports that a file or stream operation failed or transferred less than asked for - open, read, write, flush-on-close, copy, rename, link, stat, truncate, mapping - the library operation built on it returns an error. In particular a copy, move, save or dump that reports success has written all the data, and a move never removes the source unless the copy is complete. Line-by-line text input through the gets-style callbacks is outside this guarantee, as it has no error channel.',
 ['fault_sequences','inputs'],'every platform I/O call in the library, every way it can fail or be short',
 'Tests run on a healthy disk: no short write, read error or close error happens.',
 [T+f for f in ('fs.c','misc.c','buf.c','config_fs.c','pwd.c','rb.c','env.c','config.c','test.c')],
 [('u_copy/u_move',T+'fs.c'),('u_load_file, u_data_dump, u_savepid, u_io',T+'misc.c'),('u_buf_load/u_buf_save',T+'buf.c')])
p('C09','Interrupted system calls are resumed, all other failures are returned',
 'The wrappers around blocking system calls (read, write, accept, connect, open for configuration) resume the call when a signal interrupts it, without losing the amount already transferred. Every other failure ends the loop and is reported as an error; end of file is not reported as an error.',
 ['schedules','fault_sequences'],'any placement of signals and any sequence of short transfers and errors',
 'Tests do not deliver signals during these calls.',
 [T+'misc.c',T+'net.c',T+'config_fs.c'],[('u_io',T+'misc.c'),('u_accept, u_connect_ex',T+'net.c'),('drv_fs_open',T+'config_fs.c')])
p('C10','Logging never changes errno',
 'Writing a log or console message leaves errno as the caller had it, on every path through the logging code, whatever the log sink does. A caller that logs a failed system call can still look at errno afterwards.',
 ['inputs','fault_sequences'],'all messages, levels, sinks and logging configurations',
 'Tests do not look at errno after logging.',
 [T+'log.c'],[('errno save/restore',T+'log.c: u_log_write_ex, u_log_write, u_console_write_ex')])
p('C11','The logging lock is released on every path that takes it',
 'Every path through the logging code that acquires the application-installed log lock releases it exactly once before returning, and never releases it without holding it. The installed log hook and its argument are read, called and replaced only while the lock is held.',
 ['schedules','inputs'],'all paths through logging and hook installation, any interleaving of logging threads',
 'Tests install no lock and log from one thread.',
 [T+'log.c'],[('u_log_lock/u_log_unlock',T+'log.c'),('u_log_set_hook',T+'log.c')])
p('C12','Writes into fixed-size buffers never exceed the buffer',
 'Every library write into a buffer whose size is fixed in the program - stack arrays and array members of library objects - stays inside that buffer for every input: bounded copies are given a bound no larger than the destination, and computed positions are proved in range before the store.',
 ['inputs'],'all inputs; every store and every bounded library call into a fixed-extent buffer',
 'Tests use short tokens, names, keys and messages that stay far from the limits.',
 ALL,[('token buffers',T+'lexer.c, json.c, uri.c'),('path/line buffers',T+'misc.c, pwd.c, config.c, env.c, net.c, log.c, test.c')])
p('C13','The lexer cursor never leaves the text',
 'Whatever sequence of lexer operations is performed on whatever text, the cursor stays between the start and the terminator of the text and the match marks are taken only from the cursor. Matched tokens longer than the token buffer are refused and the caller of the refusal never uses the token buffer as if it had been filled.',
 ['inputs','histories'],'all texts and all sequences of lexer calls made by the parsers built on it',
 'Tests parse short well-formed texts.',
 [T+'lexer.c',T+'json.c',T+'uri.c'],[('cursor increments',T+'lexer.c: u_lexer_incr'),('token extraction',T+'lexer.c: u_lexer_get_match')])
p('C14','Typed array access is checked for element type and bounds',
 'Reading or writing an element of a typed dynamic array touches the storage only after the requested type has been compared with the array type and the index is known to be below the number of allocated slots, growing the array first when writing beyond the end. The storage size always equals the number of slots times the size of the element type, and get and set for one type use that same type.',
 ['inputs','histories'],'all indices, types and sequences of get/set/resize',
 'Tests use a few types with small ascending indices.',
 [T+'array.c','include/toolbox/array.h'],[('type-checked accessors',T+'array.c: U_ARRAY_GETSET_F'),('growth',T+'array.c: u_array_resize, u_array_grow')])
p('C15','Recursion driven by input data is bounded',
 'No text, file or document given to the library can make it recurse to a depth chosen by that input: every recursion cycle in the JSON and configuration parsers passes a nesting check that fails beyond a fixed limit (JSON validation without tree building is documented as unlimited). Nesting beyond the limit is an error return.',
 ['inputs'],'all JSON texts and all configuration files, including files that include each other',
 'Tests use nesting depths of a few levels.',
 [T+'json.c',T+'config.c'],[('u_json_set_depth',T+'json.c'),('u_config_do_load_drv / u_config_include',T+'config.c')])
p('C16','Base64 tables are mutually inverse and coding stays inside its buffers',
 'Every 6-bit value is encoded to a character which decodes to the same value, every other byte is refused, and encoding a three-byte group then decoding it restores every bit. Encoding and decoding write only within the output size declared by the caller, and no input byte indexes a table out of its range.',
 ['inputs'],'all byte strings, all output sizes',
 'Tests code a few short ASCII strings with ample output buffers.',
 [T+'b64.c'],[('E and D tables, chunk_encode, chunk_decode',T+'b64.c'),('size accounting',T+'b64.c: u_b64_encode, u_b64_decode')])
p('C17','Ring buffer accesses stay within the buffer and its counters',
 'A read from a ring buffer advances the read counter by at most the bytes stored and a write advances the write counter by at most the free space, so that stored plus free always equals the capacity. Every copy into or out of the storage is limited by that amount and, in storage that is not mirrored, is split at the physical end.',
 ['inputs','histories'],'all sequences of reads and writes of all sizes on all kinds of ring buffer',
 'Tests use a few sizes and do not hit each wrap position, kind and size combination.',
 [T+'rb.c'],[('read/write dispatch',T+'rb.c: u_rb_read, u_rb_write'),('wrapped storage',T+'rb.c: write_wrapped, read_wrapped')])
p('C18','Strings stay NUL-terminated and within their capacity',
 'Every public string and buffer operation that stores into the text storage has first made sure that the storage holds the bytes to be stored plus a terminator, and leaves the recorded length smaller than the capacity with a NUL at that position. This holds after every success and after every failure.',
 ['inputs','histories'],'all operation sequences and lengths',
 'Tests use short strings and do not inspect terminator and capacity after each operation.',
 [T+'str.c',T+'buf.c'],[('u_string_append, u_string_do_vprintf, u_string_set_length',T+'str.c'),('u_buf_append, u_buf_reserve',T+'buf.c')])
p('C19','Element counts always match membership',
 'In every counted container (list, hash map, priority queue, binary search tree, JSON container, string tokens) an operation that links one element raises the recorded count by one, one that unlinks an element lowers it by one, one that empties the container sets it to zero, and an operation that fails changes neither.',
 ['histories','fault_sequences'],'all sequences of insert, delete, clear, pop, including failing ones',
 'Tests do not mix clear/delete/failing inserts with counted access.',
 [T+f for f in ('list.c','hmap.c','pqueue.c','bst.c','json.c')],[('count fields',T+'list.c, hmap.c, pqueue.c, bst.c, json.c')])
p('C20','The hash map frees data only if it owns it, and keeps its eviction queue true',
 'The hash map releases keys and values only through the configured free functions and only when it was configured to own the data, at most once per element. Every element in a bucket of a map with a discard policy has exactly one entry in the eviction queue and the entry disappears together with the element; bucket numbers are reduced to the table size unless they come from a strong hash function the application supplied.',
 ['histories','configurations'],'all operation sequences under every map type, ownership and policy configuration',
 'Tests exercise few configurations and do not look at ownership or at the queue.',
 [T+'hmap.c'],[('u_hmap_o_free, u_hmap_del, __queue_del, u_hmap_clear',T+'hmap.c'),('policies',T+'hmap.c: __pcy_setup')])
p('C21','Dispatch over library enumerations covers every value',
 'Wherever the library selects behaviour by one of its own enumerated kinds (JSON types, array element types, map types, policies and data types, ring buffer kinds, iteration strategies), every declared value is handled explicitly or by a default branch that reports an error, and tables indexed by such a kind have an entry for every declared value, with per-kind function tables filled in consistently.',
 ['inputs','configurations'],'all values of every enumeration at every dispatch point',
 'Tests use some of the values at some of the dispatch points.',
 [T+f for f in ('json.c','array.c','hmap.c','bst.c','rb.c','net.c','config.c')],[('switches and type tables',T+'json.c, array.c, hmap.c, bst.c')])
p('C22','Password authentication fails closed',
 'Authentication reports success only if the stored password of the named user was retrieved and the comparison of the complete supplied password (hashed when a hash function is configured) with it found them equal. Every error, missing user or missing memory on the way ends in a failure report.',
 ['inputs','fault_sequences'],'all users, passwords, password files and failing steps',
 'Tests try a few right and wrong passwords on a healthy file.',
 [T+'pwd.c'],[('u_pwd_auth_user',T+'pwd.c')])
p('C23','No value is used before it has been set',
 'On no path does a library function read a local variable, a local buffer or a freshly allocated object field before something has been stored in it, including variables that a failing callee leaves unset and error paths taken before initialisation.',
 ['inputs','fault_sequences'],'all paths of all functions',
 'Reads of unset variables happen on failure paths that tests do not take, and are silent when taken.',
 ALL,[('locals with err: paths',T+'*.c')])
p('C24','The library keeps no hidden shared state',
 'Operations on distinct objects do not influence each other: outside the documented process-wide settings (logging facility and hooks, installed allocator, test driver state) no library code writes a global or static variable, and no code outside the test driver calls platform functions that keep hidden static state (the C library random generator of the randomised tree and error-text lookup in log messages excepted).',
 ['schedules','histories'],'all interleavings of operations on distinct objects',
 'Tests are single-threaded and use one object at a time.',
 ALL,[('globals','include/toolbox/log.h, '+T+'memory.c, '+T+'log.c'),('libc calls',T+'*.c')])
p('C25','The library never terminates or hijacks the host process',
 'Outside the unit-test driver no library function ends the process, raises or redirects signals, changes process-wide settings such as directory, credentials or locale (the environment module exists to set environment variables), replaces the process image, or writes to standard output or standard error other than through the console logging and explicit print functions.',
 ['inputs','fault_sequences'],'all inputs and failures',
 'A call of that kind on a failure path is never reached by the tests.',
 ALL,[('all libc calls',T+'*.c')])
p('C26','Format strings are never data and argument lists are always balanced',
 'Every format string the library passes on is a constant of the program or the format argument its own caller supplied to a printf-like function, and the arguments match it in number and type; text from files, parsers or users is only ever an argument. Every variable argument list that is started or copied is ended exactly once on every path and is not consumed twice.',
 ['inputs'],'all texts and all formatted calls',
 'Tests do not use percent signs in data, and an unbalanced argument list works by accident.',
 ALL,[('printf-like calls',T+'*.c'),('va_start/va_copy',T+'str.c, buf.c, log.c, lexer.c, misc.c, test.c')])
p('C27','URI recomposition emits components in order with their delimiters',
 'The text built from a parsed or assembled URI consists of its non-empty components in the order of RFC 3986 section 5.3: scheme followed by a colon, authority introduced by two slashes (user information ended by an at-sign, host bracketed when it is an IP literal, port introduced by a colon), path, query introduced by a question mark, fragment introduced by a hash. A delimiter is emitted exactly when its component is, and a result that does not fit is an error.',
 ['inputs'],'every combination of present and absent components',
 'Tests recompose a few URIs, not all combinations of present and absent components.',
 [T+'uri.c'],[('u_uri_knead, u_uri_knead_authority',T+'uri.c')])
p('C28','Sockets are set up in the right order and only as asked',
 'A passive socket is created, given its options, bound, and put in listening state only for connection-oriented types, in that order; an active socket is connected unless the caller asked not to. Socket options are applied exactly when the caller asked for them or, for address reuse, unless the caller declined it, and a descriptor is returned only after every step succeeded.',
 ['configurations','fault_sequences'],'all address families, socket types and option combinations, any failing step',
 'Tests do not open sockets with the different option combinations.',
 [T+'net.c'],[('do_ssock, do_csock, do_sock',T+'net.c')])
p('C29','Every retry loop makes progress or stops',
 'A loop that retries a formatted write with a bigger buffer, repeats an I/O call, skips text or walks a container changes, on every trip, something that its exit condition depends on, and treats a negative or zero result from the repeated operation as an end or an error. No input or failure makes the library loop forever.',
 ['inputs','fault_sequences'],'all loops, inputs and results of the repeated operation',
 'Tests use outputs that fit at once and inputs that end normally.',
 [T+f for f in ('str.c','buf.c','misc.c','lexer.c','uri.c','json.c','net.c')],[('printf growth loops',T+'str.c: u_string_do_vprintf, '+T+'buf.c: u_buf_printf'),('transfer loops',T+'misc.c: u_io')])
p('C30','Priority queue positions stay inside the heap',
 'Every access to the storage of a priority queue is at a position between one and the number of elements, or at the next free position when pushing into a queue that is not full. Popping an empty queue and pushing into a full one are errors that leave it unchanged (peeking at an empty queue is documented as unpredictable).',
 ['inputs','histories'],'all sequences of push and pop',
 'Tests push and pop a few elements and do not overfill or underflow at each size.',
 [T+'pqueue.c'],[('bubble_up, bubble_down, u_pq_push, u_pq_delmax',T+'pqueue.c')])
# not decided statically
p('C40','JSON encode and decode are inverse',
 'Encoding a JSON tree and decoding the text gives an equal tree (types, keys, values, order), and decoding accepts exactly the JSON texts of the supported grammar.',
 ['inputs'],'all trees and all texts','Tests round-trip a handful of documents.',
 [T+'json.c'],[('u_json_encode, u_json_decode',T+'json.c')])
p('C41','URI parsing splits into the right components',
 'Parsing a valid URI yields exactly the components RFC 3986 assigns to it, and recomposing them gives an equivalent URI; invalid URIs are rejected.',
 ['inputs'],'all URI texts','Tests parse a fixed table of URIs.',
 [T+'uri.c'],[('u_uri_crumble',T+'uri.c')])
p('C42','The hash map behaves as a map with the configured discard policy',
 'After any sequence of put, get and delete, a lookup returns the value last stored under the key unless it was deleted or discarded, and the element discarded when the map is full is the one the policy (FIFO, LRU, LFU or custom) designates.',
 ['histories'],'all operation sequences','Tests run a few fixed sequences.',
 [T+'hmap.c'],[('u_hmap_put/get/del and policies',T+'hmap.c')])
p('C43','The binary search tree stays ordered',
 'In-order traversal of a tree yields the keys in comparator order after any sequence of push, delete, rotate and balance, and n-th element queries agree with that order.',
 ['histories'],'all operation sequences','Tests insert random sequences of one size.',
 [T+'bst.c'],[('push, delete, rotate, balance',T+'bst.c')])
p('C44','The priority queue pops in priority order',
 'Each pop returns an element whose key is at least that of every element left in the queue, after any sequence of pushes and pops.',
 ['histories'],'all operation sequences','Tests use one random sequence per run.',
 [T+'pqueue.c'],[('bubble_up, bubble_down',T+'pqueue.c')])
p('C45','The ring buffer is a first-in first-out byte queue',
 'The bytes read from a ring buffer are the bytes written to it in the same order, for any interleaving of reads, writes, skips and peeks of any size.',
 ['histories','inputs'],'all operation sequences','Tests run a few sequences.',
 [T+'rb.c'],[('u_rb_read, u_rb_write',T+'rb.c')])
p('C46','Configuration load gives what the file says and save/load is lossless',
 'Loading a configuration yields the keys, nesting and values the file denotes, with comments removed, variables substituted from the nearest scope and included files merged, and saving then loading a configuration gives an equal one.',
 ['inputs'],'all configuration texts','There is no configuration test in the stable suite.',
 [T+'config.c'],[('u_config_load_from_drv, u_config_save_to_buf',T+'config.c')])
p('C47','Connection timeouts are honoured',
 'A connect with a timeout returns within about that time with success, a timeout report or an error, also when signals interrupt the wait.',
 ['schedules','fault_sequences'],'all timings of signals and network events','Tests do not use the network.',
 [T+'net.c'],[('u_connect_ex, update_timeout',T+'net.c')])
p('C48','The in-memory password snapshot follows its file',
 'After the password file changes, the next lookup in an in-memory instance sees the new contents, or the previous complete snapshot when the new file cannot be loaded.',
 ['histories','fault_sequences'],'all sequences of file updates and lookups','Tests never change the password file while it is loaded.',
 [T+'pwd.c'],[('u_pwd_need_reload, u_pwd_load',T+'pwd.c')])
p('C49','The test driver honours dependencies and reports every outcome truly',
 'A test case runs only after all cases it depends on succeeded, every case is reported with the outcome it had (passed, failed, aborted, skipped), and the driver fails if any case failed.',
 ['programs','schedules'],'all dependency graphs and all case outcomes','The driver has no tests of its own.',
 [T+'test.c'],[('u_test_obj_scheduler, u_test_cases_reap',T+'test.c')])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for d in P: f.write(json.dumps(d)+'\n')
    print(len(P),'properties')
