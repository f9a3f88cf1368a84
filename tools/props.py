#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [])))
R='src/raii.c';H='include/raii.h';X='src/except.c';XH='include/exception.h';S='src/swar.c';A='src/arena.c';F='src/future.c';C='include/catomic.h';T='include/cthread.h'

# ---- scopes / defer
p('D01','Deferred functions run exactly once, in LIFO order',
 'Every function deferred on a scope (the thread\'s own or a unique smart pointer) is called exactly once, with the data it was registered with, in reverse order of registration, when that scope is unwound, cleaned, deleted or destroyed. This holds for any number of registrations and also for functions registered by deferred functions while the scope is unwinding (they run before the older pending ones); unwinding the same scope again calls nothing a second time.',
 ['inputs','programs','histories'],'any number of registrations, any data, any point of registration including during unwinding, any of the unwinding entry points',
 'test-defer registers a handful of functions in fixed order and never crosses the array growth step nor registers while unwinding.',
 [R],[('raii_deferred / raii_defer / raii_recover_by append','src/raii.c:raii_deferred_any, raii_array_append'),('unwinding loop','src/raii.c:raii_deferred_run'),('entry points','src/raii.c:raii_deferred_free, raii_deferred_clean, raii_delete, raii_destroy')],['order and count of calls seen by the deferred functions'])
p('D02','Cancelling or firing a deferred function affects exactly that one',
 'The index returned when a function is deferred identifies that registration while it is pending: cancelling it means its function is never called; firing it calls its function once, immediately, with its data, and not again at unwinding. Every other registration on the scope is unaffected and still runs exactly once in LIFO order.',
 ['inputs','histories'],'any number of registrations, any subset and order of cancel and fire calls on pending indexes, followed by unwinding',
 'test-defer cancels or fires at most one index; no test looks at a non-first index or at the combination with growth.',
 [R,H],[('index arithmetic','src/raii.c:raii_deferred_array_get_index, raii_deferred_array_get_element'),('cancel / fire','src/raii.c:raii_deferred_cancel, raii_deferred_fire, raii_deferred_internal')])
p('D03','Scope-bound memory is live until the scope ends and released exactly once',
 'Memory requested from a scope (malloc/calloc full, by or default variants, memdup and the string helpers) has at least the requested size, overlaps no other live block, is zeroed when a calloc variant was used, and stays valid and unmodified by the library until its scope is unwound. Then it is handed exactly once to the release function named in the request, in LIFO order with the scope\'s other deferrals; nothing is leaked, released twice, or read or written after release, whether the scope ends normally or because of an exception.',
 ['inputs','histories','programs'],'any sequence of requests with any sizes, contents and release functions, on the thread scope or smart pointers, ended normally or by a throw at any point',
 'Tests allocate once or twice with fixed sizes and never observe releases, double releases or user bytes that happen to look like pointers.',
 [R],[('malloc_full/calloc_full register the release','src/raii.c:malloc_full, calloc_full, malloc_by, calloc_by, malloc_default, calloc_default'),('protector bookkeeping','src/raii.c:raii_deferred_run, src/except.c:ex_protect_ptr, ex_unwind_stack'),('scope teardown','src/raii.c:raii_delete, free_arena')])
p('D04','Allocation failure always panics, never leaks or returns NULL',
 'If any underlying allocation fails while a scope, array, argument set, arena, string helper or scope-bound block is being created, the call throws instead of returning NULL or a short block to its caller. Everything acquired from the scope before the failure is still released exactly once when the scope unwinds.',
 ['fault_sequences','programs'],'every position of the failing allocation in every allocating API call',
 'No test makes an allocation fail.',
 [R,A,S],[('try_malloc/try_calloc/try_realloc','src/raii.c'),('array growth failure path','src/raii.c:raii_array_append, raii_deferred_any'),('arena growth failure path','src/arena.c:arena_alloc')])
p('D05','A guard section runs its deferrals exactly once however it is left',
 'However a guard section is left (falling off the end, break, _return, or a panic/throw raised inside it or in anything it calls), everything deferred or allocated in it is executed or released exactly once, in LIFO order, before control continues after it or the exception reaches an outer handler. After the section the thread\'s current guard scope, exception context and setup/unwind handlers are what they were on entry.',
 ['programs','inputs','histories'],'any nesting depth, any exit kind per level, any number of deferrals, throw position anywhere, sections entered repeatedly',
 'defer tests take one exit path each; the combination of exit kinds, nesting and position of the throw is not explored.',
 [H,R,X],[('guard / guarded / unguarded / _return macros','include/raii.h'),('guard_set, guard_reset, guard_delete','src/raii.c'),('unwinding on throw','src/except.c:ex_throw, ex_unwind_stack')])
p('D06','Recovering from a panic absorbs it; otherwise it propagates',
 'When a panic or exception is raised in a guard, and a deferred function asks whether the error equals a given name, the answer is true exactly when the name equals the panic message (or, without a message, the exception name). If it was true the error stops there and execution continues after the guard; if no deferred function recovered it, the error continues to the next enclosing guard or try. The error message reported to deferred functions is that same message.',
 ['inputs','programs'],'any message/name contents, any subset of deferred functions attempting recovery with any name, nested guards',
 'Tests recover with one literal message; equality on lengths around the word size and propagation through several levels are not covered.',
 [R,H],[('raii_caught, raii_is_caught, raii_message, raii_message_by','src/raii.c'),('guarded macro','include/raii.h'),('comparison','src/swar.c:simd_strcmp')])
# ---- exceptions
p('E01','A throw reaches the nearest enclosing matching handler, once',
 'A thrown exception transfers control to the innermost active try block; of its catch clauses exactly one handles it: a clause naming that exception (compared by identity) or catch_any, and none otherwise. If none matches it continues to the next enclosing try block; without a throw no catch clause runs, and statements after the throw never run.',
 ['programs','inputs'],'any nesting of try blocks up to the bound, any exception at any point (try body, catch body, called function), any subset of clauses',
 'test-exceptions runs a fixed set of literal nestings.',
 [XH,X],[('ex_try / ex_catch / ex_catch_any / ex_end_try','include/exception.h'),('ex_throw','src/except.c')])
p('E02','finally runs exactly once, and the context is restored afterwards',
 'For each execution of a try block its finally section runs exactly once, after the body or the handler and before an unhandled exception continues outward, whether the body completed, threw a handled or unhandled exception, or a handler threw or rethrew. After the try statement is done the thread\'s current exception context is the one that was current before it, so later throws go to the right handler.',
 ['programs','histories'],'all combinations of normal completion, throw in body, throw or rethrow in handler, with nesting and repetition',
 'Fixed literal cases only; none checks the context after several combined paths.',
 [XH,X],[('ex_finally / ex_end_try / rethrow','include/exception.h'),('ex_update, ex_init','src/except.c')])
p('E03','Handlers see the exception that was thrown and where',
 'Inside a handler or finally section the reported exception name, file, line and function are those of the throw statement that raised the exception being handled, also after it was rethrown through outer blocks; a panic reports its message. In a try block that did not throw the reported name is empty.',
 ['inputs','programs'],'any exception, any throw site, any number of rethrow levels, panic and throw',
 'Tests print but do not check these values on rethrow.',
 [XH,X],[('EX_MAKE','include/exception.h'),('ctx->ex, file, line, panic','src/except.c:ex_throw')])
p('E04','Protected pointers are released exactly once when an exception unwinds',
 'When an exception unwinds a try block, every pointer protected in it and not unprotected, whose current value is not NULL, is passed exactly once to its release function, newest first; pointers that are NULL or were unprotected are not, and do not stop the others from being released. Unprotecting a pointer also unprotects those protected after it in that block. If no exception is raised no release function is called.',
 ['inputs','histories'],'any number of protected pointers up to the bound, any subset NULL, unprotected or reassigned, throw or no throw',
 'Tests protect one or two non-NULL pointers.',
 [X,XH],[('ex_protect_ptr, ex_unwind_stack','src/except.c'),('protected / unprotected','include/exception.h')])
p('E05','Signals are delivered as the exception registered for them',
 'When a signal with a registered exception is raised inside a try block it is delivered as that exception and handled exactly like a thrown one, any number of times in the same process; afterwards the thread\'s signal mask is what it was before. Registering another exception for a signal replaces the earlier one, up to 32 distinct signals can be registered, a registration beyond that changes nothing, and restoring the defaults gives every supported signal its default disposition again.',
 ['inputs','histories'],'every signal number, any order and number of registrations, repeated raises',
 'Tests raise one or two signals once.',
 [X],[('ex_signal, ex_handler, ex_signal_setup, ex_signal_default, ex_signal_reset','src/except.c'),('signal mask handling','include/exception.h:ex_signal_block, ex_setjmp')])
p('E06','An uncaught exception terminates the process after cleanup',
 'An exception, panic or signal exception raised with no enclosing try or guard never returns to the code that raised it: everything deferred on the thread\'s scope runs exactly once, the registered terminate handler (and after SIGINT the ctrl-c handler) is called at most once, and the process ends with the failure status.',
 ['programs','fault_sequences'],'throw, panic or signal; with or without scope, deferrals, handlers',
 'A terminating path cannot be observed by the in-process unit tests.',
 [X,R],[('ex_terminate','src/except.c'),('raii_destroy','src/raii.c')])
p('E07','An exception raised while unwinding terminates instead of recursing',
 'If a release or deferred function invoked by the unwinding of an exception raises another exception, the process terminates with the failure status; control never returns into the unwinding, no deferred or release function is called more than once.',
 ['programs','fault_sequences'],'any position of the failing function among the pending ones',
 'Terminating path; not tested.',
 [X,R],[('ctx->unstack','src/except.c:ex_throw, ex_unwind_stack, ex_terminate')])
p('E08','Installed exception handlers take part in every raise, and only there',
 'An application can install handlers for raised exceptions (exception_setup_func, exception_unwind_func). The setup handler is called exactly once each time an exception is raised or carried on to an enclosing try context or the thread\'s own context, before anything is released, with that context and the exception\'s name and message. If it asks for unwinding (ex_unwind_set) and an unwind handler is installed, that handler is called exactly once with the data the setup handler set, in place of releasing the protected pointers; otherwise these are released as without handlers. Which clauses, finally sections and deferrals run does not depend on the handlers. A guard section handles its own context itself and leaves both handlers as they were at its start, also when its body changed them. ex_uncaught_exception tells, to handlers, release functions, deferred functions and clauses, whether unwinding is under way.',
 ['inputs','programs'],'any nesting of try forms and guards around any throw, any answer of the setup handler at each step, any combination of installed handlers',
 'No test installs either handler.',
 [X,R,H],[('ex_setup','src/except.c:ex_throw, ex_setup'),('ex_unwind_stack','src/except.c'),('guard_set / guard_reset','src/raii.c, include/raii.h:guard')])
# ---- args
p('A01','Argument sets return every argument unchanged at its position',
 'For every format string and matching arguments, the n-th value retrieved from an argument set equals the n-th argument passed, for each supported code (i u d l z c s a x f p), any number of arguments and strings of any length.',
 ['inputs','programs'],'any sequence of codes up to the bound, any values, any string lengths',
 'test-args_for passes one fixed combination; no p code, no long strings.',
 [R],[('raii_args_ex','src/raii.c'),('args_in, get_args, raii_get_args','src/raii.c')])
p('A02','An argument set is released exactly once with its scope',
 'After the first retrieval of any argument through the scoped accessors the set is bound to the scope it was created with (or, without one, the given or the thread\'s scope) and is released exactly once when that scope unwinds, regardless of how many retrievals were made; explicit release of a never-retrieved set frees all its memory.',
 ['histories','inputs'],'any number and order of retrievals, with and without explicit scope',
 'Tests never observe the release.',
 [R],[('defer_set / args_free','src/raii.c:raii_get_args, args_free')])
# ---- strings
p('S01','String length is exact for every string and alignment',
 'simd_strlen returns the number of bytes before the first NUL for every string content (including bytes >= 0x80), every length and every starting alignment.',
 ['inputs'],'every content, length up to the bound, all 8 alignments','Tests use a few ASCII literals.',[S],[('simd_strlen','src/swar.c')])
p('S02','String comparison agrees with byte-wise comparison',
 'is_str_eq is true exactly when both strings are non-NULL and have the same length and bytes; is_str_empty exactly for the empty string; simd_strcmp is zero exactly for equal strings and otherwise has the sign of the first differing byte compared as unsigned char (the terminator counting as byte 0).',
 ['inputs'],'every pair of strings up to the bound, all contents, prefixes, lengths around the word size','Tests compare a few literals.',[S,R],[('simd_strcmp','src/swar.c'),('is_str_eq, is_str_empty','src/raii.c')])
p('S03','Byte search finds the first (last) occurrence in the buffer only',
 'simd_memchr and the known-present forward variants return the first, and the reverse variants the last, position of the byte within exactly the given length; bytes outside the buffer never influence the result. hasbyte/haszero/memchr8 answer correctly for every word.',
 ['inputs'],'every buffer content, byte, and length up to the bound','Tests use one literal per function and one of them is known to fail.',[S],[('_memchr, _memrchr, _memchr8, hasbyte, haszero','src/swar.c')])
p('S04','Decimal parsing returns the exact value',
 'For every string of n decimal digits (n up to 8 for atou8, up to 20 with value below 2^64 for simd_atou, with optional sign for simd_atoi) the parsed value equals the number written, and bytes after the given length have no influence.',
 ['inputs'],'every digit string of every length within the documented limits, any following bytes','Tests parse a few literals.',[S],[('atou8, simd_atou, simd_atoi','src/swar.c')])
p('S05','Integer formatting is exact and parses back',
 'simd_itoa writes the canonical decimal representation (minus sign, no leading zeros, NUL terminated) of every 64-bit signed integer and returns its length, itoa8 likewise for every integer that fits in eight characters; parsing the text gives the integer back.',
 ['inputs'],'every 64-bit integer (simd_itoa); every integer with at most 8 digits (itoa8)','Tests format a few small numbers.',[S],[('itoa8, simd_itoa, utoa2p','src/swar.c')])
p('S06','Hexadecimal parsing returns the exact value',
 'For every string of n hex digits in any letter case (n up to 8 for htou8, up to 16 for simd_htou) the result equals the number written, and bytes after the given length have no influence.',
 ['inputs'],'every hex string of every length within the documented limits','Tests parse a few literals.',[S],[('htou8, simd_htou','src/swar.c')])
p('S07','Fixed-width decimal formatting is exact',
 'utoa2p/utoa2p_ex produce the two decimal digits of every value below 100, and utoap writes exactly the N low decimal digits of the value, zero padded and NUL terminated, for every width N from 1 to 20 and every value of at most N digits.',
 ['inputs'],'every width 1..20, every value below 10^N and 2^64','Tests format a few literals.',[S],[('utoa2p, utoap, _utoap','src/swar.c')])
p('S08','Decimal fraction parsing is accurate and keeps the sign',
 'For strings of the form [sign]digits[.digits] within the documented limits simd_atod returns the value written with at most a relative error of a few units in the last place, with the sign written.',
 ['inputs'],'all such strings up to the bound','One literal in the tests.',[S],[('simd_atod','src/swar.c')])
p('S09','Substring search returns the first match',
 'strpos returns the smallest offset at which the pattern occurs in the text, or -1 when it does not occur; is_str_in is true exactly when it occurs.',
 ['inputs'],'every text and pattern up to the bound including empty and overlapping ones','Not tested beyond literals.',[S,R],[('strpos','src/swar.c'),('is_str_in','src/raii.c')])
p('S10','Split yields exactly the pieces between delimiters',
 'Splitting a non-empty string by a non-empty delimiter yields, in order, exactly the pieces between non-overlapping left-to-right occurrences of the delimiter (including empty pieces), followed by NULL, and reports their number; joining them with the delimiter gives the original. The original is unmodified and the result is released with its scope.',
 ['inputs'],'every string and delimiter up to the bound','Not tested.',[S],[('str_split_ex','src/swar.c'),('raii_split','src/raii.c')])
p('S11','Concatenation is exact',
 'The concatenation of any number of strings contains exactly their bytes in order and a terminator, is released with its scope and leaves the inputs unmodified.',
 ['inputs'],'any number and contents of strings up to the bound','Not tested.',[S],[('str_concat_ex','src/swar.c'),('raii_concat','src/raii.c')])
p('S12','Replace substitutes every occurrence and nothing else',
 'Replacing a non-empty needle yields the haystack with every non-overlapping left-to-right occurrence replaced, or NULL when there is none; memory is written only inside the result, which is released with its scope.',
 ['inputs'],'every haystack, needle and replacement up to the bound (shorter, equal, longer replacement)','Not tested.',[S],[('str_replace_ex','src/swar.c'),('raii_replace','src/raii.c')])
p('S13','Copies are exact and terminated',
 'memdup of any bytes returns a scope-owned block holding exactly those bytes followed by a NUL; str_copy copies exactly the given number of bytes (or the whole string for length 0) and nothing else.',
 ['inputs'],'every content and length up to the bound','Not tested.',[S,R],[('str_memdup_ex, str_copy','src/swar.c'),('raii_memdup','src/raii.c')])
p('B01','Base64 encoding is the standard encoding',
 'Encoding any NUL-free byte string yields its RFC 4648 base64 text with padding, NUL terminated, inside the allocated result.',
 ['inputs'],'every byte string up to the bound','Tests encode a few literals.',[S],[('str_encode64_ex','src/swar.c')])
p('B02','Base64 decoding inverts encoding',
 'Decoding the encoding of any non-empty byte string gives the original back, and the encoded text is recognised as base64; texts containing any character outside the alphabet and padding are not recognised as base64.',
 ['inputs'],'every byte string up to the bound; every text up to the bound','Tests round-trip a few literals.',[S],[('str_decode64_ex, is_base64','src/swar.c')])
p('B03','Base64 decoding of arbitrary text is safe and exact',
 'Decoding any text never reads or writes outside its buffers; characters outside the alphabet are skipped; the result is NULL when the remaining characters are empty, not a multiple of four, or over-padded, and otherwise the bytes they encode.',
 ['inputs'],'every text up to the bound','Malformed input is not tested.',[S],[('str_decode64_ex','src/swar.c')])
# ---- arena
p('M01','Arena blocks are disjoint, aligned and owned by the arena',
 'Every block returned by an arena has the requested size inside memory owned by that arena, is at least 2-byte aligned, and overlaps no other live block of that or any other arena; contents written to a block persist until the arena is cleared or freed.',
 ['inputs','histories'],'any sequence of requests with any sizes and thresholds on one or more arenas','Tests check only capacities.',[A],[('arena_alloc','src/arena.c')])
p('M02','Arena calloc returns zeroed memory',
 'Every byte of an array requested from an arena as count elements of a size is zero, also when the memory was used before clearing; a request whose total size overflows is refused by a panic.',
 ['inputs','histories'],'any count and size, fresh and reused chunks','Not tested.',[A],[('arena_calloc','src/arena.c')])
p('M03','Clearing or freeing an arena recycles its memory safely',
 'Clearing an arena makes it empty and usable again; its former memory may be reused but never while another arena still uses it, and other arenas keep their blocks. Freeing arenas releases or recycles each chunk exactly once, so that repeated use neither leaks without bound nor touches released memory.',
 ['histories'],'any interleaving of alloc, clear and free on several arenas','test-arena clears once and its checks afterwards are known to fail.',[A],[('arena_clear, arena_free, free_list','src/arena.c')])
p('M04','Arena accounting matches what was handed out',
 'The reported capacity is exactly the number of bytes that can still be allocated without growing, decreasing by the (even-rounded) request each time; the total changes only when the arena takes memory from the system, by at least the request, or is cleared; both are zero for something that is not an arena.',
 ['inputs','histories'],'any sequence of requests','Fixed literal sequence in test-arena.',[A],[('arena_capacity, arena_total','src/arena.c')])
# ---- futures
p('T01','A future delivers the value returned by its function',
 'For every schedule, getting a future returns exactly the value its thread function returned (including NULL/zero and values returned as heap objects), after the function has finished, executing the function exactly once with the arguments given.',
 ['schedules','inputs'],'all interleavings of parent and child threads within the context-switch bound, all values','The future tests are not even linked here; tests can only sample schedules.',[F],[('thrd_async, thrd_get, promise_set, promise_get','src/future.c')])
p('T02','An exception in a thread function surfaces in the getter',
 'If a thread function ends with an uncaught exception or panic, the thread\'s own deferrals run, and getting that future (not another one) raises the same exception with the same message in the getting thread; the getter never hangs and never returns normally.',
 ['schedules','programs'],'all interleavings within the bound, one or several futures','As above.',[F,H],[('guarded_exception','include/raii.h'),('promise_close','src/future.c')])
p('T03','Spawn/sync collects every result, in spawn order',
 'After synchronising a thread scope every spawned function has finished and been joined exactly once, each result handle is ready and holds the value its own function returned, and the then-callback visits them once each in spawn order; before synchronisation reading a result throws.',
 ['schedules','inputs'],'any number of spawned functions up to the bound, all interleavings within the bound','As above.',[F],[('thrd_scope, thrd_spawn, thrd_sync, thrd_result, thrd_then','src/future.c')])
p('T04','Completion status never lies and waiting terminates',
 'thrd_is_done (and is_finish for a scope) is false until the function has finished and its value has been published, and true ever after, so a get after it is non-blocking; thrd_wait calls its yield function until then and returns.',
 ['schedules'],'all interleavings within the bound','As above.',[F],[('thrd_is_done, thrd_wait, thrd_is_finish','src/future.c')])
p('T05','Futures release their resources without races',
 'Using futures performs no unsynchronised conflicting access, use of released memory or double release on any schedule; each thread is joined once and everything allocated for the future is released when the creating scope ends.',
 ['schedules'],'all interleavings within the bound','As above.',[F,R],[('future_close, promise_create, thrd_start, thrd_raii_wrapper','src/future.c')])
p('C01','The spinlock provides mutual exclusion and visibility',
 'At most one thread is between atomic_lock and atomic_unlock of the same lock at any time, for every interleaving; data written in one critical section is visible in the next, and an unlocked lock can be acquired.',
 ['schedules'],'all interleavings of 2-3 threads within the bound','Tests cannot enumerate schedules.',[C],[('c89atomic_spinlock_lock/unlock','include/catomic.h')])
p('C02','Atomic operations are single indivisible read-modify-writes',
 'On 64-bit objects atomic load, store, exchange, fetch-add/sub/or/and/xor and compare-and-swap return the documented (old) value and leave the documented new value, and concurrent operations on one object take effect in some sequential order (no update is lost); flag operations set and clear exactly the flag.',
 ['inputs','schedules'],'all operand values; all interleavings of two threads','Tests only run single-threaded samples.',[C],[('atomic_* macros','include/catomic.h')])
p('V01','Type predicates classify exactly by tag',
 'type_of, is_type, is_instance_of, is_value, is_instance, is_valid, is_zero, is_empty, is_true, is_false and is_guard answer exactly according to the object\'s tag or the given value for every possible tag.',
 ['inputs'],'every 32-bit tag value and argument','Tests use a few values.',[R],[('is_* functions','src/raii.c')])
p('L01','Thread scopes are private to their thread',
 'Each thread has its own scope and exception context: deferring, allocating, throwing and unwinding in one thread never runs, releases or alters anything registered by another thread.',
 ['schedules','programs'],'all interleavings of two threads within the bound','Not tested in the runnable suite.',[R,X,T],[('thrd_local','include/cthread.h'),('raii_local, ex_local, raii_init','src/raii.c, src/except.c')])
p('Q01','Compat queue macros keep list and queue contents consistent',
 'After any sequence of the insert, remove and concat macros of compat/sys/queue.h, traversals (forward and, where defined, reverse) visit exactly the expected elements in the expected order.',
 ['histories'],'any sequence of operations up to the bound on SLIST, LIST, STAILQ/SIMPLEQ and TAILQ','Not tested.',['include/compat/sys/queue.h'],[('SLIST_/LIST_/SIMPLEQ_/TAILQ_ macros','include/compat/sys/queue.h')])
p('Q02','Compat tree macros keep an ordered, balanced map',
 'After any sequence of inserts and removes with distinct keys the red-black and splay trees of compat/sys/tree.h contain exactly the inserted minus removed keys, find/nfind/min/max and in-order traversal answer accordingly, and the red-black balance invariants hold.',
 ['histories','inputs'],'any sequence of operations and keys up to the bound','Not tested.',['include/compat/sys/tree.h'],[('RB_/SPLAY_ macros','include/compat/sys/tree.h')])
p('W01','Windows SEH dispatch mirrors the POSIX exception semantics',
 'On Windows, structured exceptions are translated to the exception registered for their code and dispatched to the same catch clauses with the same finally guarantees as on POSIX.',
 ['programs'],'all SEH codes and nestings','No Windows host.',[X,XH],[('catch_seh, catch_filter_seh','src/except.c')])
p('W02','The Windows mmap emulation honours length, offset and protection',
 "On Windows mmap, for every length, offset and protection, makes exactly one view of the descriptor's file (or of fresh memory for anonymous mappings) that starts at exactly that 64-bit offset, has exactly that length, is writable and executable exactly as asked, keeps the writes of private mappings from the file, and is at the given address for fixed mappings; a call that cannot be done returns MAP_FAILED with errno set (EINVAL for no length, EBADF for a bad descriptor) and leaves nothing behind, and the section handle is always closed exactly once. munmap, mprotect, msync, mlock and munlock act on exactly the given range and tell whether it worked.",
 ['inputs', 'faults'],'all lengths, offsets, protections, flags and failing Windows calls',
 'The emulation is only compiled on Windows, and the tests map 1 KB at offset 0.',
 ['src/mman.c'],[('mmap, munmap, mprotect, msync, mlock, munlock', 'src/mman.c')])
for x in P: print(json.dumps(x))
