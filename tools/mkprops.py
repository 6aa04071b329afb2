#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['include/itlib/'+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
H='include/itlib/'
p('C01','pod_vector behaves as a sequence like std::vector',
 'Every pod_vector operation (construction, copy, move, assign, push/pop, insert, erase, resize, reserve, shrink_to_fit, clear, swap, byte-wise recast, comparison, element access) leaves exactly the size and element values that std::vector of the same trivially-copyable type would have, for arguments that do not alias the container. Only the documented difference applies: elements added without a value are uninitialised.',
 ['inputs','histories'],'every size, capacity, content, position, count and value, from every state reachable through the public API',
 'tests run a few fixed sequences of a few elements; the size/capacity/position arithmetic and the byte counts must be right for all of them',
 ['pod_vector.hpp'],[('push_back/insert/erase/resize/assign/grow_at/shrink_at',H+'pod_vector.hpp')],
 [('m_begin,m_end,m_capacity','the three storage pointers',H+'pod_vector.hpp')],['data()','size()','operator[]'])
p('C02','pod_vector storage and allocation discipline',
 'pod_vector never reads or writes outside the block it owns, requests every block from its allocator with the right size, frees each one exactly once and leaks none; capacity() is always at least size() and never more than the owned block holds. reserve(n) gives capacity at least n and never shrinks it, growth never loses elements, shrink_to_fit makes capacity equal to size, clear/pop/erase/shrinking resize never reallocate, and moves and swaps transfer the block instead of copying it.',
 ['inputs','histories'],'every size/capacity state and every allocator flavour (malloc with and without realloc, expand)',
 'tests sample a handful of sizes with one counting allocator; an off-by-one in a byte count only shows for the right size/capacity combination',
 ['pod_vector.hpp'],[('realloc_data/expand/grow_at/recalc capacity and the pod allocators',H+'pod_vector.hpp')],
 [],['capacity()','data()','allocator calls'])
p('C03','small_vector constructs and destroys every element exactly once',
 'In small_vector every element position below size() holds one live object, no live object exists elsewhere in its storage, and every operation constructs only on raw storage and assigns, moves from or destroys only live objects, for non-throwing element types and non-aliasing arguments. When the vector is destroyed, no element stays alive. Dynamic buffers are obtained from and returned to the allocator exactly once with matching sizes, and the static buffer is never handed to the allocator.',
 ['inputs','histories'],'every size, static/dynamic shape, insertion/erasure position and count, from every state reachable through the public API',
 'lifetime bugs depend on the combination of static/dynamic buffer, position, count and capacity; tests sample a few of the combinations',
 ['small_vector.hpp'],[('choose_data, grow_at, shrink_at, change_capacity, move/swap, destructor',H+'small_vector.hpp')],
 [('m_begin,m_end,m_capacity,m_static_data','active buffer',H+'small_vector.hpp')],['element constructors/destructors','allocator calls'])
p('C04','small_vector behaves as a sequence like std::vector',
 'Every small_vector operation leaves exactly the size and the element values, in order, that std::vector would have after the same operation, whether elements live in the static or in a dynamic buffer and including every move between them, for arguments that do not alias the container. Operations returning an iterator return the position std::vector would. Equality compares size and elements, also between vectors of different static capacity.',
 ['inputs','histories'],'every size, shape, position, count and values',
 'tests run fixed scripts of small sizes; shifting code must be right for each position/count/capacity relation',
 ['small_vector.hpp'],[('grow_at, shrink_at, assign_impl, insert, erase, resize, swap, copy/move assignment',H+'small_vector.hpp')],[],['size()','operator[]','begin()/end()'])
p('C05','small_vector static/dynamic buffer policy',
 'A small_vector uses its static buffer whenever nothing made it exceed StaticCapacity: capacity() is StaticCapacity while it is static and more than that only while it owns a dynamic buffer, size() never exceeds capacity(), and reserve(n) with n at most capacity() changes nothing. reserve(n) yields capacity at least n; revert_to_static and shrink_to_fit put the elements back in the static buffer whenever size() is at most StaticCapacity, and otherwise shrink_to_fit makes capacity equal to size; erasing, popping, clearing, assigning or resizing to fewer elements than before and fewer than RevertToStaticBelow returns a dynamic vector to the static buffer; otherwise a dynamic vector keeps its buffer, its capacity and so the addresses of its elements as long as the capacity suffices, and with RevertToStaticBelow 0 only shrink_to_fit, revert_to_static, moving from it and swapping make it static again. clear keeps no elements, and moving from or swapping dynamic vectors transfers the buffer without touching elements.',
 ['inputs','histories'],'every size/capacity/shape combination, including size equal to StaticCapacity',
 'boundary relations between size, capacity and StaticCapacity are sampled at few points by tests',
 ['small_vector.hpp'],[('revert_to_static, shrink_to_fit, reserve, get_new_capacity, is_static',H+'small_vector.hpp')],[],['capacity()','is_static()','data()'])
p('C06','static_vector behaves as a bounded std::vector with exact lifetimes',
 'Every static_vector operation that stays within the capacity leaves the size and element values std::vector would have; each position below size() holds exactly one live element and nothing else in the buffer is alive, every operation constructs only on raw storage and assigns or destroys only live elements, and destruction leaves none alive. This holds for copy, move, swap, insert, erase, emplace, resize and assign from every reachable state, for non-throwing elements and non-aliasing arguments. Returned iterators designate the position std::vector would return.',
 ['inputs','histories'],'every size, position, count and value up to the capacity',
 'tests cover a few fixed scripts; lifetime errors need specific position/count relations',
 ['static_vector.hpp'],[('grow_at, shrink_at, assign_impl, swap, move',H+'static_vector.hpp')],[],['element constructors/destructors','size()','operator[]'])
p('C07','static_vector never exceeds its capacity',
 'With throwing checks enabled, any static_vector operation that would make size() exceed capacity() throws std::out_of_range and leaves the vector with all its elements unchanged (an assignment, which discards the old elements, may leave it empty but valid). Operations that fit never throw. No operation writes outside the object, for any requested count.',
 ['inputs'],'every size, count and index, including counts near the maximum of size_t',
 'tests try one or two overflowing calls; the check must be right for every size+count including wrap-around',
 ['static_vector.hpp'],[('I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF checks',H+'static_vector.hpp')],[],['exceptions','size()'])
p('C08','flat_map is a sorted map with unique keys',
 'After every operation flat_map keeps its keys strictly increasing under its comparator, for any strict weak order, and its content equals that of std::map after the same operations: insert and emplace never overwrite, operator[] default-inserts, erase removes exactly the key. find, at, count, lower_bound, upper_bound and equal_range agree with std::map for present and absent keys; at() throws std::out_of_range exactly for absent keys. Construction or assignment from an unsorted container or list with duplicates sorts it and keeps one entry per key.',
 ['inputs','histories'],'every content, every key position relative to the content, every strict weak order',
 'tests use a handful of keys and two comparators; the invariants must hold for all contents and orders',
 ['flat_map.hpp'],[('lower_bound based lookup, insert/emplace/erase, modify_container',H+'flat_map.hpp')],[],['begin()/end()','find','size()'])
p('C09','flat_set is a sorted set of unique values',
 'After every operation flat_set keeps its values strictly increasing under its comparator, for any strict weak order, and its content equals that of std::set after the same operations. find, count, contains-style lookups, lower_bound, upper_bound and equal_range agree with std::set for present and absent values. insert/emplace report whether insertion happened and where; construction from unsorted input with duplicates sorts it and keeps one of each.',
 ['inputs','histories'],'every content, every value position relative to the content, every strict weak order',
 'tests use a handful of values; the invariants must hold for all contents and orders',
 ['flat_set.hpp'],[('lower_bound based lookup, insert/emplace/erase, modify_container',H+'flat_set.hpp')],[],['begin()/end()','find','size()'])
p('C10','dynamic_bitset bits are independent and bulk operations exact',
 'For every word type, set/reset/flip/test, operator[], bit references and iterators act on exactly the bit they name, and every other bit keeps its value across push_back, resize, append, assign, copying and moving. resize gives new bits the value false even where dropped bits were set before; the constructor repeats the given word; append adds exactly the other bitset\'s bits after the own ones, for every pair of sizes; all/any/none report exactly the state of the size() bits, never the unused bits of the last word (all() of an empty bitset is false); copying a range of bits from another bitset transfers exactly those bits for every source, destination and length alignment. No word outside the storage is read or written.',
 ['inputs','histories'],'every size, index, offset, length and word type (8, 16, 32, 64 bits)',
 'tests check a few sizes with one or two word types; alignment combinations are in the thousands',
 ['dynamic_bitset.hpp'],[('word/bit index split, resize/append padding, copy with shifts',H+'dynamic_bitset.hpp')],[],['test()','all/any/none','size()'])
p('C11','span and strided views address exactly the elements they were given',
 'span, stride_span and poly_span designate exactly the element sequence they were constructed from: size, element access, iteration, front/back, first/last/subspan, remove_prefix/suffix and conversions yield the corresponding elements of the original sequence. subspan clamps an offset or count beyond the end, for every value including the maximum of size_t, so that a view never extends outside its source.',
 ['inputs'],'every base size, stride, offset, count and index including the extremes of size_t',
 'tests use a few small slices; clamping and wrap-around have to be right for all of size_t',
 ['span.hpp','stride_span.hpp','poly_span.hpp'],[('subspan/first/last, at, remove_prefix/suffix',H+'span.hpp'),('stride arithmetic',H+'stride_span.hpp')],[],['size()','operator[]','begin()/end()'])
p('C12','stride_span and poly_span iterators obey random-access iterator laws',
 'For iterators of stride_span and poly_span over n elements: (it+k)-it equals k for every k positive, zero or negative in range, end-begin equals size, *(it+k) designates the element k positions further (reverse iterators included), increments and decrements are inverse, and the relational operators order iterators by position. Equality holds exactly for equal positions. This is so for every stride at least the element size.',
 ['inputs'],'every n, stride, position and signed offset',
 'tests iterate forward over small spans; negative differences and large strides are not sampled',
 ['stride_span.hpp','poly_span.hpp'],[('iterator arithmetic operators',H+'stride_span.hpp'),('iterator arithmetic operators',H+'poly_span.hpp')],[],['iterator difference and dereference'])
p('C13','expected holds exactly one live value or error',
 'At any time an expected<T,E> (including void, reference and ref-qualified accessors) holds either one live value or one live error and nothing else is alive; construction, move, assignment, emplacement and destruction, in each combination of states, construct, assign and destroy each payload exactly once. Its state and payload after each operation equal the source\'s: has_value, value, error, value_or, error_or and conversions report exactly what was stored, and value()/error() access never changes the state. A payload passed or accessed as an lvalue is copied and never modified or moved from.',
 ['inputs','histories'],'every combination of states of source and target and every payload value',
 'the state combinations times payload categories are many and tests exercise a selection; lifetime errors are silent in them',
 ['expected.hpp'],[('union storage with m_has_value, assignment operators, unexpected',H+'expected.hpp')],[],['has_value()','value()','error()','payload constructors/destructors'])
p('C14','any owns exactly one value of the stored type',
 'An itlib::any holds either nothing or exactly one live object of the decayed type it was given; has_value, type and any_cast report it exactly: any_cast to the stored type yields that value, any_cast to any other type yields null or throws std::bad_cast, leaving the any unchanged. Copy makes an equal independent value, move leaves the source empty, reset, emplace and assignment (self-assignment too) never leak, never destroy twice, and never leave a dangling or referencing value. Memory is obtained from and returned to its allocator with matching sizes.',
 ['inputs','histories'],'every pair of source/target states and stored types',
 'tests try few state combinations with few types',
 ['any.hpp'],[('type-erased holder, emplace, copy/move/swap',H+'any.hpp')],[],['any_cast','type()','payload constructors/destructors','allocator calls'])
p('C15','atomic_shared_ptr_storage operations are linearizable and leak-free',
 'Under any interleaving of concurrent load, store, exchange and compare_exchange calls, atomic_shared_ptr_storage behaves as if each took effect atomically at one point: every load returns a pointer that was stored, and no update is lost or duplicated. No data race occurs on the stored pointer, reference counts balance, and each operation releases the internal lock it took on every path; no pointed-to value is destroyed while that lock is held, so a destructor may use the storage. compare-exchange replaces the value exactly when it equals the expected one and otherwise reports the current one.',
 ['schedules','inputs'],'every interleaving of any number of threads and every pointer value',
 'tests run a few threads for a short time and can only sample schedules',
 ['atomic_shared_ptr_storage.hpp'],[('spinlock guarding the stored shared_ptr',H+'atomic_shared_ptr_storage.hpp')],[],['load/store/exchange results','lock state'])
p('C16','data_mutex gives access to its data only under its lock',
 'Every access to the data of a data_mutex through its lock objects happens while the corresponding mutex is held in the matching mode (exclusive for mutable access, shared or exclusive for const access), each successful acquisition is released exactly once when the lock object dies or is moved, and nothing is unlocked that was not acquired. Try-locks that fail yield an empty lock object which converts to false and releases nothing. This holds for every mutex type and for every outcome of its operations.',
 ['schedules','inputs','fault_sequences'],'every mutex behaviour (try result, throwing lock) and every sequence of lock-object moves',
 'tests use std mutexes without contention failures or throwing locks',
 ['data_mutex.hpp'],[('lock guard classes',H+'data_mutex.hpp')],[],['mutex lock/unlock calls','lock object bool'])
p('C17','strong_try_rec_mutex is a recursive mutex with reliable try_lock',
 'At most one thread owns a strong_try_rec_mutex at any time; the owner may try_lock it again any number of times, always successfully, and it becomes free only after exactly as many unlocks. try_lock by a thread that is not the owner succeeds exactly when the mutex is free, without spurious failures, and never waits for the owner. No data race occurs inside the mutex under any interleaving of try_lock and unlock calls.',
 ['schedules','histories'],'every interleaving of try_lock/unlock of any number of threads, every recursion depth',
 'tests exercise two threads and a few depths; the guarantee is over all schedules',
 ['mutex.hpp'],[('owner and depth protected by an inner mutex',H+'mutex.hpp')],[],['try_lock result','blocking'])
p('C18','sentry runs its function exactly once at scope exit',
 'A scope guard made by sentry or make_sentry calls its function exactly once, when the guarded scope is left - by normal exit, early return or an exception - and never before that. Moving a guard (before C++17) transfers the duty to call without duplicating or losing it, along any chain of moves. The function object it was given is moved or copied into the guard, and an lvalue function object is referenced, never modified by the guard itself.',
 ['histories'],'every way of leaving the scope and every chain of moves, in each supported language version',
 'tests check one guard per case',
 ['sentry.hpp'],[('sentry destructor and move constructor',H+'sentry.hpp')],[],['calls of the guarded function'])
p('C19','memory stream buffers transfer bytes exactly',
 'mem_ostreambuf stores in its container exactly the characters written to it, in order, whatever mix of single-character and block writes, buffer growth, seeks, clear and get_container is used, for every kind of container, and remains usable after its container was taken. get_container returns exactly the characters up to the current put position. mem_istreambuf delivers exactly the characters it was given, then end of file, never reads outside them, and seeking to a position inside the data continues from exactly that position.',
 ['inputs','histories'],'every byte sequence, write chunking, growth point and seek',
 'tests write a few short strings; growth and position arithmetic must be right for each size',
 ['mem_streambuf.hpp'],[('overflow/xsputn/resize/setp arithmetic, seekoff/seekpos',H+'mem_streambuf.hpp')],[],['container content','read results'])
p('C20','strutil functions match their definitions on every string',
 'For every pair of strings, including empty ones and patterns longer than the string, starts_with and ends_with return true exactly when the string has that prefix or suffix. remove_prefix_all and remove_suffix_all return the view into the argument with every leading (trailing) repetition of the pattern removed and nothing else, terminating for every input. make_string_view covers exactly the given range, and nothing outside the argument strings is read.',
 ['inputs'],'every pair of strings of every length',
 'tests sample a few strings',
 ['strutil.hpp'],[('comparison and removal loops',H+'strutil.hpp')],[],['return values'])
p('C21','time_t and duration conversions are exact',
 'itlib::time_t arithmetic with chrono durations, comparison, difference and conversion to and from std::time_t are exact and mutually inverse over the representable range, with durations converted to whole seconds as duration_cast does. gmtime, localtime and their inverses return what the C library computes for exactly that time. strftime returns exactly the text std::strftime produces, for any format and any output length including empty, without overrunning a buffer or looping forever.',
 ['inputs'],'every representable time, duration and format/output length',
 'tests format one or two dates with short formats',
 ['time_t.hpp'],[('operators and strftime buffer growth',H+'time_t.hpp')],[],['return values'])
p('C22','qalgorithm functions match the std algorithms over whole containers',
 'qfind, qfind_if, pfind and pfind_if designate the first matching element of the whole container, or end/null when there is none, and qall_of, qany_of and qnone_of agree with the quantifier they name (all true and none true on an empty container), for every content and predicate. erase_first and erase_first_if remove exactly the first match and report whether there was one; erase_all and erase_all_if remove exactly the matching elements and return their number, keeping the order of the others. Nothing outside the container is accessed.',
 ['inputs'],'every container content, length, value and predicate',
 'tests use one or two vectors',
 ['qalgorithm.hpp'],[('search and erase helpers',H+'qalgorithm.hpp')],[],['return values','container content'])
p('C23','ufunction is a move-only owner of exactly one callable',
 'An itlib::ufunction holds either no target or exactly one live callable, also for move-only callables; calling it invokes that callable once with the arguments forwarded unchanged and returns its result. Move construction and move assignment transfer the target without copying, so that every callable is destroyed exactly once; emptiness is reported exactly. Assignment of nullptr or of a new callable destroys the previous target.',
 ['histories','inputs'],'every pair of source/target states and every callable kind',
 'tests check a few callables',
 ['ufunction.hpp'],[('wrapper over std::function, move-only adaptor',H+'ufunction.hpp')],[],['callable constructor/destructor/call counts'])
p('C24','make_ptr and shared_from share ownership correctly',
 'itlib::make_shared and make_unique create exactly one object, copied from an lvalue argument and moved from an rvalue argument, and the result is its only owner. make_aliased and shared_from return pointers to exactly the given address that keep the owner alive exactly as long as they exist; make_aliased of an owner with use count zero, even one holding a non-null pointer, returns null. weak variants do not keep the owner alive, and every object is destroyed exactly once when its last owner goes.',
 ['histories','inputs'],'every argument category and every order of releases',
 'tests check a couple of objects',
 ['make_ptr.hpp','shared_from.hpp'],[('forwarding factories and aliasing constructors',H+'make_ptr.hpp')],[],['object constructor/destructor counts','use_count'])
p('C25','generator runs its coroutine one step per request and owns it',
 'An itlib::generator runs nothing of its coroutine before the first request, and then each next(), begin() or operator++ runs it exactly to its next co_yield or to its end. next() returns every yielded value once, in order, unchanged and owned by the caller, for values, move-only values and references (which designate the very object yielded), and is empty exactly when the coroutine has finished; the range-for interface gives the same values, with operator* repeatable. An exception thrown by the coroutine reaches the caller of that step unchanged; afterwards the generator is done, and a finished coroutine is never run again. The generator is the only owner of the coroutine: its frame, arguments and locals live until it finishes or is reset, assigned over or destroyed, at which point they are destroyed exactly once; moving (also to itself) runs nothing and transfers the coroutine in its state.',
 ['histories','inputs'],'every sequence of yields, returns and exceptions of the coroutine and every state of source and target',
 'tests run a few fixed generators to their end',
 ['generator.hpp'],[('promise_type, next, pseudo_iterator, move and destroy',H+'generator.hpp')],[],['values and exceptions received, steps run, lifetimes of locals and frame'])
p('C26','atomic_relaxed_counter loses no update',
 'Every increment, decrement, add and subtract on an atomic_relaxed_counter takes effect as one indivisible read-modify-write under any interleaving, so the final value equals the initial value plus the sum of all updates modulo the type, and each call returns the new value (prefix and compound forms) or the old value (postfix forms) of its own update. Loads and stores are single atomic accesses, at least relaxed. Copying takes a snapshot of the value and leaves the source unchanged.',
 ['schedules','inputs'],'every interleaving, number of threads and operand value',
 'tests can only sample schedules',
 ['atomic.hpp'],[('relaxed atomic wrappers',H+'atomic.hpp')],[],['returned and stored values'])
p('C27','pmr_allocator allocates, constructs and releases in pairs',
 'An itlib::pmr_allocator passes every request to the memory resource it was built with, with exactly the size and alignment of what is requested (bytes, n objects of a type, or one new object), and the deallocating counterpart gives the same size and alignment back to the same resource, also through copies and rebound copies. A count of objects whose size does not fit into size_t is refused with an exception, never served by a smaller block. new_object constructs exactly one object from the forwarded arguments (with the allocator for allocator-aware types), and when its constructor throws the memory is released and the exception reaches the caller; delete_object destroys and releases exactly that object.',
 ['inputs','fault_sequences'],'every size, alignment, count, constructor outcome and order of releases',
 'tests allocate a few objects',
 ['pmr_allocator.hpp'],[('allocate/deallocate/new/delete members before C++20',H+'pmr_allocator.hpp')],[],['calls of the memory resource, object lifetimes'])
p('C28','memory_view addresses exactly the elements it was given',
 'A memory_view or const_memory_view obtained from a pointer and size, an array, a container with an offset, or another view shows exactly that sequence: size, data, indexing, front, back and forward and reverse iterators designate the elements of the source in order, and writes go through. slice, with any offset and count, gives the part of the source from the offset cut at its end and never anything outside it; remove_prefix, remove_suffix and reset change the view and never the source.',
 ['inputs'],'every view, offset, count and index over the whole size_t range',
 'tests check a few views',
 ['memory_view.hpp'],[('memory_view, const_memory_view, make_memory_view',H+'memory_view.hpp')],[],['element addresses and sizes'])
p('C29','rstream reads sequentially and redirect_rstream goes back',
 'Every read of an itlib::rstream is exactly one read of the wrapped stream with the same buffer and count, it reports the state (good, eof, fail) of that stream, and it never seeks. A redirect_rstream of a good stream starts reading at the position it is given and, unless the stream failed meanwhile, puts it back to its original position when it is destroyed: also when nested and when it was read up to its end.',
 ['histories','inputs'],'every stream content length, position, count and stream state',
 'tests read two small streams',
 ['rstream.hpp'],[('basic_rstream, basic_redirect_rstream',H+'rstream.hpp')],[],['calls and position of the wrapped stream'])
p('C30','owner_from_member, bit_cast and force_move reach exactly the object given',
 'owner_from_member of a member of an object gives exactly the address of that object, whatever the offset of the member and wherever the object is. bit_cast gives a value with exactly the bytes of its source, so that casting back gives the source. force_move gives an rvalue of the very object, and initialising or assigning from it moves.',
 ['inputs'],'every object address, member offset and byte content',
 'tests check one member and a few values',
 ['utility.hpp'],[('utility functions',H+'utility.hpp')],[],['addresses, bytes, moves'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
print(len(P))
