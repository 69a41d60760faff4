#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the anchors stay easy to edit)."""
import json, os
H='gmlc/containers/'
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[H+f for f in files],state=[dict(name=a,meaning=b,where=H+c) for a,b,c in state],
      mechanism=[dict(name=a,where=H+b) for a,b in mech],observe_at=observe,hook_needed=None)))
Q3=['SimpleQueue.hpp','BlockingQueue.hpp','BlockingPriorityQueue.hpp']
QT=[('push/pull element vectors','elements being added / waiting for extraction','SimpleQueue.hpp'),('empty flag','atomic summary of emptiness, doubles as the "a consumer may be waiting" ticket','BlockingQueue.hpp')]
SCH='The tests run a few threads on the schedules the machine happens to produce; the guarantee is over every interleaving of every set of callers.'
HIST='The tests run a handful of fixed call sequences; the guarantee is over every reachable state and every argument.'
p('C01','Queue and AirLock state is free of data races','Any number of threads may call the operations of a SimpleQueue, BlockingQueue, BlockingPriorityQueue or AirLock concurrently (construction, destruction and the source of a move excepted) without a data race: every access to the shared elements happens under a lock that excludes every conflicting access, or is atomic.',['schedules','programs'],'every interleaving of every public operation with every other',SCH,Q3+['AirLock.hpp'],[('m_pushLock/m_pullLock guards','SimpleQueue.hpp'),('door guard','AirLock.hpp')],['every access to the stored elements'],QT)
p('C02','Queue operations never deadlock and release their locks','No operation of SimpleQueue, BlockingQueue, BlockingPriorityQueue or AirLock can deadlock with another: locks are acquired in one global order, never twice by one thread, never held while user callbacks run or while waiting (except the lock the wait itself releases). Every lock taken by an operation is released on every exit of that operation, including when copying or moving an element throws.',['schedules','fault_sequences'],'every interleaving, every path through every operation, every throwing element operation',SCH+' No test throws from an element operation.',Q3+['AirLock.hpp'],[('pull-before-push lock order','SimpleQueue.hpp'),('std::unique_lock / std::lock_guard','BlockingQueue.hpp')],['lock, unlock and wait operations'],QT)
p('C03','Queues deliver every element exactly once in FIFO order','Each element successfully pushed or emplaced on a queue is delivered by exactly one pop (or discarded by clear or destruction), with the value it was pushed with. Elements pushed on the ordinary channel come out in the order in which they were pushed, including the order inside a pushed vector and across a move of the queue; clear removes everything present. A push or emplace that throws adds nothing (copying the elements of a pushed vector one by one is assumed not to throw).',['schedules','histories','inputs'],'every interleaving of producers and consumers and every queue content',SCH,Q3,[('swap and reverse of the two vectors','SimpleQueue.hpp'),('checkPullAndSwap','BlockingQueue.hpp')],['values returned by pop, try_pop and popOrCall'],QT)
p('C04','Emptiness and size of a queue are reported correctly','When no operation is in progress, empty() is true exactly when the queue holds no element and size() is the number of elements, whatever operations (including moves from and to the queue, clear, and pushing an empty vector) led there. peek and try_peek then return the element the next pop would deliver and do not change the queue, and the non-blocking pops return nothing only if the queue held nothing.',['histories','schedules'],'every quiescent state of a queue reached through any mix of operations',HIST,Q3,[('queueEmptyFlag updates','SimpleQueue.hpp')],['empty, size, peek, try_peek, pop, try_pop results'],QT)
p('C05','Blocked consumers are always woken','A consumer blocked in a pop without timeout or popOrCall on a BlockingQueue or BlockingPriorityQueue, or a thread blocked in AirLock::load, never stays blocked once what it waits for is available: whenever elements have been pushed, emplaced or moved into a queue that has a blocked consumer, and every operation has run to completion, some consumer has been notified after the element became visible. This holds for any number of producers and consumers and with spurious wake-ups.',['schedules'],'every interleaving of any number of producers and consumers, spurious wake-ups included','The blocking queue tests are excluded from the reliable suite because they hang now and then; no finite number of runs bounds the interleavings.',['BlockingQueue.hpp','BlockingPriorityQueue.hpp','AirLock.hpp'],[('empty flag compare-exchange plus notify_all','BlockingQueue.hpp'),('notify on unload','AirLock.hpp')],['condition variable waits and notifications'],QT)
p('C06','Priority elements overtake ordinary ones','Every pop, try_pop, timed pop, popOrCall and try_peek of a BlockingPriorityQueue returns an ordinary element only if no priority element is present at that moment, and priority elements are delivered exactly once in the order in which they were pushed.',['schedules','histories'],'every content of the two channels and every interleaving',SCH,['BlockingPriorityQueue.hpp'],[('priorityQueue checked before pullElements','BlockingPriorityQueue.hpp')],['values returned by pops'],QT)
p('C07','AirLock hands every object over exactly once','An object loaded into an AirLock is received by exactly one try_unload and is never overwritten before it is unloaded; try_load returns true exactly when it stored its object, try_unload returns a value exactly when the airlock was loaded, and isLoaded reports whether an object is waiting.',['schedules','histories'],'every interleaving of loaders and unloaders',SCH,['AirLock.hpp'],[('loaded re-checked under door','AirLock.hpp')],['try_load/try_unload results'],[('loaded','whether an object is waiting','AirLock.hpp')])
p('C08','A timed pop gives up only after its timeout on an empty queue','The timed pop of BlockingQueue and BlockingPriorityQueue returns no value only after a wait with the requested timeout has timed out and the queue was then found empty; otherwise it returns an element of the queue. It never waits without the requested bound.',['schedules','inputs'],'every interleaving, every timeout, spurious wake-ups included',SCH,['BlockingQueue.hpp','BlockingPriorityQueue.hpp'],[('wait_for loop','BlockingQueue.hpp')],['result of pop(timeout)'])
p('W01','WorkQueue picks work by priority and ratio','getWorkBlock returns a high (or required) priority block whenever one is queued, otherwise prefers medium work, except that once the number of medium blocks handed out since the last forced low one has reached the priority ratio a queued low block is handed out instead; low work is handed out when there is no medium work, and an empty pointer only if all three levels were found empty. Blocks of one level are handed out in submission order, and setting a non-positive ratio restores the default. While no other operation runs, isEmpty is true exactly when no block is queued and numBlock is the number of queued blocks.',['histories','inputs'],'every content of the three levels, every counter value and every ratio','The tests check one ratio on a few fixed submissions.',['WorkQueue.hpp'],[('getWorkBlock','WorkQueue.hpp')],['getWorkBlock result'],[('MedCounter','medium blocks since the last forced low block','WorkQueue.hpp')])
p('W02','Accepted work is executed exactly once','Every unfinished non-null block passed to addWorkBlock (single or vector form) is either executed by the caller before it returns when there are no workers, or queued exactly once at its priority level and a worker is notified (the single form may omit the notification when at least as many blocks as there are workers were queued at that level already); null blocks, and in the single form finished blocks that are not "required", are ignored. A worker executes each unfinished block it takes exactly once, and never sleeps longer than a bounded time while work is queued.',['schedules','histories'],'every block, priority and worker count; every path of the worker loop',SCH,['WorkQueue.hpp'],[('addWorkBlock','WorkQueue.hpp'),('workerLoop','WorkQueue.hpp')],['execute calls, queue pushes, notifications'])
p('W03','Closing a WorkQueue stops and joins every worker','closeWorkerQueue (and so destruction) makes the halt request visible before it wakes the workers, can not miss a worker about to sleep, joins every worker thread exactly once with no lock held that a worker needs, and is harmless when repeated; workers leave their loop once halted and idle. After closing, the worker count is reported as zero.',['schedules','histories'],'every state of the workers at the time of closing','Tests close idle or lightly loaded queues only.',['WorkQueue.hpp'],[('halt flag under queueLock','WorkQueue.hpp'),('closeWorkerQueue','WorkQueue.hpp')],['thread joins, notify, halt accesses'])
p('W04','A WorkBlock runs its task once per arming','Executing a WorkBlock runs its task if and only if one is loaded and the block is not finished, and marks it finished afterwards; a finished block is not run again until it is reset or given a new task, which makes it unfinished and gives it a fresh future belonging to the task that will run. A block without a task can be created, executed and reset without an error.',['histories'],'every state of a block and every sequence of execute, reset and update','Tests use a few sequences.',['WorkQueue.hpp'],[('WorkBlock::execute/reset/update*','WorkQueue.hpp')],['task invocations, isFinished'])
p('W05','WorkQueue operations do not race','No two operations of a WorkQueue (adding, taking, counting, ratio and worker count queries, closing, and the worker threads themselves) that run at the same time access the same non-atomic state, at least one of them writing, without a common lock. Construction, destruction and two simultaneous closes are excluded.',['schedules'],'every pair of operations, all paths of both',SCH,['WorkQueue.hpp'],[('members of WorkQueue','WorkQueue.hpp')],['data races on members'])
SB=[('next/nextIndex/dataCount','end of data, next index entry, number of blocks','StackBuffer.hpp')]
BUF='Tests use a few sizes and orders; the guarantee is over every capacity, block size and history.'
p('S01','StackBuffer never touches memory outside its buffer','For every capacity, block size, and sequence of operations, StackBuffer and StackBufferRaw read and write only inside their memory block, the data region and the index never overlap, and a block is never written over one still stored. Blocks of non-positive size, null data or without sufficient space are refused without any effect.',['inputs','histories'],'every reachable state, every size argument',BUF,['StackBuffer.hpp'],[('isSpaceAvailable','StackBuffer.hpp')],['every memory access'],SB)
p('S02','StackBuffer returns blocks last-in first-out','pop copies out exactly the bytes and size of the most recently pushed block not yet popped (the oldest, after reverse; reversing twice restores the order), nextDataSize announces that size, and a too small destination returns the negated size and leaves everything in place. A popped block that lies on top of the data makes its space available again. isSpaceAvailable agrees with whether push succeeds, the count equals the number of stored blocks, and clear empties the buffer.',['inputs','histories'],'every content and every argument',BUF,['StackBuffer.hpp'],[('push/pop/reverse','StackBuffer.hpp')],['pop results'],SB)
p('S03','StackBuffer copy, move, swap and resize keep contents','Copying a StackBuffer yields an independent buffer with the same blocks, moving transfers them and leaves a valid empty source, swap exchanges them, and a resize that succeeds keeps every block and makes exactly the new capacity available for further pushes. A resize that would lose data throws and a negative one is refused, in both cases changing nothing; memory is released exactly once.',['inputs','histories'],'every pair of states and every new size',BUF,['StackBuffer.hpp'],[('resize/resizeMemory/copy/move','StackBuffer.hpp')],['buffer contents, allocation and release'],SB)
RB=[('next_read/next_write/dataCount','positions of the oldest block and of the free space, number of blocks','CircularBuffer.hpp')]
p('R01','CircularBuffer never touches memory outside its buffer','For every capacity, block size and sequence of operations, CircularBuffer and CircularBufferRaw read and write only inside their memory block and never write over a block still stored. Blocks of non-positive size, null data or without sufficient contiguous space are refused without any effect.',['inputs','histories'],'every reachable state, every size argument',BUF,['CircularBuffer.hpp'],[('push/pop/isSpaceAvailable','CircularBuffer.hpp')],['every memory access'],RB)
p('R02','CircularBuffer returns blocks first-in first-out','pop copies out exactly the bytes and size of the oldest stored block, nextDataSize announces that size, a too small destination returns the negated size and leaves the block in place, and empty() is true exactly when nothing is stored, also after wrapping around the end. isSpaceAvailable agrees with whether push succeeds and clear empties the buffer.',['inputs','histories'],'every position of the data relative to the end of the buffer',BUF,['CircularBuffer.hpp'],[('push/pop wrap handling','CircularBuffer.hpp')],['pop results'],RB)
p('R03','CircularBuffer copy, move and resize keep contents','Copying a CircularBuffer yields an independent buffer with the same blocks, moving transfers them and leaves a valid empty source, and a resize that succeeds keeps every block in order. A resize that would lose data throws and changes nothing, growing never throws; memory is released exactly once.',['inputs','histories'],'every pair of states and every new size',BUF,['CircularBuffer.hpp'],[('resize/copy/move','CircularBuffer.hpp')],['buffer contents, allocation and release'],RB)
BL=[('dataptr/dataSlotIndex/bsize','block table, last used slot, fill of the last block','StableBlockVector.hpp'),('freeblocks/freeIndex','blocks kept for reuse','StableBlockVector.hpp')]
p('B01','StableBlockVector behaves as a vector','Element i of a StableBlockVector is always the i-th element pushed and not popped: push_back and emplace_back append one element, pop_back removes the last (and does nothing when empty), operator[], at, front, back and iteration from begin to end all agree on the elements, at throws exactly when the index is not below size(), and construction with a size, assign and clear give the stated contents.',['inputs','histories'],'every size, every block order and every fill of the last block','Tests use a few sizes and block orders.',['StableBlockVector.hpp','BlockIterator.hpp'],[('blockCheck/moveBlocktoAvailable','StableBlockVector.hpp')],['size, indexing, iteration'],BL)
p('B02','StableBlockDeque behaves as a deque','Element i of a StableBlockDeque is always the i-th element counted from the front: pushes and pops at either end add or remove exactly that end element (pops do nothing when empty), operator[], at, front, back and iteration from begin to end all agree on the elements, at throws exactly when the index is not below size(), and construction with a size and clear give the stated contents, also when the slot table is shifted or grown.',['inputs','histories'],'every size, front and back fill, slot position and block order','Tests use a few sizes and block orders.',['StableBlockDeque.hpp','BlockIterator.hpp'],[('blockCheck/blockCheckFront','StableBlockDeque.hpp')],['size, indexing, iteration'],BL)
p('B03','Elements of stable block containers never move','A push, emplace or pop at an end, shrink_to_fit, or growth of the slot table of a StableBlockVector or StableBlockDeque never relocates, copies, reassigns or destroys any other element, so references to the remaining elements stay valid; moving a container keeps the elements where they are.',['inputs','histories'],'every state and every operation',HIST,['StableBlockVector.hpp','StableBlockDeque.hpp'],[('block table with fixed blocks','StableBlockVector.hpp')],['addresses of elements'],BL)
p('B04','Elements and blocks are constructed and released exactly once','In a StableBlockVector or StableBlockDeque every element is constructed exactly once before use and destroyed exactly once when it is popped, cleared or the container dies, and no storage is touched outside allocated blocks. Every allocated block and table is owned by exactly one container at any time, is reused or returned to the allocator exactly once and never leaked or used after release. (A throwing element copy inside an operation on a whole container, that is construction with a size, copy or assign, is excluded; throwing pushes are covered by B07.)',['inputs','histories'],'every state and every operation including destruction',HIST,['StableBlockVector.hpp','StableBlockDeque.hpp'],[('freeAll/clear/moveBlocktoAvailable','StableBlockDeque.hpp')],['element constructors and destructors, allocator calls'],BL)
p('B05','BlockIterator arithmetic agrees with element order','Moving a BlockIterator by ++, --, +=, -=, + or - by any signed amount that stays within the sequence reaches the element that many positions away, crossing blocks as needed; iterators to the same position compare equal and to different positions unequal, also between const and non-const iterators.',['inputs'],'every starting position, every movement, every block size','Tests move within a few blocks.',['BlockIterator.hpp'],[('check/checkNeg','BlockIterator.hpp')],['dereferenced element'],[('vec/ptr/offset','slot, element and offset of the position','BlockIterator.hpp')])
p('B06','Copied and moved stable block containers are independent','Copying a StableBlockVector or StableBlockDeque (by construction or assignment, also of or to an empty one, also to itself) yields the same elements in storage of its own; moving transfers all elements and leaves an empty container that can be used again; self move assignment does not lose or release anything.',['histories'],'every pair of states',HIST,['StableBlockVector.hpp','StableBlockDeque.hpp'],[('copy and move operations','StableBlockVector.hpp')],['contents and ownership after copy/move'],BL)
p('B07','A throwing element constructor leaves the container unchanged','If constructing the new element throws during push_back, emplace_back, push_front or emplace_front of a StableBlockVector or StableBlockDeque, the container has the same size and the same elements as before and remains usable and destructible.',['fault_sequences','histories'],'every state, every throwing construction','No test throws from an element constructor.',['StableBlockVector.hpp','StableBlockDeque.hpp'],[('counters updated after construction','StableBlockVector.hpp')],['state after the exception'],BL)
p('B08','Constant stable block containers give no mutable access','Through a constant StableBlockVector or StableBlockDeque, and through the iterators cbegin and cend give, no element can be modified and no operation that changes the container can be called, and a constant iterator never turns into a modifiable one: programs attempting so do not compile.',['programs'],'every program using these interfaces','A test can not show that a program is rejected.',['StableBlockVector.hpp','StableBlockDeque.hpp','BlockIterator.hpp'],[('const overloads, const_iterator','StableBlockDeque.hpp')],['compiler verdict'])
MF=['MappedVector.hpp','StringMappedVector.hpp','MappedPointerVector.hpp','DualMappedVector.hpp','DualStringMappedVector.hpp','DualMappedPointerVector.hpp']
ML=[('lookup','search term to index map','MappedVector.hpp'),('dataStorage','the elements','MappedVector.hpp')]
p('M01','Search terms find the element they were given for','In every mapped vector, after an insertion with fresh search terms each term given finds exactly the new element at the returned index, elements keep their index, every other term still finds the element it found before, and insertion without a term adds no term; a search term added later with addSearchTerm or addSearchTermForIndex finds the element designated and is refused if it is in use or the element does not exist. A term that was never given finds nothing, operator[], at and back designate the element at that index, at throws for an index out of range, clear forgets all elements and terms, and copies and moved containers have the same elements and terms. (When exactly one of two terms given together is in use, only elements and the terms not given are promised to stay findable.)',['inputs','histories'],'every content, every search term','Tests use a few keys.',MF,[('lookup emplace with the index of the new element','MappedVector.hpp')],['find'],ML)
p('M02','Removing an element removes its terms and keeps the others','After remove or removeIndex of an existing element of a mapped vector with unstable storage (or of a pointer vector) the element is gone and none of its search terms finds anything, while each other term finds the same element as before at its shifted index; removing an unknown term or index changes nothing. With stable storage the other elements keep their index, the element itself is dropped if it was the last one, and its terms find nothing either way.',['inputs','histories'],'every content, every index and term, any number of terms per element','Tests remove from vectors of two or three elements with one term each.',MF,[('index shift loop','MappedVector.hpp')],['find, size after removal'],ML)
p('M03','Duplicate insertion is refused, insert_or_assign replaces','Inserting under search terms that all are already in use returns nothing and changes nothing. insert_or_assign under a term in use (for the dual pointer vector, under terms that designate the same element) replaces exactly that element in place and returns its index (of two terms the first decides, and afterwards both find the element); when no term given is in use it behaves as an insertion.',['inputs','histories'],'every content, every term','Tests use a few keys.',MF,[('find before insert','MappedVector.hpp')],['returned index, stored element'],ML)
p('M04','String search terms own their storage','StringMappedVector and DualStringMappedVector keep string terms alive on their own: lookups never refer to the storage of the caller, of another container or of a released string, also after copying, moving, removing elements and inserting further ones.',['histories','inputs'],'every caller string, every copy and move',HIST,['StringMappedVector.hpp','DualStringMappedVector.hpp'],[('names storage','StringMappedVector.hpp')],['storage referenced by lookup keys'],[('names','owned copies of the terms','StringMappedVector.hpp')])
p('M05','Mapped vectors only hand out constant iteration','Iteration over a mapped vector through begin and end, and every access through a constant mapped vector, gives no means to modify an element (in the pointer vectors: to replace, release or take the owning pointer) or to call an operation that changes the vector, and non-copyable classes (the queues, AirLock, WorkQueue, WorkBlock and the two pointer vectors) can not be copied: programs attempting so do not compile.',['programs'],'every program using these interfaces','A test can not show that a program is rejected.',MF+Q3+['WorkQueue.hpp'],[('const iterators, deleted copies','MappedVector.hpp')],['compiler verdict'])
p('M06','Pointer vectors own their objects and keep their addresses','MappedPointerVector and DualMappedPointerVector hold every object through exactly one owner: objects are never relocated by insertion or by removal of others, find and indexing return the address of the object held (null for unknown terms or, for indexing, out of range), and a removed or replaced object is destroyed exactly once.',['histories','inputs'],'every content, every term and index',HIST,['MappedPointerVector.hpp','DualMappedPointerVector.hpp'],[('vector of unique_ptr','MappedPointerVector.hpp')],['addresses returned, destruction'],ML)
p('M07','apply, modify and transform visit every element once','apply, modify and transform of every mapped vector call the function exactly once for every element in index order, transform stores each result at the place of its argument, and none of them adds, removes or reorders elements or changes search terms.',['inputs','histories'],'every content and every function','Tests use small vectors.',MF,[('std::for_each/std::transform over the storage','MappedVector.hpp')],['calls of the function'],ML)
p('M08','mapFind returns the mapped value or the default','Every form of mapFind returns the value stored under the key if the key is present, and otherwise the given default or nothing; it never changes the map.',['inputs'],'every map, key and default','mapFind has no test of its own.',['mapOps.hpp'],[('find compared with end','mapOps.hpp')],['returned value'])
p('N01','Work queued is started promptly','A block added to a WorkQueue with an idle worker is started without noticeable delay.',['schedules'],'every interleaving of addWorkBlock with workers going to sleep','Timing of thread wake-ups depends on the machine.',['WorkQueue.hpp'],[('notify_one after push','WorkQueue.hpp')],['time between addWorkBlock and execute'])
p('N02','Queue histories are linearizable as a whole','Every concurrent history of one queue is equivalent to a sequential history of a FIFO queue that respects real-time order, including the results of empty() and peek calls that overlap other operations.',['schedules','histories'],'every concurrent history',SCH,Q3,[('two-lock queue','SimpleQueue.hpp')],['results of all operations'])
p('N03','Amortised cost of operations is constant','Pushing and popping on the queues and block containers takes amortised constant time.',['inputs','histories'],'every sequence of operations','Benchmarks sample a few sizes.',Q3+['StableBlockVector.hpp'],[('vector swap','SimpleQueue.hpp')],['run time'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
