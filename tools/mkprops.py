import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=observe or []
    d['anchors']['hook_needed']=hook
    P.append(d)
S='pyfastutil/src/'
ARR=[S+'ints/IntArrayList.cpp',S+'ints/BigIntArrayList.cpp']
OAL=[S+'objects/ObjectArrayList.cpp']
ILL=[S+'ints/IntLinkedList.cpp']
OLL=[S+'objects/ObjectLinkedList.cpp']
ALL=ARR+ILL+OAL+OLL
PUB=['the public list API (method results, exceptions, contents read back by index, slice, iteration, len, to_list)']
TS='The existing tests call one method at a time from one thread on a few fixed inputs; no test interleaves a second caller or lets user code run in the middle of a call.'
p('C01','Array int lists are linearizable Python lists of ints',
 'However calls from several threads or from user code running inside a call are interleaved on shared IntArrayList and BigIntArrayList objects, every call returns and the list ends up as if each call had been executed at one instant between its start and its return on an ordinary Python list of ints (same values for any in-range int, same results, same exception types, resize/from_range/to_list/copy as documented). An extend or constructor fed by a lazy iterable counts as the sequence of appends its items stand for. A call that raises because of a bad argument (missing value, bad index, wrong type) leaves the list unchanged.',
 ['schedules','histories','inputs'],'every history of up to a few dozen calls by up to three clients, over all interleavings at call boundaries and inside user callbacks (iterators, __index__, __len__/__getitem__ of foreign sequences)',
 TS,ARR+[S+'utils/PythonUtils.h',S+'utils/simd/SIMDHelper.cpp',S+'utils/simd/SIMDUtils.h'],
 [('methods keep std::vector contents in step with list semantics','IntArrayList_*/BigIntArrayList_* functions'),('int conversion','PyFast_AsInt/PyFast_FromInt in utils/PythonUtils.h')],
 [('vector','the element storage','IntArrayList.h/BigIntArrayList.h')],PUB)
p('C02','IntLinkedList is a linearizable Python list of ints',
 'However calls from several threads or from user code running inside a call are interleaved on a shared IntLinkedList, every call returns and the list ends up as if each call had been executed at one instant between its start and its return on an ordinary Python list of ints (same results, same exception types). An extend or constructor fed by a lazy iterable counts as the sequence of appends its items stand for. A call that raises because of a bad argument leaves the list unchanged.',
 ['schedules','histories','inputs'],'every history of up to a few dozen calls by up to three clients, over all interleavings at call boundaries and inside user callbacks',
 TS,ILL+[S+'utils/Utils.h',S+'utils/PythonUtils.h'],[('positional access walks the std::list from the nearer end','utils/Utils.h at()'),('methods','IntLinkedList_* functions')],None,PUB)
p('C03','ObjectArrayList is a linearizable Python list of objects',
 'However calls from several threads or from user code running inside a call (__eq__, __lt__, __repr__, __index__, iterators, destructors) are interleaved on a shared ObjectArrayList, every call returns and the list ends up as if each call had been executed at one instant between its start and its return on an ordinary Python list holding the same objects (same identity of elements, same results, same exception types; elements compare by identity-or-equality as in list). A search, comparison or repr whose user code changes the list meanwhile reads the elements one at a time. An extend or constructor fed by a lazy iterable counts as the sequence of appends its items stand for. A call that raises because of a bad argument leaves the list unchanged.',
 ['schedules','histories','inputs'],'every history of up to a few dozen calls by up to three clients, over all interleavings at call boundaries and inside user callbacks',
 TS,OAL,[('methods','ObjectArrayList_* functions')],[('vector','the owned object pointers','objects/ObjectArrayList.h')],PUB)
p('C04','ObjectLinkedList is a linearizable Python list of objects',
 'However calls from several threads or from user code running inside a call (__eq__, __lt__, __repr__, __index__, iterators, destructors) are interleaved on a shared ObjectLinkedList, every call returns and the list ends up as if each call had been executed at one instant between its start and its return on an ordinary Python list holding the same objects (same identity of elements, same results, same exception types; elements compare by identity-or-equality as in list). A search, comparison or repr whose user code changes the list meanwhile reads the elements one at a time. An extend or constructor fed by a lazy iterable counts as the sequence of appends its items stand for. A call that raises because of a bad argument leaves the list unchanged.',
 ['schedules','histories','inputs'],'every history of up to a few dozen calls by up to three clients, over all interleavings at call boundaries and inside user callbacks',
 TS,OLL+[S+'utils/Utils.h'],[('methods','ObjectLinkedList_* functions'),('at()','utils/Utils.h')],None,PUB)
p('C05','sort() is an exact stable sort and survives failing or meddling keys',
 'For every list type, length, key and reverse flag, sort leaves exactly the same elements in the order Python\'s stable sort gives (including reverse stability). If the key function or an element comparison raises at any step, or memory runs out, that exception propagates and the list still holds exactly a permutation of its elements. If other code or another thread changes the list while a key function or comparison runs, sort either raises ValueError or has a result explainable by one instant; it never corrupts, loses or duplicates elements.',
 ['inputs','fault_sequences','schedules'],'all lengths and value patterns (runs, duplicates, extremes), all steps at which a key/compare callback raises, yields to another client, or an allocation fails',
 'Tests sort a few small or random lists with well-behaved keys; the vectorised paths depend on length and content, and no test makes a key fail or touch the list.',
 [S+'utils/simd/BitonicSort.cpp',S+'utils/include/CPythonSort.c',S+'utils/include/TimSort.h']+ALL,
 [('vectorised sort','simd::simdsort in utils/simd/BitonicSort.cpp'),('key sort','CPython_sort in utils/include/CPythonSort.c'),('entry points','*_sort methods')],None,['contents after sort()'])
p('C06','No other thread ever sees a half-done list operation',
 'Wherever the runtime lets another thread run, including in the middle of sort, reverse, multiplication, extend or any other bulk operation, that thread\'s calls on the same or other lists see each list only as it was before or after a whole operation, never a partly moved, freed or reallocated buffer, and no update made by either thread is lost or torn. Every operation, whether it succeeds or raises, hands control back with the interpreter lock correctly held, and completes in a bounded number of steps without deadlock.',
 ['schedules','fault_sequences'],'all preemption points at basic-block granularity inside any region in which the extension lets other threads run, for 2-3 threads, with and without failing allocations in those regions',
 'Which thread runs while the interpreter lock is dropped is decided by the OS; tests are single-threaded and never hit such a window.',
 ALL+[S+'utils/simd/SIMDUtils.h'],[('Py_BEGIN_ALLOW_THREADS regions','sort/reverse/mul/imul in each list type')],None,['list contents seen by the other thread','PyGILState'])
p('C07','An exception in user code leaves every list valid and is not lost',
 'When user code called by a list operation (an iterator, length hint, foreign sequence, __index__, key, comparison, __eq__, __repr__) raises at any step, exactly that exception comes out of the operation: it is never swallowed, replaced, or left pending behind a normal return. The receiving list then holds what a Python list would hold: for extend and += the old elements followed by a prefix of the new items (with a lazy iterable: exactly the items already produced), otherwise its old contents unchanged, and every later operation works normally.',
 ['fault_sequences','inputs'],'every operation that calls user code, every step at which that code raises, every exception type',
 'The failing step is an unbounded choice; tests exercise at most one wrong-type argument per method.',
 ALL+[S+'utils/PythonUtils.h'],[('error paths after PyIter_Next, PyLong_As*, PySequence_*, PyObject_RichCompare*','all list methods')],None,['exception raised','contents afterwards'])
p('C08','Memory exhaustion at any allocation is a clean, leak-free Python error',
 'If any single memory request made during a list, iterator or view operation fails, the operation raises MemoryError (or RuntimeError for an allocation failure inside the native containers); it never aborts the process, hangs, or returns a wrong result. The list keeps its old contents (extend-like operations may keep a prefix of the new items), no memory or reference is leaked, and the same operation succeeds when retried with memory available.',
 ['fault_sequences'],'every operation, every index of the failing allocation within it (native and interpreter allocators), single and persistent failures',
 'Tests never run out of memory.',
 ALL+[S+'utils/memory/AlignedAllocator.h',S+'utils/PythonUtils.h']+[S+'ints/IntArrayListIter.cpp',S+'ints/BigIntArrayListIter.cpp',S+'ints/IntLinkedListIter.cpp',S+'objects/ObjectArrayListIter.cpp',S+'objects/ObjectLinkedListIter.cpp'],
 [('bad_alloc handling','try/catch around std::vector/std::list calls'),('alignedAlloc','utils/memory/AlignedAllocator.h')],None,['exception raised','contents afterwards','live allocations'])
p('C09','Re-entrant user code can never corrupt memory',
 'Whatever user code called in the middle of an operation does to the containers involved - append, clear, shrink, resize, delete, sort, assign slices, drop the last reference to the list, an element or the argument - the operation finishes with a normal result or a Python exception and never touches freed or out-of-bounds memory. Afterwards the list is internally consistent: its length, index access, iteration, repr and to_list agree, and every element is one that was put there.',
 ['schedules','histories'],'every operation that can call back, every callback step, every nested operation (up to depth 2) on the list itself, its iterator or its argument',
 'Needs a hostile callback at one exact step; tests use built-in ints and plain lists.',
 ALL,[('cached pointers/iterators/sizes across calls back into Python','all list methods, CPythonSort key sort, iterators')],None,['process does not fault under an address checker','mutual agreement of read operations'])
p('C10','Iterators over a changing list behave exactly like list iterators',
 'Forward and reversed iterators of every list type, advanced in any interleaving with any changes to the list, yield exactly what Python list iterators yield at the same points: the element currently at the next position, then StopIteration for good once the end has been met. They keep the list alive, never read outside it, and the remaining-length estimate, if offered, is never misleading to list().',
 ['schedules','histories'],'all interleavings of next() on several iterators with structural changes (append, insert, pop, remove, clear, slice assignment, sort, reverse, resize, +=, *=)',
 'Tests iterate over unmodified lists, or make one change at one fixed point.',
 [S+'ints/IntArrayListIter.cpp',S+'ints/BigIntArrayListIter.cpp',S+'ints/IntLinkedListIter.cpp',S+'objects/ObjectArrayListIter.cpp',S+'objects/ObjectLinkedListIter.cpp']+ILL+OLL,
 [('index with bounds check','*ArrayListIter_next'),('modification counter and cached node','*LinkedListIter_next, modCount increments in linked list methods')],
 [('modCount','structural changes seen by iterators','IntLinkedList.h/ObjectLinkedList.h')],['values yielded by next()'])
p('C11','A buffer view of an int list always shows live, correct memory',
 'While any memoryview or other buffer consumer of an IntArrayList or BigIntArrayList exists, its memory stays valid, has the right length, item size and format, and always shows the current elements, whatever else is done to the list, including dropping every other reference to it. An operation that would have to move or resize the storage under a live view raises BufferError and changes nothing (an extend that already stored items one by one before the view appeared keeps them); once all views are released the same operation succeeds.',
 ['histories','schedules','fault_sequences'],'all interleavings of taking, slicing, reading, writing and releasing views with every list operation, by several clients, with failing allocations',
 'Tests take one view of an idle list and read it once.',
 ARR,[('buffer export','IntArrayList_getBuffer/BigIntArrayList_getBuffer and their release functions')],None,['memoryview contents and metadata','BufferError'])
p('C12','Every object is owned exactly once and released exactly once',
 'At every quiescent point the number of references a container or iterator holds on an object equals the number of times the object is stored in it (plus one per live iterator on the list itself), on success and on every failing path. Dropping a container releases every element exactly once, no integer or temporary object created by an operation outlives its users, and no element is destroyed while still stored.',
 ['histories','fault_sequences'],'every history of operations, callback failures and failing allocations on all list types',
 'Reference errors are silent until a later crash or leak; tests do not count references.',
 ALL+[S+'utils/PythonUtils.h'],[('Py_INCREF/Py_DECREF discipline','PyFast_INCREF/SAFE_DECREF in utils/PythonUtils.h and every list method')],None,['reference counts of tagged elements','live object census at end of run'])
p('C13','Unsafe heap calls honour their contract under any failure',
 'Blocks returned by malloc, calloc, realloc and aligned_malloc are disjoint, correctly sized, aligned and zeroed or content-preserving as documented, until freed exactly once; set, get, memcpy and memset move exactly the requested bytes. If any memory request fails, MemoryError is raised, no block is leaked or lost, and after a failed realloc the old block is still valid with its contents. as_object, incref, decref and refcnt leave reference counts exactly as documented.',
 ['histories','fault_sequences'],'all histories of heap calls by several clients with any allocation failing or returning moved/recycled addresses',
 'Tests make one small allocation each and never see a failure.',
 [S+'unsafe/Unsafe.cpp',S+'utils/memory/AlignedAllocator.h'],[('result checks','Unsafe_malloc/calloc/realloc/alignedMalloc'),('alignedAlloc/alignedFree','utils/memory/AlignedAllocator.h')],None,['addresses and bytes seen through get/set','simulated heap census'])
p('C14','Native functions made by ASM stay callable until freed, whatever fails',
 'A function returned by makeFunction or makeFunctionFast stays executable and unchanged until it is freed, no matter which other functions are made, freed or run, in any order and from any thread. If a memory request or a protection change fails, the call raises, nothing is leaked or half-freed, the code is not executed, no lock stays held, and later calls work. freeFunction on an address that is not a live function raises ValueError every time.',
 ['histories','fault_sequences'],'all histories of make/run/call/free with protection-change and allocation failures, on a simulated Windows memory API',
 'The code is compiled only on Windows, so on this platform its tests are skipped, and no test injects a failing VirtualProtect.',
 [S+'unsafe/ASM.cpp',S+'unsafe/Unsafe.cpp',S+'utils/memory/AlignedAllocator.h'],[('function registry and lock','map/lock in unsafe/ASM.cpp'),('page protection changes','VirtualProtect calls')],None,['whether calling a live function works','exceptions raised','pages left executable'],'none: ASM.cpp is compiled with a simulated windows.h')
p('C15','The thread pool runs every accepted task exactly once and shuts down',
 'Every task accepted by the thread pool is executed exactly once with its own arguments, its future delivers exactly its value or exception, and tasks run concurrently on different workers as threads allow, under any schedule including spurious wake-ups. Destroying the pool at any moment returns in bounded steps without losing an accepted task, and a pool whose thread creation fails reports an exception instead of ending the process.',
 ['schedules','fault_sequences'],'all schedules of submitters, workers and the destructor at synchronisation points; spurious wake-ups; thread-creation failure',
 'There is no test for the thread pool; its outcomes depend on OS scheduling.',
 [S+'utils/thread/ScheduledThreadPool.cpp',S+'utils/thread/ScheduledThreadPool.h'],[('queue, mutex and condition variable','worker()/submit()/destructor')],None,['futures, execution counts'])
p('C16','Unsafe stdio calls never lose data or errors silently',
 'Everything passed to fputs reaches the output stream in order, once, by the time a following fflush returns normally, whatever short writes or delays the device shows; if the device reports an error, fputs or fflush raises instead of returning normally. fgets returns exactly the next line or prefix that fits, an empty string at end of input as documented, raises on a device error, and never leaks or crashes.',
 ['fault_sequences','histories'],'all sequences of short reads/writes, EINTR, EIO and full-device errors on the simulated standard streams, interleaved with calls of several clients and failing allocations',
 'Tests print one line to a healthy stdout.',
 [S+'unsafe/Unsafe.cpp'],[('return value handling of fputs/fflush/fgets','Unsafe_fputs/fflush/fgets')],None,['bytes seen by the simulated device','exceptions raised'])
p('C17','Importing the module either fully succeeds or raises cleanly',
 'If any memory request fails while the extension module is being imported, the import raises an exception without ending the process, and leaves no half-initialised module that looks usable. A later import with memory available succeeds and all container types work completely, whichever operation is used first.',
 ['fault_sequences'],'every allocation index during module initialisation, single and persistent failures',
 'Tests import the module once, with memory available.',
 [S+'PyFastUtil.cpp']+[S+'ints/IntArrayList.cpp',S+'objects/ObjectArrayList.cpp',S+'unsafe/SIMD.cpp'],[('PyModule_Create/PyModule_AddObject result checks','PyInit___pyfastutil and each PyInit_*')],None,['import result, exception, usability afterwards'])
p('C18','SIMD memory helpers move and reverse exactly the requested elements',
 'For every element width, count and alignment allowed by the documentation, the SIMD memcpy and reverse helpers change exactly the documented destination bytes and nothing else.',
 ['inputs'],'all counts, widths and alignments','Tests try a few counts.',
 [S+'unsafe/SIMD.cpp',S+'utils/simd/SIMDHelper.cpp',S+'utils/include/qreverse.hpp'],[('vector loops with tails','simdMemCpy/simdReverse')],None,['destination bytes'])
p('C19','Each AVX-512 wrapper computes what its intrinsic is documented to compute',
 'Every SIMDLowAVX512 method loads its operands from the given addresses, computes what the intrinsic of the same name is specified to compute, and writes only its result.',
 ['inputs'],'all operand values of the several hundred wrappers','Tests cover a handful of wrappers.',
 [S+'unsafe/SIMDLowAVX512.cpp'],[('generated wrappers','unsafe/SIMDLowAVX512.cpp')],None,['result bytes'])
p('C20','Native functions called through Unsafe run once and deliver exactly their result',
 'callVoid, callInt, callLongLong and call run the native function at the given address exactly once, and not at all when the call raises because of a bad argument. callInt and callLongLong return exactly the 32-bit and 64-bit value; call writes exactly the requested bytes (up to 8 bytes of the value, or more than 16 bytes from the address the function returned) and no other byte. This holds whatever Python code the function calls back into does meanwhile (further Unsafe calls and native calls, from any thread). If memory for the result runs out, MemoryError is raised, nothing is leaked and later calls work.',
 ['histories','fault_sequences'],'all histories of native calls by several clients, nested through callbacks, with failing allocations and every result width',
 'Tests call one or two functions that never call back, with memory available.',
 [S+'unsafe/Unsafe.cpp',S+'utils/simd/SIMDHelper.cpp'],[('argument conversion before the call, result width','Unsafe_callVoid/callInt/callLongLong/call')],None,['runs counted by the function itself','results and bytes of the blocks'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch)
