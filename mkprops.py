#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
I='include/boost/context/'
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
FF,FU,CF,CU=I+'fiber_fcontext.hpp',I+'fiber_ucontext.hpp',I+'continuation_fcontext.hpp',I+'continuation_ucontext.hpp'
ALL4=[FF,FU,CF,CU]
ASM=['src/asm/jump_x86_64_sysv_elf_gas.S','src/asm/ontop_x86_64_sysv_elf_gas.S','src/asm/make_x86_64_sysv_elf_gas.S']

p('C01','Resuming a context continues exactly that context and delivers its resumer',
 'Resuming a suspended context continues exactly that context where it last stopped (or at its entry function, once, when it never ran), and the continued code receives an object that denotes precisely the context that was just suspended. Any context may resume any other suspended context in any order and nesting, for fibers and call/cc continuations alike; when an entry function returns an object, control passes to the context that object denotes, which receives an object that tests as not-a-context. No context runs twice, runs after it finished, or is left unreachable.',
 ['histories','programs','configurations'],
 'every history of create / resume / finish / destroy over a few contexts, with every choice of which context resumes, returns to or destroys which, in every order',
 'the tests run a handful of fixed hand-overs (parent/child ping-pong, one chain of three); mistakes in who-is-delivered-to-whom need a context resumed by a different context than the one that suspended it, or a finished context handing over to a third',
 ALL4+['src/fiber.cpp','src/continuation.cpp']+ASM,
 [('resume and delivery of the suspended context',FF+': fiber::resume, fiber_entry; '+FU+': fiber_activation_record::resume, run'),('call/cc entry',CF+': callcc, context_entry; '+CU+': callcc, run'),('current context record','src/fiber.cpp, src/continuation.cpp: current()')],
 ['control flow and the objects returned by resume()/callcc()'],[('from','the context that resumed this one',FU)])

p('C02','Context objects are one-shot, move-only handles with value-like semantics',
 'A context object is either empty or denotes one suspended context: moving, move-assigning and swapping transfer exactly that denotation and nothing else, moved-from and resumed-from objects are empty, self-move-assignment changes nothing, and overwriting a non-empty object destroys the context it denoted. Boolean tests, equality, the ordering and stream output agree with this: default, moved-from and finished objects test false, distinct live contexts are unequal and ordered by a strict total order, empty objects are equal and not less than each other, the six comparison operators agree with each other, and empty objects print as not-a-context while live ones print something else that is distinct per context. The object types are nothrow movable and not copyable, and no test, comparison or swap throws.',
 ['histories','inputs'],
 'every sequence of handle operations (construct, move, move-assign incl. self, swap incl. self, member and free, compare, print, resume, destroy) over a few objects and contexts',
 'the tests check one move-construction, one move-assignment and one swap each; aliasing (self operations, overwriting a live object, chains of swaps) is not explored',
 ALL4,[('move construction / assignment / swap',FF+': fiber( fiber &&), operator=, swap'),('tests, ordering, output',FF+': operator bool, operator!, the comparison operators, operator<<'),('destructor',FF+': ~fiber')],
 ['bool tests, operator<, operator<<, destructor effects'])

p('C03','A function passed to resume_with runs exactly once, first, on top of the target',
 'Resuming with a function makes the target context, before it continues, call a private copy of that function exactly once on the target\'s own stack, passing the suspended resumer; what the function returns is exactly what the target\'s pending resume delivers (or its entry function receives, if it never ran before). An exception thrown by the function propagates out of the target\'s pending resume as if thrown there, leaves nothing to run later, and the function may itself resume or be resumed like any other code. Functions may be temporaries, named objects or plain functions, and every copy made is destroyed.',
 ['histories','programs','configurations'],
 'every history of resume_with over fresh and suspended targets, from every other context, with functions that return the resumer, another context or nothing, that throw, and that themselves switch (with and without a function), combined with destruction while suspended inside the function',
 'the tests use resume_with once per scenario on a context that already ran, never nested, never on a fresh context with switching inside, never a plain resume after a function threw',
 ALL4+['src/asm/ontop_x86_64_sysv_elf_gas.S'],[('function on top',FF+': fiber_ontop, resume_with; '+CF+': context_ontop, resume_with'),('stored function',FU+': resume_with, run')],
 ['call log, argument and copy counters of the function, object delivered at the target'],[('ontop','pending function of a context',FU)])

p('C04','Destroying a suspended context unwinds it completely, once, before returning',
 'Destroying (or overwriting) an object that denotes a suspended context unwinds that context: every local object on it is destroyed exactly once, innermost first, its handlers for unrelated exceptions do not stop it, code after the suspension point does not run, and then control comes back to the destroyer. A context that was never resumed is destroyed without its function ever running, though the function object itself is destroyed. Destructors that run during the unwinding may create, resume and destroy other contexts as usual.',
 ['histories','programs','configurations'],
 'every suspension point (entry, plain frames, try blocks, rethrowing handlers, inside an on-top function, contexts held by other contexts), every destroyer, every destruction form, nested destruction chains',
 'the tests destroy one context holding one local object from its creator; nested destruction, destruction of never-started contexts and destructors that switch contexts are not covered',
 ALL4,[('unwinding',FF+': ~fiber, fiber_unwind, fiber_entry; '+FU+': ~fiber, resume, run'),('exception used','include/boost/context/detail/exception.hpp')],
 ['destruction order log','return of control'],[('force_unwind','context is being torn down',FU)])

p('C05','Every context stack goes back to its allocator exactly once, after its last use',
 'For every context, the memory obtained for it is returned exactly once, through a copy of the allocator given at creation and with the same stack description that was allocated or supplied, after the context has finished or been unwound, after its function object was destroyed and no code touches that memory again. Creation obtains memory exactly once, or not at all when a preallocated stack is supplied. This happens no later than the destruction of the object through which the end of the context was observed, and nothing leaks over arbitrarily many create/finish/destroy cycles.',
 ['histories','configurations'],
 'every history of creation (both forms), finishing by return, finishing by unwinding, with stateful allocators passed as temporaries or named objects, repeated in cycles',
 'the tests never count allocations or check that released memory is not touched afterwards; only a poisoned, counted allocator over all ways for a context to end can show it',
 ALL4,[('record destruction and give-back',FF+': fiber_record::destroy, fiber_exit; '+FU+': fiber_capture_record::destroy, ~fiber'),('allocation',FF+': create_fiber1/2')],
 ['calls to allocate()/deallocate() of a user allocator, memory contents after give-back'])

p('C06','A suspended context keeps its machine state until it is resumed',
 'Whatever other contexts do meanwhile, a context finds after every switch its callee-saved registers, stack contents, local variables and floating-point control settings (rounding mode, exception masks, x87 precision) as it left them, and the same holds while a function runs on top of another context. A new context starts with the floating-point control settings of the code that created it and with a correctly aligned stack.',
 ['histories','programs','configurations'],
 'every order of switches among a few contexts each holding distinct values in every preserved register and every floating-point control setting, over plain, on-top, first-entry and finishing switches',
 'ordinary tests compiled by an optimiser rarely keep a live value in each preserved register across a switch and never vary the floating-point control state',
 ASM+[FF,CF],[('save/restore of registers and FP control words','src/asm/jump_x86_64_sysv_elf_gas.S, src/asm/ontop_x86_64_sysv_elf_gas.S'),('initial frame','src/asm/make_x86_64_sysv_elf_gas.S')],
 ['registers, MXCSR, x87 control word around a switch'])

p('C07','The low-level switching primitives honour their contract',
 'Creating a raw context from any stack top and size yields a handle, writes only just below the given top and not below the given bottom, and does not run anything; the first jump enters the given function with the caller\'s handle and the passed pointer on a correctly aligned stack inside the given region. Each jump stores the caller, transfers the pointer unchanged and returns, when the caller is resumed, the handle of whoever resumed it and the pointer passed; jumping with a function calls that function on the target\'s stack with the same two values and hands its result to the target. Returning from the entry function ends the process normally with status 0.',
 ['inputs','histories'],
 'every alignment of the stack top, several sizes, every interleaving of plain and on-top jumps among a few raw contexts to a depth, with every pointer pattern incl. high bits',
 'the tests use a fixed allocator (always 16-byte aligned tops) and fixed ping-pong sequences',
 ASM+['include/boost/context/detail/fcontext.hpp','src/fcontext.cpp'],[('make_fcontext','src/asm/make_x86_64_sysv_elf_gas.S'),('jump_fcontext','src/asm/jump_x86_64_sysv_elf_gas.S'),('ontop_fcontext','src/asm/ontop_x86_64_sysv_elf_gas.S')],
 ['returned transfer structures, memory around the new frame, exit status'])

p('C08','Exceptions stay inside the context that throws them',
 'An exception thrown and caught inside a context behaves as in any function, whatever switches happen between other contexts, and an exception that would leave an entry function terminates the process through std::terminate instead of reaching another context. The unwinding used to destroy a context is invisible outside it: it never escapes to the destroyer, code that catches and rethrows it lets it pass, and afterwards the number of uncaught exceptions is as before and no exception object is left allocated. The same holds for exceptions thrown by functions run on top of a context.',
 ['histories','programs','configurations'],
 'every place an exception can arise (entry function, nested frames, on-top function on a fresh or suspended context, destructors during unwinding) times every handler placement, over histories of switches',
 'the tests throw one exception from one entry and one on-top function; exception bookkeeping (uncaught counts, leaked exception objects) and escaping exceptions are never observed',
 ALL4+[I+'detail/exception.hpp'],[('entry functions do not let exceptions out',FF+': fiber_entry (noexcept); '+FU+': fiber_entry_func (noexcept)'),('unwinding exception caught at the entry',FF+': fiber_entry; '+FU+': run')],
 ['std::uncaught_exceptions, counts of live exception objects, terminate handler'])

p('C09','A context uses only its own stack region, for every callable and layout',
 'For every size and alignment of the function object (up to 256-byte alignment), every stack size that can hold it and every placement of a preallocated region, the function object and allocator copy are placed suitably aligned, do not overlap each other or the running stack, and creating, running and destroying the context writes nothing outside the region obtained for it, nor, for a preallocated context, at or above the given top. The part of the region below the stored objects is available to the code running in the context.',
 ['inputs','configurations'],
 'every callable size over a range crossing all internal rounding steps, every alignment, every offset of the preallocated top, both creation forms, several allocator sizes',
 'the tests use two callable sizes and one preallocated layout, whose slack hides off-by-some errors in the layout arithmetic',
 ALL4+[I+'preallocated.hpp',I+'stack_context.hpp'],[('layout of record, gap and stack',FF+': create_fiber1, create_fiber2; '+FU+': create_fiber1, create_fiber2')],
 ['guard bytes around the region, addresses of the callable, of locals'])

p('C10','Stack allocators hand out valid, disjoint blocks and give all memory back',
 'Every stack allocator returns a description whose whole range is readable and writable (except a guard page it promises), at least as large as requested, and disjoint from all other live stacks; deallocating in any order never disturbs live stacks, and once every stack is deallocated and the allocator is gone all memory has been returned, with each underlying allocation released exactly once with matching address and size. A stack that was given back can be handed out again, so the memory in use is bounded by the largest number of stacks alive at one time. Allocators built with a requested size (and pools with a requested number of stacks per request) use it, with the advertised default otherwise.',
 ['histories','inputs'],
 'every sequence of allocate/deallocate to a depth for every allocator, over a range of sizes (page multiples and their neighbours, minimal, odd) and pool growth parameters',
 'the tests allocate a single stack per allocator and never check what is returned to the system',
 [I+'fixedsize_stack.hpp',I+'pooled_fixedsize_stack.hpp',I+'posix/protected_fixedsize_stack.hpp'],[('allocate/deallocate',I+'fixedsize_stack.hpp, '+I+'pooled_fixedsize_stack.hpp, '+I+'posix/protected_fixedsize_stack.hpp')],
 ['malloc/free/mmap/munmap calls, memory contents'])

p('C11','A protected stack always has an inaccessible guard page below the usable part',
 'For every requested size and every page size the system reports, a stack from the protected allocator has at least the requested number of usable bytes directly above an inaccessible page that lies at the very bottom of the range, so that running off the lower end faults; the usable part stays fully accessible, pages outside the stack are untouched, and deallocation unmaps exactly the whole range. A context running on such a stack that overflows it is stopped by that page.',
 ['inputs','configurations'],
 'every requested size from 1 byte over several pages with byte granularity around page boundaries, times several page sizes, with every byte of the range probed',
 'the tests allocate one default-size protected stack and never touch the guard page',
 [I+'posix/protected_fixedsize_stack.hpp'],[('page rounding and protection',I+'posix/protected_fixedsize_stack.hpp: allocate')],
 ['access to each byte of the mapping, munmap arguments'])

p('C12','Copies of a pooled allocator share one pool that lives until its last user',
 'All copies of a pooled stack allocator, including those kept inside contexts created with it, use one pool: a stack given back through any of them is available to all; the pool and all stacks in it stay valid until the last copy is gone and are then released exactly once. Copies may be made and dropped by different threads concurrently (with stack allocation itself serialised by the user) without losing, leaking or freeing the pool early, under every interleaving.',
 ['schedules','histories'],
 'every interleaving of copy, assign, destroy, and of contexts owning a copy ending, over two or three threads; every single-threaded history of copies and stacks to a depth',
 'a lost or early release of the shared pool needs two threads to drop their copies in a particular interleaving, which a test run meets only by luck',
 [I+'pooled_fixedsize_stack.hpp'],[('reference count of the shared pool',I+'pooled_fixedsize_stack.hpp: intrusive_ptr_add_ref, intrusive_ptr_release')],
 ['release of the pool memory, data races on it'],[('use_count_','number of allocator copies',I+'pooled_fixedsize_stack.hpp')])

p('C13','A failed creation has no effect besides the reported error',
 'If the memory for a stack or the initial context state cannot be obtained, the attempt is reported to the creator as an exception (out of memory as std::bad_alloc), at whichever step it fails; the function is not run, every object and block obtained so far is released exactly once through the right allocator, and all existing contexts and allocators remain usable. The same holds if storing the function given to resume_with fails: the target stays suspended and denoted by its object. An allocator never returns a stack that lacks what it promises because a system call failed.',
 ['fault_sequences','histories'],
 'every single failure position (and every pair) of the memory and context system calls made while creating contexts with each allocator, each creation form and each value category of the allocator',
 'the tests never make an allocation or system call fail',
 [I+'fixedsize_stack.hpp',I+'pooled_fixedsize_stack.hpp',I+'posix/protected_fixedsize_stack.hpp',FF,FU,CF,CU],[('error paths',FU+', '+CU+': create_fiber1/2, create_context1/2; allocators: allocate')],
 ['exception seen by the creator, allocation balance, destruction count of the function object'])

p('C14','Stack-size information is truthful for whatever the system reports',
 'The reported page size equals what the system reports, the stack limit is unbounded exactly when the hard limit of the process stack is infinite and otherwise the maximum equals that hard limit, and the minimum is at least the size the platform requires for a signal stack; the default is 128 KiB, which is not below the minimum on systems whose signal-stack minimum is at most 32 KiB. Each answer is the same on every call and every thread, including when several threads ask for the first time at once.',
 ['inputs','schedules'],
 'every combination of page size and hard/soft stack limits from a set incl. 0, 1, odd values, the default size neighbours, maximum finite and infinite, every order of first queries, every interleaving of concurrent first queries',
 'a test process sees only the answers of the machine it runs on',
 ['src/posix/stack_traits.cpp',I+'stack_traits.hpp'],[('cached system answers','src/posix/stack_traits.cpp')],
 ['return values of the traits functions'],[('size, limit','cached answers','src/posix/stack_traits.cpp')])

p('C15','Contexts on different threads are independent, and suspended ones can migrate',
 'Threads that create, resume and destroy their own contexts do not affect each other under any interleaving, and a context suspended on one thread may be resumed, finished or destroyed on another (handed over with ordinary synchronisation), where it continues correctly and afterwards returns control on the resuming thread. The library itself introduces no data race, and per-thread bookkeeping is set up on first use in any thread and released when that thread ends.',
 ['schedules','histories'],
 'every interleaving (to a preemption bound) of two or three threads each running its own contexts, and every hand-over pattern of suspended contexts between threads',
 'the tests start one thread in one scenario; shared bookkeeping that should be per thread only shows under particular interleavings or migrations',
 ALL4+['src/fiber.cpp','src/continuation.cpp'],[('thread-local current context','src/fiber.cpp, src/continuation.cpp')],
 ['control flow per thread, data races, memory left after thread exit'],[('current record','context running on this thread','src/fiber.cpp, src/continuation.cpp')])

p('C16','All build configurations behave alike',
 'The same program observes the same sequence of events whichever implementation (native assembler or ucontext), language standard (C++11 to C++20), compiler, optimisation level, stack allocator and build option (assertions on or off, transactional-memory, debugger-support, static or shared library) the library is built with. Everything documented as available compiles in each of them.',
 ['configurations','histories'],
 'each configuration in the set times every history of operations to a depth, compared with one reference semantics',
 'the test suite runs four configurations on fixed scenarios with optimisation; code selected by other standards or options is never executed',
 ALL4+[I+'detail/config.hpp',I+'detail/invoke.hpp',I+'detail/exchange.hpp','CMakeLists.txt'],[('configuration-dependent code paths',I+'detail/config.hpp and the #if branches of the context headers')],
 ['event traces'])

p('C17','Any suitable callable is stored as given, invoked once and destroyed once',
 'Function pointers, function references, lambdas, functors (copyable, move-only, const-callable, stateful, over-aligned), bound expressions and pointers to members where the signature allows are accepted by context creation and (if they can be copied) by resume-with-function; temporaries are moved and never copied, named objects are copied once (the original unaffected), what runs is the stored object itself, invoked exactly once, and every instance created is destroyed exactly once. Passing a context object itself is never mistaken for a callable.',
 ['programs','inputs'],
 'every callable form times value category times creation form (default allocator, explicit allocator as temporary or named object, preallocated) times way of ending (return, destroyed suspended, destroyed before start)',
 'the tests use lambdas and one or two functors, always ending normally',
 ALL4+[I+'detail/invoke.hpp',I+'detail/disable_overload.hpp'],[('storage and invocation of the function object',FF+': fiber_record, run; '+FU+': fiber_capture_record, run'),('overload selection',I+'detail/disable_overload.hpp')],
 ['construction/copy/move/call/destruction counters of the callable'])

p('C18','Contexts are safe in stack-protector builds that keep the guard per context',
 'When the library is built to preserve the thread\'s stack-protector guard value per context, each context sees after every switch the guard value it had when it was suspended, a new context starts with the value of its creator, and creating a context modifies nothing but the new context\'s own stack.',
 ['histories','configurations'],
 'every history of make/jump/on-top jump among a few raw contexts that each set their own guard value, with the option on',
 'no test builds with this option',
 ASM,[('guard saved with the context','src/asm/make_x86_64_sysv_elf_gas.S, jump and ontop: BOOST_CONTEXT_TLS_STACK_PROTECTOR')],
 ['guard value in thread control block, caller stack frame contents'])

p('C19','Context switching keeps the same contract on every supported ELF processor port',
 'On each supported processor with a System V style ELF port, creating and switching contexts obeys that platform\'s calling convention: every callee-saved register (integer, floating-point, global pointer, and the control registers the convention preserves) of a suspended context is restored when it is resumed, the handle and pointer of the resumer arrive in the entry function, in the resumed caller and in a function run on top, the stack is aligned as the platform requires at every function start for every given top, returning from the entry function ends the process with status 0, and nothing outside the stacks is written. Creation writes only below the given top. A signal arriving between any two instructions of a switch does no harm.',
 ['histories','configurations'],
 'every history of make / jump / on-top jump (onto contexts that already ran) / return among a few contexts to a depth, with distinct values in every register, several alignments of the stack top, and a signal at every instruction, for each port',
 'the tests run on one processor only',
 ['src/asm/'],[('make/jump/ontop per port','src/asm/*_elf_gas.S, src/asm/tail_ontop_ppc32_sysv.cpp')],
 ['register file and memory after each switch'])

p('C20','Segmented stacks grow on demand and are released with their context',
 'In builds with segmented stacks a context started on a small stack can use far more stack than its first segment, before and after being switched away from and back, without corrupting itself or other contexts, each context keeps its own segments across every order of switches, and all segments are released when the context ends in whichever way. This holds for fibers and call/cc continuations.',
 ['histories','configurations'],
 'every history of resume, deep recursion, finish and destroy over a few contexts in a segmented-stack build',
 'the tests recurse once in one context on a segmented stack; interleaved growth in several contexts is not covered',
 [I+'posix/segmented_stack.hpp',FU,CU],[('segment bookkeeping at switches',FU+', '+CU+': __splitstack_getcontext/__splitstack_setcontext'),('allocation',I+'posix/segmented_stack.hpp')],
 ['results of deep recursion, mapped memory after the end'],[('segments_ctx','saved segment state of a context',I+'stack_context.hpp')])

p('C21','The forwarding helpers forward exactly',
 'The internal invoke/apply, tuple head/tail, integer-sequence and exchange helpers behave like their standard counterparts for every arity and value category: each argument arrives unchanged, in order, moved exactly when it was given as a temporary and otherwise left intact, results (including references) come back unchanged, and head and tail select the first and the last elements.',
 ['inputs','programs'],
 'every arity up to a bound, every combination of value categories and element kinds (copyable, move-only), every head/tail length, in each language standard',
 'the tests cover a few arities with plain ints and only the code path selected by their language standard',
 [I+'detail/apply.hpp',I+'detail/invoke.hpp',I+'detail/tuple.hpp',I+'detail/index_sequence.hpp',I+'detail/exchange.hpp'],[('helpers',I+'detail/')],
 ['values, copy/move counters, result types'])

p('C22','Sanitizer builds see the truth: no false reports, real overflows reported',
 'Programs that use contexts correctly run without any report when built with the library\'s address-sanitizer or thread-sanitizer support, for every history of creating, resuming, resuming with a function, finishing and destroying contexts, including exceptions and unwinding, and without accumulating sanitizer resources. A genuine out-of-bounds access to a local variable on a context\'s stack is still reported.',
 ['histories','configurations'],
 'every history of operations to a depth in sanitizer-enabled ucontext builds, each judged by the sanitizer and by the reference semantics',
 'the tests are not run with the sanitizer options of the library',
 [FU,CU],[('switch annotations',FU+', '+CU+': BOOST_USE_ASAN, BOOST_USE_TSAN')],
 ['sanitizer reports, event traces'])
p('C23','The Windows-fiber implementation keeps the same contract',
 'Built on the Windows fiber functions (BOOST_USE_WINFIB), fibers and call/cc continuations behave as in the other implementations: control and values arrive where they should, a function given to resume-with-function runs exactly once on top of its target, destroying a suspended context unwinds it exactly once, function objects, allocators and stacks are released exactly once, exceptions stay in their context, a failing creation is reported as an exception and changes nothing else, and every operating-system fiber that is created is deleted, never while it runs. The Windows protected stack has a usable part of at least the requested size above an inaccessible page, or reports failure.',
 ['histories','fault sequences'],
 'every history of creating, resuming, resuming with a function, finishing, destroying, throwing and moving between threads to a depth; every failing system call; every requested stack size around page boundaries',
 'the test suite never compiles this implementation outside Windows',
 [I+'fiber_winfib.hpp',I+'continuation_winfib.hpp',I+'windows/protected_fixedsize_stack.hpp','src/windows/stack_traits.cpp','src/fiber.cpp','src/continuation.cpp'],[('fiber_activation_record',I+'fiber_winfib.hpp'),('activation_record',I+'continuation_winfib.hpp'),('basic_protected_fixedsize_stack',I+'windows/protected_fixedsize_stack.hpp')],
 ['event traces, instance counters, operating-system fibers alive, memory blocks alive'])

p('C24','Context switching keeps the same contract on the Darwin and Windows processor ports',
 'On each Darwin and Windows port (x86_64, i386, ARM64, ARM; every assembler flavour and the universal-binary wrappers) creating and switching contexts obeys that platform\'s calling convention, as on the ELF ports: callee-saved registers, stack alignment, arguments and results, no writes outside the stacks, end of the process when the entry function returns, harmless signals. In addition the per-thread state of the system belongs to the context that runs: on Windows the stack limits, the deallocation stack and the fiber data of the thread information block and the chain of exception registrations (i386), on 32-bit ARM Darwin the chain of exception handlers; a new context starts with values that describe its own stack.',
 ['histories','configurations'],
 'every history of make / jump / on-top jump / return among a few contexts to a depth, with distinct values in every register and system field, several alignments of the stack top, and a signal at every instruction, for each port',
 'the tests run on one processor and one system only',
 ['src/asm/'],[('make/jump/ontop per port','src/asm/*_macho_gas.S, *_pe_*.S, *_pe_*.asm')],
 ['register file, system fields and memory after each switch'])

p('C25','Builds with shadow stacks, per-context stack guards, transactional memory or x32 keep the contract',
 'In builds for hardware shadow stacks (-fcf-protection with SHADOW_STACK_SYSCALL) every return in and after a switch matches the shadow stack of the running context; each context gets exactly one shadow stack from the operating system, large enough for its stack (at least 4 KiB and a 32nd of its size), which is released exactly once when the context ends, never while it runs, in every history of creating, resuming, resuming with a function, finishing and destroying contexts; a failing creation of a shadow stack is reported as an exception and changes nothing else. The assembler variants for per-context stack guards, transactional memory and 32-bit pointers (x32) keep the contract of the ordinary ones.',
 ['histories','fault sequences','configurations'],
 'every history of make / jump / on-top jump / return on the assembled variants with a model of the shadow stack; every history of contexts and every failing call on the classes compiled for shadow stacks',
 'the tests are not built with these options, and this machine has no shadow stacks',
 ['src/asm/',I+'fiber_fcontext.hpp',I+'continuation_fcontext.hpp'],[('switching code','src/asm/*_x86_64_sysv_elf_gas.S, *_i386_sysv_elf_gas.S'),('shadow stack of a context',I+'fiber_fcontext.hpp: create_fiber1, create_fiber2, fiber_exit; '+I+'continuation_fcontext.hpp')],
 ['shadow stack pointer and contents, shadow stacks alive, event traces'])

p('C26','Contexts work from the first static constructor to the last destructor of a program',
 'Contexts can be created, resumed, resumed with a function and destroyed at every point in the life of a program and of its threads: in constructors and destructors of objects with static and thread storage duration (constructed before or after the first use of a context in that thread), in functions registered with atexit, in destructors of thread-specific data and when the program is ended by a call of exit() inside a context. A suspended context kept in such an object is unwound exactly once when the object is destroyed, everything behaves as at any other time, memory already given back is not used again, and the bookkeeping of an ended thread is released.',
 ['histories','configurations'],
 'every assignment of operations to a few of the thirteen points in the life of a process and two threads, with the program ending by return from main or by exit() inside a context (also a nested one)',
 'every test runs inside main() and destroys its contexts there',
 ['src/fiber.cpp','src/continuation.cpp',I+'fiber_ucontext.hpp',I+'continuation_ucontext.hpp',I+'fiber_fcontext.hpp',I+'continuation_fcontext.hpp'],[('per-thread bookkeeping','src/fiber.cpp, src/continuation.cpp'),('fiber::~fiber',I+'fiber_ucontext.hpp')],
 ['event trace, stacks allocated and released, bookkeeping blocks alive, status of the process'])

p('C27','Debugger-support builds announce exactly the live stacks and run without false reports',
 'When the library is built with support for valgrind, every stack handed out by an allocator is announced with exactly its bounds when it is allocated and withdrawn exactly once when it is deallocated, at no other time and with the same identification, through every history of contexts, copies of allocators and failing allocations; and programs that use contexts correctly run under memcheck without any report of invalid or uninitialised memory.',
 ['histories','fault sequences'],
 'every history of creating, resuming, resuming with a function, finishing, destroying and throwing to a depth with each stack allocator, and every sequence of allocator operations with every failing call',
 'the tests are not built with this option and not run under a debugger',
 [I+'fixedsize_stack.hpp',I+'posix/protected_fixedsize_stack.hpp',I+'pooled_fixedsize_stack.hpp',I+'stack_context.hpp'],[('allocate, deallocate',I+'fixedsize_stack.hpp, '+I+'pooled_fixedsize_stack.hpp, '+I+'posix/protected_fixedsize_stack.hpp')],
 ['announced stacks after each operation, reports of memcheck'])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
