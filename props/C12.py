P = dict(
 id='C12', title='Process lifecycle: terminate, suspend, resume, interrupt and priorities',
 statement='''Terminating a process once, at any moment, evaluates each ensure: and ifCurtailed: block of the protected blocks it is executing exactly once, innermost first, takes it off whatever it waits on without consuming a signal, and never crashes or hangs the system; a resume sent to a process answered by newProcess is never lost, and a suspended process does not run. A queued interrupt runs exactly once in its process, which then goes on with what it was doing (running, waiting or suspended). Whenever the scheduler picks a process it picks one of the highest ready priority, yield is round robin among equals, external events are not delivered while interrupts are disabled (even across a process switch), and exception handlers, process variables and the process environment belong to one process.''',
 over=['schedules'],
 quantifier='''for every placement of up to the stated number of preemptions, or of a high priority process woken by an external event, at every bytecode of each scenario''',
 why='''The tests run each scenario under one cooperative schedule; the failures found here (and fixed) need an interrupt between two specific bytecodes.''',
 files=['kernel/Process.st', 'kernel/ProcSched.st', 'kernel/BlkClosure.st', 'kernel/ContextPart.st', 'libgst/interp.c', 'libgst/interp-bc.inl'],
 mechanism=[('Process>>terminate, queueInterrupt:, primTerminate', 'kernel/Process.st'), ('resume_process, suspend_process, active_process_yield, change_process_context', 'libgst/interp.c'), ('ensure:, ifCurtailed:, valueWithoutPreemption', 'kernel/BlkClosure.st')],
 hook='preemption hook at bytecode boundaries',
 technique='stateless model checking of the real VM: all preemptions up to a bound',
 note='''Exhaustive over placements of up to 1-3 deviations (quick) in 26 scenarios; two recorded findings concern a second terminate during the first. Outside: termination between the end of a protected block and the start of its ensure block, a resume sent while a queued interrupt runs in a suspended process.''',
 design='''Same explorer as C11, 26 scenarios: termination by a high priority process armed to fire at every bytecode of the victim (in nested
ensure:, ifCurtailed:, while waiting on a semaphore, at the very end of its life, twice, by itself), newProcess/resume, suspend of self and
others, priorities (fork at higher and lower priorities, changing them, signalling waiters of different priorities), yield order, interrupts
disabled (nested, across a yield), queueInterrupt: on running/waiting/suspended processes, per-process exceptions and variables. Oracles:
exact outcome or a small automaton per scenario; no crash, deadlock, livelock or error. Quick bounds 1-3 deviations, about 45 s. Plain
"Processor yield" lets a lower priority process run when no equal is ready (documented behaviour, asserted nowhere).''')
