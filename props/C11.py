P = dict(
 id='C11', title='Semaphores and recursion locks exclude, count and never lose a signal',
 statement='''At most one process at a time is inside the block given to critical: on a mutual exclusion Semaphore or a RecursionLock (which its owner may re-enter), and the lock is free again once the block is left normally, by an exception, or because the process is terminated while it waits for the lock or runs the block. Every signal lets exactly one wait proceed, waiters that did not get a signal stay blocked, equal priority waiters are served first come first served, and notify/notifyAll wake waiters without leaving a signal behind. waitAfterSignalling: signals and starts waiting atomically, so a notification sent after the signal is never missed.''',
 over=['schedules'],
 quantifier='''for every preemption of a process by another of the same priority or by one woken by an external event, at every bytecode, up to the stated number of preemptions, in every scenario with two to four processes''',
 why='''The test suite (tests/processes.st, tests/exceptions.st) runs each scenario under the one schedule of the cooperative scheduler; an external interrupt can arrive between any two bytecodes.''',
 files=['kernel/Semaphore.st', 'kernel/RecursionLock.st', 'kernel/Process.st', 'libgst/interp.c', 'libgst/prims.def'],
 mechanism=[('Semaphore>>critical:', 'kernel/Semaphore.st'), ('RecursionLock>>critical:', 'kernel/RecursionLock.st'),
            ('_gst_sync_signal, sync_wait_process, resume_process', 'libgst/interp.c')],
 hook='preemption hook at bytecode boundaries (libgst/interp-bc.inl)',
 technique='stateless model checking of the real VM: all preemptions up to a bound',
 note='''Exhaustive over all placements of up to 2 (quick: 1 or 2; thorough: 2 or 3) preemptions/interrupts at bytecodes that touch shared state, in the listed scenarios. Trusts the partial-order reduction (bytecodes that only touch the active frame are not offered as preemption points) and virtual time.''',
 design='''Sixteen scenarios of two to four processes run inside the instrumented VM; the explorer (harness/mc.c) forks at every preemption
point: yield to another ready process of the same priority, or delivery of an armed external event (which wakes a high priority process
that enters the section, signals, or terminates another process). Oracle: a trace automaton for enter/leave events, the final signal count
and number of waiters, FIFO order for processes that cannot be preempted, no deadlock, no livelock, no error, no crash. Bounds: 2 deviations
for the two-process scenarios, 1 for the heavier ones (quick); one more in the thorough run. Cost about 30 s. Not covered: termination in the
epilogue of ensure: itself, between the end of the protected block and the start of the ensure block (the VM runs ensure blocks
interruptibly; the scenarios stop offering the termination when the critical block ends).''')
