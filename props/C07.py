P = dict(
 id='C07', title='Exceptions, unwinding and non-local returns follow the documented semantics',
 statement='''A signal is handled by the innermost enabled handler whose exception selector matches; a running handler is disabled for signals in its own handler block. The handler block runs on top of the signaller, before anything is unwound; falling off its end, return:, retry, retryUsing:, pass, outer and resume: continue exactly where documented (pass and outer yield to the handler outside, and continue in the first one only if that resumes; retry evaluates the protected block again after unwinding, retryUsing: its argument). Whatever makes control leave a block (an exception, a ^ return through it, process termination), each ensure: block around it runs exactly once, each ifCurtailed: block runs exactly once if and only if the exit was abnormal, innermost first, and the surviving code gets the right value. Unhandled resumable exceptions execute their default action.''',
 over=['histories', 'inputs'],
 quantifier='''for every program of the language of the check (signals, protected blocks, unwind blocks, method calls, non-local returns, termination and all handler actions on the current or the next outer exception) up to the bound on its size''',
 why='''Each construct works alone; what goes wrong is a particular nesting of handlers within handlers and unwinding through them, of which there are hundreds of thousands of small ones.''',
 files=['kernel/ExcHandling.st', 'kernel/BlkClosure.st', 'kernel/ContextPart.st', 'kernel/BlkContext.st', 'kernel/MthContext.st', 'kernel/SysExcept.st', 'libgst/interp.c', 'libgst/vm.def', 'libgst/prims.def'],
 mechanism=[('activateHandler:, outer, pass, retry, return:, instantiateNextHandlerFrom:', 'kernel/ExcHandling.st'), ('exceptionHandlerSearchBlock, ensure:, ifCurtailed:', 'kernel/BlkClosure.st'), ('unwind:, continue:', 'kernel/ContextPart.st'), ('unwind_method, unwind_context', 'libgst/interp.c')],
 technique='bounded exhaustive enumeration of programs executed on the real VM, each compared with a reference interpreter of the documented semantics',
 note='''All programs of up to 6 elements (7 in the thorough tier; 9 or 10 for smaller alphabets), 10^5 to 10^6. Outside: unwind blocks that themselves raise or return out, handlers visible between the signal and a running handler, resignalAs:, signalling the same exception object again.''',
 design='''A small language has one element for each construct (`checks/C07.py`). All its programs up to a size are generated; in Smalltalk a program is read into
closures that use the real constructs (`on:do:`, `ensure:`, `ifCurtailed:`, a method with `^`, `e retry` ...), and executed; each step appends to a trace.
The model is an interpreter of 200 lines in Python that follows the documentation (doc/tutorial.texi, the method comments, ANSI): handlers run as calls, unwinding is
a Python exception. The traces and results must be equal, for each program. Where the documentation leaves a choice (are handlers between the point of signal
and the running handler enabled? does retry enable the ones around the running one?) the model is run for all choices, and the programs for which they differ are not compared;
their number is part of the evidence. Three defects that it found were repaired.''')
