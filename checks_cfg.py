"""Which monitors decide which property, and how many cases per tier."""


def it(bin, mode, quick, thorough, **kw):
    return dict(bin=bin, mode=mode, quick=quick, thorough=thorough, **kw)


LEVEL_NOTES = {}
CHECKS = {}
CHECKS["C01"] = dict(
    items=[it("mon_vm", "vm-hazard", 24000, 600000), it("mon_vm", "vm-mix", 16000, 400000), it("mon_vm", "vm-stack", 10000, 200000),
           it("mon_vm", "vm-long", 4000, 80000), it("mon_vm", "vm-library", 6000, 100000), it("mon_vm", "vm-break", 8000, 100000)],
    rule="A program is generated along its own execution in an independent sequential model and run on the real out-of-order machine in a random configuration; non-trivial: the execution ran to its end and every architectural register, float register, memory cell, the flags, the instruction pointer and the output were compared. Distinct: different executed sequences of opcodes and operand kinds.",
    technique="differential runtime monitor: real machine (ASan+UBSan build) against a sequential reference interpreter on generated programs and configurations",
    note="Held on the executions produced; the reference interpreter (written from the ISA documentation) is trusted, as is the observation through Cpu's own getters.")
CHECKS["C02"] = dict(
    items=[it("mon_vm", "alu", 100000, 1500000), it("mon_vm", "alu-lib", 8000, 200000)],
    rule="Every legal (opcode, operand form, operand form) is taken in turn with boundary-biased 64-bit and float operands and random flags on entry, followed by a random conditional jump; result, flags and jump outcome are compared. Distinct: (opcode, form, operand classes, resulting flags, fault).",
    technique="runtime monitor of arithmetic results and flags against a 128-bit/IEEE reference oracle, ASan+UBSan build",
    note="Boundary-biased sampling of the operand space, not enumeration; NaN payload selection is not judged.")
CHECKS["C03"] = dict(
    items=[it("mon_vm", "fault", 20000, 400000), it("mon_vm", "fault-spec", 16000, 300000), it("mon_vm", "survive", 6000, 500000)],
    rule="Programs whose execution ends in a fault (division, memory, registers, load errors), programs with faulting instructions only on paths not executed, and arbitrary legal instruction sequences; judged: the error is raised exactly when the faulting instruction is executed, and the state and output are those after the instructions before it. Distinct: executed shapes / outcomes.",
    technique="runtime monitor: fault point and state against the sequential model; sanitizers for survival",
    note="Held on the executions produced.")
CHECKS["C04"] = dict(
    items=[it("mon_vm", "io-spec", 24000, 500000), it("mon_vm", "io", 16000, 400000)],
    rule="Programs with several I/O instructions on executed, speculated and faulting paths and random input streams; the output bytes, the values read and the input position are compared with the model. Distinct: executed opcode sequences.",
    technique="runtime monitor: recorded output/input streams against the sequential model",
    note="Held on the executions produced.")
CHECKS["C05"] = dict(
    items=[it("mon_parse", "parse-good", 100000, 800000)],
    rule="Random programs over every opcode and operand form, written in random spellings (addresses, comments, blank runs, strings, section orders, skipped sections), loaded by the real parser and compared structurally with the generated program; a second spelling is loaded too. Distinct: (opcode, operand kinds, literal and register classes).",
    technique="runtime monitor of the loader: loaded instruction objects against the generated program (ASan+UBSan build)",
    note="Held on the texts produced; the structure of loaded instructions is read through Instruction::signatureOperands.")
CHECKS["C06"] = dict(
    items=[it("mon_parse", "parse-forms", 48000, 400000), it("mon_parse", "parse-bad", 120000, 800000), it("mon_parse", "parse-bytes", 40000, 400000)],
    rule="Every (opcode, operand kind, operand kind) with missing/surplus operands, mutated programs, and arbitrary bytes, judged by a strict reference reader; where the documentation leaves the meaning open only clean acceptance/refusal is demanded. Distinct: (verdict, reason) pairs.",
    technique="differential runtime monitor of the loader against a strict reference reader, sanitizers for crashes",
    note="Held on the texts produced.")
CHECKS["C07"] = dict(
    items=[it("mon_parse", "roundtrip", 120000, 1500000)],
    rule="Every legal (opcode, form) in turn with random registers and literals: its displayed text is read by the reference reader and re-loaded by the real parser. Distinct: (opcode, kinds, literal classes).",
    technique="round-trip runtime monitor: instruction object -> displayed text -> parser -> instruction object",
    note="Held on the instructions produced; float literals that no decimal literal of the format can denote (infinities, NaN) are outside the property.")

_SES = "A session of the real debugger core (Native, T86Process, the wire protocol) with the real machine in its own thread: a random program (generated code or call-heavy code with functions), machine configuration and sequence of debugger commands weighted towards this property; after every command the reported event, all registers, memory, displayed text and output are compared with a sequential model of the debuggee. Distinct: different sequences of commands and events."
_SEST = "online runtime monitor of debugger sessions: reported events and complete visible state against a sequential model of debuggee and debugger bookkeeping (ASan+UBSan build)"
_SESN = "Held on the sessions produced; commands whose outcome the documentation leaves open (executions that do not stop within the step budget, frames that do not preserve BP/SP) are not judged."
CHECKS["C08"] = dict(items=[it("mon_debug", "dbg-step", 12000, 200000)], rule=_SES, technique=_SEST, note=_SESN)
CHECKS["C09"] = dict(items=[it("mon_debug", "dbg-break", 10000, 200000), it("mon_debug", "dbg-setall", 4000, 50000)], rule=_SES, technique=_SEST, note=_SESN)
CHECKS["C10"] = dict(items=[it("mon_debug", "dbg-watch", 10000, 200000), it("mon_debug", "dbg-setall-watch", 3000, 50000)], rule=_SES, technique=_SEST, note=_SESN)
CHECKS["C11"] = dict(items=[it("mon_debug", "dbg-modify", 12000, 200000)], rule=_SES, technique=_SEST, note=_SESN)
CHECKS["C12"] = dict(items=[it("mon_debug", "dbg-transparent", 10000, 200000)],
    rule=_SES + " Here the session never modifies the program and the end state, output and outcome are compared with a real run of the same program without a debugger.",
    technique="runtime monitor comparing debugged with undebugged executions of the real machine, plus the sequential model (ASan+UBSan build)", note=_SESN)
CHECKS["C13"] = dict(items=[it("mon_debug", "dbg-over", 12000, 200000)], rule=_SES, technique=_SEST, note=_SESN)
CHECKS["C15"] = dict(items=[it("mon_debug", "proto", 12000, 200000), it("mon_cli", "t86-debug", 800, 30000)],
    rule="Raw protocol messages (valid, malformed, out of range, noise, batches, terminate, lost connection) against the real machine in its thread; judged: exactly one answer per request and one announcement per stop, refused requests change nothing (complete state read before and after), values read and written are right; and raw connections to a real t86-cli --debug which end in all possible ways (terminate, leaving, reset, within a message, hostile lengths, without waiting). Distinct: sequences of request kinds.",
    technique="runtime monitor of the debug protocol: message log against a request/answer specification (ASan+UBSan build)",
    note="Held on the message sequences produced; the text of error answers is not judged.")

CHECKS["C16"] = dict(items=[it("mon_source", "src-lines", 20000, 400000)],
    rule="Random line mappings, functions, scopes and source texts registered with the real Source object (directly and through the .debug sections); every line/address/function/source question is asked over the whole range and beyond its ends and compared with a reference. Distinct: different mappings and layouts.",
    technique="runtime monitor of the source map queries against a set-based reference (ASan+UBSan build)",
    note="Held on the maps produced; overlapping functions and several lines mapped to one address are only judged where the documentation determines the answer.")
CHECKS["C17"] = dict(items=[it("mon_source", "vars", 24000, 400000)],
    rule="A random world of types, scopes and variables with location programs, and a real stopped machine with random registers and memory; for every address the visible variables, their location, type and displayed value are compared with a reference semantics of the debug entries. Distinct: (type, location, outcome) shapes.",
    technique="runtime monitor of variable lookup and display against a reference semantics of debug entries and machine state (ASan+UBSan build, real machine in its thread)",
    note="Held on the worlds and machine states produced.")
CHECKS["C18"] = dict(items=[it("mon_source", "expr", 6000, 120000)],
    rule="Random expressions (all operators, parentheses, spellings, casts between the kinds the debugger supports, assignments, members, indices, pointers) over a random world and a real stopped machine; value, type and every memory change compared with a reference C-like semantics. Distinct: expression shapes with operand kinds and outcome.",
    technique="differential runtime monitor of the expression evaluator against a reference evaluator, complete memory and registers compared after every evaluation (ASan+UBSan build)",
    note="Held on the expressions produced; operators the debugger does not support may be refused, never answered wrongly.")
CHECKS["C19"] = dict(items=[it("mon_source", "info-good", 16000, 300000), it("mon_source", "info-bad", 24000, 500000)],
    rule="Well-formed debug sections in random spellings, mutations of them and deep nesting; judged by a strict reference reader (accept with this content / refuse), and whatever was read is then used with every query on a real stopped machine. Distinct: different contents and texts.",
    technique="differential runtime monitor of the debug section reader against a strict reference reader; sanitizers for use of what was read",
    note="Held on the texts produced; duplicate sections and duplicate lines, and odd compile unit nesting are not judged (only survival).")
CHECKS["C14"] = dict(items=[it("mon_msg", "tcp-frag", 1600, 40000), it("mon_msg", "tcp-hostile", 2000, 40000), it("mon_msg", "tcp-ends", 800, 20000),
           it("mon_msg", "tcp-session", 1200, 40000), it("mon_msg", "threads", 4000, 100000), it("mon_msg", "threads", 8000, 200000, san="tsan", threads=True),
           it("mon_msg", "thread-session", 3000, 60000, san="tsan", threads=True)],
    rule="Message sequences of many lengths and contents in both directions at once: over socket pairs and loopback TCP through a forwarder which cuts the stream into random pieces, merges, delays, interrupts system calls, ends or resets the connection at a chosen byte; through TCPServer/TCPClient; through the in-process queues in several thread arrangements with jitter; and complete debugger sessions over both channels. Received must equal sent, ends must be reported, ThreadSanitizer must be silent. Distinct: (lengths, cut point) and session shapes.",
    technique="offline check of recorded sent/received message logs under a fragmenting, delaying, disconnecting forwarder (ASan+UBSan build) and ThreadSanitizer on the in-process channel and whole sessions",
    note="Held on the schedules, fragmentations and losses produced; schedules are sampled with jitter, not enumerated.")

CHECKS["C20"] = dict(items=[it("mon_cli", "cli-session", 2600, 60000), it("mon_cli", "cli-attach", 800, 30000), it("mon_cli", "cli-noise", 1600, 60000)],
    rule="Sessions of the real dbg-cli program (built with ASan+UBSan), fed by a pipe: (a) predicted sessions - random programs with random line maps, debug entries and source texts, several runs with different machine sizes, all commands in random abbreviations and spacing - whose every answer is parsed and compared with a model of debuggee, debugger and debug information; (b) the same attached over TCP to a real t86-cli --debug, whose own output and end are judged too; (c) arbitrary lines over valid, damaged and missing files, judged for: no crash, no hang, all input read, exit 0 at the end of input. Distinct: different sequences of commands and outcomes.",
    technique="online/offline runtime monitor of command line sessions: transcript against a model of the session, sanitizers for crashes",
    note="Held on the sessions produced; machine sizes too large for the host, executions that never stop and the wording of errors are not judged; sessions are deterministic except for scheduling.")
CHECKS["C21"] = dict(items=[it("mon_cli", "t86-run", 4000, 100000), it("mon_cli", "t86-bad", 3000, 80000), it("mon_cli", "t86-debug", 1200, 40000)],
    rule="The real t86-cli program (built with ASan+UBSan) is run on random valid programs with random options and input (output and exit status against the sequential model), and on missing files, malformed options and programs a strict reference reader refuses (exit status, a message, nothing executed); and with --debug under a debugger that leaves in all possible ways (the output is that of the stop it left at, the runner ends). Distinct: executed shapes with their output / different refused texts.",
    technique="runtime monitor of the command line runner: output and exit status against the sequential model and a strict reference reader, sanitizers for crashes",
    note="Held on the programs produced; the exit status after an error inside the machine is only required not to be a crash.")

CHECKS["C22"] = dict(items=[it("mon_vm", "stats", 14000, 300000)],
    rule="Random programs run on random machine configurations the documented way (reset, run, print); one or two runs in a row, sometimes after a run of t86-cli's kind of machine; the printed statistics are parsed and compared with the sequential model's execution (total and per-kind instruction counts), the ticks made, and each other (sums over kinds, bounds by what the pipeline can hold). Distinct: executed opcode/operand-kind sequences.",
    technique="runtime monitor of the printed statistics against the sequential model's instruction counts and conservation laws of the pipeline (ASan+UBSan build)",
    note="Held on the runs produced; how long an instruction takes in a stage is only bounded, not predicted.")
CHECKS["C23"] = dict(items=[it("mon_vm", "library", 60000, 800000), it("mon_vm", "config", 1600, 20000)],
    rule="(a) random programs written with ProgramBuilder in random equivalent ways (typed instructions, operand spellings, patched jumps, data pieces, continued programs, development/release, DBG and BREAK handlers) run on a random machine: labels, handler calls with the state they see, final state and printed registers against the sequential model; (b) a fresh process per random argument list: configured values, machine sizes of every constructor, boundaries of registers and memory, timing of the default machine against the explicitly configured one. Distinct: executed shapes / options and constructors.",
    technique="runtime monitor of the library interface against the sequential model and the given arguments (ASan+UBSan build)",
    note="Held on the programs and configurations produced; sums of registers multiplied as a whole and patching of anything but an unpatched jump are not judged.")
CHECKS["C24"] = dict(items=[it("mon_vm", "memory", 320, 6000, hang=60), it("mon_debug", "dbg-memory", 320, 8000, hang=60)],
    rule="(a) loops over random bodies (with stores to ever new addresses, also ones only speculated) run by the operating system part of the machine; the output device samples the allocated bytes once per iteration, 400-900 iterations; (b) debugger sessions repeating a random round of commands 200 times, sampled after every round. The level of the later part may not exceed that of the earlier part. Distinct: bodies / rounds.",
    technique="runtime monitor of the allocator's live bytes at the same program point of every iteration (ASan build)",
    note="Held on the loops and rounds produced; growth below about two bytes per iteration is not seen; memory the user asks for (statistics of the library, values kept by expressions) is not part of the property.")

# the same monitors without compiled-in sanitizers under Valgrind's memcheck: use of uninitialised memory
for _p, _b, _m, _q, _t in [("C01", "mon_vm", "vm-mix", 1600, 20000), ("C03", "mon_vm", "fault", 0, 20000), ("C04", "mon_vm", "io-spec", 0, 20000), ("C05", "mon_parse", "parse-good", 0, 20000),
                           ("C06", "mon_parse", "parse-bad", 2400, 20000), ("C08", "mon_debug", "dbg-step", 240, 4000), ("C09", "mon_debug", "dbg-break", 0, 4000), ("C10", "mon_debug", "dbg-watch", 0, 4000),
                           ("C11", "mon_debug", "dbg-modify", 0, 4000), ("C13", "mon_debug", "dbg-over", 0, 4000), ("C15", "mon_debug", "proto", 0, 6000), ("C16", "mon_source", "src-lines", 0, 4000),
                           ("C17", "mon_source", "vars", 320, 6000), ("C18", "mon_source", "expr", 0, 2000), ("C19", "mon_source", "info-bad", 0, 20000), ("C22", "mon_vm", "stats", 0, 10000), ("C23", "mon_vm", "library", 0, 20000)]:
    CHECKS[_p]["items"].append(it(_b, _m, _q, _t, san="vg"))
