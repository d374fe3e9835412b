#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("C01","The pipelined machine computes what sequential execution computes",
 "For every program that halts, running it on the T86 machine leaves all general, float, stack, base, flag and instruction-pointer registers and the whole data memory exactly as executing its instructions one at a time in program order would. This holds whatever the number of execution units, reservation-station entries, memory gates, registers and the memory size, and in particular for every pattern of register and memory dependences, branches (taken, not taken, direct, indirect), calls, returns and stack use. Instructions fetched on a mispredicted path leave no trace.",
 ["programs","configurations","schedules"],"every terminating program (register/memory/float/stack/branch mix, initial data image) and every machine configuration",
 "The existing tests run a handful of hand-written programs on one default configuration; hazards need particular instruction distances, latencies and resource limits.",
 ["src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/cpu/register_allocation_table.cpp","src/t86/cpu/memory_writes_manager.cpp","src/t86/cpu/memory_writes_manager/memory_writes.cpp","src/t86/ram.cpp","src/t86/instruction.cpp","src/t86/instructions/operand.cpp"],
 [("register renaming and unrolling on misprediction","src/t86/cpu/register_allocation_table.cpp"),("in-order retirement, operand resolution, operand fetch","src/t86/cpu/reservation_station.cpp"),("store ordering and forwarding","src/t86/cpu/memory_writes_manager.cpp"),("speculation and prediction","src/t86/cpu.cpp")],
 state=[("register allocation table","architectural to physical register mapping","src/t86/cpu.h"),("pending writes","stores not yet in memory","src/t86/cpu/memory_writes_manager.h"),("gates","outstanding memory reads/writes","src/t86/ram.h")],
 observe=["registers and memory through the CPU's public accessors once it halts"])

p("C02","Every operation yields its specified result and flags for all operands",
 "Each arithmetic, logic, shift, conversion, comparison, move and conditional-jump instruction produces, for all operand values including the extremes of the 64-bit range and special floating-point values, the result and the sign, zero, carry and overflow flags that 64-bit two's-complement and IEEE double arithmetic prescribe. Instructions not documented to affect flags leave all four unchanged, and each conditional jump is taken exactly when its flag condition holds.",
 ["inputs","programs"],"every opcode, every legal operand form, every pair of 64-bit or double operands",
 "Tests check a few small constants per opcode, mostly with no check of flags; edge values (sign boundaries, shift counts, infinities, NaN) are not reached.",
 ["src/t86/cpu/alu.cpp","src/t86/cpu/alu.h","src/t86/instruction.cpp","src/t86/instruction.h","src/t86/cpu/register.h","src/t86/instructions/operand.cpp"],
 [("flag computation","src/t86/cpu/alu.cpp"),("per-opcode semantics and jump conditions","src/t86/instruction.h, src/t86/instruction.cpp")],
 observe=["destination and flags register after the instruction","path taken by the jump"])

p("C03","Faults are precise and only architecturally executed code can fault",
 "A CPU error is reported if and only if sequential execution reaches an instruction that faults (memory access outside the data memory, integer division that has no result, use of a register the machine does not have), whatever was executed speculatively around it. When it is reported, every earlier instruction has taken full effect and the faulting instruction and all later ones have had none (registers, memory, output), and the debugger can still inspect that state. No program can crash, abort or hang the virtual machine process itself.",
 ["programs","configurations","schedules"],"every program with faulting instructions on the executed and on speculated paths, at any distance from branches, in any configuration",
 "Existing tests contain no faulting program beyond one; faults on wrong paths depend on pipeline timing.",
 ["src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/cpu/memory_writes_manager.cpp","src/t86/cpu/alu.cpp","src/t86/os.cpp","src/t86/instructions/operand.cpp"],
 [("errors are raised at retirement","src/t86/cpu/reservation_station.cpp"),("error to debugger translation","src/t86/os.cpp")],
 observe=["outcome of the run, registers, memory and output at the CPU_ERROR stop"])

p("C04","Program input and output happen exactly once, in order",
 "The bytes a program prints are exactly those that its print instructions (characters and decimal numbers) produce in program order under sequential execution, and each character-read instruction yields exactly the next non-blank input character, once (-1 when the input is exhausted). Print and read instructions that are only speculated on a mispredicted path neither print nor consume input, and output produced before a halt or a CPU error is never lost.",
 ["programs","configurations","inputs"],"every program mixing I/O with branches, calls and memory traffic, every input stream including early end of input, every 64-bit value printed",
 "Tests print short strings on straight-line or simply looping programs.",
 ["src/t86/instruction.cpp","src/t86/cpu/reservation_station.cpp","src/t86-cli/main.cpp"],
 [("I/O performed at retirement","src/t86/instruction.cpp")],
 observe=["stdout/stdin of the machine"])

p("C05","A program text is loaded exactly as written",
 "Every program in the documented textual format (optional addresses, comments, any letter spacing, all opcodes, all operand forms each instruction supports, positive and negative integer and float immediates, data section with numbers and strings, unrelated sections interleaved) is loaded as precisely the instruction sequence and initial data memory it denotes. Equivalent spellings of the same program load identically.",
 ["inputs","programs"],"all well-formed program texts",
 "Parser tests list individual instruction spellings; the combinations of opcode, operand shape and literal value are unbounded.",
 ["src/t86-parser/parser.cpp","src/t86-parser/parser.h","src/t86/instruction.h","src/t86/program.h"],
 [("recursive descent over tokens","src/t86-parser/parser.cpp")],
 observe=["loaded program and data of the parser","behaviour of the loaded program"])

p("C06","Malformed program text is rejected cleanly, never mis-executed",
 "Any byte sequence offered as a program is either accepted because it is a well-formed program or rejected with a parse error; loading never crashes, aborts, hangs, reads out of bounds or lets another exception escape. In particular an operand combination that an opcode does not document, a missing or surplus operand, a number out of range and garbage after an instruction are rejected rather than being loaded as something else, and the command-line machine reports such an error with a failing exit status.",
 ["inputs"],"all byte strings, with emphasis on near-miss mutations of valid programs",
 "Tests sample about a dozen wrong programs.",
 ["src/t86-parser/parser.cpp","src/t86-parser/parser.h","src/t86-cli/main.cpp"],
 [("operand signature checks","src/t86-parser/parser.cpp"),("lexer","src/t86-parser/parser.cpp")],
 observe=["outcome of parsing","exit status of t86-cli"])

p("C07","Reading back instruction text and writing it again changes nothing",
 "For every instruction that can be loaded, the text the machine shows for it is itself a legal instruction that, when parsed, is the same instruction: same opcode, same operands, same literal values, so replacing any instruction with its displayed text never changes what a program does. This is what makes installing and removing breakpoints and patching code safe.",
 ["inputs","programs"],"every opcode with every legal operand form and every literal",
 "Tests round-trip a few instructions with tiny literals.",
 ["src/t86/instruction.h","src/t86/instructions/operand.cpp","src/t86/debug.cpp","src/t86-parser/parser.cpp"],
 [("operand and instruction printing","src/t86/instructions/operand.cpp, src/t86/instruction.h"),("text peek and poke","src/t86/debug.cpp")],
 observe=["text returned by PEEKTEXT, program after POKETEXT"])

p("C08","A single step executes exactly one instruction",
 "Each native single step, from any stopped state, executes exactly one instruction of the original program (never a debugger artefact, also when a breakpoint sits on the current or next instruction) and reports a stop whose instruction pointer, registers and memory are exactly the sequential state after that instruction; stepping a halt or a faulting instruction reports program end or the error instead. Single stepping never leaves residual state: a later continue runs freely until the next genuine event.",
 ["programs","histories","configurations"],"every program, every stopped state reached by any mix of steps, continues, breakpoints, watchpoints and modifications",
 "Tests step through a few straight-line programs.",
 ["src/t86/cpu.cpp","src/t86/os.cpp","src/t86/debug.cpp","src/debugger/Native.cpp","src/debugger/T86Process.cpp"],
 [("trap flag","src/t86/cpu.cpp"),("step over a set breakpoint","src/debugger/Native.cpp")],
 observe=["state through the debugger after every step"])

p("C09","Execution stops at every enabled breakpoint, and only there",
 "A continued program stops exactly when its next instruction carries an enabled breakpoint, before that instruction has any effect, every time it is reached (loops, branch targets, fall-through, after mispredictions), and never at a disabled or removed one or at a breakpoint that is only reached speculatively. The reported address is that of the breakpoint, and the machine state at the stop is the sequential state at that point.",
 ["programs","histories"],"every program and every history of setting, disabling, enabling and removing breakpoints interleaved with execution",
 "Tests use one or two breakpoints in short programs.",
 ["src/debugger/Native.cpp","src/debugger/Native.h","src/t86/debug.cpp","src/t86/cpu.cpp","src/t86/os.cpp"],
 [("software breakpoint substitution and stepping past it","src/debugger/Native.cpp"),("BKPT interrupt at retirement","src/t86/cpu.cpp")],
 observe=["debug events, ip and state at each stop","program text read through the debugger"])

p("C10","A watchpoint reports every write to its cell and nothing else",
 "While a write watchpoint is set on a data cell, execution stops right after each instruction that writes that cell (moves, pushes, calls) and at no other instruction; the stop names the right cell and the new value is already visible. Reads, speculated writes, writes to other cells and writes to a cell whose watchpoint was removed never stop the program; up to the documented number of watchpoints can be active at once and one more is refused.",
 ["programs","histories"],"every program and every history of setting and removing watchpoints interleaved with execution and other stops",
 "Tests use one watchpoint in a short program.",
 ["src/t86/cpu.cpp","src/t86/debug.cpp","src/debugger/Native.cpp"],
 [("debug registers and control word","src/t86/cpu.cpp"),("debug register bookkeeping","src/debugger/Native.cpp")],
 observe=["debug events with address and memory contents"])

p("C11","Inspecting is exact and modifications take effect exactly as made",
 "At any stop, the registers, float registers, memory and program text shown are the program's architectural state at that point, and looking never changes it. A value written to a register, float register, memory cell or instruction is read back identically and is what the program uses from then on, nothing else changes, and out-of-range requests are refused with an error leaving everything unchanged.",
 ["histories","programs","inputs"],"every stop, every register/cell/instruction, every value, every sequence of reads and writes",
 "Tests modify one or two registers and never combine modification with in-flight memory operations.",
 ["src/t86/debug.cpp","src/t86/cpu.cpp","src/t86/ram.cpp","src/debugger/T86Process.cpp","src/debugger/Native.cpp"],
 [("peek/poke commands","src/t86/debug.cpp"),("bulk register and memory access","src/debugger/T86Process.cpp"),("breakpoint-transparent text access","src/debugger/Native.cpp")],
 observe=["values read back","subsequent program behaviour"])

p("C12","Debugging a program does not change what it does",
 "Whatever sequence of stops, steps, continues, breakpoint and watchpoint operations and inspections a debugger performs, a program that is not explicitly modified produces the same output, final registers, memory and outcome as when run without a debugger. Once the debugger has removed its breakpoints the program text is again the original.",
 ["histories","programs","schedules"],"every program and every debugger session",
 "Tests never compare a debugged with an undebugged run.",
 ["src/debugger/Native.cpp","src/t86/os.cpp","src/t86/debug.cpp","src/t86/cpu.cpp"],
 [("pipeline unroll at each stop","src/t86/cpu.cpp"),("temporary breakpoints","src/debugger/Native.cpp")],
 observe=["output, final state and text with and without debugger"])

p("C13","Step over and step out stop where the call ends",
 "Stepping over a call whose callee preserves the base and stack pointers (recursion included, when every activation has a base pointer of its own, as with the standard frame) runs the callee completely and stops at the instruction after the call; stepping over anything else is a single step. Stepping out of a function that returns normally stops right after the return to its caller. Breakpoints, watchpoints and program end met on the way are reported instead, and neither command leaves behind or loses any breakpoint.",
 ["programs","histories"],"every program with (nested, repeated, indirect) calls and every placement of breakpoints and watchpoints",
 "Tests step over two or three fixed calls.",
 ["src/debugger/Native.cpp","src/debugger/Native.h","src/debugger/Source/Source.cpp"],
 [("temporary breakpoint after the call","src/debugger/Native.cpp"),("step until RET","src/debugger/Native.cpp")],
 observe=["event, ip, state and program text after the command"])

p("C14","Messages arrive exactly once, whole and in order",
 "Every message sent between debugger and machine, over TCP or between threads, of any length and content, is received exactly once, byte for byte, in sending order, however the network fragments, merges or delays the stream and however the two threads are scheduled. When a TCP peer goes away, a receiver learns that the connection ended instead of blocking forever, crashing or delivering a truncated message; no data race exists in the in-process channel.",
 ["schedules","fault_sequences","inputs"],"all message sequences, all fragmentations of the byte stream, all connection losses, all thread interleavings",
 "The only tests send a few messages over a mock or an unfragmented loopback.",
 ["src/common/TCP.h","src/common/threads_messenger.h","src/common/messenger.h"],
 [("length-prefixed framing","src/common/TCP.h"),("mutex and condition variable queue","src/common/threads_messenger.h")],
 observe=["received message sequence against sent sequence, sanitizer reports"])

p("C15","Every debugger request gets one answer and cannot take the machine down",
 "The machine answers each request it receives while stopped with exactly one reply, in order, announces each stop exactly once, and answers a request that is unknown, incomplete, malformed or out of range with an error while changing nothing. No request sequence crashes, hangs or desynchronises the machine, and a terminate request or a lost debugger connection ends it in an orderly way.",
 ["histories","inputs","fault_sequences"],"every sequence of well-formed and malformed protocol messages at every stop",
 "Tests send well-formed requests only.",
 ["src/t86/debug.cpp","src/t86/debug.h","src/t86/os.cpp"],
 [("command dispatch loop","src/t86/debug.cpp")],
 observe=["message log at the machine's channel"])

p("C16","Source lines and instructions map to each other faithfully",
 "With line information loaded, an address reported for a line and a line reported for an address agree with the given mapping for every address and line, mapped or not. A breakpoint on a source line stops exactly when the mapped instruction is about to execute, a source step runs until execution is at the start of a mapped line (entering calls, or completing them when stepping over) or until another event intervenes, and the lines displayed are the file's own.",
 ["programs","histories","inputs"],"every line mapping, program, and history of source-level breakpoints and steps",
 "Tests use a few fixed programs with dense mappings.",
 ["src/debugger/Source/LineMapping.cpp","src/debugger/Source/Source.cpp","src/debugger/Source/SourceFile.cpp"],
 [("two-way line map","src/debugger/Source/LineMapping.cpp"),("step until mapped line","src/debugger/Source/Source.cpp")],
 observe=["returned lines and addresses, ip after each step"])

p("C17","Variables resolve to the innermost scope's storage and true value",
 "At every stop the variables reported as visible are exactly those of the scopes enclosing the current instruction, inner declarations hiding outer ones. The location computed for each is the one its location program denotes in the current machine state, the value shown is what the variable's type makes of that storage, and the function reported for an address is the one whose range contains it.",
 ["programs","inputs","histories"],"every scope tree, every location program, every type, every machine state",
 "Tests cover a few fixed debug-information trees.",
 ["src/debugger/Source/Source.cpp","src/debugger/Source/ExpressionInterpreter.cpp","src/debugger/Source/LocExpr.h","src/debugger/Source/Die.h"],
 [("scope search","src/debugger/Source/Source.cpp"),("location program interpreter","src/debugger/Source/ExpressionInterpreter.cpp")],
 observe=["variables, locations, values returned by the source layer"])

p("C18","Source expressions evaluate as the same expression does in C",
 "For every expression over the integers, floats, characters, pointers, arrays and structures of the debugged program, evaluation yields the value and type the same C expression has on the program's current state (integers being the machine's 64-bit wrapping ones), using C operator precedence, associativity and short-circuit evaluation; an assignment stores exactly that value in the right storage and nothing else. Malformed or ill-typed expressions, and ones without a value (division by zero, invalid memory), are reported as errors and store nothing. Operators and type combinations the debugger does not support may be refused, but are never answered wrongly, and no expression crashes the debugger.",
 ["inputs","programs"],"every expression text, every variable/type environment, every machine state",
 "Tests evaluate a few dozen fixed expressions.",
 ["src/debugger/Source/Expression.cpp","src/debugger/Source/Expression.h","src/debugger/Source/ExpressionParser.cpp","src/debugger/Source/ExpressionParser.h","src/debugger/Source/Source.cpp"],
 [("expression parser","src/debugger/Source/ExpressionParser.cpp"),("evaluator","src/debugger/Source/Expression.cpp")],
 observe=["typed value returned, memory and registers before and after"])

p("C19","Debug information is read exactly, and bad debug information is refused",
 "Every well-formed combination of line-mapping, debug-information and source sections in a program file is read as exactly the tree, attributes, locations, mapping and source lines it denotes, in any section order the format allows. Malformed debug sections are rejected with a parse error and never crash, abort or hang the reader.",
 ["inputs"],"all debug sections, well-formed and mutated",
 "Tests parse two or three fixed inputs.",
 ["src/debugger/Source/Parser.cpp","src/debugger/Source/Parser.h","src/common/parsing.cpp"],
 [("section and DIE parser","src/debugger/Source/Parser.cpp")],
 observe=["parsed tree, mapping and lines"])

p("C20","A debugging session survives every command sequence",
 "Whatever sequence of commands, valid or not and in whatever process state, is typed into the command-line debugger, it answers each one, keeps running until told to exit, and reports errors without crashing or hanging. What it prints for state queries agrees with the program's real state, and breakpoints (enabled or disabled) and watchpoints set by the user persist, and work, across repeated runs of the program.",
 ["histories","inputs"],"every sequence of command lines over every program file, with or without debug information, including re-runs",
 "The CLI tests replay a few recorded sessions.",
 ["src/dbg-cli/CLI.h","src/dbg-cli/main.cpp","src/debugger/Native.cpp","src/debugger/Source/Source.cpp"],
 [("command dispatch and error handling","src/dbg-cli/CLI.h"),("breakpoint persistence across runs","src/dbg-cli/CLI.h, src/debugger/Native.cpp")],
 observe=["transcript, exit status"])
p("C21","The command line runner runs a program exactly as written, or refuses it",
 "t86-cli given a valid program runs it on a machine of the configured size (registers, float registers, memory): standard output receives exactly the bytes the program outputs, in order and complete when the runner ends, standard input supplies its reads, and the runner ends by itself when the program halts, with exit code 0. An unreadable file ends with exit code 3 and an invalid program with exit code 2, each with a message and without executing anything; malformed options are refused with exit code 1 and a message. It never crashes or hangs. With --debug it waits for a debugger, documented port 9110, before executing and ends when the debugger lets it or leaves.",
 ["programs","inputs","configurations"],"every program text (valid or not), input stream and option list",
 "No test runs the command line programs with anything but recorded sessions.",
 ["src/t86-cli/main.cpp","src/t86-parser/parser.cpp","src/t86/os.cpp","src/t86/debug.cpp"],
 [("option handling, loading, exit codes","src/t86-cli/main.cpp"),("running and output","src/t86/os.cpp")],
 observe=["standard output, standard error, exit status"])
p("C22","The statistics of a run are the truth about that run",
 "For every program run with the library the documented way (reset the logger, run the machine, ask for the statistics): the reported number of ticks is the number of ticks made, the reported number of instructions, in total and per instruction kind, is the number architecturally executed (none on a wrongly predicted path, none missing), throughput and latency follow from them, each per-kind average and the global averages agree with each other, every stage's average is possible (no more instructions fetched or decoded at once than one, none in flight than fit, all stages within the lifetime, no negative stalls), and a run after a reset reports nothing of the runs before.",
 ["programs","configurations"],"every program, machine configuration (ALUs, reservation station entries, memory gates) and sequence of runs",
 "No test reads the statistics at all.",
 ["src/t86/utils/stats_logger.cpp","src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp"],
 [("collecting and printing","src/t86/utils/stats_logger.cpp"),("instruction life in the station","src/t86/cpu/reservation_station.cpp"),("fetch and decode","src/t86/cpu.cpp")],
 observe=["the text of processBasicStats and processDetailedStats, tickCount()"])
p("C23","Programs and machines made with the library are the ones written down",
 "Following the library part of docs/t86.md: the arguments -registerCnt, -floatRegisterCnt, -aluCnt, -reservationStationEntriesCnt, -ram and -ramGates (in any number and order, among other arguments; documented defaults otherwise) are what Cpu::Config reports and what a machine made without explicit sizes has, explicit sizes are what the machine has; Reg(n) is refused exactly when the configured machine has no such register. A program assembled with ProgramBuilder - typed instructions with Reg/FReg/Sp/Bp/Mem operand expressions in any equivalent spelling, forward jumps patched later, data given as values, runs and texts, an existing program continued - has each instruction and datum at the label that was returned, runs as written, calls each DBG function and the BREAK handler exactly once per execution with the architectural state at that point, and leaves DBG out of release programs; getRegister, getFloatRegister, getMemory and printAllRegisters show the final state.",
 ["programs","configurations","call sequences"],"every way of writing a program with the builder and every configuration",
 "Tests use a handful of fixed programs with explicitly sized machines.",
 ["src/t86/program/programbuilder.h","src/t86/program/helpers.cpp","src/t86/program/label.h","src/t86/cpu/register.cpp","src/t86/cpu.cpp","src/common/config.h"],
 [("builder, labels, patching","src/t86/program/programbuilder.h"),("operand expressions","src/t86/cpu/register.cpp"),("register naming, printing","src/t86/program/helpers.cpp"),("configuration, constructors","src/t86/cpu.cpp"),("arguments","src/common/config.h")],
 observe=["labels, handler calls, final machine state, Cpu::Config"])
p("C24","Long runs and long sessions use bounded memory",
 "The memory a run needs (t86-cli, OS::Run) is bounded by the program and the machine, not by the number of instructions it executes: a loop can go on for ever. The memory a debug session needs, on both sides, does not grow with the number of commands given, stops reported, and breakpoints and watchpoints set and removed again.",
 ["programs","histories"],"every program containing a loop, every repeated sequence of debugger commands",
 "Tests execute a few hundred instructions and a few commands.",
 ["src/t86/os.cpp","src/t86/cpu.cpp","src/t86/cpu/memory_writes_manager.cpp","src/t86/cpu/reservation_station.cpp","src/t86/utils/stats_logger.cpp","src/t86/ram.cpp","src/t86/debug.cpp","src/debugger/Native.cpp","src/debugger/T86Process.cpp"],
 [("per-tick and per-instruction bookkeeping","src/t86/cpu.cpp"),("pending writes","src/t86/cpu/memory_writes_manager.cpp"),("statistics","src/t86/utils/stats_logger.cpp"),("breakpoint and watchpoint bookkeeping","src/debugger/Native.cpp")],
 observe=["bytes allocated in the process at the same point of every iteration"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
