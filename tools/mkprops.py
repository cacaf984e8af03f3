#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it stays readable)."""
import json, os
P = []


def p(id, title, statement, over, q, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or []}})


ISA = "sim/src/isa.rs"
HP = "sim/src/architectures/hardware_pipe.rs"
HS = "sim/src/architectures/hardware_seq.rs"
SEQ = "sim/src/architectures/builtin/seq_std.rs"
SEQP = "sim/src/architectures/builtin/seq_plus_std.rs"
PIPE = "sim/src/architectures/builtin/pipe_std.rs"
PROP = "sim/src/framework/propagate.rs"
ASM = "sim/src/asm/mod.rs"
PEST = "sim/src/asm/grammer.pest"
OBJ = "sim/src/object.rs"
UT = "sim/src/utils.rs"
DSL = "sim/src/dsl.rs"
MAC = "sim_macro/src/lib.rs"
SRV = "debugger/src/server.rs"

p("I01", "Reference simulator steps every valid instruction per the Y86-64 definition",
  "For every memory image, register file, condition codes and program counter, one step of the reference ISA simulator over a valid instruction (the twelve Y86-64 opcodes and iopq) whose bytes and memory operand lie inside memory changes the registers, the memory bytes, the condition codes and the program counter exactly as the Y86-64 definition says, and nothing else. A halt ends the run with the program counter left at the halt instruction, and the instruction count is the number of instructions fetched, the halt included.",
  ["inputs", "programs"], "all memory images, register values, condition codes, opcodes, register operands and immediates",
  "the tests run a handful of fixed programs; operand and flag values, register pairs (rA = rB, %rsp as operand) and addresses they do not use are never exercised",
  [ISA, UT], [("the interpreter loop", "isa::simulate"), ("ALU and flags", "isa::arithmetic_compute, ConditionCode::set/test"), ("little-endian access", "utils::get_u64/put_u64")],
  ["StandardResult"])
p("I02", "Reference simulator never panics, whatever the program does",
  "For every memory image, the reference ISA simulator either returns a result or returns an error; running off the end of memory, jumping to any address, accessing any address and any arithmetic on addresses or the stack pointer never panics.",
  ["inputs", "programs"], "all memory images and all reachable machine states",
  "the existing tests only run well-behaved programs",
  [ISA, UT, "sim/src/bin/yis.rs"], [("bounds checks", "isa::simulate")], ["yis exit status"])
p("I03", "Reference simulator rejects malformed instructions",
  "A fetched instruction whose opcode, function code or mandatory empty register field is not a legal Y86-64 (or iopq) encoding makes the reference simulator return an error instead of executing anything. Every legal encoding whose operands are in range is accepted.",
  ["inputs", "programs"], "all 256 opcode/function bytes and register bytes",
  "no test feeds an illegal encoding", [ISA], [("icode/ifun/register checks", "isa::simulate")], ["Result of simulate"])
p("A01", "Assembled instructions encode exactly what was written",
  "For every instruction with every register, condition, operation and immediate operand, the bytes the assembler emits at the instruction's address are the Y86-64 encoding of that instruction, and no other byte of the image changes.",
  ["inputs"], "all instruction forms and operands", "test_assemble only checks that one program assembles; the bytes are not compared",
  [OBJ, ASM, ISA], [("encoder", "object::LineInfo::write_object"), ("opcode table", "asm::Inst::icode")], ["memory image of the object"])
p("A02", "Addresses advance by exactly the size each line occupies",
  "For every instruction and data line, the amount by which the assembler advances the current address, the number of bytes it emits and the length shown in the listing are the same, and equal the length with which the simulators decode that instruction.",
  ["inputs", "programs"], "all instruction and data forms", "one sample program; a wrong size for a form it does not use goes unseen",
  [ASM, OBJ, ISA], [("address counter", "asm::assemble"), ("Inst::len", "asm::Inst::len"), ("encoder", "object::LineInfo::write_object"), ("decoder", "isa::simulate")], ["label values", "listing"])
p("A03", "Assembling any source text yields an object or an error, never a panic",
  "For every source text, the assembler returns an assembled object or an error and never panics; a numeric literal that does not fit, bytes placed outside memory and an address that would wrap are reported as errors.",
  ["inputs"], "all source texts accepted or rejected by the grammar", "the tests assemble two well-formed sources",
  [ASM, OBJ, UT, PEST], [("Result plumbing", "asm::assemble"), ("address checks", "object::LineInfo::write_object")], ["yas, ysim, ydb launch"])
p("A04", "Labels resolve to their line's address; undefined labels are errors",
  "Every use of a label, in an instruction or in a data directive, before or after its definition, assembles to the address of the line that defines it, and a use of a label that no line defines makes assembling fail.",
  ["inputs", "programs"], "all sources with any placement of labels, positions and alignments", "one undefined-label test and one program",
  [ASM, OBJ], [("symbol table", "asm::assemble"), ("desymbol", "object::Imm::desymbol")], ["memory image", "symbols"])
p("A05", "Position, alignment and data directives place bytes as documented",
  "A position directive sets the current address to its operand; an alignment directive by a power of two moves to the smallest multiple not below the current address and any other alignment is an error; byte, word, long and quad emit 1, 2, 4 and 8 little-endian bytes of their operand at the current address.",
  ["inputs"], "all directive operands and current addresses", "one .pos, one .align 8 and .quad only are used in tests",
  [ASM, OBJ], [("directives", "asm::assemble"), ("little-endian writer", "object::Object::write_num_data")], ["memory image", "line addresses"])
p("A06", "Operand syntax maps to the right operation, condition and register",
  "For every source line the grammar accepts as an instruction, the operation, condition and registers of the assembled instruction are the ones its mnemonic and operands spell, independent of labels, spacing and comments on the line.",
  ["inputs"], "all mnemonics, suffixes, register names, label names and spacing", "only a few mnemonics occur in tests, never with label names that look like mnemonics",
  [ASM, PEST], [("suffix mapping", "asm::CondFn::from"), ("operation mapping", "asm::OpFn::from_instname"), ("register mapping", "asm::Reg::try_from")], ["encoded bytes"])
p("A07", "Numeric literals keep their value",
  "Every numeric literal the grammar accepts, a decimal one within the signed 64-bit range or a hexadecimal one of at most 64 bits with an optional minus sign, evaluates to its value modulo 2^64; every other literal is rejected.",
  ["inputs"], "all literals", "tests use small positive literals only", [UT, PEST, ASM], [("literal parser", "utils::parse_literal")], ["immediates, displacements, data"])
p("H01", "seq_std executes every instruction exactly as the reference ISA",
  "In every machine state, one cycle of the seq_std processor over a valid instruction (one of the twelve Y86-64 opcodes, its ten-byte fetch window and memory operand inside memory) leaves the same registers, memory, condition codes and, unless it halts, next program counter as the Y86-64 definition. It reports termination exactly when the instruction halts, has an unsupported opcode or accesses memory out of range. A fresh simulator starts at address 0 with zero registers and cleared condition codes.",
  ["inputs", "programs"], "all machine states and valid instructions", "the comparison tests run five short programs",
  [SEQ, HS, DSL, MAC], [("HCL description", "seq_std::Arch"), ("hardware units", "hardware_seq")], ["registers, memory, cc after a step"])
p("H02", "seq_plus_std executes every instruction exactly as the reference ISA",
  "In every machine state, one cycle of the seq_plus_std processor over a valid instruction (one of the twelve Y86-64 opcodes, its ten-byte fetch window and memory operand inside memory) leaves the same registers, memory, condition codes and, unless it halts, program counter for the following fetch as the Y86-64 definition. It reports termination exactly when the instruction halts, has an unsupported opcode or accesses memory out of range. A fresh simulator starts at address 0 with zero registers and cleared condition codes.",
  ["inputs", "programs"], "all machine states and valid instructions", "the comparison tests run five short programs",
  [SEQP, HS, DSL, MAC], [("HCL description", "seq_plus_std::Arch"), ("hardware units", "hardware_seq")], ["registers, memory, cc after a step"])
p("H03", "Pipeline operands are the youngest older values",
  "In pipe_std, for every state of the pipeline registers, the operand values an instruction carries into execute from its source registers are those of the youngest older in-flight instruction that writes the register (execute result, memory result, or pending write-back, a load's value never taken before it exists), else the register file after this cycle's writes; a load/use dependence stalls fetch and decode and bubbles execute.",
  ["histories", "inputs"], "all contents of the five pipeline registers and of the register file", "short programs reach few hazard combinations",
  [PIPE, HP, DSL], [("forwarding and stall equations", "pipe_std::Arch")], ["execute-stage operands", "stall/bubble controls"])
p("H04", "Pipeline redirects fetch correctly after branches and returns",
  "In pipe_std, for every pipeline state, fetch takes the fall-through address of a mispredicted branch, else the address a completing return loaded, else the predicted address; wrong-path instructions behind a mispredicted branch become bubbles and fetch waits behind every return in flight. No other instruction is lost or repeated: it moves to the next stage, or is held or fetched again behind a load/use dependence.",
  ["histories", "inputs"], "all contents of the pipeline registers", "short programs reach few combinations of branch, return and load/use",
  [PIPE, HP, DSL], [("PC selection and control equations", "pipe_std::Arch")], ["fetch address", "next pipeline registers"])
p("H05", "Pipeline exceptions are precise",
  "In pipe_std, once an instruction that halts, faults or is invalid reaches the memory or write-back stage, no younger instruction changes the condition codes, memory or registers, the faulting instruction's status is held in write-back at every further clock edge, and the processor reports termination exactly when write-back holds such a status.",
  ["histories", "inputs"], "all contents of the pipeline registers", "only halting programs are tested",
  [PIPE, HP], [("set_cc, bubble and stall equations, termination signal", "pipe_std::Arch")], ["registers, memory, cc, termination"])
p("H06", "Pipeline stages compute each instruction's Y86-64 semantics",
  "In pipe_std, for every pipeline state, each stage passes on what the Y86-64 definition requires of the instruction it holds: decoded fields and predicted address in fetch, sources and destinations in decode, ALU result, flags and conditional destination in execute, memory access and loaded value in memory, and register updates in write-back.",
  ["inputs", "histories"], "all contents of the pipeline registers and memory", "short programs reach few operand values",
  [PIPE, HP], [("stage equations", "pipe_std::Arch"), ("hardware units", "hardware_pipe")], ["next pipeline registers, register file, memory, cc"])
p("H07", "A pipeline register holds, bubbles or loads, and nothing else",
  "At each clock edge every pipeline register of every architecture takes its declared default values when told to bubble, keeps all its values when told to stall, and otherwise takes all of the values computed in the cycle; all registers latch, each exactly once per cycle.",
  ["histories", "configurations"], "all register contents and control combinations, all architectures", "tests observe final states of short programs only",
  [DSL, PIPE, SEQ, SEQP], [("mux", "define_stages!"), ("initiate_next_cycle", "sim_macro::hcl!")], ["stage registers"])
p("H08", "Hardware unit outputs depend only on present inputs and stored state",
  "For every unit of both hardware sets, every output after a trigger is a function of the unit's inputs and stored state in that cycle, never of output values left over from an earlier cycle; fetching a valid instruction after a failed fetch reports no error.",
  ["histories"], "all sequences of unit inputs", "tests never fetch from an invalid address and then go on", [HP, HS, DSL], [("unit bodies", "define_units!")], ["unit outputs, stage info"])
p("H09", "Hardware units never panic",
  "No combination of input signals (register codes being four bits wide) and stored state makes a hardware unit panic: addresses near or beyond the end of memory or near 2^64 and program counters of any value set the unit's error output or wrap.",
  ["inputs"], "all input signal values", "tests stay within small addresses", [HP, HS], [("bounds checks", "hardware_pipe, hardware_seq")], ["ysim, ydb"])
p("H10", "Data memory accepts exactly the in-range accesses and touches only them",
  "The data memory unit of each hardware set reports an address error exactly when it is asked to read or write and some byte of the eight-byte access lies outside memory; an accepted write stores the eight little-endian bytes at the address and changes no other byte, a read returns them, and a rejected access or an idle cycle changes nothing.",
  ["inputs"], "all addresses, data and control values", "no test uses an address near the end of memory", [HP, HS, UT], [("dmem", "hardware_pipe, hardware_seq")], ["memory"])
p("H11", "The register file writes then reads, memory result last",
  "In each hardware set the register file stores the execute result and then the memory result into their destinations, the memory result winning when both name one register, never stores anything for the no-register code, and returns zero for it.",
  ["inputs"], "all source, destination and value signals", "few register combinations occur in the test programs", [HP, HS], [("register file units", "hardware_pipe, hardware_seq")], ["registers"])
p("H12", "What a processor reports about a cycle is what the cycle computed",
  "In every registered architecture the stage information lists every signal of the description exactly once, under the signal's own name, in the section that declares it, with its value in the current cycle, and the reported program counter is the address given to the instruction memory in that cycle.",
  ["inputs", "configurations"], "all signals, all signal values", "no test reads the stage information", [MAC, SEQ, SEQP, PIPE], [("stage information", "sim_macro render_get_stage_info"), ("program counter", "#![program_counter]")], ["stage information, program counter"])
p("F01", "Every signal is computed after all the signals it reads",
  "In every registered architecture, each combinational update and hardware unit runs after every update and unit whose output it reads in the same cycle, whatever the tie-break among independent nodes, so no signal is computed from another signal's value of an earlier cycle.",
  ["configurations", "histories"], "all signals of all built-in architectures, and every tie-break among unordered nodes", "a missing dependency only shows if the accidental order happens to be wrong",
  [MAC, PROP, SEQ, SEQP, PIPE, HP, HS], [("declared dependency edges", "sim_macro build_circuit, define_units! hardware_setup"), ("topological order", "PropOrderBuilder::build")], ["propagation order"])
p("F02", "Cyclic or unsourced circuits are refused when the simulator is built",
  "Building a circuit whose signals depend on each other cyclically, or that has a unit input with no source, fails before any cycle runs, and no well-formed circuit is refused.",
  ["configurations"], "all dependency graphs", "two invalid sample architectures only", [PROP], [("degree bookkeeping", "topo"), ("source check", "PropOrderBuilder::build")], ["construction of a simulator"])
p("F03", "Simulation is deterministic from run to run",
  "The propagation order, the cycle-by-cycle states, the critical-path length and every printed listing are the same in every run for the same program and architecture: nothing observable depends on hash-map iteration order, addresses, time or randomness.",
  ["schedules", "configurations"], "all hash seeds", "a single run cannot show dependence on the hash seed", [PROP, MAC, ASM, OBJ], [("sorting of edges", "PropOrderBuilder::build")], ["propagation order, output"])
p("F04", "One step runs one whole cycle",
  "Stepping a simulator of any architecture runs every signal update and every unit exactly once, sets the termination flag from that architecture's termination signal of this cycle, counts exactly one cycle, and then latches every pipeline register once unless the processor terminated. Nothing else advances the simulation state: reading registers, the program counter, stage information or the cycle count changes nothing.",
  ["histories", "configurations"], "all states and architectures", "tests only observe final results",
  [MAC, PROP, "sim/src/framework/mod.rs"], [("update / CpuSim impl", "sim_macro::hcl!")], ["cycle count, termination, registers"])
p("F05", "Each signal has one driver that writes only that signal",
  "In every architecture each stage-register field, unit input and intermediate signal is written by exactly one update, and an update writes nothing but the signal it is registered for; no update writes unit outputs or the current stage values.",
  ["configurations"], "all signals of all built-in architectures", "a second driver is invisible until the order changes", [MAC, SEQ, SEQP, PIPE], [("updaters", "sim_macro build_circuit")], ["signals"])
p("F06", "Every advertised architecture can be created under its own name",
  "Each name in the architecture list creates a simulator of that architecture, every advertised name is handled, and the command-line tools check a requested name against that list before creating a simulator.",
  ["configurations", "inputs"], "all names", "tests create simulators from hard-coded names only", ["sim/src/architectures/mod.rs", "sim/src/architectures/builtin/mod.rs", "sim/src/bin/ysim.rs", "debugger/src/main.rs"], [("registry macros", "architectures")], ["ysim -A, ydb --arch"])
p("F07", "Levels and cycle cost measure a circuit's longest chain of units",
  "In the propagation order of every circuit whose units all have inputs, the level of a unit or signal is the largest number of units on a chain of dependencies that ends in it (itself included), and items are listed by non-decreasing level. The cycle cost a processor reports is its greatest level plus one, the number of the last level listed.",
  ["configurations"], "all circuits", "no test looks at levels or costs", [PROP, MAC], [("levels and max_dist", "PropOrderBuilder::build"), ("cycle_cost", "sim_macro::hcl!")], ["ysim -I listing", "CpuSim::cycle_cost", "cycle headings"])
p("D01", "A debug session answers each request once and survives bad ones",
  "Every request received by the debug server gets exactly one response, success or error, before the next is read, and no request content (unknown commands, wrong identifiers, any line numbers, unreadable or unassemblable programs) panics the session or leaves it without a response.",
  ["inputs", "histories"], "all request sequences", "there are no debugger tests", [SRV], [("request loop", "DebugServer::serve_req/handle_request")], ["DAP responses"])
p("D02", "Running under the debugger always stops, with exactly one stop event",
  "Each accepted continue or step request leads to exactly one stopped event, and the server then accepts requests again. A continue stops on termination, at a breakpoint or when the cycle count has reached the configured limit (checked after each cycle), a step runs at most one cycle, and a terminated program is not stepped further.",
  ["histories", "programs"], "all programs, breakpoints and commands", "there are no debugger tests", [SRV], [("run loop", "DebugServer::run_prog")], ["stopped events"])
p("D03", "Debug requests that need a program are refused before one is launched",
  "A request that runs or inspects the program before a successful launch is answered with an error and leaves the session usable, and a failed launch leaves no half-initialised program behind.",
  ["histories"], "all request orders", "there are no debugger tests", [SRV], [("inner()", "DebugServer")], ["DAP responses"])
p("D04", "Breakpoints stop exactly at their lines",
  "A breakpoint is reported verified only if its line holds an address, the server keeps exactly the breakpoints of the latest accepted request, and a run stops for a breakpoint exactly when the program counter after a cycle is the address of a line of one of these breakpoints.",
  ["inputs", "histories"], "all line numbers and programs", "there are no debugger tests", [SRV, OBJ], [("SetBreakpoints", "DebugServer::handle_request"), ("run loop", "DebugServer::run_prog")], ["stopped events, breakpoint responses"])
p("D06", "What the debugger shows is the stopped processor as it is",
  "At every stop the debugger shows the processor as it is: the reported line is one at the program counter's address whenever there is one, the register scope holds the current register values under their names, and each stage's scope holds exactly that stage's current signals. Between stops it advances the processor by whole cycles only, latching and propagating in turn.",
  ["inputs", "histories"], "all programs, processors states and request sequences", "there are no debugger tests", [SRV, OBJ, "sim/src/isa.rs"], [("stack trace, scopes, variables", "DebugServer::handle_request"), ("refresh after a stop", "DebugServer::start"), ("run loop", "DebugServer::run_prog")], ["debug adapter responses"])
p("D05", "The debug server listens on the loopback interface only",
  "Whatever its options, the debug server binds its listening socket only to a loopback address.",
  ["configurations"], "all option values", "there are no debugger tests", ["debugger/src/lib.rs", "debugger/src/main.rs"], [("bind", "start_tcp_listener")], ["listening socket"])
p("C01", "The assembler tool writes output only after assembling succeeded",
  "yas creates or overwrites its output file only with the complete listing of a successful assembly, and every failure to read, assemble or write ends it with an error status.",
  ["inputs", "fault_sequences"], "all inputs and I/O failures", "no test runs the tools", ["sim/src/bin/yas.rs"], [("? propagation", "main")], ["output file, exit status"])
p("C02", "The simulator tool never runs past its cycle limit",
  "ysim executes at most one cycle more than its cycle limit, stops stepping once the processor terminates, and reports an exceeded limit as an error.",
  ["programs", "configurations"], "all programs and limits", "no test runs the tools", ["sim/src/bin/ysim.rs"], [("main loop", "main")], ["exit status"])
p("C03", "A listing written by the assembler loads back as the same memory",
  "Loading the listing of an assembled object into the ISA simulator tool gives the object's memory image, and malformed listings end with an error instead of a panic.",
  ["inputs"], "all objects and listing texts", "no test runs the tools", [OBJ, "sim/src/bin/yis.rs", UT], [("listing writer", "Display for ObjectExt"), ("loader", "yis main"), ("hex decoder", "utils::decode_hex")], ["memory image"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
