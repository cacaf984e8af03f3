#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. TECH: property -> (technique, note) for the claimed ones; NA: property -> reason."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation of the compiler's MIR (decision-diagram domain) compared with an independent specification table"
TRUST = ("Decides the property for all inputs by joining all paths of the MIR of /repo's current source; trusts rustc's MIR, the hand-written models of "
         "the standard library functions it meets (sa/models*.py) and the specification table (sa/spec.py). ")
ASM = "constant propagation of the assembler's entry over families of source texts, by abstract interpretation of MIR (decision-diagram domain), compared with an independent reading of the text"
ASMN = ("Decides the property for families of texts in which registers, digits and addresses are arbitrary and the shape of the line is enumerated; texts of other shapes are covered only as far as "
        "lines are treated alike. The grammar files are applied by sa/peg.py. Trusts rustc's MIR and the models of the standard library (sa/models*.py, sa/asmrun.py). ")
DBG = "typestate analysis of the debug session (ghost state at the protocol library's boundary) by abstract interpretation of MIR"
DBGN = ("Requests of arbitrary content after each of a list of request histories that covers the server's states; at most two breakpoints per request and three source lines with arbitrary numbers and addresses; "
        "the processor is opaque, an arbitrary state after each cycle. Trusts rustc's MIR, the models of the standard library and the model of the dap crate (sa/chk_dbg.py). ")
TECH = {
 "I01": (ABS, TRUST + "Covers one iteration of the interpreter loop from an arbitrary state, which by induction covers every run; termination of programs is not a claim."),
 "I02": ("panic-freedom obligations by abstract interpretation of MIR", TRUST + "Every assert, index, slice, unwrap and explicit panic reachable from simulate is an obligation."),
 "I03": (ABS, TRUST + "All 256 opcode/function bytes and register bytes as one symbolic byte each."),
 "H01": (ABS, TRUST + "One cycle from an arbitrary state, which by induction covers every run. Covers the twelve base opcodes; iopq is not in the hardware."),
 "H02": (ABS, TRUST + "One cycle from an arbitrary state, which by induction covers every run. Covers the twelve base opcodes; iopq is not in the hardware."),
 "H03": (ABS, TRUST + "One cycle from an arbitrary content of the pipeline registers; valid function codes are assumed for the instructions in flight."),
 "H04": (ABS, TRUST + "One cycle from an arbitrary content of the pipeline registers."),
 "H05": (ABS, TRUST + "One cycle from an arbitrary content of the pipeline registers, plus the clock edge after termination."),
 "H06": (ABS, TRUST + "One cycle from an arbitrary content of the pipeline registers, stage by stage."),
 "H07": (ABS, TRUST + "The clock edge of every built-in architecture from an arbitrary state."),
 "H08": ("value-flow (dependence) analysis over the MIR of every unit", TRUST + "An output depends on an old output when the old value occurs in its canonical decision diagram."),
 "H09": ("panic-freedom obligations by abstract interpretation of MIR", TRUST + "Assumes four-bit register codes, which is what the fetch and decode stages produce (H06)."),
 "H10": (ABS, TRUST),
 "H12": ("abstract interpretation of get_stage_info in an arbitrary state with formatting as an uninterpreted function of its argument, sections from the syntax of the description; program counter against the instruction memory's input by decision diagrams", TRUST + "Number formats are not part of the property."),
 "H11": (ABS, TRUST + "Assumes four-bit register codes."),
 "F01": ("order analysis of the combinatorial network over MIR (def-use by abstract interpretation)", TRUST + "The propagation order is the one build_circuit computes, obtained by constant propagation."),
 "F03": ("effect and order-sensitivity analysis over MIR, plus constant propagation of the order computation", TRUST),
 "F02": ("constant propagation through the circuit builder over MIR", TRUST + "The declared circuits of every built-in architecture plus a few hundred small wirings; general wirings are covered only as far as these decide them."),
 "F04": (ABS, TRUST + "One cycle from an arbitrary processor state, with and without logging; compares the final states."),
 "F06": ("constant propagation of names and guard analysis (abstract interpretation of the tools' main functions)", TRUST + "Everything that cannot reach a simulator creation is opaque."),
 "F07": ("constant propagation through the circuit builder over MIR, compared with longest paths of the dependency graph", TRUST + "The built-in processors and all well-formed wirings of five small circuits; the builder treats node names uniformly."),
 "C01": ("effect-ordering analysis by abstract interpretation of the tool's main function", TRUST + "The assembler is opaque here (A01-A07 treat it)."),
 "C02": ("inductive-step analysis of the cycle loop by abstract interpretation of the tool's main function", TRUST + "The simulator is opaque here: an arbitrary state after each cycle."),
 "A01": (ASM, ASMN),
 "A02": (ASM, ASMN + "The listing is interpreted as text whose numbers have known widths; the simulators' lengths come from one step of each from an arbitrary state."),
 "A03": ("panic-freedom obligations by abstract interpretation of the assembler's MIR over families of texts", ASMN),
 "A04": (ASM, ASMN),
 "A05": (ASM, ASMN),
 "A06": (ASM, ASMN + "Label names include every word the assembler's own code compares with."),
 "A07": (ASM, ASMN + "Digits are arbitrary for each literal form; the edges of the ranges are a list of literals."),
 "C03": ("constant propagation through assembler, listing writer and loader by abstract interpretation of MIR (decision-diagram domain); panic obligations on malformed texts",
         ASMN + "Numbers in the listing are texts of known width with arbitrary digits; the quick check loads a part of the register spellings of each line, the thorough one all."),
 "F05": ("write-effect analysis of every combinatorial item by abstract interpretation of MIR", TRUST),
 "D01": (DBG, DBGN + "Undecodable requests end the session in the library used for the protocol: recorded as a known finding."),
 "D02": (DBG, DBGN + "The number of cycles is bounded by an inductive step: a further cycle only when the count after the previous one is below the limit."),
 "D03": (DBG, DBGN),
 "D04": (DBG, DBGN + "Breakpoints set before another launch are not judged until they are set again."),
 "D06": ("abstract interpretation of debug sessions with arbitrary requests and an arbitrary processor whose answers are named by processor, cycle and half-cycle; answers compared with the present ones", TRUST + "Histories up to six requests, source listings of one to three lines, two stages; formatting of a value is an uninterpreted function of that value."),
 "D05": ("constant propagation to every bind call by abstract interpretation of the debugger's main function", "Command-line arguments and environment are arbitrary. Addresses the analysis does not understand are listed in the evidence as not analysed."),
}
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 sa/dump.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in TECH:
        t, n = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
