#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the texts below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "crates/revmc-codegen/src/"
P = C + "bytecode/passes/"
T = C + "compiler/translate/"

def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(kw)
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)

L = []
L.append(prop("C01", "Compiled code behaves exactly like the EVM interpreter",
  "For every bytecode, hard fork, gas limit, input and host state, running the compiled function has the same observable outcome as interpreting the bytecode: the same kind of result (a halt is a halt), the same output bytes, remaining and refunded gas, memory, and the same sequence of host reads, writes, logs and child frames.",
  ["programs", "inputs", "configurations"], "all bytecodes, forks, gas limits, calldata, host answers",
  "The suite samples a few hundred hand-written snippets, and without an LLVM tool chain most of them only check the analysed bytecode; nothing executes arbitrary programs on arbitrary inputs.",
  [T+"mod.rs", C+"compiler/mod.rs", C+"bytecode/mod.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-context/src/lib.rs"],
  [("translation of every instruction", T+"mod.rs"), ("run-time support functions", "crates/revmc-builtins/src/lib.rs"), ("call wrapper", "crates/revmc-context/src/lib.rs")]))
L.append(prop("C02", "Every opcode exists, costs and moves the stack as its fork says",
  "On every hard fork, every one of the 256 opcodes is available exactly when the interpreter of that fork accepts it, charges the same static gas and consumes and produces the same number of stack items; an unavailable or unknown opcode halts execution.",
  ["programs", "configurations"], "all 256 opcodes on all forks",
  "Tests touch a few opcodes on the default fork; the table has opcode × fork entries.",
  [C+"bytecode/info.rs", C+"bytecode/opcode.rs", C+"bytecode/mod.rs"],
  [("per-fork opcode table", C+"bytecode/info.rs"), ("stack arity", C+"bytecode/opcode.rs")]))
L.append(prop("C03", "DUPN/SWAPN/EXCHANGE immediates follow EIP-8024",
  "For every immediate byte, decoding yields the operand depths that EIP-8024 assigns to it or rejects exactly the reserved bytes; encoding is total on the representable depths and is the inverse of decoding.",
  ["inputs"], "all 256 immediates, all depths and pairs of depths",
  "The tests try a handful of immediates.",
  [C+"bytecode/opcode.rs"], [("immediate codec", C+"bytecode/opcode.rs")]))
L.append(prop("C04", "Compile-time evaluation equals run-time evaluation",
  "Whenever the compiler evaluates an operation on known operands ahead of time, the value, the gas charged and every later observation are those of executing the operation at run time, for every operand value and every limit put on compile-time evaluation.",
  ["inputs", "programs", "configurations"], "all operations the compiler folds, all 256-bit operands, all budgets",
  "Tests fold a few constants; wrong results hide at boundary operands (zero divisors, sign bits, shift amounts beyond the width).",
  [P+"const_fold.rs", P+"block_analysis.rs", T+"peephole.rs"],
  [("constant folder", P+"const_fold.rs"), ("use of folded values", P+"block_analysis.rs")]))
L.append(prop("C05", "Arithmetic, comparison and bit opcodes are exact in every operand form",
  "Every opcode that maps words to a word computes the EVM result for all 256-bit operands, whichever of its operands are compile-time constants, freshly computed or already on the stack, and however its result is used.",
  ["inputs", "programs"], "all pure opcodes, all operands, all constant/run-time operand combinations",
  "Specialised code is emitted per constant operand (powers of two, zero, all ones, wide shifts); tests try one or two operand pairs per opcode.",
  [T+"mod.rs", T+"peephole.rs", "crates/revmc-builtins/src/ir.rs", "crates/revmc-builtins/src/lib.rs"],
  [("translation", T+"mod.rs"), ("operand-specific rewriting", T+"peephole.rs")]))
L.append(prop("C06", "Stack underflow and overflow halt exactly when the EVM's do",
  "Execution halts for stack underflow or overflow exactly when the EVM would at some instruction on the executed path, for every depth and however instructions are grouped for checking; no read or write ever leaves the 1024-word stack.",
  ["programs", "inputs"], "all programs, all stack depths",
  "Checks are merged over runs of instructions; a wrong merge only shows for particular depths at particular positions.",
  [P+"sections.rs", T+"mod.rs"], [("stack section analysis", P+"sections.rs"), ("emitted checks", T+"mod.rs")]))
L.append(prop("C07", "Gas accounting is exact at every observation point",
  "For every program and gas limit the compiled code runs out of gas exactly when the EVM does, and whenever gas can be observed (the GAS opcode, calls and creates, storage writes, completion) the remaining gas equals the EVM's.",
  ["programs", "inputs"], "all programs, all gas limits",
  "Static gas is charged ahead for runs of instructions; the tests use ample gas and few observation points.",
  [P+"sections.rs", P+"block_analysis.rs", T+"mod.rs", "crates/revmc-builtins/src/lib.rs"],
  [("gas section analysis", P+"sections.rs"), ("emitted charges", T+"mod.rs")]))
L.append(prop("C08", "Memory grows, is charged and is addressed exactly as in the EVM",
  "Every memory access reads and writes the bytes the EVM would, memory has the EVM's size at every observation, and its expansion is charged the EVM's amount, for all offsets and lengths including those beyond 64 bits and zero lengths; no access leaves the allocated memory.",
  ["programs", "inputs"], "all programs, all offsets and lengths",
  "Expansion checks are hoisted and merged for accesses with known offsets; tests cover few access patterns.",
  [P+"memory_sections.rs", T+"mod.rs", "crates/revmc-builtins/src/utils.rs", "crates/revmc-builtins/src/ir.rs"],
  [("memory section analysis", P+"memory_sections.rs"), ("memory translation", T+"mod.rs")]))
L.append(prop("C09", "Removing dead stack computations never changes behaviour",
  "With elimination of unused stack computations on or off, a program has the same outcome, gas, memory, final stack and host interaction, for every program and input.",
  ["programs", "inputs", "configurations"], "all programs, both settings",
  "Liveness depends on the whole control-flow graph and on which instructions may exit; tests check selected instruction patterns only.",
  [P+"dead_store_elim.rs", P+"mod.rs"], [("backward liveness", P+"dead_store_elim.rs")]))
L.append(prop("C10", "Jumps reach exactly the destinations the EVM allows",
  "A jump transfers control to the instruction the EVM would and halts when the destination is not a valid jump destination, whether its target is known at compile time, comes from one of several call sites, or is computed at run time with any 256-bit value.",
  ["programs", "inputs"], "all programs, all jump target values",
  "Targets are resolved by an abstract interpretation over the control-flow graph; tests cover selected shapes.",
  [P+"block_analysis.rs", C+"bytecode/mod.rs", T+"mod.rs"],
  [("jump target analysis", P+"block_analysis.rs"), ("jump translation", T+"mod.rs")]))
L.append(prop("C11", "Merging identical code blocks never changes behaviour",
  "Two pieces of code are shared only if executing one in place of the other is indistinguishable; with sharing on or off every program has the same outcome, gas, memory and host interaction.",
  ["programs", "inputs", "configurations"], "all programs, all pairs of blocks, both settings",
  "Equality of blocks is decided on a digest of instructions and immediates; tests contain few near-identical blocks.",
  [P+"dedup.rs"], [("block fingerprint and merging", P+"dedup.rs")]))
L.append(prop("C12", "Any byte string decodes into the EVM's instructions",
  "Every byte string is split into instructions, immediates and jump destinations exactly as the EVM does on the chosen fork: bytes inside immediates are never instructions or jump destinations, truncated immediates read as zero-padded, and running off the end stops.",
  ["programs", "configurations"], "all byte strings on all forks",
  "Tests use well-formed programs.",
  [C+"bytecode/mod.rs", C+"bytecode/opcode.rs"], [("decoder", C+"bytecode/mod.rs"), ("opcode iterator", C+"bytecode/opcode.rs")]))
L.append(prop("C13", "Stored immediates read back unchanged",
  "Every 256-bit immediate or analysis constant recorded during compilation reads back as the same value, equal values compare equal and different values compare different, whatever else was recorded before or after.",
  ["inputs", "histories"], "all 256-bit values, all sequences of recordings",
  "Small values and large values are represented differently; tests record few values around the switch-over.",
  [C+"bytecode/interner.rs", C+"bytecode/mod.rs"], [("interner", C+"bytecode/interner.rs"), ("immediate representation", C+"bytecode/mod.rs")]))
L.append(prop("C14", "Storage, transient storage, logs and state queries reach the host unchanged",
  "Each storage or transient access, log, balance, code, block and transaction query reaches the host with the EVM's operands in the EVM's order and exactly once, returns the host's answer, charges the fork's dynamic gas and refunds, and is refused in static calls or on host failure exactly as in the EVM.",
  ["programs", "inputs", "fault_sequences", "configurations"], "all programs, operands, host answers and host failures, static and non-static, all forks",
  "Tests use one host with fixed answers and the default fork.",
  ["crates/revmc-builtins/src/lib.rs", "crates/revmc-builtins/src/utils.rs", T+"mod.rs"],
  [("host-facing support functions", "crates/revmc-builtins/src/lib.rs"), ("operand passing", T+"mod.rs")]))
L.append(prop("C15", "Word and stack containers convert without loss",
  "Conversions between stack words and integers, addresses and byte arrays are exact inverses for every value in the EVM's byte order; reading and writing a stack by index, by depth or by pushing acts on the cell an ideal 1024-entry stack would, also when it is a view of the interpreter's own stack, and checked accesses beyond 1024 entries are refused.",
  ["inputs", "histories"], "all word values, all stack depths and operation sequences",
  "Tests convert two or three values.",
  ["crates/revmc-context/src/lib.rs"], [("word conversions", "crates/revmc-context/src/lib.rs"), ("stack container", "crates/revmc-context/src/lib.rs")]))
L.append(prop("C17", "A lookup only ever returns code compiled for exactly that contract",
  "A lookup in the runtime returns a compiled program only for the same code hash and hard fork it was stored under, never while the runtime is disabled, never for code outside the configured eligibility limits, and not after the programs were cleared; otherwise the caller is told to interpret. An EVM using the runtime runs a frame's code only by interpretation or by a program it was given for that code hash and fork.",
  ["histories", "configurations", "inputs"], "all sequences of enabling, preloading, looking up, preparing and clearing, all keys and limits",
  "Tests exercise single calls on one or two keys.",
  ["crates/revmc-runtime/src/runtime/mod.rs", "crates/revmc-runtime/src/runtime/backend.rs", "crates/revmc-runtime/src/runtime/config.rs"],
  [("lookup", "crates/revmc-runtime/src/runtime/mod.rs"), ("admission", "crates/revmc-runtime/src/runtime/backend.rs")]))
L.append(prop("C18", "The artifact store returns what was last stored under the full key",
  "Loading by key returns the bytes and metadata last stored under that complete key (code hash, fork, back end, optimisation level) and nothing after deletion or clearing; entries under different keys never overwrite or delete each other.",
  ["histories", "inputs"], "all sequences of store, load, delete and clear over all keys",
  "Tests store one or two artifacts.",
  ["crates/revmc-runtime/src/runtime/storage.rs"], [("temporary artifact store", "crates/revmc-runtime/src/runtime/storage.rs")]))
L.append(prop("C19", "Calls and creates suspend and resume faithfully",
  "Every call or create hands the caller the same child frame (target, value, gas, input, return range, static flag, scheme) the EVM would create, and after the child finishes execution continues right after it with the EVM's stack, memory, return data and gas, for every child outcome and any number of suspensions.",
  ["programs", "inputs", "histories"], "all programs, operands and child outcomes, all forks",
  "Tests resume once or twice with a fixed outcome.",
  [T+"mod.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-context/src/lib.rs"],
  [("resume points", T+"mod.rs"), ("frame construction", "crates/revmc-builtins/src/lib.rs")]))
L.append(prop("C20", "Assembler text and bytecode correspond",
  "Assembling the textual form of any instruction sequence gives exactly its byte encoding: mnemonics, immediates of every width, and labels resolved to the offset of their definition; malformed text is rejected with an error and never panics.",
  ["inputs", "programs"], "all instruction sequences, labels and texts",
  "Tests assemble a few fixed texts.",
  [C+"bytecode/asm.rs"], [("parser and label resolution", C+"bytecode/asm.rs")]))
L.append(prop("C21", "Compilation always succeeds and emits well-defined code",
  "For every byte string, fork and configuration the compiler terminates without panicking and produces well-formed code that has no undefined behaviour on any input: no out-of-range memory or stack access, no division by zero, no false assumption, no use of an undefined value, and no reachable unreachable marker.",
  ["programs", "inputs", "configurations"], "all byte strings, forks, configurations and inputs",
  "Undefined behaviour is invisible to tests that happen to get the expected value; tests compile well-formed programs.",
  [C+"compiler/mod.rs", T+"mod.rs", C+"bytecode/mod.rs"], [("compiler driver", C+"compiler/mod.rs"), ("translation", T+"mod.rs")]))
L.append(prop("C22", "Compiler settings never change what a program does",
  "Whether stack inspection, debug assertions, single-error reporting, block sharing, dead-computation removal or any compile-time evaluation budget is chosen, a program's result kind, output, gas, memory and host interaction stay the same.",
  ["configurations", "programs", "inputs"], "all combinations of settings, all programs and inputs",
  "Tests run one or two settings.",
  [C+"compiler/mod.rs", T+"mod.rs", C+"bytecode/mod.rs"], [("configuration", C+"compiler/mod.rs")]))

NA = [
 dict(id="C16", p=prop("C16", "Background compilation is safe under every thread schedule",
  "Whatever the interleaving of lookups, compile requests, clears, pauses and shutdown across threads, no result of an invalidated request is published, no waiting caller is left blocked, and shutdown ends all threads.",
  ["schedules", "histories"], "all interleavings of callers, the backend thread and the workers",
  "Tests run a few schedules.",
  ["crates/revmc-runtime/src/runtime/backend.rs", "crates/revmc-runtime/src/runtime/worker.rs"],
  [("backend event loop", "crates/revmc-runtime/src/runtime/backend.rs")]),
  r="No deductive verifier here reaches it: the code is crossbeam channels, dashmap, real threads and (without LLVM in the sandbox) a compile worker that always fails; Kani has no threads and Verus cannot take these dependencies, so no contract on the real code can be discharged. A schedule model would be a different technique."),
 dict(id="C23", p=prop("C23", "The LLVM back end implements the builder operations it is given",
  "Every operation of the code-generation interface is lowered to LLVM instructions with the documented meaning, and optimisation never changes it.",
  ["programs", "configurations"], "all sequences of builder calls, all optimisation levels",
  "Tests that need LLVM do not run here.",
  ["crates/revmc-llvm/src/lib.rs"], [("LLVM builder", "crates/revmc-llvm/src/lib.rs")]),
  r="LLVM (library and headers) is not installed, so the crate cannot be built or run here and its FFI calls are outside every available verifier; the other properties state this as an assumption."),
]

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in sorted(L + [n["p"] for n in NA], key=lambda p: p["id"]):
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    na = [dict(property=n["id"], reason=n["r"]) for n in NA]
    for p in L:
        s = props.PROPS.get(p["id"])
        if not s:
            na.append(dict(property=p["id"], reason="check not built yet"))
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} quick",
                           thorough_cmd=f"python3 tools/check.py {p['id']} thorough",
                           technique=s["technique"], level=s["level"], level_note=s["note"]))
    m = dict(version=1, setup_cmd="python3 tools/check.py --setup", hooks=dict(
        guard="cfg(revmc_verif)",
        enable="RUSTFLAGS=--cfg revmc_verif with REVMC_VERIF naming the directory whose harness files the hooked modules include (tools/check.py builds both from a shadow workspace that points at /repo's sources)",
        source_commits=props.HOOK_COMMITS), checks=checks, not_applicable=na)
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
main()
