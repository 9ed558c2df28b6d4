"""What each property's check runs.  See DESIGN.md."""

HOOKED = {
    "codegen": ["info", "interner", "bytecode", "opcode", "block_analysis", "const_fold", "dead_store_elim", "dedup",
                "memory_sections", "sections", "vstack", "asm"],
}

RULE = "a case counts as distinct and nontrivial when its bytecode differs from every other case of the run and it ends other than by an immediate halt"

TRUSTED = [
    "rustc, Kani 0.68 / CBMC (contract harnesses), z3 and cvc5 (verification conditions)",
    "the recording back end harness/irx/src/ir.rs and its executor interp.rs: they give the LLVM-level meaning of every "
    "builder call (the LLVM back end itself is absent from this sandbox and is not verified)",
    "revm's interpreter, the reference semantics of the bounded stand-ins",
]
COMMON_ASSUMPTIONS = [
    "The LLVM back end lowers each builder operation as the recording back end defines it; LLVM's own optimisations are trusted.",
    "Host implementations obey the Host trait's documentation; the bounded parts use one concrete host.",
]

HOOK_COMMITS = ["f4d115d170fddd85cddfe6c2e6a9f5445475b798", "9c7ba2bf7dc93c3b49aae311f3bf25cfab7d1ac4", "b087c86724562f2463497ccb5b8ab2ce3afbc42f"]

VC = ("verification conditions of the code the real translator emits, each support function seen through its contract, "
      "discharged by z3/cvc5 for all inputs, gas limits and host answers of each program")
KANI = "Kani/CBMC contract harnesses on the real functions for all inputs"
BOUND = "bounded differential runs against the revm interpreter replay and supplement it (labelled bounded)"

T_BOTH = f"contract-based deductive verification: {KANI}; {VC}; {BOUND}"
T_VC = f"contract-based deductive verification: {VC}; {BOUND}"
N_VC = ("Proved per program, for all inputs: the programs are complete finite families where stated and otherwise a seeded "
        "sample, so the quantifier over programs is covered by the Kani contracts on the analysis functions where listed and "
        "sampled elsewhere. Support functions are assumed to meet their contracts in the conditions; the bounded runs execute the real ones.")

PROPS = {
    "C01": dict(level="translation_validation", technique=T_VC, note=N_VC,
                smt=[("all,small-all", 25)], grid=["ops+gas"], fuzz=[("all,all+gas,txn", 30)]),
    "C02": dict(level="proof", technique=T_VC, note=N_VC + " The opcode × fork family is complete.",
                smt=[("grid:ops", 40)], grid=["ops"], fuzz=[("all", 10)]),
    "C03": dict(level="proof", technique=T_BOTH, note="The codec is proved for every byte and every pair of depths; its use in translation is proved per program of a sample.",
                kani={"revmc-codegen": ["c03_decode_single", "c03_encode_single", "c03_decode_pair", "c03_encode_pair", "c03_stack_io"]},
                api=["c03_decode_single", "c03_encode_single", "c03_decode_pair", "c03_encode_pair"],
                contracts=["revmc_codegen::bytecode::opcode::{decode_single, encode_single, decode_pair, encode_pair}",
                           "revmc_codegen::bytecode::opcode::stack_io (DUPN/SWAPN/EXCHANGE)"],
                smt=[("shuffle8024", 10)], fuzz=[("shuffle8024", 10)]),
    "C04": dict(level="proof", technique=T_BOTH, note="The folder is proved for all operands of 18 operations (the interner through its contract, proved under C13); division, multiplication, exponentiation and the use of folded values are proved per program. " + N_VC,
                kani={"revmc-codegen": ["c04_no_guess"] + ["c04_fold_" + o for o in "add sub lt gt slt sgt eq and or xor not iszero clz shl shr sar byte signextend".split()]},
                contracts=["revmc_codegen::bytecode::passes::const_fold::{ConstFolder methods behind ADD SUB LT GT SLT SGT EQ AND OR XOR NOT ISZERO CLZ SHL SHR SAR BYTE SIGNEXTEND}"],
                smt=[("fold", 20)], grid=["pure"], fuzz=[("fold", 15)]),
    "C05": dict(level="proof", technique=T_VC, note=N_VC + " The single-operation families are complete.",
                smt=[("pure-const", 45), ("pure", 20)], grid=["pure"], fuzz=[("purer,purechain", 15)]),
    "C06": dict(level="proof", technique=T_BOTH, note="The per-instruction step of the stack analysis is proved for all states; the emitted checks are proved per program.",
                kani={"revmc-codegen": ["c06_stack_step"]}, smt=[("small-stack,stack", 15)], grid=["bounds"], fuzz=[("stack", 15)],
                contracts=["revmc_codegen::bytecode::passes::sections (stack section step)"]),
    "C07": dict(level="proof", technique=T_BOTH, note="The per-instruction step of the gas-section analysis is proved for all states. " + N_VC,
                kani={"revmc-codegen": ["c07_gas_step"]}, contracts=["revmc_codegen::bytecode::passes::sections (gas section step)"],
                smt=[("small-all,small-memory,small-storage,small-calls", 25)], grid=["ops+gas"], fuzz=[("all+gas,memory+gas,calls+gas,storage+gas", 25)]),
    "C08": dict(level="proof", technique=T_BOTH, note="The size and join functions of the memory-section analysis are proved for all operands. " + N_VC,
                kani={"revmc-codegen": ["c08_exact_size", "c08_min_size", "c08_join", "c08_section_facts"]},
                contracts=["revmc_codegen::bytecode::passes::memory_sections (required size, minimum size, join, section facts)"],
                smt=[("small-memory,memory", 30)], fuzz=[("memory,memory+gas", 30)]),
    "C09": dict(level="proof", technique=T_BOTH, note="The liveness step and the dead test are proved for every opcode class and every live set of up to 63 positions. " + N_VC,
                kani={"revmc-codegen": ["c09_swap", "c09_dup", "c09_swapn", "c09_dupn", "c09_exchange", "c09_generic", "c09_pop"]},
                contracts=["revmc_codegen::bytecode::passes::dead_store_elim::{transfer_liveness, generic_transfer, transfer_swap, transfer_dup, all_outputs_dead, swap_all_dead}"],
                smt=[("shuffle,small-stack", 25)], fuzz=[("shuffle", 30)]),
    "C10": dict(level="proof", technique=T_VC, note=N_VC,
                smt=[("jumps,small-stack", 30)], fuzz=[("jumps,deep,decode", 30)]),
    "C11": dict(level="proof", technique=T_VC, note=N_VC,
                smt=[("dups", 30)], fuzz=[("dups", 40)]),
    "C12": dict(level="proof", technique=T_VC, note=N_VC,
                smt=[("decode", 20)], fuzz=[("decode", 30)]),
    "C13": dict(level="proof", technique=T_BOTH, note="The handle representation is proved for every pair of 256-bit values against the pool's contract; the pool's contract itself (hash table) is only exercised on generated histories (bounded).",
                kani={"revmc-codegen": ["c13_imm_round_trip"]}, native={"revmc-codegen": [("c13_pool_history", 20000)]},
                contracts=["revmc_codegen::bytecode::U256Imm::{new, get, get_inline, from_raw, to_raw, eq}", "revmc_codegen::bytecode::interner::Interner::{intern, get} (assumed by contract, bounded)"],
                smt=[("fold", 10)], fuzz=[("fold,purechain", 15)]),
    "C14": dict(level="translation_validation", technique=T_VC, note=N_VC,
                smt=[("small-storage,storage", 20)], grid=["ops"], fuzz=[("storage,storage+gas,txn", 40)]),
    "C15": dict(level="proof", technique=f"contract-based deductive verification: {KANI}; histories of stack writes and refusals (panics) run natively on generated inputs (labelled bounded)",
                note="Conversions are proved for every 256-bit value and which cell each stack accessor touches for every index; the contents after sequences of writes and the refusal of indices beyond the capacity are bounded (32 KiB of symbolic memory and expected panics are outside CBMC's reach).",
                members=["hctx"], kani={"hctx": ["c15_integers", "c15_bytes", "c15_slices", "c15_usize_address", "c15_stack_cells", "c15_stack_views"]},
                native={"hctx": [("c15_stack_history", 1500), ("c15_out_of_range", 20000)]},
                api=["c15_integers", "c15_bytes", "c15_slices", "c15_usize_address", "c15_stack_cells", "c15_stack_views", "c15_stack_history", "c15_out_of_range"],
                contracts=["revmc_context::EvmWord::{from_u256, to_u256, into_u256, as_u256, as_u256_mut, from/to_{be,le,ne}_bytes, from_{be,le}_slice, from/to_{be,le}, swap_bytes, to_address, eq, default}, usize::try_from",
                           "revmc_context::EvmStack::{get, get_mut, get_unchecked(_mut), top_unchecked(_mut), from_top_unchecked(_mut), as_slice, as_mut_slice, as_ptr, as_mut_ptr, new_heap, from_vec, from_mut_vec, from_interpreter_stack}; {push, set, set_unchecked} bounded"]),
    "C17": dict(level="exploration", technique="bounded stand-in: the real runtime and the EVM built on it driven by generated histories, each lookup held to a contract over ghost state (which programs were stored under which key and not cleared since); labelled bounded, nothing is counted as proved",
                note="Bounded: hash maps, threads and dynamic loading are outside the verifiers, so the contract of a lookup is checked on generated histories of up to 24 operations on real shared libraries, not proved. Without LLVM a program only enters through the artifact store.",
                rule="a history counts when at least one compiled program was handed out or run in it and its operations differ from every other history's",
                contracts=["revmc_runtime::runtime::JitBackend::{lookup, lookup_blocking, get_compiled, get_compiled_tracked, prepare_aot, compile_jit, compile_jit_sync, clear_*, set_enabled} (run-time contract, bounded)", "revmc_runtime::revm_evm::JitEvm::frame_run (bounded)"],
                nat=[("natd", ["lookup"])]),
    "C18": dict(level="exploration", technique="bounded stand-in: the real store driven by generated histories, every operation held to the contract of an ideal map from full keys; labelled bounded, nothing is counted as proved",
                note="Bounded: files and a concurrent hash map are outside the verifiers, so the contract is checked after every operation of generated histories (up to 27 operations on up to 7 keys chosen to be easily confused), not proved.",
                rule="a history counts when it has more than two changing operations and differs from every other history",
                contracts=["revmc_runtime::runtime::RuntimeArtifactStore::{store, load, load_all, delete, clear, len, is_empty} (run-time contract, bounded)"],
                nat=[("natd", ["store"])]),
    "C20": dict(level="exploration", technique=f"contract-based deductive verification of the offset-width computation ({KANI}); the text part is a bounded stand-in: generated instruction sequences against an independent encoder, and damaged text",
                note="Only the label-width function is proved; tokenising, macros, layout and encoding are checked on generated texts (bounded), because text handling and error reports are outside the verifiers.",
                rule="a text counts when it has at least one instruction and differs from every other text",
                kani={"revmc-codegen": ["c20_min_push_width"]}, native={"revmc-codegen": [("c20_encode_imm", 200000)]},
                contracts=["revmc_codegen::bytecode::asm::min_push_width", "revmc_codegen::bytecode::asm::encode_imm (bounded)", "revmc_codegen::parse_asm (bounded)"],
                nat=[("natd", ["asm"])]),
    "C19": dict(level="translation_validation", technique=T_VC, note=N_VC,
                smt=[("small-calls,calls", 25)], fuzz=[("calls,calls+gas,txn", 40)]),
    "C21": dict(level="proof", technique=T_VC, note=N_VC,
                smt=[("all,decode,small-all", 25)], grid=["bounds"], fuzz=[("all,decode", 30)]),
    "C22": dict(level="translation_validation", technique=T_VC, note=N_VC,
                smt=[("config", 25)], fuzz=[("config", 40)]),
}
