"""Per property: configurations proved, level, assumptions."""
TRUSTED_BASE = [
    "Verus 0.2026.09.13 and z3: soundness of the verifier and its encoding",
    "rustc's macro expansion (-Zunpretty=expanded,hygiene) of /repo's current source, and the extractor /verif/xlat (rewrite rules listed in DESIGN.md)",
    "contracts of the environment in /verif/contracts/*.rs marked external_body: raw pointer reads, writes, offset and copy_nonoverlapping (memory model), allocation, integer library functions, SIMD intrinsics, environment variables, CPU detection, thread_tree's join",
]
ASSUMPTIONS = [
    "floating-point numbers are modelled as exact reals with a flag for values that may depend on uninitialised or foreign data; rounding, overflow to infinity and NaN payloads are not modelled",
    "the call is valid: A, B and C lie in allocations of at most isize::MAX bytes, C has no two elements at one address and does not overlap A or B, m*k + k*n does not exceed usize::MAX",
    "usize has 64 bits; target x86_64",
]
ALL4 = ["dbg", "rel", "nt", "ns"]
PROOF = {
    "C%02d" % i: {"cfgs": ALL4, "level": "proof"} for i in range(1, 15)
}
PROOF["C13"] = {"cfgs": ["cc"], "level": "proof"}
PROOF["C14"]["cfgs"] = ["cc", "ccr"]
PROOF["C05"]["cfgs"] = ALL4 + ["cc"]
PROOF["C10"]["cfgs"] = ["dbg", "rel", "nt", "ns"]
NOTE = ("Every function listed under functions_under_contract in the evidence is verified against its contract for all inputs on every run; "
        "functions listed under not_decided_by_the_verifier are covered by the bounded search only. Assumes the trusted base in the evidence.")
NA = [
    {"property": "C15", "reason": "forward error bounds need contracts over IEEE rounding; Verus has no floating-point theory, and the value model here is exact reals"},
    {"property": "C16", "reason": "the only shared mutable state is inside thread_tree, once_cell and std's thread locals, whose source is not part of /repo; no contract over /repo's functions expresses deadlock freedom of the pool"},
]
