PROPS = {
    "C01": {
        "level": "proof",
        "features": "c01",
        "verus": ["goldilocks.vspec"],
        "kani": {"harnesses": ["c_field::proofs::" + h for h in ("gl_add", "gl_sub", "gl_conv", "gl_ord")]},
        "native": [("gl_mul", "exhaustive", 10), ("gl_mul_edge", "exhaustive", 20), ("gl_div", "exhaustive", 10), ("gl_pow", "exhaustive", 10),
                   ("gl_add", "exhaustive", 5), ("gl_sub", "exhaustive", 5), ("gl_conv", "exhaustive", 5), ("gl_ord", "exhaustive", 5),
                   ("gl_mul", "sample", 10), ("gl_div", "sample", 5), ("gl_pow", "sample", 5), ("gl_conv", "sample", 3), ("gl_add", "sample", 3), ("gl_sub", "sample", 3)],
    },
}
F31 = ("bb", "kb", "m31")
PROPS["C02"] = {
    "level": "proof", "features": "c02",
    "kani": {"harnesses": ["c_field31::proofs::" + c for c in ("m31_add", "m31_conv", "m31_ord", "m31_mul", "bb_int", "kb_int", "m31_int")]},
    "native": [(f"{f}_{c}", "exhaustive", 4) for f in F31 for c in ("add", "conv", "ord", "int", "mul", "div", "pow")]
            + [(f"{f}_{c}", "sample", 2) for f in F31 for c in ("add", "conv", "mul", "div", "pow", "big")]
            + [("gl_big", "sample", 3), ("bn_big", "sample", 4), ("bn_arith", "sample", 8), ("bn_int", "sample", 8)],
}
F5 = ("bb", "kb", "m31", "gl", "bn")
PROPS["C03"] = {
    "level": "exploration", "features": "c03",
    "native": [(f"{f}_{c}", "sample", 4) for f in F5 for c in ("rt", "dec")] + [(f"{f}_dec", "exhaustive", 5) for f in F5] + [("bn_bytes", "sample", 4)]
            + [(f"{f}_csv", "sample", 5) for f in ("bb", "gl", "bn")] + [("log2", "sample", 3), ("file", "sample", 5, 200)],
}
PROPS["C04"] = {
    "level": "proof", "features": "c04",
    "verus": ["range_constraint.vspec"],
    "kani": {"harnesses": ["c_range::proofs::rc_" + h for h in ("sum_31", "product_31", "square_31", "multiple_31", "neg_bb", "conj_bb", "disj_bb")], "timeout": 300},
    "native": [(f"rc_{o}_7", "exhaustive", 15) for o in ("sum", "product", "square", "multiple", "neg", "conj", "disj")]
            + [(f"rc_{o}_{f}", "sample", 4) for o in ("sum", "product", "square", "multiple", "conj", "disj") for f in ("31", "bb", "gl")]
            + [("rc_neg_bb", "sample", 3), ("rc_neg_gl", "sample", 3)] + [(f"rc_chain_{f}", "sample", 6) for f in ("31", "251", "bb", "gl", "m31")],
}
PROPS["C05"] = {
    "level": "proof", "features": "c05",
    "verus": ["range_constraint.vspec"],
    "kani": {"harnesses": ["c_range::proofs::rc_" + h for h in ("allows_bb", "from_bb", "queries_bb", "disjoint_bb")], "timeout": 300},
    "native": [(f"rc_{o}_7", "exhaustive", 15) for o in ("allows", "from", "queries", "disjoint", "enum")]
            + [(f"rc_{o}_{f}", "sample", 3) for o in ("allows", "from", "queries", "disjoint", "enum") for f in ("bb", "gl")] + [("rc_disjoint_31", "sample", 4), ("rc_enum_31", "sample", 4)],
}
PROPS["C06"] = {
    "level": "proof", "features": "c06",
    "verus": ["algebraic.vspec"],
    "native": [(f"ex_{o}", "sample", 8) for o in ("arith_5", "products_5", "subst_5", "queries_7", "qarith_5", "alg_7")]
            + [(f"ex_{o}_bb", "sample", 5) for o in ("arith", "products", "subst", "queries", "qarith", "alg")],
}
PROPS["C07"] = {
    "level": "proof", "features": "c07",
    "verus": ["symbolic.vspec"],
    "native": [(f"ex_{o}_{f}", "sample", 12) for o in ("range", "sym") for f in ("7", "13", "bb")],
}
PROPS["C08"] = {
    "level": "exploration", "features": "c08",
    "native": [(f"so_{o}_{f}", "sample", 10, None, 2) for o in ("alg", "for") for f in ("5", "7")] + [("so_alg_13", "sample", 12), ("so_for_11", "sample", 8)]
            + [(f"so_bus_{f}", "sample", 8) for f in ("5", "7", "11")] + [("so_one_bb", "sample", 12)],
}
PROPS["C09"] = {
    "level": "exploration", "features": "c09",
    "private": [f"so_split_{f}" for f in ("31", "61", "251", "bb")] + [f"so_bool_{f}" for f in ("5", "7", "13")] + ["so_lin_5", "so_lin_7"],
    "native": [(f"so_split_{f}", "sample", 12, None, 2) for f in ("31", "61", "251", "bb")] + [(f"so_bool_{f}", "sample", 5) for f in ("5", "7", "13")] + [("so_lin_5", "sample", 10), ("so_lin_7", "sample", 10)]
            + [(f"so_spub_{f}", "sample", 10) for f in ("31", "251", "bb")],
}
PROPS["C10"] = {
    "level": "exploration", "features": "c10",
    "native": [(f"so_{o}_{f}", "sample", 15, None, 3) for o in ("sys", "search") for f in ("5", "7")] + [("so_sys_11", "sample", 15), ("so_search_11", "sample", 15), ("so_plant_bb", "sample", 15, None, 3)],
}
PROPS["C11"] = {
    "level": "proof", "features": "c11",
    "kani": {"harnesses": ["c_bus::handlers::proofs::" + h for h in ("ov_bitwise_bb", "ov_varrange_bb", "ov_tuple_bb")], "thorough": ["c_bus::handlers::proofs::ov_mem_bb"], "timeout": 200},
    "private": ["ov_bitwise", "ov_bitwise_bb", "ov_varrange", "ov_varrange_bb", "ov_tuple", "ov_tuple_bb", "ov_mem", "ov_mem_bb"],
    "native": [(c, "sample", 4) for c in ("ov_bitwise", "ov_bitwise_bb", "ov_varrange", "ov_varrange_bb", "ov_tuple", "ov_tuple_bb", "ov_mem", "ov_mem_bb")] + [(c, "sample", 8) for c in ("ov_pure", "ov_batch", "ov_handle")],
}
PROPS["C12"] = {
    "level": "exploration", "features": "c11,c12",
    "native": [("op_nranges_bb", "sample", 12, None, 2), ("op_ranges_7", "sample", 15, None, 3), ("op_ranges_11", "sample", 15, None, 3), ("ov_batch", "sample", 8), ("ov_pure", "sample", 8)],
}
PROPS["C13"] = {
    "level": "exploration", "features": "c13",
    "native": [("op_mem_5", "sample", 16, None, 4), ("op_mem_7", "sample", 16, None, 4), ("ov_view", "sample", 8)],
}
PROPS["C14"] = {
    "level": "exploration", "features": "c14",
    "private": ["op_free_5", "op_free_7", "op_steps_5", "op_steps_7", "op_exact_5", "op_exact_7", "op_whole_11", "op_whole_13", "op_nwhole_bb"],
    "native_jobs": 7,
    "native": [("op_ends", "sample", 8), ("op_npass_bb", "sample", 14, None, 3), ("op_nwhole_bb", "sample", 14, None, 3)] + [(f"op_{o}_{f}", "sample", 12) for o in ("exact", "inline", "rules", "disc") for f in ("5", "7")] + [(f"op_{o}_{f}", "sample", 12) for o in ("solv", "whole") for f in ("11", "13")]
            + [(f"op_{o}_{f}", "sample", 10) for o in ("free", "steps") for f in ("5", "7")],
}
PROPS["C15"] = {
    "level": "proof", "features": "c15",
    "verus": ["guards.vspec"],
    "private": ["ap_guard_5", "ap_guard_7", "ap_assemble"],
    "native": [("ap_conv_5", "sample", 10, None, 2), ("ap_conv_bb", "sample", 6), ("ap_glob_5", "sample", 8), ("ap_names", "sample", 3), ("ap_guard_5", "sample", 12, None, 2), ("ap_guard_7", "sample", 10), ("ap_assemble", "sample", 10, None, 2)],
}
PROPS["C16"] = {
    "level": "proof", "features": "c16",
    "verus": ["blocks.vspec"],
    "native": [(c, "sample", 8) for c in ("bl_collect", "bl_find", "bl_detect", "bl_super")] + [("bl_find", "exhaustive", 10)],
}
PROPS["C17"] = {
    "level": "proof", "features": "c17",
    "kani": {"harnesses": ["c_exec::proofs::xc_overlap", "c_exec::proofs::xc_rank"], "timeout": 200},
    "private": ["xc_overlap", "xc_rank"],
    "native": [("xc_eval", "sample", 12, None, 2), ("xc_calls", "sample", 12, None, 2), ("xc_overlap", "sample", 3), ("xc_rank", "sample", 3)],
}
PROPS["C18"] = {
    "level": "exploration", "features": "c18",
    "native": [("em_part", "sample", 10), ("em_combine", "sample", 12, None, 2), ("em_block", "sample", 12, None, 2)],
}
PROPS["C19"] = {
    "level": "exploration", "features": "c19",
    "native": [("tr_rows", "sample", 12, None, 2)],
}
PROPS["C20"] = {
    "level": "exploration", "features": "c20",
    "native": [("pg_modes", "sample", 14, None, 5)],
}
PAIRS = [f"rv_pair_{k}" for k in ("lui", "auipc", "load", "store", "call", "tail", "sys")]
PROPS["C21"] = {
    "level": "proof", "features": "c21",
    "kani": {"harnesses": ["c_lift::proofs::" + h for h in ("rv_word", "rv_half", "rv_single", "rv_syscalls")]
             + ["c_lift::stubbed::" + h for h in ["rv_args", "rv_section1"] + PAIRS], "timeout": 250, "jobs": 5},
    "private": ["rv_args", "rv_word", "rv_half", "rv_single", "rv_section", "rv_section1", "rv_syscalls", "el_dedup"] + PAIRS,
    "native": [("el_prog", "sample", 12, None, 3), ("el_dedup", "sample", 4), ("rv_half", "exhaustive", 5)]
            + [(c, "sample", 2) for c in ["rv_args", "rv_word", "rv_single", "rv_section", "rv_section1", "rv_syscalls"] + PAIRS],
}
PROPS["C22"] = {
    "level": "exploration", "features": "c22",
    "private": ["rv_scan1", "rv_scan2"],
    "native": [("el_rv64", "sample", 12, None, 3), ("rv_scan1", "sample", 5), ("rv_scan2", "sample", 5)],
}
