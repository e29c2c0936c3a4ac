"""Control flow: nested loops, branches, matches, ternaries and short circuits under register pressure."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Check, run_cases, run_main
from lang import Prof
from progs import prog


def gen_flow(d):
    t = d.choice([["i64", "i32"], ["i64", "u8", "i32"], ["i64"], ["i32", "u32", "i16"]])
    return prog(d, Prof(types=t, max_fns=2, max_stmts=9, max_depth=2, max_params=4))


def gen_pressure(d):
    """many simultaneously live variables of both register classes"""
    t = d.choice([["i64", "f64"], ["i64"], ["f64", "f32", "i64"], ["i32", "i64", "f64"]])
    return prog(d, Prof(types=t, max_fns=2, max_stmts=14, max_depth=3, max_params=10, max_vars=60, match=d.bool(1, 2)))


def gen_calls(d):
    """values live across calls inside loops"""
    return prog(d, Prof(types=["i64", "i32", "f64"], max_fns=4, max_stmts=6, max_depth=3, max_params=6))


def main():
    chk = Check("P03", rule="a case is non-trivial when the generated program evaluates at least three operator nodes and "
                            "prints at least one value; distinct by generated source")
    run_cases(chk, None, 4500, 50000, batch=45,
              streams=[("flow", 3, gen_flow), ("pressure", 2, gen_pressure), ("calls", 2, gen_calls)])
    chk.finish()


run_main(main)
