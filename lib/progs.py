"""Random whole programs with their expected output, shared by the code generation checks."""
from pbt import Case
from lang import Ctx, Excluded, Fuel, Gen


def prog(d, prof, ncalls=4):
    g = Gen(d, prof)
    for _ in range(d.int(1, prof.max_fns)):
        g.func()
    run = g.run_entry(ncalls)
    c = Ctx()
    try:
        run(c)
    except Fuel:
        return Case("fn @@run() {\n}", [], nontrivial=False)
    except Excluded:
        return Case("fn @@run() {\n}", [], nontrivial=False, feats=["excluded: known finding"])
    return Case(g.finish(), c.out, nontrivial=g.ops >= 3 and len(c.out) > 0, feats=sorted(g.feats))
