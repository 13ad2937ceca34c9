from .common import *
from ..trav import *


class C20(TravCheck):
    id = 'C20'
    header = 'cudatrav.hpp'
    programs = {'quick': 150, 'thorough': 1800}
    cases = {'quick': 16, 'thorough': 50}
    rule = ("A case is a generated structure (or several), 0-4 order transformations (blocks included) and one to three pairs of dimensions bound to blocks and threads. The launch dimensions are compared with the model's lengths; the stand-ins for blockIdx and threadIdx are set to each thread in turn, "
            "and the calls made by the inner traversers of all threads (with further sections and orders) are compared, one by one, with the model's enumeration. One program in eight only compares the launch dimensions, of lengths up to 2^32 - 1. Non-trivial: at least two calls (launch dimensions only: one above 700).")
    assumptions = ["the lengths of the bound dimensions do not depend on other indices", "device variables (threadIdx, blockIdx) are those of the repository's CUDA stand-in; no GPU is present"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([2, 3, 4, 6]))
        spec = gen_trav(g, nstructs=rng.choice([1, 1, 1, 2, 3]), norders=(0, 1, 1, 2, 2, 3, 4), depth=0, kinds=('each',), tuples=0.25, unsized=0.25 if rng.random() < 0.3 else 0.0, views=(0, 0, 0, 1, 2), limit=120)
        sig = union_sig([sig_of(x) for x in spec['structs']])
        for op in spec['order']['ops']:
            sig = apply(sig, op)
        ds = [d for d in dims(sig) if loopable([sig], d)]
        if len(ds) < 2:
            return None
        n = rng.choice([k for k in (2, 2, 4, 4, 6) if k <= len(ds)])
        # prefer the indices of blocks, as one would
        rng.shuffle(ds)
        plan = {'k': 'cuda', 'ds': ds[:n]}
        inner = step_sigs([sig], plan)
        plan['in'] = [gen_plan(g, inner, rng.choice([0, 0, 1, 1, 2]), ['sec', 'dims', 'each', 'eachd', 'order', 'loop'])]
        if rng.random() < 0.2:
            plan['in'].append(gen_plan(g, inner, 1, ['sec', 'dims', 'each', 'eachd']))
        spec['plan'] = [plan]
        if i % 8 == 3:
            spec['huge'] = 1
            return spec
        return go_long(rng, i, spec)

    def emit(self, spec):
        if not spec.get('huge'):
            return super().emit(spec)
        # launch dimensions of lengths that cannot be enumerated
        e = Emit(maxlen="c.pick({4, 200, 70000, 3000000, 0xffffffff})", big=True)
        t, mo, sig, parts = emit_trav(e, spec)
        plan = spec['plan'][0]
        if plan['k'] != 'cuda':
            raise Invalid
        step_sigs([sig], plan)
        ds = plan['ds']
        e.out("const std::vector<vf::u64> lens{%s};" % ", ".join("vf::mlen_min(%s, %d, std::vector<vf::St>{vf::St{{}, {}}})" % (mo, cid(d)) for d in ds))
        e.out("vf::u64 most = 0; for (vf::u64 l : lens) { c.require(l <= 0xffffffff); most = std::max(most, l); } c.tag(\"huge\"); c.barrier();")
        e.out("vf::cuda_dims(c, noarr::cuda_threads<%s>(%s), lens); c.nontrivial(most > 700); c.note(\"longest\", most);" % (", ".join(cdim(d) for d in ds), t))
        return {'body': "\n".join(e.lines)}

    def after(self, e, spec, sig, mo, parts):
        if 'cuda' not in plan_kinds(spec['plan']):
            raise Invalid


CHECK = C20()
