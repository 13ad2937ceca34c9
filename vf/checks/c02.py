from .common import *


class C02(StructCheck):
    id = 'C02'
    programs = {'quick': 320, 'thorough': 3200}
    cases = {'quick': 25, 'thorough': 80}
    rule = ("A case is a generated layout (possibly with tuples and bcast) under 1-6 views drawn from fix, shift, slice, span, step, auto-step, reverse, rename, reorder, hoist, join, "
            "bcast, set_length, compiled as a program, with concrete run-time parameters; every index of the view is compared with the reference model's mapping. "
            "Non-trivial: at least two elements in the view and at least one view that is not a pure re-ordering.")
    assumptions = ["tuple members have one common alignment class", "parameters within the documented preconditions (start <= length, start + length <= length, start < step, fixed index < length)"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([4, 6, 8]))
        g.member_views = SLICES + ['rename']
        big = i % 6 == 5
        spec = g.layout(depth=rng.choice([1, 2, 3, 3, 4]), tuples=0.3, bcast=0.1, unsized=0.15)
        if rng.random() < 0.3:
            g.focus_on(spec)
        n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
        for _ in range(n):
            g.add(spec, VIEWS + ['vector'] + (['setlen'] * 3 if unset_dims(sig_of(spec)) else []))
        g.finish(spec)
        if big:
            spec['big'] = 1
        return spec

    def body(self, e, spec, s, m, sig):
        ks = kinds_of(spec)
        if not any(k in VIEWS for k in ks):
            raise Invalid
        if spec.get('big'):
            e.out("c.require(vf::total_ok_model(%s));" % m)
        e.out(ADDRESS.format(s=s, m=m))
        real = any(k in SLICES or k in ('rename', 'join', 'bcast') for k in ks)
        if spec.get('big'):
            e.out("vf::sample_some(c, %s{}, %s, chk, 12); c.nontrivial(size >= (1ull << 32)); if (size >= (1ull << 32)) c.tag(\"huge\");" % (csig(sig), m))
        else:
            e.out("c.require(vf::count_all(c, %s{}, %s) <= 4000);" % (csig(sig), m))
            e.out("vf::walk_all(c, %s{}, %s, chk);" % (csig(sig), m))
            e.out("c.nontrivial(chk.leaves >= 2 && %d); if (!chk.leaves) c.tag(\"empty\"); c.note(\"elements\", chk.leaves);" % real)


CHECK = C02()
