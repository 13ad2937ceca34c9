import random
from .common import *


class C05(Check):
    id = 'C05'
    programs = {'quick': 200, 'thorough': 1800}
    cases = {'quick': 1, 'thorough': 1}
    rule = ("A case is a generated composition (layouts, tuples, views, blocks, merges, z-curves) built three times with the same parameter values: all literals, all run-time values, and a random mixture; "
            "all lengths, sizes and offsets must agree with each other and with the reference model at every index (one program in four has lengths up to 2^20 each, totals beyond 2^32, and sampled indices); quantities given by literal indices, and the constexpr evaluation of the all-literal "
            "structure, must agree too. Non-trivial: at least two elements and at least two parameters.")
    assumptions = ["parameters within the documented preconditions; dimensions of tuples are always indexed by literals"]

    def gen(self, rng, i):
        big = i % 4 == 3
        g = Gen(rng, maxn=rng.choice([4, 6, 8]), big=big)
        spec = g.layout(depth=rng.choice([1, 2, 2, 3, 3]) + big, tuples=0.25, bcast=0.1, unsized=0.1)
        if rng.random() < 0.3:
            g.focus_on(spec)
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5])):
            g.add(spec, VIEWS + BLOCKS + (['zcurve'] if rng.random() < 0.4 else []) + (['setlen'] * 3 if unset_dims(sig_of(spec)) else []))
        g.finish(spec)
        return {'s': spec, 'seed': rng.randrange(1 << 30), 'big': int(big)}

    def describe(self, spec):
        return describe_spec(spec['s'])

    def emit(self, spec):
        rng = random.Random(spec['seed'])
        e = Emit()
        lit = to_dyn(spec['s'], True)
        sl, m, sig = emit_spec(e, lit)
        if unset_dims(sig):
            raise Invalid
        nparams = sum(1 for k in kinds_of(lit))
        # the others: same values, spelled differently
        names = []
        for variant in (to_dyn(spec['s'], False), spec['s']):
            sig_of(variant)
            e2 = Emit(prefix='v%d' % len(names))
            e2.draw = lambda p, expr, e2=e2: p['lit'] or e2.params.setdefault(p['id'], "vf::opaque(%dull)" % p['n'])
            s, _, _ = emit_spec(e2, variant)
            for l in e2.lines:
                if l.strip().startswith('const auto'):
                    e.out(l.strip())
            names.append(s)
        sd, sm = names
        e.out(tag_lines(spec['s'], sig).strip())
        e.out(ADDRESS.format(s=sl, m=m))
        e.out("c.eq(%s | noarr::get_size(), size, \"size (run-time parameters)\"); c.eq(%s | noarr::get_size(), size, \"size (mixed parameters)\");" % (sd, sm))
        walk, end = "vf::walk_all", ""
        if spec.get('big'):
            walk, end = "vf::sample_some", ", 12"
            e.out("c.require(vf::total_ok_model(%s)); if (size >= (1ull << 32)) c.tag(\"huge\");" % m)
        else:
            e.out("c.require(vf::count_all(c, %s{}, %s) <= 3000);" % (csig(sig), m))
        e.out("%s(c, %s{}, %s, chk%s); c.barrier();" % (walk, csig(sig), m, end))
        for s in (sd, sm):
            e.out("vf::AddressCheck<std::remove_cvref_t<decltype(%s)>> chk_%s{c, %s, %s, size}; %s(c, %s{}, %s, chk_%s%s); c.barrier();" % (s, s, s, m, walk, csig(sig), m, s, end))
        # literal indices
        for n, idx in enumerate(index_tuples(sig, rng, 4)):
            st = lit_state(idx, rng)
            ms = model_state(idx)
            e.out("{ constexpr auto st = %s; const vf::u64 want = %s->offset(%s);" % (st, m, ms))
            e.out("\tc.eq(%s | noarr::offset(st), want, \"offset at literal indices, literal structure\"); c.eq(%s | noarr::offset(st), want, \"offset at literal indices, run-time structure\"); c.eq(%s | noarr::offset(st), want, \"offset at literal indices, mixed structure\");" % (sl, sd, sm))
            # partial literal states: lengths of the remaining dimensions
            k = rng.randrange(len(idx) + 1)
            if k < len(idx):
                pst = lit_state(idx[:k], rng)
                d = idx[k][0]
                e.out("\tconst vf::u64 wl = vf::mlen(%s, %d, %s);" % (m, cid(d), model_state(idx[:k])))
                for s in (sl, sd, sm):
                    e.out("\tc.eq(%s | noarr::get_length<%s>(%s), wl, \"length at literal indices\");" % (s, cdim(d), pst))
            e.out("}")
        # constexpr evaluation
        text = [l for l in e.lines if l.strip().startswith("const auto") and not l.strip().startswith("const auto v")]
        if not any('vf::opaque' in l for l in text):
            e.out("{")
            for l in text:
                e.out("\t" + l.strip().replace("const auto", "constexpr auto", 1))
            e.out("\tconstexpr std::size_t csize = %s | noarr::get_size(); c.eq(csize, size, \"constexpr size\");" % sl)
            for n, idx in enumerate(index_tuples(sig, rng, 2)):
                e.out("\t{ constexpr std::size_t off = %s | noarr::offset(%s); c.eq(off, %s->offset(%s), \"constexpr offset\"); }" % (sl, lit_state(idx, rng), m, model_state(idx)))
            e.out("}")
        e.out("c.nontrivial(chk.leaves >= 2 && %d >= 2); c.note(\"elements\", chk.leaves);" % nparams)
        return {'body': "\n".join(e.lines)}


CHECK = C05()
