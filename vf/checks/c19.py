from .common import *

SIZES = {'char': 1, 'short': 2, 'vf::Odd3': 3, 'int': 4, 'float': 4, 'double': 8, 'vf::Tri12': 12, 'vf::Big24': 24}


class C19(Check):
    id = 'C19'
    header = 'striped.hpp'
    programs = {'quick': 150, 'thorough': 2000}
    cases = {'quick': 8, 'thorough': 30}
    rule = ("A case is a generated structure (layout under views) of elements of 1 to 24 bytes with 1-40 stripes over generated bank counts and widths, with the scalar or an inner sub-structure as the piece, and views (or vectors) above the stripes. All bytes of all elements in all stripes are enumerated: none is shared, "
            "no memory cell has data of two stripes, all lie within the size, stripes have a constant distance, pieces keep their content together, and no more stripes share a bank than necessary; the stripe of the current thread is the default. Non-trivial: at least 2 stripes and 2 elements.")
    assumptions = ["the layout below the stripes consists of whole pieces of the element type", "device variables (threadIdx, blockDim) are those of the repository's CUDA stand-in"]

    def gen(self, rng, i):
        t = rng.choice(list(SIZES))
        g = Gen(rng, types=[t], maxn=rng.choice([3, 4, 6, 9]))
        piece = []
        if rng.random() < 0.35:
            spec = {'base': 'scalar', 't': t, 'ops': []}
            for _ in range(rng.choice([1, 1, 2])):
                spec['ops'].append({'op': 'vector', 'd': g.fresh(sig_of(spec))[0], 'p': g.param(rng.choice([1, 2, 3, 4]), lit=True)})
            piece = len(spec['ops'])
            for _ in range(rng.choice([1, 2])):
                spec['ops'].append({'op': 'vector', 'd': g.fresh(sig_of(spec))[0], 'p': g.lenparam()})
        else:
            spec = g.layout(depth=rng.choice([0, 1, 2, 3]), tuples=0.2, bcast=0.05, limit=80)
            piece = 0
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            g.add(spec, VIEWS + BLOCKS + ['vector'], limit=80)
        at = len(spec['ops'])
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
            g.add(spec, VIEWS + BLOCKS + ['vector', 'vector'], limit=100)
        return {'s': spec, 'at': at, 'piece': piece, 't': t, 'n': rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 12, 16, 16, 24, 31, 32, 32, 33, 40]), 'bc': rng.choice([32, 32, 32, 32, 16, 8, 4, 1, 5]),
                'bw': rng.choice([4, 4, 4, 8, 2, 1, 3]), 'form': rng.randrange(3)}

    def describe(self, spec):
        return describe_spec(spec['s']) + " with cuda_striped<%d, %d banks of %d bytes> after operation %d (piece: %d)" % (spec['n'], spec['bc'], spec['bw'], spec['at'], spec['piece'])

    def shrinks(self, spec):
        for k in ('n', 'bc', 'bw'):
            for v in {'n': [1, 2, 3], 'bc': [32, 1, 4], 'bw': [4, 1, 2]}[k]:
                if v != spec[k]:
                    yield dict(spec, **{k: v})
        ops = spec['s']['ops']
        for i in range(len(ops) - 1, spec['piece'] - 1, -1):
            y = dict(spec, s=dict(spec['s'], ops=ops[:i] + ops[i + 1:]))
            if i < spec['at']:
                y['at'] -= 1
            yield y

    def emit(self, spec):
        e = Emit(maxlen=6)
        base = dict(spec['s'], ops=spec['s']['ops'][:spec['at']])
        s, m, sig = emit_spec(e, base)
        if unset_dims(sig):
            raise Invalid
        uniform = base['base'] == 'scalar'
        elem = SIZES[spec['t']]
        if spec['piece']:
            pe = "noarr::scalar<%s>()" % spec['t']
            for o in spec['s']['ops'][:spec['piece']]:
                pe += " ^ noarr::array<%s, %d>()" % (cdim(o['d']), o['p']['n'])
                elem *= o['p']['n']
            E = "decltype(%s)" % pe
        else:
            E = "noarr::scalar<%s>" % spec['t']
        banks = ", %d, %d" % (spec['bc'], spec['bw'])
        if spec['bc'] == 32 and spec['bw'] == 4 and spec['form']:
            banks = ""
        form = "noarr::cuda_striped<%d%s>()" % (spec['n'], banks) if uniform and not spec['piece'] and spec['form'] != 2 and is_cube(sig) else "noarr::cuda_striped<%d, %s%s>()" % (spec['n'], E, banks)
        e.out("const auto striped = %s ^ %s;" % (s, form))
        s = "striped"
        e.out("constexpr vf::u64 conflict = decltype(striped)::max_conflict_size;")
        for op in spec['s']['ops'][spec['at']:]:
            p, m = emit_op(e, sig, op, m)
            v = e.new('s')
            e.out("const auto %s = %s ^ %s;" % (v, s, p))
            s = v
            sig = apply(sig, op)
        if unset_dims(sig):
            raise Invalid
        e.out(tag_lines(spec['s'], sig).strip())
        e.out("const vf::N mm = %s; using Sig = %s;" % (m, csig(sig)))
        e.out("const vf::u64 leaves = vf::count_all(c, Sig{}, mm); c.require(leaves <= 120);")
        e.out("const vf::u64 size = %s | noarr::get_size();" % s)
        e.out("vf::StripeCheck<std::remove_cvref_t<decltype(%s)>> chk{c, %s, mm, size, {%d, %d, %d, %d}}; vf::walk_all(c, Sig{}, mm, chk);" % (s, s, spec['n'], elem, spec['bc'], spec['bw']))
        e.out("chk.banks(conflict); vf::check_threads<std::remove_cvref_t<decltype(striped)>>(c, %d); c.barrier();" % spec['n'])
        e.out("vf::Pair2<std::remove_cvref_t<decltype(%s)>> two{c, %s, size}; vf::walk_all(c, Sig{}, mm, two);" % (s, s))
        e.out("c.nontrivial(leaves >= 2 && %d >= 2); c.note(\"elements\", leaves);" % spec['n'])
        if spec['piece']:
            e.out("c.tag(\"inner piece\");")
        return {'body': "\n".join(e.lines)}


CHECK = C19()
