from .common import *
from .c15 import facts

BOUNDED = {'vector', 'uvector', 'bcast', 'setlen', 'fix', 'shift', 'slice1', 'slice2', 'span1', 'span2', 'reverse', 'rename', 'hoist', 'blocks'}


class C16(StructCheck):
    id = 'C16'
    header = 'lowest.hpp'
    programs = {'quick': 200, 'thorough': 2400}
    cases = {'quick': 10, 'thorough': 30}
    per_tu = 6
    rule = ("A case is a generated layout under 0-6 views and blocking operations, compiled as a program, with concrete lengths and parameters. For the empty state, every prefix of the indices and every state with all indices "
            "but one, and every dimension a lower bound is reported for, lower_bound_along and lower_bound_at are asked for the whole dimension and for ranges of its indices (all of them up to four indices, ten random ones above), and compared "
            "with the offsets of all elements. Non-trivial: at least four elements and four ranges, and a lower bound that is not at the first index of its range or not zero.")
    assumptions = ["blocks of merged dimensions are excluded: a recorded finding"]
    probes = [
        {'key': 'lowest-blocks-of-merged', 'wrong': 'lower bound',
         'body': "\tauto s = noarr::scalar<int>() ^ noarr::vector<'y'>(3) ^ noarr::vector<'x'>(4) ^ noarr::hoist<'y'>() ^ noarr::merge_blocks<'y', 'x', 'z'>() ^ noarr::into_blocks<'z', 'Z', 'w'>(3);\n"
                 "\tvf::u64 lo = ~0ull; for (int w = 0; w < 3; w++) lo = std::min<vf::u64>(lo, s | noarr::offset<'Z', 'w'>(1, w));\n"
                 "\tif constexpr (noarr::HasLowerBoundAlong<decltype(s), 'w', noarr::state<>>) c.eq((vf::u64)(s | noarr::offset<'Z', 'w'>(1, (int)noarr::lower_bound_at<'w'>(s, noarr::empty_state, 0, 3))), lo, \"offset at the reported lower bound\"); c.nontrivial(); c.barrier();"},
    ]

    def gen(self, rng, i):
        if i % 9 == 5:
            g = Gen(rng, maxn=rng.choice([3, 4, 6]), lit=0.15)
            spec = g.layout(depth=rng.choice([1, 2, 3, 3]), tuples=0, bcast=0.15)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                g.add(spec, sorted(BOUNDED - {'uvector', 'setlen'}) + ['reverse'], maxdims=6)
            spec['big'] = 1
            return spec
        g = Gen(rng, maxn=rng.choice([3, 4, 5]))
        spec = g.layout(depth=rng.choice([1, 2, 3, 3, 4]), tuples=0.25, bcast=0.15, unsized=0.2, limit=120)
        kinds = rng.choice([['shift', 'slice1', 'slice2', 'span1', 'span2', 'reverse', 'reverse', 'rename', 'hoist', 'vector'], ['blocks', 'blocks_dyn', 'blocks_static', 'reverse', 'shift', 'rename'], ['merge', 'reverse', 'shift', 'slice2', 'hoist'],
                            ['blocks', 'blocks_dyn', 'merge', 'reverse', 'span2'], ['reverse', 'shift', 'fix', 'vector', 'bcast', 'slice1'], [k for k in ALL if k not in ('step', 'autostep', 'join')] + ['reverse', 'reverse'], ALL])
        k = rng.choice([0, 1, 2, 2, 3, 3, 4, 6])
        if rng.random() < 0.35:
            g.focus_on(spec)
            kinds = ['reverse', 'reverse', 'reverse', 'shift', 'slice2', 'span2', rng.choice(['blocks', 'blocks_dyn', 'blocks_static', 'merge', 'blocks_dyn']), rng.choice(['blocks', 'blocks_dyn', 'blocks_static', 'merge'])]
            k = rng.choice([2, 3, 3, 4])
        for _ in range(k):
            g.add(spec, kinds + (['setlen'] if unset_dims(sig_of(spec)) else []), limit=150, maxdims=6)
        n = len(spec['ops'])
        g.finish(spec)
        if len(spec['ops']) > n and rng.random() < 0.5:
            spec['instate'] = 1
        return spec

    def emit_big(self, spec):
        e = Emit(big=True)
        s, m, sig = emit_spec(e, spec)
        if unset_dims(sig) or not dims(sig) or not set(kinds_of(spec)) <= BOUNDED:
            raise Invalid
        e.out(tag_lines(spec, sig).strip())
        e.out("const vf::N mm = %s; c.require(vf::total_ok_model(mm)); using T = std::remove_cvref_t<decltype(%s)>;" % (m, s))
        e.out("vf::BigLow<T%s> rep{c, %s, mm}; vf::sample_some(c, %s{}, mm, rep, 8); c.barrier();" % ("".join(", " + cdim(d) for d in dims(sig)), s, csig(sig)))
        e.out("const vf::u64 size = mm->size({}); c.nontrivial(rep.asked >= 2 && size >= (1ull << 32)); if (size >= (1ull << 32)) c.tag(\"huge\");")
        return {'body': "\n".join(e.lines)}

    def emit(self, spec):
        if spec.get('big'):
            return self.emit_big(spec)
        e = Emit(maxlen=5)
        tail = []
        if spec.get('instate'):
            spec = dict(spec, ops=list(spec['ops']))
            while spec['ops'] and spec['ops'][-1]['op'] == 'setlen':
                tail.insert(0, spec['ops'].pop())
        s, m, sig = emit_spec(e, spec)
        full = dict(spec, ops=spec['ops'] + tail)
        L = 'noarr::empty_state'
        for op in tail:
            if any(o['op'] != 'uvector' and op['d'] in (o.get('d'), o.get('a'), o.get('b'), o.get('M'), o.get('m')) for o in spec['ops']):
                if any(o['op'] not in ('uvector', 'vector', 'bcast', 'setlen', 'hoist', 'reorder', 'rename', 'join', 'shift', 'reverse') for o in spec['ops']):
                    raise Invalid
            _, m = emit_op(e, sig, op, m)
            L += ".with<noarr::length_in<%s>>(%s)" % (cdim(op['d']), e.arg(op['p']))
            sig = apply(sig, op)
        if unset_dims(sig):
            raise Invalid
        ks = kinds_of(full)
        f = facts(full)
        ds = dims(sig)
        if len(ds) > 5:
            raise Invalid
        tup = {}
        for d in ds:
            os = [o for o, _ in occurrences(sig, d)]
            if any(isinstance(o, D) for o in os):
                if any(isinstance(o, F) for o in os):
                    raise Invalid
                if all(isinstance(x, F) and x.guard for o in os for x in o.subs):
                    if 'fix' in ks:
                        raise Invalid
                    tup[d] = 'vf::Border'
                else:
                    tup[d] = min(len(o.subs) for o in os)
        e.out(tag_lines(full, sig).strip() + (' c.tag("lengths in state");' if tail else ''))
        e.out("const vf::N mm = %s; const auto L = %s;" % (m, L))
        e.out("c.require(vf::count_all(c, %s{}, mm) <= 400);" % csig(sig))
        e.out("using T = std::remove_cvref_t<decltype(%s)>;" % s)
        dl = "".join(", " + cdim(d) for d in ds)
        e.out("vf::Pool pool{c}; vf::Low low{pool};")
        e.out("vf::Collect<T, std::remove_cvref_t<decltype(L)>, vf::Need<>> col{pool, %s, L}; { vf::St st; vf::walk(c, %s{}, mm, st, L, col); }" % (s, csig(sig)))
        bits = lambda x: sum(1 << i for i, d in enumerate(ds) if d in x)
        # the blocks of a dimension split dynamically, under renames
        dynM, other = set(), None
        if sum(o['op'] == 'blocks_dyn' for o in full['ops']) > 1 and 'reverse' in ks:
            raise Invalid
        minors = set()
        for o in full['ops']:
            if o['op'] == 'blocks_static':
                minors.add(o['m'])
            if o['op'] == 'rename':
                minors |= {dict(o['pairs']).get(x, x) for x in minors}
            if o['op'] == 'blocks_dyn':
                dynM, other = {o['M']}, o['m']
            elif o['op'] == 'rename':
                m2 = dict(o['pairs'])
                dynM, other = {m2.get(x, x) for x in dynM}, m2.get(other, other)
            elif o['op'].startswith(('slice', 'span', 'shift', 'step', 'fix')) and ({other} | minors) & ({o.get('d'), *o.get('ds', ())} - {None}) and 'reverse' in ks:
                raise Invalid   # (the bound is that of the whole block, of which a part is then left out)
            elif dynM and o.get('d') not in dynM | {other} and {o.get('M'), o.get('m'), o.get('a')} & (dynM | {other}):
                dynM, other = set(), None
        absolute = not any(k.startswith('blocks') for k in ks)
        e.out("vf::LowReport<T, vf::TL<%s>, vf::GuardRule<vf::Need<%s>, vf::Need<%s>>, %s%s> rep{low, %s, %dull, %dull, %d, %s, mm, col.empties};" % (", ".join("vf::TD<%s, %s>" % (cdim(d), n) for d, n in tup.items()), ", ".join(cdim(d) for d in ds if tup.get(d) == 'vf::Border'), ", ".join(cdim(d) for d in ds if tup.get(d, 'vf::Border') != 'vf::Border'), 'true' if absolute else 'false', dl, s, bits(f.split), bits(dynM), cid(other) if other else -1, 'true' if 'reverse' in ks else 'false'))
        e.out("rep.with(L, {});")
        e.out("{ vf::St st; vf::walk(c, %s{}, mm, st, L, rep); }" % csig(sig))
        if full['base'] == 'scalar' and set(ks) <= BOUNDED:
            for d in ds:
                e.out("c.expect(noarr::HasLowerBoundAlong<T, %s, std::remove_cvref_t<decltype(L)>>, \"no lower bound is reported along %s\");" % (cdim(d), d))
        e.out("c.barrier();")
        e.out("if (low.whole) c.tag(\"lower bound\"); if (low.inner) c.tag(\"attained inside the range\"); if (low.values) c.tag(\"non-zero lower bound\");")
        e.out("c.note(\"elements\", pool.el.size()); c.note(\"ranges\", low.ranged);")
        e.out("c.nontrivial(pool.el.size() >= 4 && low.ranged >= 4 && low.inner + low.values >= 1);")
        return {'body': "\n".join(e.lines)}

    def shrinks(self, spec):
        if spec.get('instate'):
            yield {k: v for k, v in spec.items() if k != 'instate'}
        yield from super().shrinks(spec)


CHECK = C16()
