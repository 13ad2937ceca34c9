from .common import *

BIJ = BLOCKS + ['rename', 'reorder', 'hoist', 'reverse']


class C03(StructCheck):
    id = 'C03'
    programs = {'quick': 280, 'thorough': 2800}
    cases = {'quick': 25, 'thorough': 80}
    rule = ("A case is a generated layout, 0-2 views, then 1-4 of into_blocks (minor, major or both lengths given), into_blocks_dynamic, into_blocks_static, merge_blocks (also the inverse of "
            "a previous split or merge) mixed with other views, with concrete run-time parameters. Every index is compared with the reference model; and when only bijective operations "
            "follow the base, the multiset of offsets reached must equal that of the base walked on its own. Non-trivial: at least two elements, and the split or merged dimension longer than 1.")
    assumptions = ["into_blocks and merge_blocks: block length divides the length (documented precondition)", "tuple members have one common alignment class"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([4, 6, 8, 12]))
        g.member_views = SLICES + ['rename', 'blocks', 'blocks_dyn', 'merge']
        spec = g.layout(depth=rng.choice([1, 2, 2, 3]), tuples=0.25, bcast=0.08, unsized=0.1, limit=250)
        if rng.random() < 0.3:
            g.focus_on(spec)
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 2])):
                g.add(spec, VIEWS + BLOCKS + ['vector'])
        pre = len(spec['ops'])
        only = rng.random() < 0.5
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            k = rng.random()
            before = len(spec['ops'])
            g.add(spec, BLOCKS if k < 0.75 or before == pre else (BIJ if only else ALL), limit=600, maxdims=8)
            if len(spec['ops']) > before and rng.random() < 0.3:
                o = spec['ops'][-1]
                try:
                    if o['op'] == 'blocks':
                        spec['ops'].append({'op': 'merge', 'M': o['M'], 'm': o['m'], 'd': o['d'], 'form': 0})
                        sig_of(spec)
                    elif o['op'] == 'merge' and o['d'] not in (o['M'], o['m']):
                        n = fnodes(sig_of(spec, before), o['m'])[0].n
                        spec['ops'].append({'op': 'blocks', 'd': o['d'], 'M': o['M'], 'm': o['m'], 'mode': 'minor', 'p': g.param(n), 'form': 1})
                        sig_of(spec)
                except Invalid:
                    spec['ops'].pop()
        g.finish(spec)
        spec['pre'] = pre
        if i % 7 == 6:
            spec['big'] = 1
        return spec

    def body(self, e, spec, s, m, sig):
        ks = [o['op'] for o in spec['ops']]
        if not any(k in BLOCKS for k in ks):
            raise Invalid
        if spec.get('big'):
            e.out("c.require(vf::total_ok_model(%s));" % m)
            e.out(ADDRESS.format(s=s, m=m))
            e.out("vf::sample_some(c, %s{}, %s, chk, 12); c.nontrivial(size >= (1ull << 32)); if (size >= (1ull << 32)) c.tag(\"huge\");" % (csig(sig), m))
            return
        e.out(ADDRESS.format(s=s, m=m))
        e.out("c.require(vf::count_all(c, %s{}, %s) <= 4000);" % (csig(sig), m))
        e.out("std::vector<vf::u64> offs; chk.offs = &offs;")
        e.out("vf::walk_all(c, %s{}, %s, chk); c.barrier();" % (csig(sig), m))
        # independent coverage oracle: against the structure before the trailing run of bijective operations
        k = len(ks)
        while k > 0 and ks[k - 1] in BIJ and not unset_dims(sig_of(spec, k - 1)):
            k -= 1
        if k < len(ks):
            e2 = e
            sub = dict(spec, ops=spec['ops'][:k])
            s0, m0, sig0 = emit_spec(e2, sub)
            e.out("vf::Offsets all{%s}; vf::walk_all(c, %s{}, %s, all);" % (s0, csig(sig0), m0))
            e.out("auto got = offs, want = all.offs; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());")
            e.out("c.eq(got.size(), want.size(), \"number of elements reached\"); c.expect(got == want, \"the elements reached are not those of the original, each once\");")
            e.out("c.tag(\"coverage\");")
            if ks[k:] and set(ks[k:]) <= {'blocks', 'blocks_dyn', 'blocks_static'}:
                e.out("c.expect(offs == all.offs, \"split indices do not reach the elements in the original order\"); c.tag(\"order\");")
        e.out("c.nontrivial(chk.leaves >= 2); if (!chk.leaves) c.tag(\"empty\"); c.note(\"elements\", chk.leaves);")


CHECK = C03()
