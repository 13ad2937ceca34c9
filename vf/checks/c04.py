from .common import *


class C04(StructCheck):
    id = 'C04'
    programs = {'quick': 200, 'thorough': 1600}
    cases = {'quick': 25, 'thorough': 80}
    rule = ("A case is a layout of 1-6 dimensions (static or dynamic lengths, optionally with views and tuples) of which 1-5 are merged by merge_zcurve with a generated maximum length and alignment "
            "(maxlen_alignment), plus concrete lengths that are multiples of the alignment (or equal powers of two when the alignment is the maximum). Small spaces: every merged index is compared with the "
            "exact Morton-order unranking, and the offsets reached must be those of the un-merged layout, each once. Large spaces (merged lengths up to 2^58): sampled indices against the same oracle. "
            "Non-trivial: at least two merged dimensions of length > 1.")
    assumptions = ["lengths are at most the maximum and multiples of the alignment, as documented"]

    def gen(self, rng, i):
        g = Gen(rng)
        mode = rng.choice(['cubepow', 'aligned', 'aligned', 'aligned', 'ones'])
        big = i % 4 == 3
        k = rng.choice([1, 2, 2, 2, 3, 3, 4, 5])
        extra = rng.choice([0, 0, 0, 1, 1])
        spec = g.scalar()
        names = rng.sample(g.names, k + extra)
        zd = names[:k]
        per = 58 if big else 9
        bits = max(1, per // k)      # bits of each length
        ab = 0
        if mode == 'aligned':
            ab = rng.randint(1, max(1, bits - 1)) if big else rng.randint(0, min(3, bits))
        al = 1 << ab
        order = names[:]
        rng.shuffle(order)
        if mode == 'cubepow':
            mxb = rng.randint(1, bits)
            shared = g.param(1 << rng.randint(0, mxb), None)
            if not shared['lit']:
                shared['pow2'] = mxb
            shared.pop('t', None)
            mx = 1 << (mxb + rng.choice([0, 0, 1, 3]))
            if mxb + 4 < 63 and rng.random() < 0.15:
                mx = 1 << 63
            al = mx
        else:
            span = max(1, (1 << bits) >> ab)
            mx = al * span
            while mx & (mx - 1):
                mx += mx & -mx
            mx *= rng.choice([1, 1, 1, 2, 8])
            if rng.random() < 0.2:
                mx = 1 << 63
        for d in order:
            if d in zd:
                if mode == 'cubepow':
                    p = dict(shared)
                else:
                    n = al * rng.randint(1, span)
                    p = g.param(n)
                    p.pop('t', None)
                    if not p['lit']:
                        p['mul'] = al
                        p['max'] = span
            else:
                p = g.param(rng.randint(1, 4))
                p.pop('t', None)
                if not p['lit']:
                    p['mul'] = 1
                    p['max'] = 3
            spec['ops'].append({'op': 'vector', 'd': d, 'p': p, 'form': rng.randrange(2)})
        rng.shuffle(zd)
        spec['z'] = len(spec['ops'])
        spec['ops'].append({'op': 'zcurve', 'ds': zd, 'd': rng.choice(zd + g.fresh(sig_of(spec))), 'max': mx, 'al': al})
        spec['large'] = big
        if not big and rng.random() < 0.3:
            g.add(spec, VIEWS + BLOCKS, limit=3000)
        return spec

    def body(self, e, spec, s, m, sig):
        zi = [i for i, o in enumerate(spec['ops']) if o['op'] == 'zcurve']
        if not zi:
            raise Invalid
        zop = spec['ops'][zi[0]]
        last = zi[0] == len(spec['ops']) - 1
        e.out("c.require(vf::total_ok_model(%s));" % m)
        e.out(ADDRESS.format(s=s, m=m))
        e.out("c.nontrivial(%d >= 2 && size >= 4);" % len(zop['ds']))
        e.out("c.tag(\"zdims:%d\"); c.tag(\"align:2^%d\");" % (len(zop['ds']), zop['al'].bit_length() - 1))
        if spec['large']:
            e.out("vf::sample_some(c, %s{}, %s, chk, 25);" % (csig(sig), m))
            e.out("if (size >= (1ull << 32)) c.tag(\"huge\");")
            return
        e.out("c.require(vf::count_all(c, %s{}, %s) <= 6000);" % (csig(sig), m))
        e.out("std::vector<vf::u64> offs; chk.offs = &offs;")
        e.out("vf::walk_all(c, %s{}, %s, chk); c.barrier();" % (csig(sig), m))
        if last:
            s0, m0, sig0 = emit_spec(e, dict(spec, ops=spec['ops'][:-1]))
            e.out("vf::Offsets all{%s}; vf::walk_all(c, %s{}, %s, all);" % (s0, csig(sig0), m0))
            e.out("auto want = all.offs; std::sort(offs.begin(), offs.end()); std::sort(want.begin(), want.end());")
            e.out("c.expect(offs == want, \"the elements reached are not those of the original, each once\"); c.tag(\"coverage\");")


CHECK = C04()
