import copy
import random
from .common import *


def tree(rng, xs):
    """a random grouping of xs, joined with ^"""
    if len(xs) == 1:
        return xs[0]
    k = rng.randint(1, len(xs) - 1)
    return "(%s ^ %s)" % (tree(rng, xs[:k]), tree(rng, xs[k:]))


def neutrals(rng, xs, p=0.25):
    out = []
    for x in xs:
        if rng.random() < p:
            out.append("noarr::neutral_proto()")
        out.append(x)
    if rng.random() < p or not out:
        out.append("noarr::neutral_proto()")
    return out


class C22(Check):
    id = 'C22'
    programs = {'quick': 170, 'thorough': 1800}
    cases = {'quick': 10, 'thorough': 40}
    rule = ("A case is a generated structure and sequence of transformations with concrete parameters. The transformations are applied one by one and in random groupings (nested compositions, with neutral transformations "
            "inserted, wrapped by make_proto, applied through packs and to_each); all must have the same type, and the same lengths, offsets and size as the reference model of the sequence. Non-trivial: at least two transformations and one element.")
    assumptions = ["transformations are valid for the structure they are applied to"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([3, 4, 5]))
        mode = rng.choice(['plain', 'plain', 'tuple', 'each', 'protos'])
        if mode == 'plain':
            spec = g.layout(tuples=0.15, bcast=0.1)
            common = []
        elif mode == 'tuple':
            while True:
                spec = g.layout(tuples=1.0, bcast=0.1)
                if spec['base'] == 'tuple':
                    break
            common = []
        else:
            k = rng.choice([2, 2, 3])
            d = rng.choice(g.names)
            saved = g.names
            g.names = [x for x in saved if x != d]
            if mode == 'each':
                subs = [g.layout(rng.choice([0, 1, 1]), 0.2, 0.1, limit=20) for _ in range(k)]
                probe = copy.deepcopy(subs[0])
                n0 = len(probe['ops'])
                for _ in range(rng.choice([1, 2])):
                    g.add(probe, ['vector', 'vector', 'bcast'] + (VIEWS if rng.random() < 0.3 else []))
                common = probe['ops'][n0:]
            else:
                x = g.layout(rng.choice([0, 1, 2]), 0.2, 0.1, limit=20)
                subs = []
                for _ in range(k):
                    y = copy.deepcopy(x)
                    for _ in range(rng.choice([0, 1, 2])):
                        g.add(y, ['vector', 'bcast'] + VIEWS, limit=60)
                    subs.append(y)
                common = []
            g.names = saved
            spec = {'base': 'tuple', 'd': d, 'subs': subs, 'ops': []}
            if mode == 'each':
                for y in subs:
                    y['ops'] = y['ops'] + copy.deepcopy(common)
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            g.add(spec, VIEWS + BLOCKS + ['vector'])
        return {'s': spec, 'mode': mode, 'ncommon': len(common), 'seed': rng.randrange(1 << 30)}

    def describe(self, spec):
        return describe_spec(spec['s'])

    def emit(self, spec):
        rng = random.Random(spec['seed'])
        e = Emit()
        sp = spec['s']
        mode, nc = spec['mode'], spec['ncommon']
        # reference, applied one by one
        s, m, sig = emit_spec(e, sp)
        if unset_dims(sig):
            raise Invalid
        e.out(tag_lines(sp, sig).strip())
        e.out('c.tag("mode:%s");' % mode)
        if sp['base'] != 'tuple':
            mode = 'plain'

        def protos(ops, sig0):
            """proto texts of ops (parameters are already drawn: emission only spells them)"""
            out = []
            q = Emit()
            q.params = e.params
            sg = sig0
            for op in ops:
                t, _ = emit_op(q, sg, op, 'nullptr')
                sg = apply(sg, op)
                out.append("(%s)" % t)
            return out
        e.out("const vf::u64 size = %s->size({}); c.require(vf::count_all(c, %s{}, %s) <= 200);" % (m, csig(sig), m))

        def struct(x):
            if x['base'] == 'scalar':
                return "noarr::scalar<%s>()" % x['t']
            return "(noarr::pack(%s) ^ noarr::tuple<%s>())" % (", ".join(apply_all(y) for y in x['subs']), cdim(x['d']))

        def apply_all(x):
            r = struct(x)
            ps = protos(x['ops'], base_sig(x))
            if not ps:
                return r
            if rng.random() < 0.5:
                return "(%s ^ %s)" % (r, tree(rng, neutrals(rng, ps, 0.1)))
            return "(%s)" % " ^ ".join([r] + ps)

        ps = protos(sp['ops'], base_sig(sp))
        variants = []
        for rep in range(3):
            if sp['base'] != 'tuple':
                start = [struct(sp)]
                rest = list(ps)
            else:
                tup = "noarr::tuple<%s>()" % cdim(sp['d'])
                subs = sp['subs']
                if mode == 'each' and nc and all(len(y['ops']) >= nc and y['ops'][-nc:] == subs[0]['ops'][-nc:] for y in subs):
                    heads = [dict(y, ops=y['ops'][:-nc]) for y in subs]
                    cps = [protos(y['ops'][-nc:], sig_of(h)) for y, h in zip(subs, heads)]
                    if any(c != cps[0] for c in cps):
                        raise Invalid
                    cp = cps[0]
                    start = ["noarr::pack(%s)" % ", ".join(apply_all(h) for h in heads)]
                    each = ["noarr::to_each(%s)" % tree(rng, neutrals(rng, cp))] if rng.random() < 0.5 else ["noarr::to_each(%s)" % c for c in cp]
                    start += each
                    rest = [tup] + list(ps)
                elif mode == 'protos':
                    n = 0
                    while all(len(y['ops']) > n and y['ops'][n] == subs[0]['ops'][n] for y in subs) and all(y['base'] == subs[0]['base'] and y.get('subs') == subs[0].get('subs') and y.get('t') == subs[0].get('t') for y in subs):
                        n += 1
                    if not all(y['base'] == subs[0]['base'] and y.get('subs') == subs[0].get('subs') and y.get('t') == subs[0].get('t') and y.get('d') == subs[0].get('d') for y in subs):
                        raise Invalid
                    head = dict(subs[0], ops=subs[0]['ops'][:n])
                    hs = sig_of(head)
                    pp = []
                    for y in subs:
                        q = neutrals(rng, protos(y['ops'][n:], hs), 0.2)
                        pp.append(tree(rng, q))
                    pk = "noarr::pack(%s)" % ", ".join(pp)
                    if rng.random() < 0.5 and len(pp) > 1:
                        start = [apply_all(head)]
                        k = rng.randint(0, len(ps))
                        rest = ["(%s ^ %s)" % (pk, tree(rng, [tup] + ps[:k]))] + ps[k:]
                    else:
                        start = [apply_all(head), pk]
                        rest = [tup] + list(ps)
                else:
                    start = ["noarr::pack(%s)" % ", ".join(apply_all(y) for y in subs)]
                    rest = [tup] + list(ps)
            if rest:
                first = rest[0]
                rest = [first] + neutrals(rng, rest[1:], 0.2) if sp['base'] == 'tuple' else neutrals(rng, rest, 0.2)
                groups = []
                k = 0
                while k < len(rest):
                    n = rng.choice([1, 1, 2, 3, len(rest)])
                    groups.append(tree(rng, rest[k:k + n]))
                    k += n
                if rng.random() < 0.2:
                    j = rng.randrange(len(groups))
                    if j > 0 or sp['base'] != 'tuple':
                        groups[j] = "noarr::make_proto([&](auto x) { return x ^ %s; })" % groups[j]
                text = " ^ ".join(start + groups)
            else:
                text = " ^ ".join(start + ["noarr::neutral_proto()"])
            variants.append(text)
        for k, t in enumerate(variants):
            e.out("{ const auto v = %s;" % t)
            e.out("\tc.expect(std::is_same_v<decltype(v), decltype(%s)>, \"the composed transformations give another structure type\"); c.barrier();" % s)
            e.out("\tc.eq(v | noarr::get_size(), size, \"size\"); c.barrier();")
            e.out("\tvf::AddressCheck<std::remove_cvref_t<decltype(v)>> chk{c, v, %s, size}; vf::walk_all(c, %s{}, %s, chk); c.nontrivial(chk.leaves >= 1 && %d >= 2); }" % (m, csig(sig), m, len(sp['ops'])))
        return {'body': "\n".join(e.lines)}


CHECK = C22()
