import random
from .common import *


class C14(Check):
    id = 'C14'
    header = 'states.hpp'
    programs = {'quick': 200, 'thorough': 2000}
    cases = {'quick': 40, 'thorough': 150}
    rule = ("A case is a random sequence of 4 to 12 state operations (make_state, idx, with, remove, filter, &, +, -, unary minus, update_index, neighbor, fix and set_length through a structure's state, the shorthand getters) over "
            "index and length entries of 5 dimensions with literal and run-time values, applied to a pool of states. After each operation the result is compared entry by entry with a map, equality and ordering with that of the maps, "
            "and at the end every state in the pool is compared again (immutability). Non-trivial: at least one state with two or more entries.")
    assumptions = ["arithmetic is modulo 2^64, as documented"]

    def gen(self, rng, i):
        names = rng.sample("abcdefgh", 4) + ['#1']
        ops = []
        # abstract pool: list of dict tag -> is_static
        pool = [{}]

        def tags(k):
            return rng.sample([(kk, d) for kk in (0, 1) for d in names], k)
        n = rng.randint(4, 12)
        vid = [0]

        def value(wide=True):
            vid[0] += 1
            lit = rng.random() < 0.35
            t = None
            if not lit:
                t = rng.choice([None, None, None, 'int', 'unsigned', 'std::size_t'])
            return {'id': vid[0], 'lit': lit, 'n': rng.choice([0, 0, 1, 1, 2, 3, 5, 7, 100]), 't': t}
        for _ in range(n):
            k = rng.choice(['make', 'make', 'idx', 'with', 'with', 'with', 'remove', 'filter', 'filter_i', 'filter_l', 'merge', 'merge', 'plus', 'plus', 'minus', 'minus', 'neg', 'update', 'neighbor', 'pos', 'fixlen'])
            a = rng.randrange(len(pool))
            b = rng.randrange(len(pool))
            A, B = pool[a], pool[b]
            if k in ('make', 'idx'):
                ts = tags(rng.randint(0, 4))
                if k == 'idx':
                    ts = [(0, d) for d in rng.sample(names, rng.randint(1, 4))]
                ops.append({'op': k, 'ts': ts, 'vs': [value() for _ in ts]})
                pool.append({t: v['lit'] for t, v in zip(ts, ops[-1]['vs'])})
            elif k == 'with':
                ts = tags(rng.randint(1, 3))
                if A and rng.random() < 0.6:
                    ts = rng.sample(sorted(A), rng.randint(1, min(2, len(A))))
                ops.append({'op': k, 'a': a, 'ts': ts, 'vs': [value() for _ in ts]})
                r = dict(A)
                r.update({t: v['lit'] for t, v in zip(ts, ops[-1]['vs'])})
                pool.append(r)
            elif k in ('remove', 'filter'):
                ts = tags(rng.randint(0, 4)) if rng.random() < 0.4 or not A else rng.sample(sorted(A), rng.randint(1, len(A)))
                ops.append({'op': k, 'a': a, 'ts': ts})
                pool.append({t: x for t, x in A.items() if (t in ts) == (k == 'filter')})
            elif k in ('filter_i', 'filter_l'):
                ds = rng.sample(names, rng.randint(1, 4))
                kk = 0 if k == 'filter_i' else 1
                ops.append({'op': k, 'a': a, 'ds': ds})
                pool.append({t: x for t, x in A.items() if t[0] == kk and t[1] in ds})
            elif k in ('merge', 'plus', 'minus'):
                ops.append({'op': k, 'a': a, 'b': b})
                r = dict(A)
                for t, x in B.items():
                    if k == 'merge':
                        r[t] = x
                    else:
                        r[t] = x and A.get(t, True)
                pool.append(r)
            elif k in ('neg', 'pos'):
                ops.append({'op': k, 'a': a})
                pool.append(dict(A))
            elif k == 'update':
                c = sorted(t for t in A if t[0] == 0)
                if not c:
                    continue
                t = rng.choice(c)
                f = rng.choice(['x + 1', 'x * 3', 'x', 'noarr::lit<4>', '(std::size_t)x + 2'])
                ops.append({'op': k, 'a': a, 't': t, 'f': f})
                r = dict(A)
                r[t] = f == 'noarr::lit<4>' or (f == 'x' and A[t])
                pool.append(r)
            elif k == 'neighbor':
                # needs run-time indices stored as std::size_t
                c = sorted(t for t in A if t[0] == 0)
                if not c:
                    continue
                ts = rng.sample(c, rng.randint(1, min(3, len(c))))
                ops.append({'op': k, 'a': a, 'ts': ts, 'ds': [rng.choice([1, -1, 2, 0, 3]) for _ in ts]})
                r = dict(A)
                for t in ts:
                    r[t] = False
                pool.append(r)
            elif k == 'fixlen':
                continue
        return {'names': names, 'opt': ops, 'seed': rng.randrange(1 << 30)}

    def describe(self, spec):
        return "; ".join("%s%s" % (o['op'], {k: v for k, v in o.items() if k not in ('op', 'vs')}) for o in spec['opt'])

    def shrinks(self, spec):
        # only trailing operations can be dropped without renumbering
        for k in range(len(spec['opt'])):
            yield dict(spec, opt=spec['opt'][:k])
        for i, o in enumerate(spec['opt']):
            used = any(x.get('a') == i + 1 or x.get('b') == i + 1 for x in spec['opt'][i + 1:])
            if not used:
                def ren(x):
                    y = dict(x)
                    for k in ('a', 'b'):
                        if y.get(k) is not None and y[k] > i + 1:
                            y[k] -= 1
                    return y
                yield dict(spec, opt=spec['opt'][:i] + [ren(x) for x in spec['opt'][i + 1:]])

    def emit(self, spec):
        rng = random.Random(spec['seed'])
        names = spec['names']
        L = []

        def tag(t):
            return "noarr::%s<%s>" % ('length_in' if t[0] else 'index_in', cdim(t[1]))

        def key(t):
            return "{%d, %d}" % (t[0], cid(t[1]))
        univ = ", ".join(tag((k, d)) for k in (0, 1) for d in names + ['Q'])
        L.append("const auto t0 = noarr::empty_state; const vf::Map m0;")
        drawn = set()

        def val(v, raw):
            """library argument, model value"""
            if v['lit']:
                return "noarr::lit<%d>" % v['n'], "%dull" % v['n']
            x = "v%d" % v['id']
            if v['id'] not in drawn:
                drawn.add(v['id'])
                # mostly small, sometimes huge (arithmetic is modular)
                wide = v['t'] in (None, 'std::size_t')
                L.append("const vf::u64 %s = %s; c.note(\"%s\", %s);" % (x, ("c.draw(4) ? c.len(%d, 9) : c.pick({~0ull, 1ull << 63, (1ull << 32) - 1, 1ull << 33})" if wide else "c.len(%d, 9)") % v['n'], x, x))
            return ("(%s)%s" % (v['t'] or 'std::size_t', x)), x
        n = 1
        sets = [set()]
        typed = [{}]   # tag -> 'lit' | 'size' | 'other'
        for o in spec['opt']:
            k = o['op']
            ts = [tuple(t) for t in o.get('ts', [])]
            a, b = o.get('a'), o.get('b')
            if (a is not None and a >= n) or (b is not None and b >= n):
                raise Invalid
            A = sets[a] if a is not None else set()
            TA = typed[a] if a is not None else {}
            res = "t%d" % n
            if k in ('make', 'idx', 'with'):
                args = [val(v, k == 'with') for v in o['vs']]
                tl = ", ".join(tag(t) for t in ts)
                if k == 'make':
                    ex = "noarr::make_state<%s>(%s)" % (tl, ", ".join(x for x, _ in args))
                elif k == 'idx':
                    ex = "noarr::idx<%s>(%s)" % (", ".join(cdim(t[1]) for t in ts), ", ".join(x for x, _ in args))
                else:
                    ex = "t%d.with<%s>(%s)" % (a, tl, ", ".join(x for x, _ in args))
                mex = "vf::mmerge(%s, vf::Map{%s})" % ("m%d" % a if a is not None else "{}", ", ".join("{%s, %s}" % (key(t), y) for t, (_, y) in zip(ts, args)))
                new = A | set(ts)
                ty = dict(TA)
                for t, v in zip(ts, o['vs']):
                    ty[t] = 'lit' if v['lit'] else ('size' if k != 'with' or v['t'] in (None, 'std::size_t') else 'other')
            elif k in ('remove', 'filter'):
                ex = "t%d.%s<%s>()" % (a, k, ", ".join(tag(t) for t in ts))
                new = {t for t in A if (t in ts) == (k == 'filter')}
                mex = "[&] { vf::Map r; %s return r; }()" % " ".join("r[%s] = m%d.at(%s);" % ("std::pair<int, int>" + key(t), a, key(t)) for t in sorted(new))
                ty = {t: TA[t] for t in new}
            elif k in ('filter_i', 'filter_l'):
                kk = 0 if k == 'filter_i' else 1
                ex = "noarr::filter_%s<%s>(t%d)" % ('lengths' if kk else 'indices', ", ".join(cdim(d) for d in o['ds']), a)
                new = {t for t in A if t[0] == kk and t[1] in o['ds']}
                mex = "[&] { vf::Map r; %s return r; }()" % " ".join("r[%s] = m%d.at(%s);" % ("std::pair<int, int>" + key(t), a, key(t)) for t in sorted(new))
                ty = {t: TA[t] for t in new}
            elif k in ('merge', 'plus', 'minus'):
                B, TB = sets[b], typed[b]
                if k != 'merge' and any(TA.get(t) == 'other' or TB.get(t) == 'other' for t in A | B):
                    raise Invalid     # (arithmetic on raw int entries: not the documented std::size_t)
                ex = "t%d %s t%d" % (a, {'merge': '&', 'plus': '+', 'minus': '-'}[k], b)
                mex = {'merge': "vf::mmerge(m%d, m%d)", 'plus': "vf::mplus(m%d, m%d, 1)", 'minus': "vf::mplus(m%d, m%d, -1)"}[k] % (a, b)
                new = A | B
                ty = dict(TA)
                for t in B:
                    if k == 'merge':
                        ty[t] = TB[t]
                    else:
                        ty[t] = 'lit' if TB[t] == 'lit' and TA.get(t, 'lit') == 'lit' else 'size'
            elif k in ('neg', 'pos'):
                if k == 'neg' and 'other' in TA.values():
                    raise Invalid
                ex = "%st%d" % ('-' if k == 'neg' else '+', a)
                mex = "vf::mneg(m%d)" % a if k == 'neg' else "m%d" % a
                new, ty = set(A), dict(TA)
            elif k == 'update':
                t = tuple(o['t'])
                if t not in A or TA[t] == 'other':
                    raise Invalid
                ex = "noarr::update_index<%s>(t%d, [](auto x) { return %s; })" % (cdim(t[1]), a, o['f'])
                mex = "[&] { vf::Map r = m%d; const vf::u64 x = r.at(%s); r[%s] = %s; return r; }()" % (a, key(t), "std::pair<int, int>" + key(t), '4' if 'lit' in o['f'] else o['f'])
                new, ty = set(A), dict(TA)
                ty[t] = 'lit' if 'lit' in o['f'] or (o['f'] == 'x' and TA[t] == 'lit') else 'size'
            elif k == 'neighbor':
                if any(t not in A or TA[t] != 'size' for t in ts):
                    raise Invalid
                ex = "noarr::neighbor<%s>(t%d, %s)" % (", ".join(cdim(t[1]) for t in ts), a, ", ".join(map(str, o['ds'])))
                mex = "[&] { vf::Map r = m%d; %s return r; }()" % (a, " ".join("r[%s] += %dll;" % ("std::pair<int, int>" + key(t), x) for t, x in zip(ts, o['ds'])))
                new, ty = set(A), dict(TA)
            L.append("const auto t%d = %s; const vf::Map m%d = %s; c.tag(\"%s\");" % (n, ex, n, mex, k))
            L.append("vf::check_state<%s>(c, t%d, m%d, \"%s\");" % (univ, n, n, k))
            if rng.random() < 0.5:
                L.append("static_assert(noarr::IsState<decltype(t%d)>);" % n)
            # getters
            ix = sorted(t for t in new if t[0] == 0)
            ln = sorted(t for t in new if t[0] == 1)
            for grp, one, many in ((ix, 'get_index', 'get_indices'), (ln, 'get_length_in', 'get_lengths_in')):
                if grp:
                    sh = grp[:]
                    rng.shuffle(sh)
                    sh = sh[:rng.randint(1, len(sh))]
                    L.append("c.eq(vf::to_u64(noarr::%s<%s>(t%d)), m%d.at(%s), \"%s\");" % (one, cdim(sh[0][1]), n, n, key(sh[0]), one))
                    L.append("{ const auto g = noarr::%s<%s>(t%d); %s }" % (many, ", ".join(cdim(t[1]) for t in sh), n, " ".join("c.eq(vf::to_u64(std::get<%d>(g)), m%d.at(%s), \"%s\");" % (i, n, key(t), many) for i, t in enumerate(sh))))
            L.append("c.nontrivial(%d >= 2);" % len(new))
            sets.append(new)
            typed.append(ty)
            n += 1
        # comparisons between states of the pool, and immutability
        pairs = [(i, j) for i in range(n) for j in range(n)]
        rng.shuffle(pairs)
        for i, j in pairs[:12] + [(i, i) for i in range(n)]:
            if 'other' in list(typed[i].values()) + list(typed[j].values()):
                continue
            L.append("vf::check_cmp(c, t%d, m%d, t%d, m%d);" % (i, i, j, j))
            if sets[i] == sets[j]:
                L.append("{ bool d; const bool le = vf::mle(m%d, m%d, d), ge = vf::mle(m%d, m%d, d); c.expect((t%d <= t%d) == le && (t%d >= t%d) == ge && (t%d < t%d) == (le && !ge) && (t%d > t%d) == (ge && !le), \"ordering\"); c.barrier(); }" % (i, j, j, i, i, j, i, j, i, j, i, j))
        for i in range(n):
            L.append("vf::check_state<%s>(c, t%d, m%d, \"an earlier state changed\");" % (univ, i, i))
        return {'body': "\n".join("\t" + x for x in L)}


CHECK = C14()
