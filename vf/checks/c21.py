import random
from .common import *

KINDS = ['vectors', 'vectors_unsized', 'array', 'sized', 'bcast', 'length_like', 'lengths_like', 'vector_like', 'vectors_like', 'vectors_like_all', 'vectors_like_trav', 'lengths_like_trav',
         'into_blocks', 'into_blocks_dynamic', 'merge_blocks', 'strip_mine', 'strip_mine_dynamic', 'symmetric_span', 'symmetric_spans', 'fix_state', 'fix_dims', 'set_length_state', 'set_length_dims', 'neighbor', 'update_index']


def plain_lengths(sig, d):
    """d has a known length that needs no index"""
    occ = occurrences(sig, d)
    if len(occ) == 1 and occ[0][1] == () and isinstance(occ[0][0], D):
        return True
    return len(occ) == 1 and occ[0][1] == () and isinstance(occ[0][0], F) and occ[0][0].n is not None and not occ[0][0].unset and not occ[0][0].needs


def simple_space(sig, under=False):
    """index_space_size accepts it: no length depends on an index"""
    if isinstance(sig, S):
        return True
    if isinstance(sig, F):
        return not under and not sig.needs and sig.n is not None and not sig.unset and simple_space(sig.sub, under)
    return all(simple_space(x, True) for x in sig.subs)


C_ = cdim


class C21(Check):
    id = 'C21'
    header = 'shorthand.hpp'
    programs = {'quick': 230, 'thorough': 2300}
    cases = {'quick': 16, 'thorough': 60}
    rule = ("A case is a generated structure, one of the shorthand functions and concrete arguments. The structure built by the shorthand must have the signature of its expansion and the size, lengths and offsets that the reference "
            "model gives to the expansion (for state shorthands: equal states). Non-trivial: the result has at least one element and one dimension.")
    assumptions = ["arguments are valid for the expansion"]

    def gen(self, rng, i):
        kind = KINDS[i % len(KINDS)]
        big = (i // len(KINDS)) % 3 == 2
        g = Gen(rng, maxn=rng.choice([3, 4, 6]), big=big)
        r = rng
        spec = g.layout(depth=rng.choice([0, 1, 2, 2, 3]), tuples=0.0 if kind in ('neighbor', 'update_index') else 0.2, bcast=0.1)
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.add(spec, VIEWS + ['blocks', 'blocks_dyn', 'merge'])
        out = {'s': spec, 'kind': kind, 'seed': rng.randrange(1 << 30), 'big': int(big)}
        sig = sig_of(spec)
        if kind in ('vectors', 'vectors_unsized', 'array', 'sized', 'bcast'):
            k = 1 if kind == 'array' else r.choice([1, 2, 2, 3])
            out['ds'] = g.fresh(sig, k)
            out['ps'] = [g.lenparam() if kind != 'array' else g.param(r.randrange(5), True) for _ in range(k)]
        elif kind in ('length_like', 'lengths_like', 'vector_like', 'vectors_like', 'vectors_like_all', 'vectors_like_trav', 'lengths_like_trav'):
            h = Gen(rng, dims=[x for x in g.names if x not in dims(sig)], maxn=4, big=big)
            h.pid = 5000
            if rng.random() < 0.25:
                # a tuple of scalars inside: its dimension has a length (the number of members) as well
                all_ = kind == 'vectors_like_all' or kind == 'vectors_like_trav'
                other = {'base': 'tuple', 'd': h.fresh(S('int'))[0], 'subs': [h.scalar() for _ in range(1 if all_ else rng.choice([1, 2, 3]))], 'ops': []}
                for _ in range(rng.choice([0, 1, 2])):
                    h.add(other, ['vector'])
            else:
                other = h.layout(depth=rng.choice([1, 2, 3]), tuples=0.0, bcast=0.2)
            for _ in range(rng.choice([0, 1, 2, 3])):
                h.add(other, VIEWS + ['blocks', 'merge', 'blocks_dyn'])
            so = sig_of(other)
            ds = [d for d in dims(so) if plain_lengths(so, d)]
            if kind == 'vectors_like_all' or (kind == 'vectors_like_trav' and rng.random() < 0.5):
                if set(ds) != set(dims(so)) or set(ds) & set(dims(sig)) or not ds:
                    return None
                out['ds'] = dims(so)[::-1]
                out['all'] = 1
            else:
                ds = [d for d in ds if d not in dims(sig)]
                if not ds:
                    return None
                k = 1 if kind in ('length_like', 'vector_like') else rng.randint(1, len(ds))
                out['ds'] = rng.sample(ds, k)
            out['o'] = other
            if rng.random() < 0.3 and kind not in ('vectors_like_trav', 'lengths_like_trav'):
                # the lengths of `other` come in the state
                out['o'] = {'base': 'scalar', 't': 'int', 'ops': [{'op': 'uvector', 'd': d} for d in out['ds']]}
                out['ps'] = [h.lenparam() for _ in out['ds']]
        elif kind in ('into_blocks', 'into_blocks_dynamic', 'strip_mine', 'strip_mine_dynamic'):
            kk = 'blocks_dyn' if kind.endswith('dynamic') else 'blocks'
            op = g.propose(sig, kk)
            if op['mode'] == 'both':
                return None
            op['mode'] = 'minor'
            if rng.random() < 0.4 and kk == 'blocks':
                op['m'] = op['d']
                op['M'] = g.fresh(sig)[0]
                out['short'] = 1
            out['op'] = op
            s2 = apply(sig, op)
            if kind.startswith('strip'):
                apply(s2, {'op': 'hoist', 'ds': [op['M']]})
        elif kind == 'merge_blocks':
            M = g.anydim(sig)
            n = g.fresh(sig, 2)
            order = rng.randrange(2)
            out['inner'] = order
            out['M'], out['m'] = M, n[0]
            out['d'] = rng.choice([n[0], n[1], M])
            out['p'] = g.lenparam()
        elif kind in ('symmetric_span', 'symmetric_spans'):
            ds = [d for d in dims(sig) if plain_lengths(sig, d)]
            if not ds:
                return None
            k = rng.randint(1, len(ds))
            out['ds'] = rng.sample(ds, k)
            mx = min(occurrences(sig, d)[0][0].n for d in out['ds']) // 2
            out['ps'] = [g.param(rng.randint(0, mx)) for _ in range(1 if kind == 'symmetric_span' else k)]
            out['withstate'] = rng.randrange(2)
        elif kind in ('fix_state', 'fix_dims'):
            ds = dims(sig)
            if not ds:
                return None
            out['extra'] = rng.randrange(2)
        elif kind in ('set_length_state', 'set_length_dims'):
            ds = g.fresh(sig, rng.choice([1, 2, 3]))
            out['ds'] = ds
            out['ps'] = [g.lenparam() for _ in ds]
            out['extra'] = rng.randrange(2)
        elif kind in ('neighbor', 'update_index') and not dims(sig):
            return None
        return out

    def describe(self, spec):
        return spec['kind'] + " on " + describe_spec(spec['s'])

    def states(self, e, s, m, sig, kind, rng):
        """neighbor and update_index of states with small and wide indices"""
        ds = dims(sig)
        extra = [d for d in 'pqr' if d not in ds][:rng.choice([0, 1, 2])]
        every = ds + extra
        rng.shuffle(every)
        # most indices are of the structure, in range or not; some are anything
        e.out("const bool wide = c.draw(2);")
        for d in every:
            e.out("const vf::u64 x_%d = !wide || c.draw(3) ? c.draw(wide ? 8 : 3) : c.pick({(1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, 1ull << 40, 1ull << 62}) + c.draw(3); c.note(\"%s\", x_%d);" % (cid(d), d, cid(d)))
        e.out("const auto st = noarr::make_state<%s>(%s);" % (", ".join(["noarr::index_in<%s>" % C_(d) for d in every] + ["noarr::length_in<noarr::dim<98>{}>"]), ", ".join(["(std::size_t)x_%d" % cid(d) for d in every] + ["std::size_t(977)"])))
        ch = rng.sample(every, rng.randint(1, len(every) if kind == 'neighbor' else 1))
        if kind == 'neighbor':
            args, new = [], {}
            for d in ch:
                t = rng.choice(['int', 'int', 'long', 'std::ptrdiff_t', 'short', 'signed char', 'std::size_t', 'unsigned'])
                big = "1ll << 20" if t in ('int', 'unsigned') else "1ll << 40" if '_t' in t or t == 'long' else "100"
                e.out("const long long d_%d = c.draw(2) ? (long long)c.draw(%s) : (long long)c.draw(4); const long long f_%d = %s;" % (cid(d), big, cid(d), "d_%d" % cid(d) if t == 'unsigned' else "c.draw(2) && (vf::u64)d_%d <= x_%d ? -d_%d : d_%d" % ((cid(d),) * 4)))
                e.out("c.note(\"diff %s\", (vf::u64)f_%d);" % (d, cid(d)))
                args.append("(%s)f_%d" % (t, cid(d)))
                new[d] = "(x_%d + (vf::u64)f_%d)" % (cid(d), cid(d))
            e.out("const auto nb = noarr::neighbor<%s>(st, %s);" % (", ".join(C_(d) for d in ch), ", ".join(args)))
        else:
            d = ch[0]
            k, f, v = rng.choice([('x + k', 'x + k', '{x} + k'), ('x * 2', 'x * 2', '{x} * 2'), ('k', 'k', 'k'), ('int', '(int)5', '5ull'), ('short', '(short)(x % 1000)', '{x} % 1000'), ('x', 'x', '{x}'), ('unsigned', '(unsigned)(x % 1000)', '{x} % 1000')])
            e.out("const std::size_t k = c.draw(2) ? c.draw(9) : c.draw(1ull << 40);")
            e.out("const auto nb = noarr::update_index<%s>(st, [&](auto x) { (void)x; (void)k; return %s; });" % (C_(d), f))
            new = {d: "(%s)" % v.replace('{x}', 'x_%d' % cid(d))}
        for d in every:
            want = new.get(d, "x_%d" % cid(d))
            e.out("static_assert(std::is_same_v<noarr::state_get_t<std::remove_cvref_t<decltype(nb)>, noarr::index_in<%s>>, std::size_t>); c.eq(noarr::get_index<%s>(nb), %s, \"index in %s\"); c.eq(noarr::get_index<%s>(st), x_%d, \"index in %s of the original state\");" % (C_(d), C_(d), want, d, C_(d), cid(d), d))
        e.out("c.eq(noarr::get_length_in<noarr::dim<98>{}>(nb), 977, \"another entry\"); c.barrier();")
        # the elements they designate
        e.out("const vf::St ms{{%s}, {}};" % ", ".join("{%d, %s}" % (cid(d), new.get(d, "x_%d" % cid(d))) for d in ds))
        e.out("if (vf::in_range(%s, {%s}, ms)) { c.tag(\"designates\"); c.eq(%s | noarr::offset(noarr::filter_indices<%s>(nb)), %s->offset(ms), \"offset\"); }" % (m, ", ".join(str(cid(d)) for d in self.path(sig)), s, ", ".join(C_(d) for d in ds), m))
        e.out("c.nontrivial(%d >= 2);" % len(every))

    def path(self, sig):
        out = []
        while not isinstance(sig, S):
            out.append(sig.dim)
            sig = sig.subs[0] if isinstance(sig, D) else sig.sub
        return out

    def emit(self, spec):
        rng = random.Random(spec['seed'])
        big = bool(spec.get('big'))
        e = Emit(big=big)
        s, m, sig = emit_spec(e, spec['s'])
        if unset_dims(sig):
            raise Invalid
        kind = spec['kind']
        e.out('c.tag("%s");' % kind)
        C = cdim
        base = s
        if big:
            e.out('c.tag("big");')
        if kind in ('neighbor', 'update_index'):
            self.states(e, s, m, sig, kind, rng)
            return {'body': "\n".join(e.lines)}

        def step(op):
            nonlocal m, sig
            t, mt = emit_op(e, sig, op, m)
            x = e.new('m')
            e.out("const vf::N %s = %s;" % (x, mt))
            m = x
            sig = apply(sig, op)
            return t

        def joined(ds):
            return ", ".join(C(d) for d in ds)
        short = None
        if kind in ('vectors', 'vectors_unsized', 'array', 'sized', 'bcast'):
            ds, ps = spec['ds'], spec['ps']
            long = []
            for d, p in zip(ds, ps):
                step({'op': 'bcast' if kind == 'bcast' else 'vector', 'd': d, 'p': p})
                long.append("noarr::%s<%s>() ^ noarr::set_length<%s>(%s)" % ('bcast' if kind == 'bcast' else 'vector', C(d), C(d), e.arg(p)))
            args = ", ".join(e.arg(p) for p in ps)
            if kind == 'array':
                short = "noarr::array<%s, %d>()" % (C(ds[0]), ps[0]['n'])
            elif kind == 'vectors_unsized':
                sh = list(zip(ds, ps))
                rng.shuffle(sh)
                short = "noarr::vectors<%s>() ^ noarr::set_length<%s>(%s)" % (joined(ds), joined([d for d, _ in sh]), ", ".join(e.arg(p) for _, p in sh))
                # (several lengths set at once: outside the vectors)
                long = ["noarr::vector<%s>()" % C(d) for d in ds] + ["noarr::set_length<%s>(%s)" % (C(d), e.arg(p)) for d, p in sh]
            elif kind == 'sized':
                short = "noarr::sized_vector%s<%s>(%s)" % ("s" if len(ds) > 1 else rng.choice(["", "s"]), joined(ds), args)
            elif kind == 'bcast':
                short = "noarr::bcast<%s>(%s)" % (joined(ds), args)
            else:
                short = "noarr::vector%s<%s>(%s)" % ("s" if len(ds) > 1 else rng.choice(["", "s"]), joined(ds), args)
            long = " ^ ".join(long)
        elif 'like' in kind:
            e2 = e
            o, om, osig = emit_spec(e2, spec['o'])
            ds = spec['ds']
            st, mst = "", "{}"
            if spec.get('ps'):
                for p in spec['ps']:
                    e.drawlen(p)
                st = "noarr::make_state<%s>(%s)" % (", ".join("noarr::length_in<%s>" % C(d) for d in ds), ", ".join(e.arg(p) for p in spec['ps']))
                mst = "vf::St{{}, {%s}}" % ", ".join("{%d, %s}" % (cid(d), e.val(p)) for d, p in zip(ds, spec['ps']))
            elif rng.random() < 0.3 and 'trav' not in kind:
                st = "noarr::empty_state"
            arg = o + (", " + st if st else "")
            if 'trav' in kind:
                arg = "noarr::traverser(%s)" % o
            lens = []
            for d in ds:
                v = e.new('l')
                e.out("const vf::u64 %s = vf::mlen(%s, %d, %s); c.note(\"%s\", %s);" % (v, om, cid(d), mst, v, v))
                lens.append(v)
            vec = 'vector' in kind
            if vec:
                for d, v in zip(ds, lens):
                    x = e.new('m')
                    e.out("const vf::N %s = vf::setlen(%d, %s, vf::vec(%d, %s));" % (x, cid(d), v, cid(d), m))
                    m = x
                    sig = F(d, False, None, sig)
                long = " ^ ".join("noarr::vector<%s>() ^ noarr::set_length<%s>(%s | noarr::get_length<%s>(%s))" % (C(d), C(d), o, C(d), st) for d in ds)
            else:
                order = list(ds)
                rng.shuffle(order)
                base = "(%s ^ noarr::vectors<%s>())" % (s, joined(order))
                for d in order:
                    x = e.new('m')
                    e.out("const vf::N %s = vf::setlen(%d, %s, vf::vec(%d, %s));" % (x, cid(d), lens[ds.index(d)], cid(d), m))
                    m = x
                    sig = F(d, False, None, sig)
                long = " ^ ".join("noarr::set_length<%s>(%s | noarr::get_length<%s>(%s))" % (C(d), o, C(d), st) for d in ds)
            fn = {'length_like': 'length_like', 'lengths_like': 'lengths_like', 'vector_like': 'vector_like', 'vectors_like': 'vectors_like', 'vectors_like_all': 'vectors_like',
                  'vectors_like_trav': 'vectors_like', 'lengths_like_trav': 'lengths_like'}[kind]
            short = "noarr::%s%s(%s)" % (fn, "" if spec.get('all') else "<%s>" % joined(ds), arg)
            if spec.get('all') and spec.get('ps'):
                short = "noarr::%s(%s)" % (fn, arg)
        elif kind in ('into_blocks', 'into_blocks_dynamic', 'strip_mine', 'strip_mine_dynamic'):
            op = dict(spec['op'], form=0)
            t = step(op)
            dyn = kind.endswith('dynamic')
            ds = [op['d'], op['M'], op['m']] + ([op['pr']] if dyn else [])
            if spec.get('short'):
                ds = ds[:2]
            full = [op['d'], op['M'], op['m']] + ([op['pr']] if dyn else [])
            nm = 'into_blocks_dynamic' if dyn else 'into_blocks'
            long = "noarr::%s<%s>() ^ noarr::set_length<%s>(%s)" % (nm, joined(full), C(op['m']), e.arg(op['p']))
            short = "noarr::%s<%s>(%s)" % (kind, joined(ds), e.arg(op['p']))
            if kind.startswith('strip'):
                long += " ^ noarr::hoist<%s>()" % C(op['M'])
                step({'op': 'hoist', 'ds': [op['M']]})
                if rng.random() < 0.3:
                    short = "noarr::%s<%s>() ^ noarr::set_length<%s>(%s)" % (kind, joined(ds), C(op['m']), e.arg(op['p']))
                    long = "noarr::%s<%s>() ^ noarr::hoist<%s>() ^ noarr::set_length<%s>(%s)" % (nm, joined(full), C(op['M']), C(op['m']), e.arg(op['p']))
        elif kind == 'merge_blocks':
            M, mm, d, p = spec['M'], spec['m'], spec['d'], spec['p']
            step({'op': 'uvector', 'd': mm})
            base = "(%s ^ noarr::vector<%s>())" % (s, C(mm))
            step({'op': 'setlen', 'd': mm, 'p': p})
            step({'op': 'merge', 'M': M, 'm': mm, 'd': d})
            short = "noarr::merge_blocks<%s>(%s)" % (joined([M, mm] + ([d] if d != mm or rng.random() < 0.5 else [])), e.arg(p))
            long = "noarr::set_length<%s>(%s) ^ noarr::merge_blocks<%s>()" % (C(mm), e.arg(p), joined([M, mm, d]))
        elif kind in ('symmetric_span', 'symmetric_spans'):
            ds, ps = spec['ds'], spec['ps']
            m0 = m
            long = []
            for i, d in enumerate(ds):
                p = ps[i if kind.endswith('s') else 0]
                e.draw(p, "c.range(0, %s)" % ("vf::mlen(%s, %d) / 2" % (m0, cid(d))))
                e.out("c.require(2 * %s <= vf::mlen(%s, %d));" % (e.val(p), m0, cid(d)))
                x = e.new('m')
                e.out("const vf::N %s = vf::span(%d, %s, vf::mlen(%s, %d) - %s, %s);" % (x, cid(d), e.val(p), m0, cid(d), e.val(p), m))
                m = x
                long.append("noarr::span<%s>(%s, (std::size_t)(%s | noarr::get_length<%s>()) - %s)" % (C(d), e.arg(p), s, C(d), e.val(p)))
            short = "noarr::%s<%s>(%s, %s%s)" % (kind, joined(ds), s, "noarr::empty_state, " if spec['withstate'] else "", ", ".join(e.arg(p) for p in ps))
            long = " ^ ".join(long)
        elif kind in ('fix_state', 'fix_dims'):
            path = []
            x = sig
            ok = True
            while not isinstance(x, S):
                if isinstance(x, D):
                    path.append((x.dim, rng.randrange(len(x.subs))))
                    x = x.subs[path[-1][1]]
                else:
                    if x.n is None or x.n == 0 or x.needs:
                        break
                    path.append((x.dim, None))
                    x = x.sub
            tup = {d for d, i in path if i is not None}
            if not path:
                raise Invalid
            keep = [(d, i) for d, i in path if rng.random() < 0.7] or path[:1]
            if tup & {d for d, _ in path}:
                keep = path[:rng.randint(1, len(path))]
            ops = []
            for k, (d, i) in enumerate(keep):
                n = i if i is not None else rng.randrange(max(1, min(o.n for o, _ in occurrences(sig, d))))
                ops.append({'op': 'fix', 'd': d, 'p': {'id': 70000 + k, 'lit': i is not None or rng.random() < 0.3, 'n': n}})
            for op in ops:
                step(op)
            rng.shuffle(ops)
            items = ["noarr::index_in<%s>" % C(o['d']) for o in ops]
            vals = [e.arg(o['p']) for o in ops]
            if spec['extra']:
                k = rng.randint(0, len(items))
                items.insert(k, "noarr::length_in<%s>" % C(rng.choice(ops)['d']))
                vals.insert(k, rng.choice(["std::size_t(977)", "noarr::lit<977>"]))
            e.out("const auto st = noarr::make_state<%s>(%s);" % (", ".join(items), ", ".join(vals)))
            long = " ^ ".join("noarr::fix<%s>(%s)" % (C(o['d']), e.arg(o['p'])) for o in ops)
            if kind == 'fix_dims':
                short = "noarr::fix<%s>(st)" % joined([o['d'] for o in ops])
            else:
                short = "noarr::fix(st)"
        elif kind in ('set_length_state', 'set_length_dims'):
            ds, ps = spec['ds'], spec['ps']
            for d in ds:
                step({'op': 'uvector', 'd': d})
            base = "(%s ^ noarr::vectors<%s>())" % (s, joined(ds))
            pairs = list(zip(ds, ps))
            rng.shuffle(pairs)
            for d, p in pairs:
                step({'op': 'setlen', 'd': d, 'p': p})
            items = ["noarr::length_in<%s>" % C(d) for d, _ in pairs]
            vals = [e.arg(p) for _, p in pairs]
            if spec['extra'] or kind == 'set_length_dims':
                k = rng.randint(0, len(items))
                items.insert(k, "noarr::index_in<%s>" % C(rng.choice(ds)))
                vals.insert(k, rng.choice(["std::size_t(977)", "noarr::lit<977>"]))
            e.out("const auto st = noarr::make_state<%s>(%s);" % (", ".join(items), ", ".join(vals)))
            long = " ^ ".join("noarr::set_length<%s>(%s)" % (C(d), e.arg(p)) for d, p in pairs)
            if kind == 'set_length_dims':
                short = "noarr::set_length<%s>(st)" % joined([d for d, _ in pairs])
            else:
                short = "noarr::set_length(st)"
        ds = dims(sig)
        e.out("c.require(vf::total_ok_model(%s));" % m if big else "c.require(vf::count_all(c, %s{}, %s) <= 400);" % (csig(sig), m))
        e.out("const auto a = %s ^ %s; const auto b = %s ^ %s;" % (base, short, base, long))
        e.out("c.expect(std::is_same_v<decltype(a)::signature, decltype(b)::signature>, \"the shorthand and its expansion have different signatures\"); c.barrier();")
        for v in 'ab':
            e.out("{ const vf::u64 size = %s | noarr::get_size(); c.eq(size, %s->size({}), \"size of the %s\"); c.barrier(); vf::AddressCheck<std::remove_cvref_t<decltype(%s)>> chk{c, %s, %s, size}; vf::%s(c, %s{}, %s, chk%s); c.barrier(); c.nontrivial(chk.leaves >= 1 && %d >= 1); }" % (
                v, m, 'shorthand' if v == 'a' else 'expansion', v, v, m, 'sample_some' if big else 'walk_all', csig(sig), m, ', 12' if big else '', len(ds)))
        if simple_space(sig) and big:
            if is_cube(sig):
                e.out("c.tag(\"index_space_size\"); c.eq(noarr::index_space_size(a), %s, \"index_space_size\");" % " * ".join(["(vf::u64)1"] + ["vf::mlen(%s, %d)" % (m, cid(d)) for d in ds]))
        elif simple_space(sig):
            e.out("c.tag(\"index_space_size\"); c.eq(noarr::index_space_size(a), vf::count_all(c, %s{}, %s), \"index_space_size\");" % (csig(sig), m))
        # zeros
        z = []
        x = sig
        good = True
        while not isinstance(x, S):
            z.append((x.dim, 0))
            x = x.subs[0] if isinstance(x, D) else x.sub
        e.out("{ const auto zs = noarr::fix_zeros(noarr::sig_dim_tree<decltype(a)::signature>{}); const vf::St st = %s; c.expect(vf::read_state(zs) == st, \"fix_zeros\");" % model_state(z))
        e.out("\tconst auto zs2 = noarr::fix_zeros(noarr::sig_dim_tree<decltype(a)::signature>{}, noarr::idx<noarr::dim<99>{}>(7)); c.expect(vf::read_state(zs2.remove<noarr::index_in<noarr::dim<99>{}>>()) == st && noarr::get_index<noarr::dim<99>{}>(zs2) == 7, \"fix_zeros with a state\");")
        e.out("\tif (vf::in_range(%s, {%s}, st)) c.eq(a | noarr::offset(zs), %s->offset(st), \"offset at fix_zeros\"); }" % (m, ", ".join(str(cid(d)) for d, _ in z), m))
        e.out("c.barrier();")
        return {'body': "\n".join(e.lines)}


CHECK = C21()
