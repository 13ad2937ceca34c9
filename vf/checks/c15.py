from .common import *

SAFE_CONST = {'vector', 'uvector', 'bcast', 'setlen', 'shift', 'slice1', 'slice2', 'span1', 'span2', 'step', 'autostep', 'reverse', 'rename', 'hoist', 'join'}
STRIDED = {'vector', 'uvector', 'bcast', 'setlen', 'fix', 'shift', 'slice1', 'slice2', 'span1', 'span2', 'step', 'autostep', 'reverse', 'rename', 'hoist', 'join', 'blocks'}


class Facts:
    """what the recorded defects exclude, and where the dimensions lie in memory (only from the documented meaning of the operations)"""

    def __init__(self):
        self.step = set()       # strides multiplied by a step in another dimension
        self.merged = set()     # merged dimensions
        self.split = set()      # blocks of merged dimensions
        self.fixed = set()      # names that were fixed
        self.free = set()       # broadcast dimensions
        self.phys = []          # other dimensions, outermost in memory first; None: not a single dimension
        self.tup = None         # facts of the members, when phys[0] is a tuple dimension
        self.bad = False        # contiguity is not judged
        self.partial = False

    def outer(self, d):
        return d in self.free or (self.phys and self.phys[0] == d)


def facts(spec):
    if spec['base'] == 'scalar':
        f = Facts()
    else:
        subs = [facts(x) for x in spec['subs']]
        f = Facts()
        for k in ('step', 'merged', 'split', 'fixed'):
            setattr(f, k, set().union(*[getattr(x, k) for x in subs]))
        f.phys = [spec['d']]
        f.tup = subs
        f.bad = any(x.bad or x.partial or x.free for x in subs)
    sig = base_sig(spec)
    for op in spec['ops']:
        k = op['op']
        d = op.get('d')
        if k in ('vector', 'uvector', 'bcast'):
            if k == 'bcast':
                f.free.add(d)
            else:
                f.bad |= f.partial
                if f.tup is not None:
                    f.phys, f.tup = [d, None], None
                else:
                    f.phys.insert(0, d)
        elif k == 'fix':
            f.fixed.add(d)
            if d in f.free:
                f.free.discard(d)
            elif f.outer(d):
                if f.tup is not None:
                    t = f.tup[op['p']['n']]
                    f.phys, f.tup, f.free = list(t.phys), t.tup, f.free | t.free
                else:
                    f.phys = f.phys[1:]
                f.partial = True
            else:
                f.bad = True
        elif k in ('shift', 'slice1', 'slice2', 'span1', 'span2', 'step', 'autostep'):
            if k == 'autostep':
                d = sig.dim
            if k in ('step', 'autostep'):
                f.step |= set(dims(sig)) - {d}
            if f.tup is not None and f.outer(d):
                n = len(f.tup)
                st = op['p']['n'] if 'p' in op else 0
                if k == 'shift':
                    f.tup = f.tup[st:]
                elif k[:5] == 'slice':
                    f.tup = f.tup[st:st + op['q']['n']]
                elif k[:4] == 'span':
                    f.tup = f.tup[st:op['q']['n']]
                else:
                    f.tup = f.tup[st::op['q']['n']]
                f.bad |= not f.tup or any(t.partial for t in f.tup)
            if d not in f.free:
                f.bad |= not f.outer(d)
                f.partial = True
        elif k == 'rename':
            m = {a: b for a, b in op['pairs']}

            def ren(g):
                for s in ('step', 'merged', 'split', 'free'):
                    setattr(g, s, {m.get(x, x) for x in getattr(g, s)})
                g.phys = [m.get(x, x) for x in g.phys]
                for t in g.tup or []:
                    ren(t)
            ren(f)
        elif k == 'join':
            f.bad = True
            for s in (f.step, f.merged, f.split):
                if op['a'] in s or op['b'] in s:
                    s.add(d)
            for x in {op['a'], op['b']} - {d}:
                for s in (f.step, f.merged, f.split):
                    s.discard(x)
        elif k in ('blocks', 'blocks_dyn', 'blocks_static'):
            new = [op[x] for x in ('B', 'M', 'm') if x in op]
            pr = op.get('pr')
            f.split -= set(new + [pr]) - {d}
            if d in f.merged or d in f.split:
                f.split |= set(new) | ({pr} if pr else set())
            for s in (f.step, f.merged):
                hit = d in s
                s -= set(new) | {d, pr}
                if hit:
                    s |= set(new)
            if d not in new:
                f.split.discard(d)
            if d in f.free:
                f.free.discard(d)
                f.free |= set(new)
            elif d in f.phys:
                i = f.phys.index(d)
                f.phys[i:i + 1] = new
            else:
                f.bad = True
            if pr:
                f.free.add(pr)
        elif k in ('merge', 'zcurve'):
            ds = [op['M'], op['m']] if k == 'merge' else op['ds']
            hit = any(x in f.split for x in ds)
            for s in (f.step, f.merged, f.split):
                s -= set(ds)
            f.merged.add(d)
            if hit:
                f.split.add(d)
            if all(x in f.free for x in ds):
                f.free -= set(ds)
                f.free.add(d)
            elif k == 'merge' and f.tup is None and f.phys[:2] == ds:
                f.phys[:2] = [d]
            else:
                f.free -= set(ds)
                f.phys = [None] + [x for x in f.phys if x not in ds] + [d]
                if f.tup is not None:
                    f.bad = True
        sig = apply(sig, op)
    return f


def contig_sets(f, ds):
    """index sets (prefixes of the signature) with which contiguity is judged"""
    if f.bad:
        return []
    out = [[]]
    for k in range(1, len(ds) + 1):
        q = set(ds[:k]) - f.free
        if f.tup is not None:
            if q <= {f.phys[0]}:
                out.append(ds[:k])
            continue
        if set(f.phys[:len(q)]) == q:
            out.append(ds[:k])
    return out


class C15(StructCheck):
    id = 'C15'
    header = 'intro.hpp'
    programs = {'quick': 200, 'thorough': 2400}
    cases = {'quick': 10, 'thorough': 30}
    per_tu = 6
    rule = ("A case is a generated layout under 0-6 views and blocking operations, compiled as a program, with concrete lengths and parameters. For the empty state, every prefix of the indices and every "
            "state with all indices but one, whatever is reported about any dimension (stride, uniformity, contiguity) is compared with the offsets of all elements; partial offsets are compared in differences and in sum. "
            "Non-trivial: at least four elements, two dimensions, and two reported facts other than the absence of one.")
    assumptions = ["strides of dimensions that share a structure with a step in another dimension, contiguity under views that select from a dimension not outermost in memory, and blocks of merged dimensions are excluded: recorded findings"]
    probes = [
        {'key': 'stride-step-other-dim', 'wrong': 'stride of y',
         'body': "\tconst auto s = noarr::scalar<int>() ^ noarr::vector<'y'>(5) ^ noarr::vector<'x'>(8) ^ noarr::step<'x'>(0, 2);\n"
                 "\tc.eq(vf::stride_u64(noarr::stride_along<'y'>(s, noarr::empty_state)), sizeof(int), \"stride of y\"); c.nontrivial(); c.barrier();"},
        {'key': 'contiguous-inner-selection', 'wrong': 'contiguous although',
         'body': "\tconst auto s = noarr::scalar<int>() ^ noarr::vector<'y'>(5) ^ noarr::vector<'x'>(8) ^ noarr::slice<'y'>(1, 2);\n"
                 "\tc.expect(!noarr::is_contiguous(s, noarr::empty_state), \"reported contiguous although there are gaps between rows\"); c.nontrivial(); c.barrier();"},
        {'key': 'contiguous-join', 'wrong': 'contiguous although',
         'body': "\tconst auto s = noarr::scalar<int>() ^ noarr::vector<'y'>(5) ^ noarr::vector<'x'>(5) ^ noarr::join<'x', 'y', 'z'>();\n"
                 "\tc.expect(!noarr::is_contiguous(s, noarr::empty_state), \"reported contiguous although a diagonal has gaps\"); c.nontrivial(); c.barrier();"},
        {'key': 'uniform-blocks-of-merged', 'wrong': 'uniform although',
         'body': "\tconst auto s = noarr::scalar<int>() ^ noarr::vector<'y'>(3) ^ noarr::vector<'x'>(4) ^ noarr::hoist<'y'>() ^ noarr::merge_blocks<'y', 'x', 'z'>() ^ noarr::into_blocks<'z', 'Z', 'w'>(3);\n"
                 "\tconst auto o = [&](int Z, int w) { return (long long)(s | noarr::offset<'Z', 'w'>(Z, w)); };\n"
                 "\tconst bool u = o(1, 1) - o(1, 0) == o(0, 1) - o(0, 0) && o(2, 1) - o(2, 0) == o(0, 1) - o(0, 0) && o(3, 1) - o(3, 0) == o(0, 1) - o(0, 0);\n"
                 "\tc.expect(u || !noarr::is_uniform_along<'w'>(s, noarr::empty_state), \"reported uniform although not\"); c.nontrivial(); c.barrier();"},
    ]

    def gen(self, rng, i):
        if i % 4 == 1:
            g = Gen(rng, maxn=rng.choice([3, 4, 6]), lit=0.15)
            spec = g.layout(depth=rng.choice([1, 2, 3, 3]), tuples=0, bcast=0.15)
            kinds = sorted(STRIDED - {'uvector', 'setlen', 'step', 'autostep'})
            if rng.random() < 0.5:
                kinds = rng.sample(kinds, 3) + ['reverse']
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                g.add(spec, kinds, maxdims=6)
            spec['big'] = 1
            return spec
        g = Gen(rng, maxn=rng.choice([3, 4, 5]))
        spec = g.layout(depth=rng.choice([1, 2, 3, 3, 4]), tuples=0.25, bcast=0.15, unsized=0.2, limit=120)
        if rng.random() < 0.3:
            g.focus_on(spec)
        kinds = rng.choice([VIEWS, SLICES, SLICES + ['rename', 'hoist', 'bcast', 'vector'], BLOCKS, ALL, ALL + ['zcurve', 'vector', 'reverse', 'hoist'], ['blocks', 'blocks_dyn', 'reverse', 'shift', 'rename']])
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6])):
            g.add(spec, kinds + (['setlen'] if unset_dims(sig_of(spec)) else []), limit=150, maxdims=6)
        n = len(spec['ops'])
        g.finish(spec)
        if len(spec['ops']) > n and rng.random() < 0.5:
            spec['instate'] = 1
        return spec

    def emit_big(self, spec):
        e = Emit(big=True)
        s, m, sig = emit_spec(e, spec)
        if unset_dims(sig) or not dims(sig):
            raise Invalid
        if not set(kinds_of(spec)) <= STRIDED - {'step', 'autostep'}:
            raise Invalid
        e.out(tag_lines(spec, sig).strip())
        e.out("const vf::N mm = %s; c.require(vf::total_ok_model(mm)); using T = std::remove_cvref_t<decltype(%s)>;" % (m, s))
        e.out("vf::BigReport<T, %s%s> rep{c, %s, mm}; vf::sample_some(c, %s{}, mm, rep, 30); c.barrier();" % (str(set(kinds_of(spec)) <= SAFE_CONST).lower(), "".join(", " + cdim(d) for d in dims(sig)), s, csig(sig)))
        e.out("const vf::u64 size = mm->size({}); c.nontrivial(rep.facts >= 2 && size >= (1ull << 32)); if (size >= (1ull << 32)) c.tag(\"huge\");")
        return {'body': "\n".join(e.lines)}

    def emit(self, spec):
        if spec.get('big'):
            return self.emit_big(spec)
        e = Emit(maxlen=5)
        tail = []
        if spec.get('instate'):
            spec = dict(spec, ops=list(spec['ops']))
            while spec['ops'] and spec['ops'][-1]['op'] == 'setlen':
                tail.insert(0, spec['ops'].pop())
        s, m, sig = emit_spec(e, spec)
        full = dict(spec, ops=spec['ops'] + tail)
        L = 'noarr::empty_state'
        for op in tail:
            # lengths given in the state instead of by set_length
            if any(o['op'] != 'uvector' and op['d'] in (o.get('d'), o.get('a'), o.get('b'), o.get('M'), o.get('m')) for o in spec['ops']):
                if any(o['op'] not in ('uvector', 'vector', 'bcast', 'setlen', 'hoist', 'reorder', 'rename', 'join', 'shift', 'reverse') for o in spec['ops']):
                    raise Invalid
            _, m = emit_op(e, sig, op, m)
            L += ".with<noarr::length_in<%s>>(%s)" % (cdim(op['d']), e.arg(op['p']))
            sig = apply(sig, op)
        if unset_dims(sig):
            raise Invalid
        ks = kinds_of(full)
        f = facts(full)
        ds = dims(sig)
        if len(ds) > 8:
            raise Invalid
        e.out(tag_lines(full, sig).strip() + (' c.tag("lengths in state");' if tail else ''))
        e.out("const vf::N mm = %s; const auto L = %s;" % (m, L))
        e.out("c.require(vf::count_all(c, %s{}, mm) <= 400);" % csig(sig))
        e.out("using T = std::remove_cvref_t<decltype(%s)>;" % s)
        dl = "".join(", " + cdim(d) for d in ds)
        # into_blocks_static: the border index comes first
        need = [d for d in ds if any(isinstance(o, D) and all(isinstance(x, F) and x.guard for x in o.subs) for o, _ in occurrences(sig, d))]
        guarded = any(isinstance(o, F) and o.guard for d in ds for o, _ in occurrences(sig, d))
        if guarded or any(k.startswith('blocks') for k in ks) and need + [d for d in ds if isinstance(occurrences(sig, d)[0][0], D)]:
            need = [d for d in ds if isinstance(occurrences(sig, d)[0][0], D)]
            if any(not all_branches(sig, d) for d in need):
                raise Invalid
        e.out("using ND = vf::Need<%s>; vf::Pool pool{c};" % ", ".join(cdim(d) for d in need))
        e.out("{ vf::St st; vf::Collect<T, std::remove_cvref_t<decltype(L)>, ND%s> col{pool, %s, L}; vf::walk(c, %s{}, mm, st, L, col); }" % (dl, s, csig(sig)))
        bits = lambda x: sum(1 << i for i, d in enumerate(ds) if d in x)
        cube = is_cube(sig)
        order = [x.dim for x in chain(sig)[0]] if cube else ([sig.dim] if isinstance(sig, D) else [sig.dim] if isinstance(sig, F) else [])
        sets = contig_sets(f, order)
        e.out("vf::Report<T, ND%s> rep{pool, %s, %dull, %dull, {%s}};" % (dl, s, bits(f.step), bits(f.split), ", ".join("{%s}" % ", ".join(str(cid(d)) for d in q) for q in sets)))
        e.out("rep.with(L, {});")
        e.out("{ vf::St st; vf::walk(c, %s{}, mm, st, L, rep); }" % csig(sig))
        if f.split:
            e.out("for (auto &x : pool.el) for (auto &a : x.along) { %s }" % " ".join("a.erase(%d);" % cid(d) for d in sorted(f.split)))
        total = not f.split and (cube or set(ks) <= SAFE_CONST)
        for w in (0, 1, 2):
            if w == 0 or not any(k in ('blocks_dyn', 'blocks_static') for k in ks):
                e.out("pool.along(%d, %s, %s, %s);" % (w, 'true' if cube else 'false', 'true' if set(ks) <= SAFE_CONST else 'false', 'true' if total else 'false'))
        # names that were renamed or consumed are not reported about
        names = set()

        def collect(x):
            for op in x['ops']:
                for k, v in op.items():
                    if k in ('d', 'a', 'b', 'M', 'm', 'pr', 'B') and isinstance(v, str):
                        names.add(v)
                    if k in ('ds', 'order'):
                        names.update(v)
                    if k == 'pairs':
                        for a, b in v:
                            names.update((a, b))
            if x['base'] == 'tuple':
                names.add(x['d'])
            for y in x.get('subs', []):
                collect(y)
        collect(full)
        for d in sorted(names - set(ds) - f.fixed) if not need else []:
            e.out("c.expect(!noarr::HasStrideAlong<T, %s, std::remove_cvref_t<decltype(L)>> && !noarr::IsUniformAlong<T, %s, std::remove_cvref_t<decltype(L)>>, \"reports about the dimension %s, which is not there\");" % (cdim(d), cdim(d), d))
            e.out("c.expect(!noarr::HasOffsetAlong<T, %s, decltype(L.template with<noarr::index_in<%s>>(std::size_t(0)))>, \"reports a partial offset along the dimension %s, which is not there\");" % (cdim(d), cdim(d), d))
        # reported wherever the parts allow it
        if full['base'] == 'scalar' and set(ks) <= STRIDED:
            for d in ds:
                e.out("c.expect(noarr::HasStrideAlong<T, %s, std::remove_cvref_t<decltype(L)>>, \"no stride is reported along %s\");" % (cdim(d), d))
                e.out("c.expect(noarr::IsUniformAlong<T, %s, std::remove_cvref_t<decltype(L)>>, \"not reported uniform along %s\");" % (cdim(d), d))
        if cube and set(ks) <= {'vector', 'uvector', 'setlen', 'rename', 'hoist', 'reorder', 'reverse'}:
            e.out("c.expect(noarr::is_contiguous(%s, L), \"not reported contiguous\");" % s)
        e.out("c.barrier();")
        e.out("if (pool.strides) c.tag(\"stride\"); if (pool.uniforms) c.tag(\"uniform\"); if (pool.alongs) c.tag(\"partial offset\"); if (pool.contigs) c.tag(\"contiguous\");")
        e.out("c.note(\"elements\", pool.el.size()); c.note(\"facts\", pool.strides + pool.uniforms + pool.alongs + pool.contigs);")
        e.out("c.nontrivial(pool.el.size() >= 4 && %d >= 2 && pool.strides + pool.uniforms + pool.alongs + pool.contigs >= 2);" % len(ds))
        return {'body': "\n".join(e.lines)}

    def shrinks(self, spec):
        if spec.get('instate'):
            yield {k: v for k, v in spec.items() if k != 'instate'}
        yield from super().shrinks(spec)


CHECK = C15()
