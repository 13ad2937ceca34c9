import random
from .common import *

LENOPS = ['uvector', 'uvector', 'ubcast', 'vector', 'rename', 'reorder', 'hoist', 'join', 'shift', 'blocks', 'reverse']


class C24(Check):
    id = 'C24'
    programs = {'quick': 200, 'thorough': 2000}
    cases = {'quick': 20, 'thorough': 60}
    rule = ("A case is a generated composition whose vectors partly have no length yet. The missing lengths are supplied in three ways (set_length one by one in random order, set_length from a state, "
            "in the state of each query, and a random split of these), and indices are supplied as a full state, by fix (one by one, from a state, literal or run-time), and by random splits. "
            "Sizes, lengths, offsets and element addresses must equal the reference model's for all. Non-trivial: at least two dimensions and one element.")
    assumptions = ["indices and lengths are within bounds"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([3, 4, 6]))
        mode = i % 2
        if mode == 0:
            # lengths in state
            spec = g.layout(depth=rng.choice([1, 2, 2, 3]), tuples=0.25, bcast=0.1, unsized=0.7)
            if rng.random() < 0.3:
                g.focus_on(spec)
            for _ in range(rng.choice([0, 1, 2, 3])):
                g.add(spec, LENOPS)
            if not unset_dims(sig_of(spec)):
                g.add(spec, ['uvector'])
        else:
            spec = g.layout(depth=rng.choice([1, 2, 3, 3]), tuples=0.3, bcast=0.1)
            if rng.random() < 0.3:
                g.focus_on(spec)
            for _ in range(rng.choice([0, 1, 2, 3])):
                g.add(spec, VIEWS + BLOCKS)
        return {'s': spec, 'seed': rng.randrange(1 << 30)}

    def describe(self, spec):
        return describe_spec(spec['s'])

    def emit(self, spec):
        rng = random.Random(spec['seed'])
        e = Emit()
        s, m, sig = emit_spec(e, spec['s'])
        ud = unset_dims(sig)
        # values for the missing lengths
        lens = []
        for d in ud:
            lit = rng.random() < 0.25
            p = {'id': 90000 + len(lens), 'lit': lit, 'n': rng.choice([1, 2, 3, 4])}
            e.drawlen(p)
            lens.append((d, p))
        # model of the completed structure
        mm = m
        for d, p in lens:
            x = e.new('m')
            e.out("const vf::N %s = vf::setlen(%d, %s, %s);" % (x, cid(d), e.val(p), mm))
            mm = x
            sig = apply(sig, {'op': 'setlen', 'd': d, 'p': p})
        e.out(tag_lines(spec['s'], sig).strip())
        e.out("const vf::u64 size = %s->size({}); c.require(vf::count_all(c, %s{}, %s) <= 600);" % (mm, csig(sig), mm))

        def setlens(part, how):
            if not part:
                return ""
            part = list(part)
            rng.shuffle(part)
            if how == 'each':
                return "".join(" ^ noarr::set_length<%s>(%s)" % (cdim(d), e.arg(p)) for d, p in part)
            if how == 'multi':
                return " ^ noarr::set_length<%s>(%s)" % (", ".join(cdim(d) for d, _ in part), ", ".join(e.arg(p) for _, p in part))
            return " ^ noarr::set_length(%s)" % lenstate(part)

        def lenstate(part):
            return "noarr::empty_state" + "".join(".with<noarr::length_in<%s>>(%s)" % (cdim(d), e.arg(p)) for d, p in part)
        variants = []   # (struct text, state text)
        if lens:
            variants.append((s + setlens(lens, 'each'), 'noarr::empty_state', []))
            variants.append((s + setlens(lens, rng.choice(['multi', 'state'])), 'noarr::empty_state', []))
            sh = lens[:]
            rng.shuffle(sh)
            variants.append((s, lenstate(sh), sh[:]))
            k = rng.randrange(len(lens) + 1)
            rng.shuffle(sh)
            variants.append((s + setlens(sh[:k], rng.choice(['each', 'multi', 'state'])), lenstate(sh[k:]), sh[k:]))
        else:
            variants.append((s, 'noarr::empty_state', []))
        for k, (st, ls, _) in enumerate(variants):
            e.out("{ const auto S = %s; const auto L = %s;" % (st, ls))
            e.out("\tc.eq(S | noarr::get_size(L), size, \"size (variant %d)\"); c.barrier();" % k)
            e.out("\tvf::LenCheck<std::remove_cvref_t<decltype(S)>, std::remove_cvref_t<decltype(L)>> chk{c, S, L, %s, size};" % mm)
            e.out("\tvf::walk_all(c, %s{}, %s, chk); c.barrier(); c.nontrivial(chk.leaves >= 1 && %d >= 2); }" % (csig(sig), mm, len(dims(sig))))
        # indices by fix: random split of the dimensions, order of fixing random
        # (a dimension that is fixed must have its length by then: fix hides the dimension from the state)
        vi = rng.randrange(len(variants))
        st, ls, inl = variants[vi]
        e.out("const auto S = %s; const auto L = %s;" % (st, ls))
        for rep in range(2):
            self.fixes(e, rng, sig, mm, ls, {d for d, _ in inl})
        return {'body': "\n".join(e.lines)}

    def fixes(self, e, rng, sig, mm, ls, inl):
        # choose a branch for every tuple
        path = []
        x = sig
        while not isinstance(x, S):
            if isinstance(x, D):
                i = rng.randrange(len(x.subs))
                path.append((x.dim, i))
                x = x.subs[i]
            else:
                path.append((x.dim, None))
                x = x.sub
        if not path:
            return
        e.out("{ vf::St st; bool ok = true;")
        for k, (d, i) in enumerate(path):
            if i is not None:
                e.out("\tst.idx[%d] = %d;" % (cid(d), i))
            else:
                e.out("\tvf::u64 i%d = 0; if (ok) { const vf::u64 l = vf::mlen(%s, %d, st); if (!l) ok = false; else { i%d = c.draw(l); st.idx[%d] = i%d; } }" % (k, mm, cid(d), k, cid(d), k))
        e.out("\tif (ok) { const vf::u64 want = %s->offset(st);" % mm)
        arg = {}
        for k, (d, i) in enumerate(path):
            arg[d] = "noarr::lit<%d>" % i if i is not None else "(std::size_t)i%d" % k
        order = [d for d, _ in path]
        # (a dimension that is a plain one here and a tuple's one in another member cannot be fixed to a run-time index from outside: the library rejects it)
        elsewhere = set()
        map_all(sig, lambda x: (elsewhere.add(x.dim) if isinstance(x, D) else None) or x)
        inl = set(inl) | {d for d, i in path if i is None and d in elsewhere}
        # (into_blocks_static insists on its border index being known whenever anything about its blocks is asked)
        guard = [False]
        map_all(sig, lambda x: guard.__setitem__(0, guard[0] or (isinstance(x, F) and x.guard)) or x)
        if not guard[0]:
            rng.shuffle(order)
        k = rng.randint(0, len(order))
        fixed, rest = [d for d in order[:k] if d not in inl], order[k:] + [d for d in order[:k] if d in inl]
        how = rng.choice(['each', 'multi', 'state'])
        if not fixed:
            f = ""
        elif how == 'each':
            f = "".join(" ^ noarr::fix<%s>(%s)" % (cdim(d), arg[d]) for d in fixed)
        elif how == 'multi':
            f = " ^ noarr::fix<%s>(%s)" % (", ".join(cdim(d) for d in fixed), ", ".join(arg[d] for d in fixed))
        else:
            f = " ^ noarr::fix(noarr::idx<%s>(%s))" % (", ".join(cdim(d) for d in fixed), ", ".join(arg[d] for d in fixed))
        rs = "L" + "".join(" & noarr::idx<%s>(%s)" % (cdim(d), arg[d]) for d in rest)
        e.out("\t\tconst auto T = S%s; const auto R = %s;" % (f, rs))
        e.out("\t\tc.eq(T | noarr::offset(R), want, \"offset with indices partly fixed\"); c.eq(T | noarr::get_size(L), size, \"size with indices fixed\");")
        e.out("\t\tconst char *base = (const char *)(std::uintptr_t)0x1000000; const auto &ref = T | noarr::get_at((const void *)base, R); c.eq((vf::u64)((const char *)&ref - base), want, \"get_at with indices partly fixed\");")
        if rest:
            # lengths of the remaining dimensions, in signature order, with the fixed ones fixed
            seen = [d for d, _ in path if d in fixed]
            for d, i in path:
                if d in rest and i is None:
                    # length must be defined from the indices of the preceding dimensions (plus the fixed ones)
                    prev = [x for x, _ in path[:[y for y, _ in path].index(d)]]
                    known = set(prev) | set(fixed)
                    stt = "L" + "".join(" & noarr::idx<%s>(%s)" % (cdim(x), arg[x]) for x in prev if x in rest)
                    e.out("\t\t{ vf::St q; %s auto l = %s->length(%d, q); if (l) c.eq(T | noarr::get_length<%s>(%s), *l, \"length with indices partly fixed\"); }" % (
                        " ".join("q.idx[%d] = st.idx[%d];" % (cid(x), cid(x)) for x in sorted(known)), mm, cid(d), cdim(d), stt))
        ds = order[:]
        rng.shuffle(ds)
        if ls == 'noarr::empty_state':
            e.out("\t\t\tc.eq(S | noarr::offset<%s>(%s), want, \"offset by dimensions\");" % (", ".join(cdim(d) for d in ds), ", ".join(arg[d] for d in ds)))
            e.out("\t\t\tconst auto &ref2 = S | noarr::get_at<%s>((const void *)base, %s); c.eq((vf::u64)((const char *)&ref2 - base), want, \"get_at by dimensions\");" % (", ".join(cdim(d) for d in ds), ", ".join(arg[d] for d in ds)))
        e.out("\t} }")


CHECK = C24()
