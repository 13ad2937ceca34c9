import random
from .common import *


def path_of(sig, rng):
    path = []
    x = sig
    while not isinstance(x, S):
        if isinstance(x, D):
            i = rng.randrange(len(x.subs))
            path.append((x.dim, i))
            x = x.subs[i]
        else:
            path.append((x.dim, None))
            x = x.sub
    return path, x


def guards(sig):
    """border dimensions of into_blocks_static: must be indexed before anything about the blocks is asked"""
    out = set()

    def go(s, last):
        if isinstance(s, D):
            for x in s.subs:
                go(x, s.dim)
        elif isinstance(s, F):
            if s.guard:
                out.add(last)
            go(s.sub, last)
    go(sig, None)
    return out


class C23(Check):
    id = 'C23'
    header = 'sigs.hpp'
    programs = {'quick': 260, 'thorough': 2600}
    cases = {'quick': 12, 'thorough': 40}
    rule = ("A case is a generated composition (sized or with lengths missing) with concrete run-time parameters. The shape of the signature (dimensions, order, tuple branches, element types) is compared with the "
            "generator's own, static lengths in it with the model's lengths at every index, and has_length, has_size, has_offset, is_cube, is_point, HasDims, any_accept, all_accept with the model at the empty, full and "
            "random partial states, for present, hidden and unknown dimensions. Non-trivial: at least one dimension.")
    assumptions = ["an index is not set for the dimension whose length is asked; the border index of into_blocks_static is set before its blocks are asked about (the library insists with a static_assert)"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([3, 4, 6]), lit=rng.choice([0.2, 0.5, 0.8]))
        g.member_views = SLICES + ['rename', 'blocks', 'blocks_dyn', 'merge', 'bcast']
        un = rng.random() < 0.3
        spec = g.layout(depth=rng.choice([1, 2, 2, 3]), tuples=0.3, bcast=0.1, unsized=0.4 if un else 0.0)
        if rng.random() < 0.3:
            g.focus_on(spec)
        for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5])):
            g.add(spec, VIEWS + BLOCKS + ['vector'] + (['zcurve'] if rng.random() < 0.3 else []))
        if rng.random() < 0.5:
            g.finish(spec)
        return {'s': spec, 'seed': rng.randrange(1 << 30)}

    def describe(self, spec):
        return describe_spec(spec['s'])

    def emit(self, spec):
        rng = random.Random(spec['seed'])
        e = Emit()
        s, m, sig = emit_spec(e, spec['s'])
        ks = kinds_of(spec['s'])
        e.out(tag_lines(spec['s'], sig).strip())
        ds = dims(sig)
        un = unset_dims(sig)
        e.out("using T = std::remove_cvref_t<decltype(%s)>;" % s)
        if not un:
            e.out("c.require(vf::count_all(c, %s{}, %s) <= 500);" % (csig(sig), m))
            if 'zcurve' in ks:   # (with no elements, not even the index 0 has a place on the curve)
                e.out("c.require(vf::count_all(c, %s{}, %s) > 0);" % (csig(sig), m))
        e.out("c.expect(vf::same_shape<%s, T::signature>::value, \"the signature does not list the expected dimensions and element types\"); c.barrier();" % csig(sig))
        e.out("{ vf::St st; vf::u64 n = 0; vf::static_lengths(c, (T::signature *)nullptr, %s, st, n); if (n) c.tag(\"static length\"); c.barrier(); }" % m)
        # traits
        if not un:
            e.out("c.expect(noarr::is_cube<T>::value == %s, \"is_cube\");" % str(is_cube(sig)).lower())
        e.out("c.expect(noarr::sig_is_cube<T::signature>::value == %s, \"sig_is_cube\"); c.expect(noarr::is_point<T>::value == %s, \"is_point\");" % (str(is_cube(sig)).lower(), str(not ds).lower()))
        # dimensions: present, hidden, unknown
        def alldims(sp):
            out = []
            for o in sp['ops']:
                for k in ('d', 'M', 'm', 'B', 'pr', 'a', 'b'):
                    if o.get(k):
                        out.append(o[k])
                for k in ('ds', 'order'):
                    out += o.get(k, [])
                for a, b in o.get('pairs', []):
                    out += [a, b]
            for x in sp.get('subs', []):
                out += alldims(x)
            if sp.get('d'):
                out.append(sp['d'])
            return out
        other = sorted(set(alldims(spec['s'])) - set(ds)) + ['Q', '#77']
        for d in ds + other:
            e.out("c.expect(T::signature::template any_accept<%s> == %s && T::signature::template all_accept<%s> == %s && noarr::HasDims<T, %s> == %s, \"any_accept, all_accept or HasDims of %s\");" % (
                cdim(d), str(d in ds).lower(), cdim(d), str(all_branches(sig, d)).lower(), cdim(d), str(d in ds).lower(), d))
        if len(ds) > 1:
            e.out("c.expect(noarr::HasDims<T, %s> && !noarr::HasDims<T, %s, noarr::dim<78>{}>, \"HasDims\");" % (", ".join(map(cdim, ds)), ", ".join(map(cdim, ds))))
        g = guards(sig)
        for rep in range(3):
            path, leaf = path_of(sig, rng)
            names = [d for d, _ in path]
            need = names[:max([names.index(d) + 1 for d, i in path if d in g], default=0)]

            def state(sub):
                its = [(d, i) for d, i in path if d in sub]
                rng.shuffle(its)
                if not its:
                    return "noarr::empty_state", "vf::St{}"
                v = [(d, i if i is not None else 0) for d, i in its]
                return ("noarr::idx<%s>(%s)" % (", ".join(cdim(d) for d, _ in its), ", ".join("noarr::lit<%d>" % i if i is not None else rng.choice(["std::size_t(0)", "std::size_t(0)", "noarr::lit<0>"]) for _, i in its)),
                        "vf::St{{%s}, {}}" % ", ".join("{%d, %d}" % (cid(d), i) for d, i in v))
            subs = [set(names), set(need)]
            for _ in range(2):
                subs.append(set(need) | {d for d in names if rng.random() < 0.5})
            if names:
                subs.append(set(names) - ({rng.choice(names)} - set(need)))
            for sub in subs:
                ns, ms = state(sub)
                ask = [d for d in names if d not in sub] + rng.sample(other, min(2, len(other)))
                e.out("{ const auto ns = %s; const vf::St st = %s;" % (ns, ms))
                for d in ask:
                    e.out("\tvf::pred_length<%s>(c, %s, ns, %s, st);" % (cdim(d), s, m))
                if not un:
                    e.out("\tvf::pred_offset(c, %s, ns, %s, st, %s);" % (s, m, str(sub == set(names)).lower()))
                if not sub:
                    e.out("\tvf::pred_size(c, %s, ns, %s, st);" % (s, m))
                e.out("}")
        e.out("c.barrier(); c.nontrivial(%d >= 1); c.note(\"dims\", %dull);" % (len(ds), len(ds)))
        return {'body': "\n".join(e.lines)}


CHECK = C23()
