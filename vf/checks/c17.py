import random
from .common import *

TEXT = [['char', 'bool', 'signed char', 'unsigned char'], ['short', 'unsigned short'], ['int', 'float', 'unsigned'], ['double', 'long long', 'std::size_t', 'long']]


class C17(Check):
    id = 'C17'
    header = 'serial.hpp'
    flags = ['-O0', '-fsanitize=address']
    programs = {'quick': 110, 'thorough': 1500}
    cases = {'quick': 12, 'thorough': 40}
    rule = ("A case is a generated structure (layout under 0-4 views) with concrete lengths and arbitrary values in all elements. Its text is compared, character by character, with that of the model's enumeration; it is read back into the same structure "
            "and into another layout of the same signature, with other white space, from incomplete input, and into two bags from one stream; all bytes outside the elements are compared, and the storage bounds are guarded by the address sanitizer. "
            "Non-trivial: at least two elements.")
    assumptions = ["single-byte integers are characters for the streams: only printable ones are used", "floating-point values are finite and not subnormal; the stream precision is set so that the text is exact"]

    def gen(self, rng, i):
        types = rng.choice(TEXT)
        if i % 6 == 5:
            n = rng.choice([2, 2, 3])
            return {'pair': 1, 'ts': [rng.choice(types) for _ in range(n)], 'seed': rng.randrange(1 << 30)}
        g = Gen(rng, maxn=rng.choice([3, 4, 5]), types=types)
        spec = g.layout(depth=rng.choice([0, 1, 2, 2, 3, 4]), tuples=0.3, bcast=0.1, limit=80)
        for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
            g.add(spec, ALL, limit=100)
        return {'s': spec, 'seed': rng.randrange(1 << 30)}

    def describe(self, spec):
        if spec.get('pair'):
            return "array of structures / structure of arrays of " + ", ".join(spec['ts'])
        return describe_spec(spec['s'])

    def shrinks(self, spec):
        if spec.get('pair'):
            if len(spec['ts']) > 1:
                yield dict(spec, ts=spec['ts'][:-1])
            return
        from ..runner import shrink_spec
        for x in shrink_spec(spec['s']):
            yield dict(spec, s=x)

    def pair(self, spec):
        """the same elements as an array of structures and as a structure of arrays"""
        rng = random.Random(spec['seed'])
        e = Emit()
        ts = spec['ts']
        e.out("const vf::u64 n = c.len(5, 6), k = c.len(3, 4); c.note(\"n\", n); c.note(\"k\", k); c.tag(\"tuple\");")
        sc = ", ".join("noarr::scalar<%s>()" % t for t in ts)
        ms = ", ".join("vf::scalar(sizeof(%s))" % t for t in ts)
        X, K = ord('x'), ord('k')
        e.out("const auto sa = noarr::pack(%s) ^ noarr::tuple<'t'>() ^ noarr::vector<'x'>((std::size_t)n) ^ noarr::vector<'k'>((std::size_t)k) ^ noarr::reorder<'t', 'k', 'x'>();" % sc)
        e.out("const vf::N ma = vf::setlen(%d, k, vf::vec(%d, vf::setlen(%d, n, vf::vec(%d, vf::tuple(%d, {%s})))));" % (K, K, X, X, ord('t'), ms))
        arrs = ["noarr::scalar<%s>() ^ noarr::vector<'%s'>((std::size_t)%s)" % (t, 'x', 'n') for t in ts]
        marr = ", ".join("vf::setlen(%d, n, vf::vec(%d, vf::scalar(sizeof(%s))))" % (X, X, t) for t in ts)
        if rng.random() < 0.5:
            e.out("const auto sb = noarr::pack(%s) ^ noarr::tuple<'t'>() ^ noarr::vector<'k'>((std::size_t)k) ^ noarr::reorder<'t', 'k', 'x'>();" % ", ".join(arrs))
            e.out("const vf::N mb = vf::setlen(%d, k, vf::vec(%d, vf::tuple(%d, {%s})));" % (K, K, ord('t'), marr))
        else:
            arrs = [a + " ^ noarr::vector<'k'>((std::size_t)k)" for a in arrs]
            marr = ", ".join("vf::setlen(%d, k, vf::vec(%d, vf::setlen(%d, n, vf::vec(%d, vf::scalar(sizeof(%s))))))" % (K, K, X, X, t) for t in ts)
            e.out("const auto sb = noarr::pack(%s) ^ noarr::tuple<'t'>();" % ", ".join(arrs))
            e.out("const vf::N mb = vf::tuple(%d, {%s});" % (ord('t'), marr))
        e.out("using Sig = vf::D<'t', %s>;" % ", ".join("vf::F<'k', vf::F<'x', vf::S<%s>>>" % t for t in ts))
        e.out("const vf::u64 size = ma->size({});")
        e.out("vf::check_transfer(c, sa, ma, size, sb, mb, size, Sig{}); vf::check_transfer(c, sb, mb, size, sa, ma, size, Sig{});")
        e.out("const vf::u64 leaves = vf::check_serial(c, sb, Sig{}, mb, size, true);")
        e.out("c.nontrivial(leaves >= 2); c.note(\"elements\", leaves);")
        return {'body': "\n".join(e.lines)}

    def emit(self, spec):
        if spec.get('pair'):
            return self.pair(spec)
        rng = random.Random(spec['seed'])
        e = Emit(maxlen=5)
        sp = spec['s']
        s, m, sig = emit_spec(e, sp)
        if unset_dims(sig):
            raise Invalid
        e.out(tag_lines(sp, sig).strip())
        e.out("const vf::N mm = %s; using Sig = %s;" % (m, csig(sig)))
        e.out("c.require(vf::count_all(c, Sig{}, mm) <= 200 && mm->size({}) <= 4000);")
        e.out("const vf::u64 size = mm->size({});")
        e.out("const vf::u64 leaves = vf::check_serial(c, %s, Sig{}, mm, size, %s);" % (s, 'true'))
        if is_cube(sig) and not any(x.needs for x in chain(sig)[0]) and dims(sig):
            # another layout of the same signature
            fs, sc = chain(sig)
            ds = [x.dim for x in fs]
            ls = {}
            for k, d in enumerate(ds):
                ls[d] = "l%d" % k
                e.out("const vf::u64 l%d = vf::mlen_min(mm, %d, std::vector<vf::St>{vf::St{{}, {}}});" % (k, cid(d)))
            order = ds[:]
            rng.shuffle(order)
            t, mb = "noarr::scalar<%s>()" % sc.t, "vf::scalar(sizeof(%s))" % sc.t
            for d in order:
                t += " ^ noarr::vector<%s>((std::size_t)%s)" % (cdim(d), ls[d])
                mb = "vf::setlen(%d, %s, vf::vec(%d, %s))" % (cid(d), ls[d], cid(d), mb)
                if rng.random() < 0.25:
                    t += " ^ noarr::reverse<%s>()" % cdim(d)
                    mb = "vf::reverse(%d, %s)" % (cid(d), mb)
            t += " ^ noarr::reorder<%s>()" % ", ".join(cdim(d) for d in ds) if rng.random() < 0.5 else "".join(" ^ noarr::hoist<%s>()" % cdim(d) for d in reversed(ds))
            e.out("const auto sb = %s; const vf::N mb = %s;" % (t, mb))
            e.out("vf::check_transfer(c, %s, mm, size, sb, mb, mb->size({}), Sig{});" % s)
        e.out("c.nontrivial(leaves >= 2); c.note(\"elements\", leaves); if (!leaves) c.tag(\"empty\");")
        return {'body': "\n".join(e.lines)}


CHECK = C17()
