import random
from .common import *


class C13(Check):
    id = 'C13'
    header = 'bags.hpp'
    flags = ['-O0', '-fsanitize=address']
    programs = {'quick': 90, 'thorough': 1200}
    cases = {'quick': 12, 'thorough': 40}
    rule = ("A case is a generated structure with concrete parameters and bags over it of every kind (owning unique_ptr and vector, adopted unique_ptr, raw, const raw, references to each, moved and assigned, and bags reshaped by "
            "0-3 layout-preserving transformations). Every index is read and written by bag[state], bag.at<dims> and the address, the value and all other bytes are compared with the model; storage bounds are guarded by the "
            "address sanitizer while all size() bytes are written. One program in eight has lengths up to beyond 2^32 and compares addresses only; one in four has owning bags of up to 8 MiB, of which some elements are read and compared. Non-trivial: at least two elements.")
    assumptions = ["tuple members have one common alignment class"]

    def gen(self, rng, i):
        if i % 8 == 3:
            g = Gen(rng, maxn=rng.choice([3, 4, 6]), lit=0.2)
            spec = g.layout(depth=rng.choice([1, 2, 3]), tuples=0.15, bcast=0.1)
            n0 = rng.choice([0, 0, 1])
            for _ in range(n0):
                g.add(spec, LAYOUT + SLICES, maxdims=6)
            n0 = len(spec['ops'])
            for _ in range(rng.choice([0, 1, 2])):
                g.add(spec, SLICES + NAMES + ['blocks', 'merge', 'reverse'], maxdims=6)
            return {'s': spec, 'views': len(spec['ops']) - n0, 'seed': rng.randrange(1 << 30), 'big': 1}
        if i % 8 in (5, 7):
            g = Gen(rng, maxn=rng.choice([3, 9, 200]))
            spec = g.layout(depth=rng.choice([1, 2, 2]), tuples=0.2, bcast=0.1)
            for _ in range(rng.choice([0, 0, 1])):
                g.add(spec, LAYOUT + SLICES, maxdims=4)
            n0 = len(spec['ops'])
            for _ in range(rng.choice([0, 1, 2])):
                g.add(spec, SLICES + NAMES + ['blocks', 'merge', 'reverse'], maxdims=4)
            return {'s': spec, 'views': len(spec['ops']) - n0, 'seed': rng.randrange(1 << 30), 'large': rng.choice([100, 400, 2000, 30000])}
        g = Gen(rng, maxn=rng.choice([3, 4, 6]))
        spec = g.layout(depth=rng.choice([0, 1, 2, 2, 3]), tuples=0.3, bcast=0.1, limit=60)
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.add(spec, ALL, limit=60)
        n0 = len(spec['ops'])
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            g.add(spec, ALL, limit=120)
        return {'s': spec, 'views': len(spec['ops']) - n0, 'seed': rng.randrange(1 << 30)}

    def describe(self, spec):
        return describe_spec(spec['s'])

    def emit(self, spec):
        rng = random.Random(spec['seed'])
        big = spec.get('big')
        large = spec.get('large')
        e = Emit(big=True) if big else Emit(maxlen=large or 5)
        sp = spec['s']
        nv = min(spec['views'], len(sp['ops']))
        k = len(sp['ops']) - nv
        base = dict(sp, ops=sp['ops'][:k])
        s, m, sig = emit_spec(e, base)
        if unset_dims(sig):
            raise Invalid
        e.out(tag_lines(sp, sig).strip())
        if large:
            e.out("c.require(%s->size({}) <= (1 << 23));" % m)
        elif not big:
            e.out("c.require(vf::count_all(c, %s{}, %s) <= 150 && %s->size({}) <= 3000);" % (csig(sig), m, m))
        e.out("const vf::u64 size = %s->size({}); vf::u64 leaves = 0; using Sig = %s;" % (m, csig(sig)))
        # reshape
        protos = []
        mv, sv = m, sig
        for op in sp['ops'][k:]:
            if op['op'] in ('vector', 'uvector'):
                raise Invalid
            t, mt = emit_op(e, sv, op, mv)
            x = e.new('m')
            e.out("const vf::N %s = %s;" % (x, mt))
            mv = x
            sv = apply(sv, op)
            protos.append("(%s)" % t)
        if unset_dims(sv):
            raise Invalid
        if big:
            e.out("c.require(vf::total_ok_model(%s)); void *const base = (void *)((1ull << 44) + 64 * c.draw(1000));" % mv)
            e.out("{ const auto raw = noarr::make_bag(%s, base); leaves += vf::big_bag(c, raw, Sig{}, %s, size, \"huge raw\"); leaves += vf::big_bag(c, raw.get_ref(), Sig{}, %s, size, \"huge reference\");" % (s, m, m))
            e.out("  const auto cr = noarr::bag(%s, (const void *)base); leaves += vf::big_bag(c, cr, Sig{}, %s, size, \"huge const raw\");" % (s, m))
            if protos:
                e.out("  const auto v = raw ^ %s; leaves += vf::big_bag(c, v, %s{}, %s, size, \"reshaped huge raw\");" % (" ^ ".join(protos), csig(sv), mv))
            e.out("} c.barrier(); c.nontrivial(leaves >= 2 && size >= (1ull << 32)); if (size >= (1ull << 32)) c.tag(\"huge\");")
            return {'body': "\n".join(e.lines)}
        if large:
            e.out("auto b1 = %s; vf::fill((void *)b1.data(), size, 99); const auto img = vf::bytes(b1, size);" % rng.choice([
                "noarr::make_bag(%s)", "noarr::make_bag(%s)", "noarr::make_vector_bag(%s)", "noarr::bag(%s)"]).replace('%s', s))
            e.out("leaves += vf::large_bag(c, b1, Sig{}, %s, img, \"large owning\"); leaves += vf::large_bag(c, b1.get_ref(), Sig{}, %s, img, \"reference to a large one\");" % (m, m))
            if protos:
                e.out("const auto v = b1.get_ref() ^ %s; leaves += vf::large_bag(c, v, %s{}, %s, img, \"reshaped reference to a large one\");" % (" ^ ".join(protos), csig(sv), mv))
            e.out("auto b2 = std::move(b1); leaves += vf::large_bag(c, b2, Sig{}, %s, img, \"moved large\");" % m)
            if protos:
                e.out("const auto b3 = std::move(b2) ^ %s; leaves += vf::large_bag(c, b3, %s{}, %s, img, \"reshaped large\");" % (" ^ ".join(protos), csig(sv), mv))
            e.out("c.barrier(); c.nontrivial(leaves >= 2 && size >= 4096); if (size >= 65536) c.tag(\"large\"); c.note(\"elements\", leaves);")
            return {'body': "\n".join(e.lines)}
        if protos:
            e.out("c.require(vf::count_all(c, %s{}, %s) <= 200);" % (csig(sv), mv))
            e.out("using SigV = %s;" % csig(sv))
            e.out("c.tag(\"reshaped\");")
        own = rng.choice([
            ("noarr::make_bag(%s)" % s, 0), ("noarr::make_unique_bag(%s)" % s, 0), ("noarr::make_vector_bag(%s)" % s, 1), ("noarr::make_vector_bag(%s)" % s, 1), ("noarr::bag(%s)" % s, 0),
            ("noarr::bag(%s, std::make_unique<char[]>(size))" % s, 0), ("noarr::unique_bag<std::remove_cvref_t<decltype(%s)>>(%s)" % (s, s), 0)])
        vec = own[1]
        con = 'true' if vec else 'false'     # a vector bag gives read-only access
        e.out("auto b1 = %s;" % own[0])
        e.out("if (size) vf::fill((void *)b1.data(), size, 99);")
        e.out("leaves = vf::check_bag<%s>(c, b1, Sig{}, %s, size, 1, \"owning\"); c.barrier();" % (con, m))
        e.out("{ const auto ref = b1.get_ref(); vf::check_bag<%s>(c, ref, Sig{}, %s, size, %d, \"reference\"); c.expect((const void *)ref.data() == (const void *)b1.data(), \"get_ref refers to other data\"); }" % (con, m, 0 if vec else 2))
        e.out("{ const auto img = vf::bytes(b1, size); auto b2 = std::move(b1); vf::check_values(c, b2, Sig{}, %s, img, \"moved\");" % m)
        e.out("  auto b3 = %s; b3 = std::move(b2); vf::check_values(c, b3, Sig{}, %s, img, \"move-assigned\"); c.barrier();" % (own[0], m))
        if protos:
            e.out("  auto b4 = std::move(b3) ^ %s; vf::check_bag<%s>(c, b4, SigV{}, %s, size, 0, \"reshaped owning\");" % (" ^ ".join(protos), con, mv))
            e.out("  vf::check_values(c, b4, SigV{}, %s, img, \"reshaped owning\");" % mv)
        e.out("}")
        e.out("c.barrier(); vf::Buffer buf(size);")
        e.out("{ const auto raw = %s; vf::check_bag<false>(c, raw, Sig{}, %s, size, 3, \"raw\"); c.expect(raw.data() == buf.p, \"raw bag data\"); const auto img = vf::bytes(raw, size); const auto copy = raw; vf::check_values(c, copy, Sig{}, %s, img, \"copied raw\");" % (
            rng.choice(["noarr::make_bag(%s, buf.p)", "noarr::bag(%s, buf.p)"]) % s, m, m))
        e.out("  const auto cr = %s; vf::check_bag<true>(c, cr, Sig{}, %s, size, 0, \"const raw\"); const auto rr = cr.get_ref(); vf::check_bag<true>(c, rr, Sig{}, %s, size, 0, \"const reference\");" % (
            rng.choice(["noarr::make_bag(%s, (const void *)buf.p)", "noarr::bag(%s, (const void *)buf.p)"]) % s, m, m))
        if protos:
            e.out("  const auto v = raw ^ %s; vf::check_bag<false>(c, v, SigV{}, %s, size, 0, \"reshaped raw\"); const auto cv = cr ^ (%s); vf::check_values(c, cv, SigV{}, %s, img, \"reshaped const raw\"); vf::check_bag<false>(c, v, SigV{}, %s, size, 4, \"reshaped raw, written\");" % (
                " ^ ".join(protos), mv, " ^ ".join(protos), mv, mv))
        e.out("}")
        # a traverser of the bag reaches its elements (by state and by the traverser itself)
        e.out("{ const auto raw = noarr::make_bag(%s, buf.p); std::size_t k = 0; std::vector<vf::u64> want, got; vf::visit(%s, vf::probe(%s), [&](const vf::St &st) { want.push_back(%s->offset(st)); });" % (s, grt_(sig), m, m))
        e.out("  noarr::traverser(raw).for_sections([&](auto in) { if (k++ < 1000) { got.push_back((const char *)&raw[in] - (const char *)buf.p); c.eq((const char *)&raw[in.state()] - (const char *)buf.p, got.back(), \"bag[traverser]\"); } });")
        e.out("  c.expect(want == got, \"elements reached by a traverser of the bag\"); }")
        e.out("c.nontrivial(leaves >= 2); c.note(\"elements\", leaves); if (!leaves) c.tag(\"empty\");")
        return {'body': "\n".join(e.lines)}


def grt_(sig):
    from ..trav import grt
    return grt(sig)


CHECK = C13()
