from .common import *


class C01(StructCheck):
    id = 'C01'
    programs = {'quick': 240, 'thorough': 2400}
    cases = {'quick': 25, 'thorough': 80}
    rule = ("A case is a composition of scalars (13 element types), vectors, arrays and nested tuples (static or dynamic lengths, lengths set in place or later), "
            "generated as a program and compiled, together with concrete run-time lengths. Non-trivial: at least two dimensions and at least two elements "
            "(for the huge-length cases: total size of at least 2^32 bytes).")
    assumptions = ["tuple members that mix alignments (a tenth of the programs): order, bounds and disjointness only, not the exact address (see KNOWN_FINDINGS.txt)", "total sizes below 2^60 bytes"]

    probes = [{'key': 'tuple-mixed-alignment', 'wrong': 'size of a tuple of a char and an int: 8 instead of 5', 'body': """
	const auto s = noarr::pack(noarr::scalar<char>(), noarr::scalar<int>()) ^ noarr::tuple<'t'>();
	const vf::u64 size = s | noarr::get_size();
	c.expect(size == 5, vf::fmt("size of a tuple of a char and an int: %llu instead of 5", size));
"""}]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([4, 6, 9]))
        big = i % 5 == 4
        if i % 10 == 3:
            g.types = [t for c in CLASSES for t in c]
            spec = g.layout(depth=rng.choice([1, 2, 3]), tuples=1, unsized=0.1)
            g.finish(spec)
            spec['mixed'] = 1
            return spec
        if big:
            g.lit = 0.2
        spec = g.layout(depth=rng.choice([1, 2, 3, 4, 5]) if not big else rng.choice([2, 3, 4]), tuples=0.45, unsized=0.25)
        g.finish(spec)
        if big:
            spec['big'] = 1
        return spec

    def body(self, e, spec, s, m, sig):
        if any(o not in ('vector', 'uvector', 'setlen') for o in kinds_of(spec)):
            raise Invalid
        if spec.get('big'):
            e.out("c.require(vf::total_ok_model(%s));" % m)
        if spec.get('mixed'):
            e.out("const vf::u64 size = %s | noarr::get_size(); vf::AddressCheck<std::remove_cvref_t<decltype(%s)>> chk{c, %s, %s, size}; chk.ordered = true;" % (s, s, s, m))
        else:
            e.out(ADDRESS.format(s=s, m=m))
        if spec.get('big'):
            e.out("vf::sample_some(c, %s{}, %s, chk, 12);" % (csig(sig), m))
            e.out("c.nontrivial(size >= (1ull << 32)); if (size >= (1ull << 32)) c.tag(\"huge\"); if (size == 0) c.tag(\"empty\");")
        else:
            e.out("vf::Occupancy occ(size); chk.occ = &occ;")
            e.out("vf::walk_all(c, %s{}, %s, chk); c.barrier();" % (csig(sig), m))
            if not spec.get('mixed'):
                e.out("c.eq(occ.total, size, \"sum of the element sizes\");")
            e.out("vf::WriteCheck<std::remove_cvref_t<decltype(%s)>> wr(c, %s, size); if (size < 20000) vf::sample_some(c, %s{}, %s, wr, 5);" % (s, s, csig(sig), m))
            e.out("c.nontrivial(chk.leaves >= 2 && %d >= 2); if (!chk.leaves) c.tag(\"empty\"); c.note(\"elements\", chk.leaves);" % len(dims(sig)))


CHECK = C01()
