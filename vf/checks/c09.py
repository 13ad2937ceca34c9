from .common import *
from ..trav import *


class C09(TravCheck):
    id = 'C09'
    header = 'ranges.hpp'
    libs = ['-ltbb']
    lib_first = True
    programs = {'quick': 150, 'thorough': 1500}
    cases = {'quick': 16, 'thorough': 50}
    rule = ("A case is a generated structure under 0-3 orders, and a plan in which traversers are iterated (range-for, begin/end, iterators, subscripts), turned into ranges over the outermost or another dimension, narrowed to "
            "random bounds, cut into contiguous parts or split repeatedly with the TBB splitting constructor at random places, turned back into traversers and traversed again. Calls are compared with the model's; "
            "random-access iterator laws are checked between random positions. Non-trivial: at least two calls.")
    assumptions = ["a range is made over a dimension whose length needs no other index"]

    def before(self, e, spec, sig, mo):
        e.out("vf::splits.clear();")

    def gen(self, rng, i):
        if i % 15 == 7:
            return {'huge': rng.choice(['none', 'none', 'shift', 'reverse', 'step', 'slice', 'rename', 'minor', 'second', 'fixed', 'merge']), 'structs': [], 'order': {'base': 'order', 'ops': []}, 'plan': [],
                    'bits': rng.choice([31, 31, 32, 33, 36]), 'outer': rng.randrange(3), 'planner': rng.random() < 0.35}
        g = Gen(rng, maxn=rng.choice([2, 3, 4, 6, 9]))
        return go_long(rng, i, gen_trav(g, norders=(0, 0, 1, 1, 2, 3), depth=rng.choice([1, 2, 3, 3]), kinds=('loop', 'loop', 'loop', 'part', 'part', 'part', 'laws', 'laws', 'sec', 'order'),
                        tuples=0.15, views=(0, 0, 0, 1), limit=100))

    def describe(self, spec):
        return "a range longer than 2^%d (%s)" % (spec['bits'], spec['huge']) if 'huge' in spec else super().describe(spec)

    def shrinks(self, spec):
        if 'huge' not in spec:
            yield from super().shrinks(spec)

    def emit(self, spec):
        if 'huge' not in spec:
            return super().emit(spec)
        h = spec['huge']
        b = ["const vf::u64 n = (1ull << %d) + c.draw(1ull << %d) + 8; const vf::u64 k = 1 + c.draw(%s);" % (spec['bits'], spec['bits'], '5' if h == 'step' else '1ull << 31')]
        st = ["noarr::scalar<char>() ^ noarr::vector<'x'>(n)", "noarr::scalar<short>() ^ noarr::vector<'y'>(c.draw(3) + 1) ^ noarr::vector<'x'>(n) ^ noarr::fix<'y'>(0)",
              "noarr::scalar<int>() ^ noarr::bcast<'x'>(n)"][spec['outer']]
        if h == 'second':
            st = "noarr::scalar<char>() ^ noarr::vector<'y'>(1) ^ noarr::vector<'x'>(n)"
        if h == 'merge':
            st = "noarr::scalar<char>() ^ noarr::vector<'x'>(1ull << 33) ^ noarr::vector<'y'>(3)"
        if h == 'minor':
            b.append("const vf::u64 B = 1 + c.draw(3);")
            st = st.replace('(n)', '(n / B * B)')
        b.append("const auto s = %s;" % st)
        o, n, to = {'none': ("noarr::neutral_proto{}", "n", "i"), 'shift': ("noarr::shift<'x'>(k)", "n - k", "i + k"), 'reverse': ("noarr::reverse<'x'>()", "n", "n - 1 - i"), 'step': ("noarr::step<'x'>(k - 1, k)", "(n - (k - 1) + k - 1) / k", "k - 1 + i * k"),
                    'slice': ("noarr::slice<'x'>(k, n - k - 1)", "n - k - 1", "i + k"), 'rename': ("noarr::rename<'x', 'z'>()", "n", "i"), 'minor': ("noarr::into_blocks<'x', 'X', 'm'>(B) ^ noarr::fix<'m'>(B - 1)", "n / B", "i * B + B - 1"),
                    'second': ("noarr::fix<'y'>(0)", "n", "i"), 'fixed': ("noarr::bcast<'w'>(2) ^ noarr::fix<'w'>(1)", "n", "i"), 'merge': ("noarr::merge_blocks<'y', 'x', 'z'>()", "3 * (1ull << 33)", "i %% (1ull << 33)".replace('%%', '%'))}[h]
        call = "vf::huge_planner(c, s, %s, %s," if spec['planner'] else "vf::huge_range(c, noarr::traverser(s).order(%s), %s,"
        b.append(call % (o, n) + " [=](vf::u64 i) -> vf::u64 { return %s; }); c.nontrivial(true); c.tag(\"huge\"); c.note(\"length\", n); (void)k;" % to)
        return {'body': "\n".join("\t" + x for x in b)}

    def after(self, e, spec, sig, mo, parts):
        if not ({'loop', 'part', 'laws'} & plan_kinds(spec['plan'])):
            raise Invalid


CHECK = C09()
