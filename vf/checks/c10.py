from .common import *
from ..plan import *
from .c12 import PlannerCheck


class Planners(PlannerCheck):
    header = 'para.hpp'
    logtype = 'vf::PLog'

    def before(self, e, spec):
        e.out("const vf::u64 threads = c.pick({1, 2, 3, 4, 8, 16}); c.note(\"threads\", threads); const vf::Threads th_(threads); got.jitter = c.draw(1 << 20);")

    def compare(self, e):
        e.out("c.expect(!got.over, \"too many calls\"); got.compare_unordered(c, exp, \"parallel planner\"); if (got.threads.size() > 1) c.tag(\"several threads\");")


class Travs(TravCheck):
    def emit(self, spec):
        from ..trav import emit_trav
        e = long_emit(spec)
        t, mo, sig, parts = emit_trav(e, spec)
        d = top_dim([sig])
        if d is None or has_unset([sig]) or not loopable([sig], d):
            raise Invalid
        check_needs(sig)
        ks = sorted(set(k for x in spec['structs'] + [spec['order']] for k in kinds_of(x)))
        e.out(" ".join('c.tag("op:%s");' % k for k in ks) + " " + " ".join('c.tag("run:%s");' % k for k in spec['execs']))
        e.out("c.require(vf::count_all(c, %s{}, %s) <= %d);" % (csig(sig), mo, 4000 if spec.get('long') else 600))
        if spec.get('long'):
            e.out('c.tag("long");')
        e.out("const vf::G g0 = %s; vf::PLog got; vf::Log exp; exp.model = true; exp.cap = 20000; vf::u64 leaves = 0;" % grt(sig))
        e.out("const vf::u64 threads = c.pick({1, 2, 3, 4, 8, 16}); c.note(\"threads\", threads); const vf::Threads th_(threads); got.jitter = c.draw(1 << 20); got.cap = 30000;")
        leaf = "[&](auto st_) { got.add(%d, vf::read_state(st_), offs(st_)); }"
        for i, x in enumerate(spec['execs']):
            sec = x.endswith('sections')
            if x == 'tbb_for_sections':
                sections(sig, [d], False)   # (the library cannot select a dimension above a tuple)
            if sec:
                e.out("noarr::%s(%s, [&](const auto &in_) { got.add(%d, vf::read_state(in_.state())); in_.for_each(%s); });" % (x, t, 2 * i, leaf % (2 * i + 1)))
                e.out("vf::sections(g0, %s, {%d}, false, [&](const vf::G &g_, const vf::N &m_) { exp.add(%d, m_->reach({})); vf::visit(g_, m_, [&](const vf::St &st_) { exp.add(%d, st_, moffs(st_)); }); });" % (mo, cid(d), 2 * i, 2 * i + 1))
            else:
                e.out("noarr::%s(%s, %s);" % (x, t, leaf % (2 * i)))
                e.out("vf::visit(g0, %s, [&](const vf::St &st_) { exp.add(%d, st_, moffs(st_)); });" % (mo, 2 * i))
        e.out("c.expect(!got.over, \"too many calls\"); got.compare_unordered(c, exp, \"parallel traversal\"); if (got.threads.size() > 1) c.tag(\"several threads\");")
        e.out("leaves = exp.ev.size(); if (!leaves) c.tag(\"empty\"); c.nontrivial(leaves >= 2); c.note(\"calls\", leaves);")
        return {'body': "\n".join(e.lines)}

    def shrinks(self, spec):
        if len(spec['execs']) > 1:
            for x in spec['execs']:
                yield dict(spec, execs=[x])
        yield from super().shrinks(spec)


EXECS = [a + b for a in ('tbb', 'omp', 'std') for b in ('_for_each', '_for_sections')]
P, T = Planners(), Travs()


class C10(Check):
    id = 'C10'
    header = 'para.hpp'
    flags = ['-O0', '-fopenmp']
    libs = ['-ltbb']
    per_tu = 6
    deterministic = False
    programs = {'quick': 110, 'thorough': 1100}
    cases = {'quick': 14, 'thorough': 60}
    rule = ("A case is a traverser (1-3 generated structures, 0-3 orders) run by 1-2 of the OpenMP, TBB and standard parallel for_each / for_sections, or a planner (as in C12) run by one of the three planner executors, with 1-16 "
            "threads and pseudo-random delays in the calls. The unordered log of all calls - states, offsets of every structure, addresses of passed references - is compared with the sequential model's. "
            "Non-trivial: at least two calls.")
    assumptions = ["schedules are those the real OpenMP and TBB run-times produce under varied thread counts and injected delays", "the outermost dimension is not a tuple dimension and its length needs no index (required by the library)",
                   "no section action is due before the outermost dimension is iterated"]

    def sub(self, spec):
        return P if 'execs' not in spec else T

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([2, 3, 4, 6, 9]))
        if rng.random() < 0.6:
            spec = gen_trav(g, nstructs=rng.choice([1, 1, 2, 3]), norders=(0, 1, 1, 2, 3), depth=0, kinds=('each',), tuples=0.15, views=(0, 0, 1, 2), limit=150)
            spec['execs'] = rng.sample(EXECS, rng.choice([1, 2]))
            return go_long(rng, i, spec, 3)
        structs = P.gen_structs(g, rng.choice([1, 1, 2]), tuples=0.15)
        usig = union_sig([sig_of(x) for x in structs])
        if leaves(usig) > 300 or len(dims(usig)) > 5:
            return None
        plan = gen_planner(g, usig, acts=('exec', 'exec', 'exec', 'loop'), top=('par',))
        return go_long(rng, i, {'structs': structs, 'plan': plan, 'own': rng.choice([0, 0, 1, 2, 3]), 'const': rng.choice([0, 0, 1, 2]), 'uform': rng.random() < 0.2}, 3)

    def emit(self, spec):
        return self.sub(spec).emit(spec)

    def describe(self, spec):
        return self.sub(spec).describe(spec)

    def shrinks(self, spec):
        return self.sub(spec).shrinks(spec)


CHECK = C10()
