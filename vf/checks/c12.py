import copy
from .common import *
from ..plan import *
from ..trav import emit_parts, gen_struct2


def shrink_planner(plan):
    """smaller plans"""
    for i, st in enumerate(plan['build']):
        yield dict(plan, build=plan['build'][:i] + plan['build'][i + 1:])
        if st.get('form'):
            yield dict(plan, build=plan['build'][:i] + [dict(st, form=0)] + plan['build'][i + 1:])
        if st.get('fd'):
            yield dict(plan, build=plan['build'][:i] + [dict(st, fd=False)] + plan['build'][i + 1:])
        if st.get('elem'):
            yield dict(plan, build=plan['build'][:i] + [dict(st, elem=False)] + plan['build'][i + 1:])
        if len(st.get('ds', [])) > 1:
            for j in range(len(st['ds'])):
                yield dict(plan, build=plan['build'][:i] + [dict(st, ds=st['ds'][:j] + st['ds'][j + 1:])] + plan['build'][i + 1:])
        if 'in' in st:
            for x in shrink_planner(st['in']):
                yield dict(plan, build=plan['build'][:i] + [dict(st, **{'in': x})] + plan['build'][i + 1:])
    for i, a in enumerate(plan['acts']):
        if len(plan['acts']) > 1:
            yield dict(plan, acts=plan['acts'][:i] + plan['acts'][i + 1:])
        if a['k'] not in ('exec', 'trav'):
            yield dict(plan, acts=plan['acts'][:i] + [{'k': 'exec', 'form': 0}] + plan['acts'][i + 1:])
        elif a.get('form'):
            yield dict(plan, acts=plan['acts'][:i] + [dict(a, form=0)] + plan['acts'][i + 1:])


def plan_ops(plan):
    out = set()
    for st in plan['build']:
        out.add(st['k'] + (' elem' if st.get('elem') else ' hoisted' if st.get('fd') else ''))
        if st['k'] == 'order':
            out.add('order ' + st['op']['op'])
        if 'in' in st:
            out |= {'inner ' + x if not x.startswith('inner') else x for x in plan_ops(st['in'])}
    for a in plan['acts']:
        out.add('do ' + a['k'])
    return out


def planner_text(plan):
    out = []
    for st in plan['build']:
        if st['k'] == 'order':
            out.append("order(%s)" % ", ".join("%s=%s" % (k, v['n'] if isinstance(v, dict) else v) for k, v in st['op'].items()))
        elif st['k'] == 'each':
            out.append('for_each_elem' if st['elem'] else 'for_each')
        else:
            out.append("%s<%s> { %s }" % ('for_dims' if st.get('fd') else 'for_sections', ",".join(st['ds']), planner_text(st['in'])))
    return ".".join(out) + ": " + " + ".join(a['k'] + (" " + a['ds'][0] if 'ds' in a else "") for a in plan['acts'])


class PlannerCheck(Check):
    header = 'plan.hpp'
    libs = ['-ltbb']
    parallel = False

    def describe(self, spec):
        return "; ".join(describe_spec(x) for x in spec['structs']) + "; planner." + planner_text(spec['plan'])

    def shrinks(self, spec):
        from ..runner import shrink_spec
        for x in shrink_planner(spec['plan']):
            yield dict(spec, plan=x)
        if len(spec['structs']) > 1:
            for i in range(len(spec['structs'])):
                yield dict(spec, structs=spec['structs'][:i] + spec['structs'][i + 1:])
        if spec.get('own'):
            yield dict(spec, own=0)
        if spec.get('long'):
            yield dict(spec, long=0)
        for x in shrink_spec({'structs': spec['structs']}):
            yield dict(spec, **x)

    def gen_structs(self, g, n, limit=100, tuples=0.25):
        r = g.r
        first = g.layout(depth=r.choice([1, 2, 2, 3, 3]), tuples=tuples, bcast=0.1, limit=limit)
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            g.add(first, ALL, limit=limit)
        g.finish(first)
        out = [first]
        for _ in range(n - 1):
            out.append(gen_struct2(g, first))
        return out

    execs = None
    logtype = 'vf::Log'
    log = 'got'

    def emit(self, spec):
        e = long_emit(spec)
        parts, mo, usig = emit_parts(e, spec)
        if any(unset_dims(p[2]) for p in parts):
            raise Invalid
        plan = copy.deepcopy(spec['plan'])
        e.out("const auto offs = [&](auto st_) { return std::vector<vf::u64>{%s}; };" % ", ".join("(vf::u64)(%s | noarr::offset(st_))" % p[0] for p in parts))
        e.out("const auto moffs = [&](const vf::St &st_) { return std::vector<vf::u64>{%s}; };" % ", ".join("%s->offset(st_)" % p[1] for p in parts))
        bags = []
        for j, p in enumerate(parts):
            e.out("c.require(%s->size({}) <= 100000);" % p[1])
            if spec['own'] >> j & 1:
                e.out("const auto bag%d = noarr::make_bag(%s); const void *base%d = bag%d.data();" % (j, p[0], j, j))
            else:
                e.out("vf::Buffer buf%d(%s->size({})); const auto bag%d = noarr::make_bag(%s, %sbuf%d.p); const void *base%d = buf%d.p;" % (j, p[1], j, p[0], '(const void *)' if spec['const'] >> j & 1 else '', j, j, j))
            bags.append("bag%d" % j)
        e.out("const auto p0 = %s;" % ("noarr::planner(noarr::make_union(%s))" % ", ".join(b + ".get_ref()" for b in bags) if spec.get('uform') else "noarr::planner(%s)" % ", ".join(bags)))
        e.out("%s got; vf::Log exp; exp.model = true; exp.cap = 20000; vf::u64 leaves = 0;" % self.logtype)
        e.out("const vf::Plan q0{%s, %s, {}};" % (grt(usig), mo))
        pe = PlannerEmit(e, usig, len(parts), self.execs, self.log)
        pe.top(plan, 'p0', 'q0', mo)
        ks = sorted(set(k for x in spec['structs'] for k in kinds_of(x)))
        e.out(" ".join('c.tag("op:%s");' % k for k in ks) + " " + " ".join('c.tag("plan:%s");' % k for k in sorted(plan_ops(plan))))
        if not is_cube(usig):
            e.out('c.tag("tuple");')
        if spec.get('long'):
            e.out('c.tag("long"); c.require(vf::count_all(c, %s{}, %s) <= 4000);' % (csig(usig), mo))
        e.out("c.tag(\"bags:%d\");" % len(parts))
        e.out("vf::splits.clear(); got.cap = 30000;")
        self.before(e, spec)
        lib = ["\ttry {"] + pe.lib + ["\t} catch (vf::Fail &) { }"]
        # (the model of a split range needs to know where the library split it)
        e.lines += lib + pe.mod if any('vf::parts(' in l for l in pe.mod) else pe.mod + lib
        self.compare(e)
        e.out("leaves = exp.ev.size(); if (!leaves) c.tag(\"empty\"); c.nontrivial(leaves >= 2); c.note(\"calls\", leaves);")
        return {'body': "\n".join(e.lines)}

    def before(self, e, spec):
        pass

    def compare(self, e):
        e.out("got.compare(c, exp, \"planner\");")


class C12(PlannerCheck):
    id = 'C12'
    programs = {'quick': 130, 'thorough': 1300}
    cases = {'quick': 16, 'thorough': 50}
    rule = ("A case is 1-3 generated structures with bags over them and a planner with a per-element action (for_each, or for_each_elem with or without the state) and/or up to three per-section actions over chosen dimensions "
            "(for_sections, for_dims with its hoisting), under 0-3 orders placed anywhere between them, executed (possibly twice), iterated, subscripted, narrowed, split, or converted to a traverser; section actions execute "
            "their inner planner (reordered or not), add further actions to it, or traverse it. All calls - states, enclosing order, offsets of the passed references in their bags - are compared with a model that "
            "activates an action as soon as its original dimensions are known. Non-trivial: at least two calls.")
    assumptions = ["the original indices of a section are known no later than its action runs; at most one action can be activated at a time (the library rejects others)",
                   "no dimension is a tuple dimension in one tuple member and a plain one in another (planners do not compile there)",
                   "orders that transform tuple dimensions other than by fixing, renaming and reordering are not generated",
                   "sections are not requested between the indices of into_blocks_dynamic and its presence dimension (see the known finding)"]

    probes = [{'key': 'planner-dynamic-block-sections', 'wrong': 'sections ran for indices 0 1 2 3 4 5',
               'body': """
	const auto bag = noarr::make_bag(noarr::scalar<int>() ^ noarr::vector<'x'>(5));
	std::string at;
	noarr::planner(bag).template for_sections<'x'>([&](auto in) { at += " " + std::to_string(noarr::get_index<'x'>(in.state())); }).order(noarr::into_blocks_dynamic<'x', 'X', 'm', 'p'>(2)).execute();
	c.expect(at == " 0 1 2 3 4", "sections ran for indices" + at);"""}]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([2, 3, 3, 4]))
        structs = self.gen_structs(g, rng.choice([1, 1, 2, 2, 3]))
        usig = union_sig([sig_of(x) for x in structs])
        if leaves(usig) > 300 or len(dims(usig)) > 5:
            return None
        plan = gen_planner(g, usig, acts=('exec', 'exec', 'exec', 'loop', 'part', 'laws'))
        return go_long(rng, i, {'structs': structs, 'plan': plan, 'own': rng.choice([0, 0, 1, 2, 3]), 'const': rng.choice([0, 0, 1, 2]), 'uform': rng.random() < 0.2})


CHECK = C12()
