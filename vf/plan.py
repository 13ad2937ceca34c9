"""Planners: specs, static simulation of which action is activated when, and their text for the library and for the model.

A plan is {'build': [steps], 'acts': [actions]}: builder calls on a planner, then what is done with the result.
steps:   order {op, form} | each {elem, form} | sec {ds, form, in: plan, fd: hoist}   (in: what the action does with its inner planner)
actions: exec {form} | loop {ds, form} | part {ds, form, tbb} | laws {ds} | trav
"""
import re
from .trav import *


def known(ops):
    """original dimensions known after all ops (fixes included), with their tuple index or None; the ops are outermost last"""
    K = {}
    for op in reversed(ops):
        k = op['op']
        d = op.get('d')
        if k == 'fix':
            K = {x: v for x, v in K.items() if x != d}
            K[d] = op['p']['n']
        elif k == 'fixd':
            K[d] = op['i']
        elif k == 'rename':
            m = {b: a for a, b in op['pairs']}
            hidden = {a for a, b in op['pairs']}
            K = {m.get(x, x): v for x, v in K.items() if x in m or x not in hidden}
        elif k == 'join':
            if d in K:
                K = {x: v for x, v in K.items() if x != d}
                K[op['a']] = K[op['b']] = None
        elif k in ('blocks', 'blocks_dyn', 'blocks_static'):
            need = [op['M'], op['m']] + ([op['B']] if k == 'blocks_static' else [])
            has = all(x in K for x in need)
            drop = set(need) | ({op['pr']} if k == 'blocks_dyn' else set())
            K = {x: v for x, v in K.items() if x not in drop}
            if has:
                K[d] = None
        elif k in ('merge', 'zcurve'):
            ds = op['ds'] if k == 'zcurve' else [op['M'], op['m']]
            if d in K:
                K = {x: v for x, v in K.items() if x != d}
                for x in ds:
                    K[x] = None
        elif k in ('vector', 'bcast', 'uvector', 'ubcast'):
            K = {x: v for x, v in K.items() if x != d}
    return K


def ground(sig, K):
    if isinstance(sig, S):
        return True
    if sig.dim not in K:
        return False
    if isinstance(sig, F):
        return ground(sig.sub, K)
    if K[sig.dim] is None:
        raise Invalid
    return ground(sig.subs[K[sig.dim]], K)


def touches_tuple(sig, op):
    ds = [op.get('d'), op.get('a'), op.get('b')]
    if op['op'] == 'autostep':
        return True
    if op['op'] in ('fix', 'blocks_static', 'hoist', 'reorder'):
        return False
    return any(isinstance(o, D) for d in ds if d for o, _ in occurrences(sig, d))


class Ctx:
    """a planner at some point: signature that remains, ops so far, endings (step objects) not yet used"""
    def __init__(self, usig, sig, ops, es):
        self.usig, self.sig, self.ops, self.es = usig, sig, ops, es

    def key(self):
        return (self.sig, repr(self.ops), tuple(id(e) for e in self.es))


class Sim:
    """which contexts each section action runs in; Invalid where the library rejects the planner"""
    def __init__(self, usig):
        for d in dims(usig):
            if len(set(type(o) for o, _ in occurrences(usig, d))) > 1:
                raise Invalid   # a tuple dimension in one tuple member and a plain one in another: not accepted by planners
        self.usig = usig
        self.ctxs = {}      # id(plan) -> list of contexts

    def enter(self, plan, c):
        l = self.ctxs.setdefault(id(plan), [])
        if any(x.key() == c.key() for x in l):
            return
        if len(l) > 12:
            raise Invalid
        l.append(c)
        self.plan(plan, c)

    def build(self, plan, c):
        for st in plan['build']:
            c = self.step(st, c)
        return c

    def step(self, st, c):
        sig, ops, es = c.sig, c.ops, c.es
        k = st['k']
        if k == 'order':
            if touches_tuple(sig, st['op']):
                raise Invalid
            sig = apply(sig, st['op'])
            ops = ops + [st['op']]
        elif k == 'each':
            if es:
                raise Invalid
            es = es + [st]
        elif k == 'sec':
            check_sel(self.usig, st['ds'])
            es = es + [st]
            if st.get('fd'):
                op = {'op': 'hoist', 'ds': st['ds']}
                if not st['ds']:
                    raise Invalid
                sig = apply(sig, op)
                ops = ops + [op]
        return Ctx(self.usig, sig, ops, es)

    def plan(self, plan, c):
        c = self.build(plan, c)
        for a in plan['acts']:
            self.act(a, c)

    def act(self, a, c):
        k = a['k']
        if k == 'exec':
            if not c.es or has_unset([c.sig]):
                raise Invalid
            self.run(c, c.sig, c.ops, set())
        elif k in ('loop', 'part', 'laws'):
            d = a['ds'][0]
            if has_unset([c.sig]) or not loopable([c.sig], d) or (k != 'laws' and not c.es):
                raise Invalid
            if k == 'loop':
                self.run(Ctx(c.usig, remaining(c.sig, {d: None}), c.ops + [{'op': 'fixd', 'd': d, 'i': None}], c.es), None, None, set())
            elif k == 'part':
                self.run(c, c.sig, c.ops, set())
        elif k == 'par':
            # a parallel executor: the outermost dimension is iterated, whatever is activated inside
            d = top_dim([c.sig])
            if d is None or has_unset([c.sig]) or not loopable([c.sig], d) or not c.es or self.active(c, known(c.ops)):
                raise Invalid
            self.run(c, c.sig, c.ops, set())
        elif k == 'trav':
            check_needs(c.sig)
            if has_unset([c.sig]):
                raise Invalid
        else:
            raise KeyError(k)

    def active(self, c, K):
        return [e for e in c.es if (ground(self.usig, K) if e['k'] == 'each' else all(d in K for d in e['ds']))]

    def run(self, c, sig, ops, fixed):
        if sig is None:
            sig, ops = c.sig, c.ops
        K = known(ops)
        act = self.active(c, K)
        if len(act) > 1:
            raise Invalid
        if act:
            e = act[0]
            check_needs(sig, fixed)
            if e['k'] == 'sec':
                for d in dims(sig):
                    for o, _ in occurrences(sig, d):
                        if isinstance(o, F) and o.needs & fixed:
                            raise Invalid
                self.enter(e['in'], Ctx(self.usig, remaining(sig, {d: None for d in fixed}), ops, [x for x in c.es if x is not e]))
            return
        if isinstance(sig, S):
            raise Invalid
        if isinstance(sig, D):
            for i, x in enumerate(sig.subs):
                self.run(c, x, ops + [{'op': 'fixd', 'd': sig.dim, 'i': i}], fixed | {sig.dim})
        else:
            if not sig.needs <= fixed or sig.unset:
                raise Invalid
            self.run(c, sig.sub, ops + [{'op': 'fixd', 'd': sig.dim, 'i': None}], fixed | {sig.dim})


def check_sel(usig, ds):
    if len(set(ds)) != len(ds):
        raise Invalid
    for d in ds:
        if d not in dims(usig) or not all_branches(usig, d):
            raise Invalid
        for _, ctx in occurrences(usig, d):
            if any(t not in ds or ds.index(t) > ds.index(d) for t, _ in ctx):
                raise Invalid


# ---------------------------------------------------------------- generation
def gen_planner(g, usig, acts=('exec', 'exec', 'exec', 'loop', 'part'), norders=(0, 0, 1, 1, 2, 3), tries=60, top=None):
    r = g.r
    for _ in range(tries):
        try:
            plan = gen_plan2(g, usig, usig, [], 2, acts, norders, top or acts)
            sim = Sim(usig)
            sim.plan(plan, Ctx(usig, usig, [], []))
            return plan
        except Invalid:
            continue
    raise Invalid


def gen_order(g, sig, limit=400):
    r = g.r
    for _ in range(10):
        kind = r.choice([k for k in ORDERS if k != 'setlen'] + ['hoist', 'reorder', 'hoist', 'blocks', 'merge', 'fix', 'zcurve'])
        try:
            op = g.propose(sig, kind)
            s2 = apply(sig, op)
        except Invalid:
            continue
        if leaves(s2) > limit or len(dims(s2)) > 6 or touches_tuple(sig, op):
            continue
        return op
    raise Invalid


def gen_acts(g, sig, acts, have):
    r = g.r
    out = []
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.choice(acts)
        if k == 'par':
            out.append({'k': 'par', 'ex': r.choice(['tbb', 'omp', 'std'])})
        elif k == 'exec' or k not in ('trav',) and not dims(sig):
            out.append({'k': 'exec', 'form': r.randrange(3)})
        elif k == 'trav':
            out.append({'k': 'trav'})
        else:
            cand = [d for d in dims(sig) if loopable([sig], d)]
            if not cand:
                out.append({'k': 'exec', 'form': r.randrange(3)})
                continue
            d = cand[0] if r.random() < 0.5 else r.choice(cand)
            out.append({'k': k, 'ds': [d], 'form': r.randrange(6)})
    return out


def gen_plan2(g, usig, sig, fixed, depth, acts, norders, top):
    """a plan acting on a planner without endings (top, or an inner one with all endings used)"""
    r = g.r
    build = []
    cur = sig
    n = r.choice(norders)
    ends = []
    if r.random() < 0.75:
        ends.append({'k': 'each', 'elem': r.random() < 0.6, 'form': r.randrange(3)})
    ds = [d for d in dims(usig) if all_branches(usig, d)]
    for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if ends else r.choice([1, 1, 2])):
        k = r.choice([0, 1, 1, 1, 1, 2, 2, 3])
        sel = r.sample(ds, min(k, len(ds)))
        tups = [d for d in dims(usig) if any(isinstance(o, D) for o, _ in occurrences(usig, d))]
        if tups and r.random() < 0.5:
            sel = [d for d in tups if d in ds] + [d for d in sel if d not in tups]
        ends.append({'k': 'sec', 'ds': sel, 'form': r.randrange(2), 'fd': r.random() < 0.3, 'in': None})
    slots = [0] * len(ends) + [1] * n
    r.shuffle(slots)
    ei = iter(ends)
    for s in slots:
        if s:
            op = gen_order(g, cur)
            build.append({'k': 'order', 'op': op, 'form': r.randrange(2)})
            cur = apply(cur, op)
        else:
            st = next(ei)
            build.append(st)
            if st.get('fd'):
                if not st['ds']:
                    st['fd'] = False
                else:
                    cur = apply(cur, {'op': 'hoist', 'ds': st['ds']})
    plan = {'build': build, 'acts': []}
    fill_acts(g, usig, plan, sig, depth, acts, norders, top)
    return plan


def fill_acts(g, usig, plan, sig, depth, acts, norders, top):
    """chooses actions, innermost after their contexts are known"""
    r = g.r
    sim = Sim(usig)
    c = sim.build(plan, Ctx(usig, sig, [], []))
    plan['acts'] = gen_acts(g, c.sig, top, c.es)
    # discover contexts of the sections level by level
    for e in plan['build']:
        if e['k'] == 'sec':
            e['in'] = {'build': [], 'acts': []}
    for _ in range(6):
        sim = Sim(usig)
        sim.plan(plan, Ctx(usig, sig, [], []))
        todo = [e for e in plan['build'] if e['k'] == 'sec' and not e['in']['acts'] and not e['in'].get('done') and id(e['in']) in sim.ctxs]
        if not todo:
            break
        e = todo[0]
        cs = sim.ctxs[id(e['in'])]
        e['in']['done'] = 1
        ends = all(c.es for c in cs)
        if not ends and any(c.es for c in cs):
            raise Invalid
        if ends:
            if len(cs) == 1 and r.random() < 0.35:
                op = gen_order(g, cs[0].sig)
                e['in']['build'].append({'k': 'order', 'op': op, 'form': r.randrange(2)})
                e['in']['acts'] = gen_acts(g, apply(cs[0].sig, op), acts, True)
            else:
                e['in']['acts'] = gen_acts(g, cs[0].sig, [a for a in acts if len(cs) == 1 or a == 'exec'] or ['exec'], True)
            if r.random() < 0.1:
                e['in']['acts'].append({'k': 'trav'})
        else:
            x = r.random()
            if x < 0.5:
                e['in']['acts'] = [{'k': 'trav'}]
            elif x < 0.75:
                e['in']['build'] = [{'k': 'each', 'elem': r.random() < 0.5, 'form': r.randrange(3)}]
                e['in']['acts'] = [{'k': 'exec', 'form': r.randrange(3)}]
    sim = Sim(usig)
    sim.plan(plan, Ctx(usig, sig, [], []))
    for e in plan['build']:
        if e['k'] == 'sec' and id(e['in']) not in sim.ctxs:
            # never activated: allowed by the library, but it tests nothing
            raise Invalid


# ---------------------------------------------------------------- text
class PlannerEmit:
    def __init__(self, e, usig, nparts, execs=None, log='got'):
        self.e, self.usig, self.nparts = e, usig, nparts
        self.lib, self.mod = [], []
        self.n = 0
        self.execs = execs or ["%s.execute();", "%s();", "%s | noarr::planner_execute();"]
        self.log = log

    def node(self):
        self.n += 1
        return self.n

    def top(self, plan, p, mp, mo):
        sim = Sim(self.usig)
        sim.plan(plan, Ctx(self.usig, self.usig, [], []))
        sim.ctxs.setdefault(id(plan), [Ctx(self.usig, self.usig, [], [])])
        self.sim = sim
        self.base = mo
        self.pats = {}
        self.plan(plan, p, mp, mo, 1, True)

    def plan(self, plan, p, mp, shadow, ind, top=False):
        """library code on planner variable p, model code on vf::Plan variable mp; shadow: a model of the same structure for drawing parameters, or None"""
        pad = "\t" * ind
        cs = self.sim.ctxs[id(plan)]
        c = cs[0]
        e = self.e
        # parameters of the orders first: they are in force when the sections run
        sh, cc = shadow, c
        for st in plan['build']:
            if st['k'] == 'order':
                if len(cs) != 1 or sh is None:
                    raise Invalid
                lt, mt = emit_op(e, cc.sig, st['op'], sh)
                x = e.new('m')
                e.out("const vf::N %s = %s;" % (x, mt))
                self.pats[id(st['op'])] = (lt, re.sub(r'\b%s\b' % sh, '@', mt))
                sh = x
            cc = self.sim.step(st, cc)
        for st in plan['build']:
            i = self.node()
            k = st['k']
            p2, mp2 = "pl%d" % i, "ql%d" % i
            if k == 'order':
                lt, mt = self.pats[id(st['op'])]
                self.lib.append(pad + "const auto %s = %s;" % (p2, ["%s.order(%s)", "%s ^ (%s)"][st['form']] % (p, lt)))
                c = self.sim.step(st, c)
                self.mod.append(pad + "const vf::Plan %s = %s.with(%s, %s);" % (mp2, mp, grt(c.sig), mt.replace('@', mp + ".mo")))
            elif k == 'each':
                refs = ", ".join("(vf::u64)((const char *)&r%d_ - (const char *)base%d)" % (j, j) for j in range(self.nparts))
                args = ", ".join("auto &&r%d_" % j for j in range(self.nparts))
                if st['elem']:
                    f = ["[&](auto st_, %s) { %s.add(%d, vf::read_state(st_), {%s}); }" % (args, self.log, i, refs),
                         "[&](%s) { %s.add(%d, {}, {%s}); }" % (args, self.log, i, refs),
                         "[&](auto st_, %s) { %s.add(%d, vf::read_state(st_), {%s}); }" % (args, self.log, i, refs)][st['form']]
                    lt = ["%s.for_each_elem(%s)", "%s.for_each_elem(%s)", "%s ^ noarr::for_each_elem(%s)"][st['form']] % (p, f)
                else:
                    f = "[&](auto st_) { %s.add(%d, vf::read_state(st_), offs(st_)); }" % (self.log, i)
                    lt = ["%s.for_each(%s)", "%s ^ noarr::for_each(%s)", "%s.for_each(%s)"][st['form']] % (p, f)
                self.lib.append(pad + "const auto %s = %s;" % (p2, lt))
                stm = "{}" if st['elem'] and st['form'] == 1 else "st_"
                self.mod.append(pad + "const vf::Plan %s = %s.each(%s, [&](const vf::Plan &in_) { vf::visit(in_.g, in_.mo, [&](const vf::St &st_) { exp.add(%d, %s, moffs(st_)); }); });" % (mp2, mp, grt(self.usig), i, stm))
                c = self.sim.step(st, c)
            else:
                inn = st['in']
                ics = self.sim.ctxs.get(id(inn))
                if not ics:
                    raise Invalid
                names = ", ".join(cdim(d) for d in st['ds'])
                pi, qi = "pl%di" % i, "ql%di" % i
                fn = 'for_dims' if st.get('fd') else 'for_sections'
                if st.get('fd'):
                    self.lib.append(pad + "const auto %s = %s ^ noarr::%s<%s>([&](auto %s) {" % (p2, p, fn, names, pi))
                elif st['form'] == 0:
                    self.lib.append(pad + "const auto %s = %s.template %s<%s>([&](auto %s) {" % (p2, p, fn, names, pi))
                else:
                    self.lib.append(pad + "const auto %s = %s ^ noarr::%s<%s>([&](auto %s) {" % (p2, p, fn, names, pi))
                self.mod.append(pad + "const vf::Plan %s = %s%s.sections({%s}, [&](const vf::Plan &%s) {" % (mp2, mp, "", ", ".join(str(cid(d)) for d in st['ds']), qi))
                self.lib.append(pad + "\t%s.add(%d, vf::read_state(%s.state()));" % (self.log, i, pi))
                self.mod.append(pad + "\texp.add(%d, %s.mo->reach({}));" % (i, qi))
                if len(ics) > 1 and any(b['k'] == 'order' for b in inn['build']):
                    raise Invalid
                self.inner(inn, pi, qi, ics[0], ind + 1)
                self.lib.append(pad + "});")
                self.mod.append(pad + "});")
                if st.get('fd'):
                    c2 = self.sim.step(st, c)
                    self.mod.append(pad + "const vf::Plan %sh = %s.with(%s, %s.mo);" % (mp2, mp2, grt(c2.sig), mp2))
                    mp2 += "h"
                    c = c2
                else:
                    c = self.sim.step(st, c)
            p, mp = p2, mp2
        for a in plan['acts']:
            i = self.node()
            k = a['k']
            f = a.get('form', 0)
            if k == 'exec':
                ex = self.execs if top else ["%s.execute();", "%s();", "%s | noarr::planner_execute();"]
                self.lib.append(pad + ex[f % len(ex)] % p)
                self.mod.append(pad + "%s.execute();" % mp)
            elif k == 'par':
                self.lib.append(pad + "%s | noarr::planner_%s_execute();" % (p, a['ex']))
                self.mod.append(pad + "%s.execute();" % mp)
            elif k == 'trav':
                self.lib.append(pad + "noarr::convert_to_traverser(%s).for_each([&](auto st_) { vf::got_leaf(%s, %d, st_, offs); });" % (p, self.log, i))
                self.mod.append(pad + "vf::visit(%s.g, %s.mo, [&](const vf::St &st_) { exp.add(%d, st_, moffs(st_)); });" % (mp, mp, i))
            else:
                d = a['ds'][0]
                istop = top_dim([c.sig]) == d
                rng_ = "noarr::range(%s)" % p if istop and f % 2 else "noarr::range<%s>(%s)" % (cdim(d), p)
                if k == 'loop':
                    if istop and f in (2, 4):
                        rng_ = p
                    body = "%s.add(%d, vf::read_state(in_.state())); in_.execute();" % (self.log, i)
                    if f == 3:
                        self.lib.append(pad + "{ const auto r_ = %s; for (std::size_t k_ = 0; k_ < r_.size(); k_++) { const auto in_ = r_[k_]; %s } }" % (rng_, body))
                    else:
                        self.lib.append(pad + "for (auto in_ : %s) { %s }" % (rng_, body))
                    self.mod.append(pad + "vf::sections(%s.g, %s.mo, {%d}, false, [&](const vf::G &g_, const vf::N &m_) { exp.add(%d, m_->reach({})); %s.with(g_, m_).execute(); });" % (mp, mp, cid(d), i, mp))
                else:
                    cut = "cuts%d" % i
                    e.out("const std::vector<vf::u64> %s{c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16)};" % cut)
                    if k == 'laws':
                        self.lib.append(pad + "vf::planner_laws(c, %s, %s, %d, %s);" % (rng_, cut, i, self.log))
                        self.mod.append(pad + "vf::planner_laws_model(%s, %d, %s, %d, exp);" % (mp, cid(d), cut, i))
                    else:
                        how = ["r_.as_planner().execute();", "r_.order(noarr::neutral_proto()).execute();"][f // 2 % 2]
                        self.lib.append(pad + "vf::split_%s(c, %s, %s, [&](const auto &r_) { %s });" % ('tbb' if f >= 3 else 'bounds', rng_, cut, how))
                        self.mod.append(pad + "vf::parts(%s.g, %s.mo, %d, %s, %s, [&](const vf::G &g_, const vf::N &m_) { %s.with(g_, m_).execute(); });" % (mp, mp, cid(d), cut, str(f >= 3).lower(), mp))

    def inner(self, plan, pi, qi, c, ind):
        sh = None
        if any(b['k'] == 'order' for b in plan['build']):
            # a model of the planner at this point, the indices of the enclosing sections being 0
            t = self.base
            for op in c.ops:
                if op['op'] == 'fixd':
                    t = "vf::fix(%d, %d, %s)" % (cid(op['d']), op['i'] or 0, t)
                elif id(op) in self.pats:
                    t = self.pats[id(op)][1].replace('@', t)
            sh = self.e.new('m')
            self.e.out("const vf::N %s = %s;" % (sh, t))
        self.plan(plan, pi, qi, sh, ind)
