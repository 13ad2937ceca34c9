"""Traversals: specs, plans (what is called on the traverser and on the inner ones), their text for the library and for the model."""
import re
from .sig import *
from .ops import *
from .gen import *

ORDERS = [k for k in ALL if k != 'autostep'] + ['bcast', 'blocks', 'blocks_dyn', 'slice2', 'hoist', 'reorder']


def remaining(sig, fixed):
    if isinstance(sig, S):
        return sig
    if isinstance(sig, F):
        if sig.dim in fixed:
            return remaining(sig.sub, fixed)
        return replace(sig, sub=remaining(sig.sub, fixed), needs=sig.needs - set(fixed))
    if sig.dim in fixed:
        return remaining(sig.subs[fixed[sig.dim]], fixed)
    return D(sig.dim, tuple(remaining(x, fixed) for x in sig.subs))


def sections(sig, sel, given):
    """signatures that remain in the sections over sel; raises Invalid where the library cannot select like that"""
    out = []
    if len(set(sel)) != len(sel):
        raise Invalid
    for d in sel:
        if d not in dims(sig):
            raise Invalid

    def node(x, fixed, nxt):
        if isinstance(x, D):
            for i in range(len(x.subs)):
                nxt(x.subs[i], {**fixed, x.dim: i})
        else:
            if not x.needs <= set(fixed) or x.unset:
                raise Invalid
            nxt(x.sub, {**fixed, x.dim: None})

    def done(fixed):
        r = remaining(sig, fixed)
        check_needs(r)
        out.append(r)

    def by_sig(x, fixed):
        if isinstance(x, S):
            done(fixed)
        elif x.dim in sel:
            node(x, fixed, by_sig)
        elif isinstance(x, F):
            by_sig(x.sub, fixed)
        else:
            # the library cannot select past a tuple
            if len(x.subs) > 1 or any(d in sel for s in x.subs for d in dims(s)):
                raise Invalid
            done(fixed)

    def find(x, d, fixed):
        if isinstance(x, S):
            raise Invalid
        if x.dim == d:
            return x
        if isinstance(x, F):
            return find(x.sub, d, fixed)
        if x.dim not in fixed:
            raise Invalid
        return find(x.subs[fixed[x.dim]], d, fixed)

    def by_given(k, fixed):
        if k == len(sel):
            done(fixed)
            return
        node(find(sig, sel[k], fixed), fixed, lambda _, fx: by_given(k + 1, fx))

    if given:
        # each selected dimension in every branch, and no unselected tuple with several branches
        def ok(x):
            if isinstance(x, S):
                return
            if isinstance(x, F):
                ok(x.sub)
                return
            if x.dim not in sel and (len(x.subs) > 1 or any(d in sel for s in x.subs for d in dims(s))):
                raise Invalid
            for s in x.subs:
                ok(s)
        ok(sig)
        if not all(all_branches(sig, d) for d in sel):
            raise Invalid
        by_given(0, {})
    else:
        by_sig(sig, {})
    return out


def grt(s):
    """run-time signature text"""
    if isinstance(s, S):
        return "vf::gs()"
    if isinstance(s, F):
        return "vf::gf(%d, %s)" % (cid(s.dim), grt(s.sub))
    return "vf::gd(%d, {%s})" % (cid(s.dim), ", ".join(grt(x) for x in s.subs))


def uniq(sigs):
    out = []
    for s in sigs:
        if s not in out:
            out.append(s)
    return out


def has_unset(sigs):
    return any(unset_dims(s) for s in sigs)


# ---------------------------------------------------------------- plans
def step_sigs(sigs, plan):
    """signatures of the inner traversers"""
    k = plan['k']
    if k in ('sec', 'dims', 'eachd', 'loop', 'part', 'laws', 'cuda'):
        out = []
        for s in sigs:
            if k in ('part', 'laws'):
                out.append(s)
            else:
                out += sections(s, plan['ds'], k in ('dims', 'cuda'))
        return uniq(out)
    if k == 'order':
        if len(sigs) != 1:
            raise Invalid
        return [apply(sigs[0], plan['op'])]
    return sigs


def top_dim(sigs):
    if all(isinstance(s, F) for s in sigs) and len(set(s.dim for s in sigs)) == 1:
        return sigs[0].dim
    return None


def loopable(sigs, d):
    """d can be made a range: plain dimension, length known without other indices, in every signature outside of tuples"""
    for s in sigs:
        x = s
        while isinstance(x, F) and x.dim != d:
            x = x.sub
        if not isinstance(x, F) or x.needs or x.unset:
            return False
    return True


def gen_plan(g, sigs, depth, kinds, tup=False):
    r = g.r
    if depth <= 0 or has_unset(sigs) and 'order' not in kinds:
        return {'k': 'each', 'form': r.randrange(5)}
    for _ in range(12):
        k = r.choice(kinds)
        try:
            if k == 'each':
                return {'k': 'each', 'form': r.randrange(5)}
            ds = [d for d in dims(sigs[0]) if all(d in dims(s) for s in sigs)]
            if k in ('sec', 'dims', 'eachd'):
                if not ds and k != 'dims':
                    continue
                n = r.randint(0 if k == 'dims' else 1, max(min(len(ds), 3), 0))
                sel = r.sample(ds, n)
                tups = [d for d in ds if any(isinstance(o, D) for s in sigs for o, _ in occurrences(s, d))]
                if r.random() < 0.7:
                    sel = tups + [d for d in sel if d not in tups]
                    if k == 'sec' or r.random() < 0.3:
                        r.shuffle(sel)
                plan = {'k': k, 'ds': sel, 'form': r.randrange(3)}
            elif k in ('loop', 'part', 'laws'):
                cand = [d for d in ds if loopable(sigs, d)]
                if not cand:
                    continue
                d = r.choice(cand)
                if r.random() < 0.4 and top_dim(sigs) in cand:
                    d = top_dim(sigs)
                plan = {'k': k, 'ds': [d], 'form': r.randrange(6)}
            elif k == 'order':
                if len(sigs) != 1 or tup:
                    continue
                kind = r.choice(ORDERS + (['setlen'] * 12 if unset_dims(sigs[0]) else []) + ['zcurve'])
                plan = {'k': 'order', 'op': g.propose(sigs[0], kind), 'form': r.randrange(3)}
            else:
                raise KeyError(k)
            inner = step_sigs(sigs, plan)
            if k == 'order' and (leaves(inner[0]) > 400 or len(dims(inner[0])) > 7):
                continue
            if k in ('eachd', 'laws'):
                return plan
            t2 = tup or any(any(isinstance(o, D) and len(o.subs) > 1 for s in sigs for o, _ in occurrences(s, d)) for d in plan.get('ds', []))
            plan['in'] = [gen_plan(g, inner, depth - 1, kinds, t2)]
            if r.random() < 0.15:
                plan['in'].append(gen_plan(g, inner, 0, kinds, t2))
            if k == 'part' and plan['form'] in (2, 5) and len(inner) == 1 and not t2 and 'order' in kinds and r.random() < 0.7:
                # the range made a traverser by an order, most often one of the same dimension
                for _ in range(12):
                    try:
                        op = g.propose(inner[0], r.choice(['reverse', 'reverse', 'shift', 'shift', 'span2', 'span2', 'rename', 'hoist', 'reorder', 'bcast']))
                        if op.get('d') != plan['ds'][0] and r.random() < 0.8:
                            continue
                        for q in ('p', 'q'):
                            if q in op and op['d'] == plan['ds'][0] and op['p']['lit']:
                                op[q] = g.param(op[q]['n'], False)
                        sub = apply(inner[0], op)
                        if leaves(sub) <= 400 and len(dims(sub)) <= 7:
                            plan['in'].append({'k': 'order', 'op': op, 'form': 0, 'in': [gen_plan(g, [sub], depth - 2, kinds, t2)]})
                            break
                    except Invalid:
                        pass
            return plan
        except Invalid:
            continue
    return {'k': 'each', 'form': r.randrange(5)}


class PlanEmit:
    def __init__(self, e):
        self.e = e
        self.n = 0
        self.narrow = set()     # dimensions cut to parts, of less than the length the parameters are drawn for
        self.lib = []
        self.mod = []

    def node(self):
        self.n += 1
        return self.n

    def go(self, plan, sigs, t, gv, mv, shadow, tup, ind=1):
        """appends library code acting on traverser variable t and model code on (gv, mv)"""
        if has_unset(sigs) and plan['k'] != 'order':
            raise Invalid
        e = self.e
        L, M = self.lib, self.mod
        pad = "\t" * ind
        k = plan['k']
        f = plan.get('form', 0)
        id_ = self.node()
        if k == 'each':
            for s in sigs:
                check_needs(s)
            leaf = "[&](auto st_) { vf::got_leaf(got, %d, st_, offs); }" % id_
            L.append(pad + [
                "%s.for_each(%s);" % (t, leaf),
                "%s | %s;" % (t, leaf),
                "%s | noarr::for_each(%s);" % (t, leaf),
                "%s.for_sections([&](auto in_) { vf::got_leaf(got, %d, in_.state(), offs); });" % (t, id_),
                "{ int calls_ = 0; %s | noarr::for_sections([&](auto in_) { calls_++; vf::got_leaf(got, %d, in_.state(), offs); in_.for_each([&](auto) { calls_--; }); }); c.expect(calls_ == 0, \"a section with nothing left is not traversed exactly once\"); }" % (t, id_),
            ][f])
            M.append(pad + "vf::visit(%s, %s, [&](const vf::St &st_) { exp.add(%d, st_, moffs(st_)); });" % (gv, mv, id_))
            return
        if k == 'order':
            if len(sigs) != 1 or tup:
                raise Invalid
            op = plan['op']
            if op['op'] == 'autostep':
                raise Invalid
            sig2 = apply(sigs[0], op)
            lt, mt = emit_op(e, sigs[0], op, shadow)
            sh2 = e.new('m')
            e.out("const vf::N %s = %s;" % (sh2, mt))
            if 'part' in plan and op.get('d') == plan['part']:
                # a part of the range may be shorter than what the parameters were drawn for
                if op['op'] not in ('reverse', 'shift', 'span2', 'hoist'):
                    raise Invalid
                for q in ('p', 'q'):
                    if q in op:
                        if op[q]['lit']:
                            raise Invalid
                        x = e.arg(op[q])
                        x = re.search(r'p\d+', x).group()
                        lt = re.sub(r'\b%s\b' % x, 'std::min<vf::u64>(%s, r_.size())' % x, lt)
                        mt = re.sub(r'\b%s\b' % x, 'std::min<vf::u64>(%s, vf::mlen_min(%s, %d, std::vector<vf::St>{vf::St{{}, {}}}))' % (x, mv, cid(plan['part'])), mt)
            elif {op.get(x) for x in ('d', 'M', 'm', 'a', 'b')} & self.narrow and op['op'] not in ('reverse', 'hoist', 'setlen'):
                raise Invalid
            narrow = self.narrow
            if op['op'] == 'rename':
                self.narrow = {dict(op['pairs']).get(x, x) for x in narrow}
            t2, g2, m2 = "t%d" % id_, "g%d" % id_, "mo%d" % id_
            L.append(pad + "const auto %s = %s;" % (t2, ["%s.order(%s)" % (t, lt), "%s ^ (%s)" % (t, lt), "%s.order(noarr::neutral_proto()).order(%s)" % (t, lt)][f]))
            M.append(pad + "const vf::N %s = %s; const vf::G %s = %s;" % (m2, re.sub(r'\b%s\b' % shadow, mv, mt), g2, grt(sig2)))
            for p in plan['in']:
                self.go(p, [sig2], t2, g2, m2, sh2, tup, ind)
            self.narrow = narrow
            return
        inner = step_sigs(sigs, plan)
        ds = plan['ds']
        names = ", ".join(cdim(d) for d in ds)
        sel = "{%s}" % ", ".join(str(cid(d)) for d in ds)
        t2, g2, m2 = "t%d" % id_, "g%d" % id_, "mo%d" % id_
        tup2 = tup or any(isinstance(o, D) and len(o.subs) > 1 for s in sigs for d in ds for o, _ in occurrences(s, d))
        if k == 'eachd':
            L.append(pad + ["%s.template for_each<%s>([&](auto st_) { got.add(%d, vf::read_state(st_)); });",
                            "%s | noarr::for_each<%s>([&](auto st_) { got.add(%d, vf::read_state(st_)); });",
                            "%s.template for_sections<%s>([&](auto in_) { got.add(%d, vf::read_state(in_.state())); });"][f] % (t, names, id_))
            M.append(pad + "vf::sections(%s, %s, %s, false, [&](const vf::G &, const vf::N &m_) { exp.add(%d, m_->reach({})); });" % (gv, mv, sel, id_))
            return
        if k == 'laws':
            d = ds[0]
            if not loopable(sigs, d):
                raise Invalid
            rng_ = "%s.range()" % t if top_dim(sigs) == d and f % 2 else "%s.template range<%s>()" % (t, cdim(d))
            cut = "cuts%d" % id_
            e.out("const std::vector<vf::u64> %s{c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16)};" % cut)
            L.append(pad + "vf::range_laws(c, %s, %s, %d, got, offs);" % (rng_, cut, id_))
            M.append(pad + "vf::range_laws_model(%s, %s, %d, %s, %d, exp, moffs);" % (gv, mv, cid(d), cut, id_))
            return
        sh2 = shadow
        if not tup2 and k != 'part':
            for d in ds:
                x = e.new('m')
                e.out("const vf::N %s = vf::fix(%d, 0, %s);" % (x, cid(d), sh2))
                sh2 = x
        if k in ('sec', 'dims'):
            fn = 'for_sections' if k == 'sec' else 'for_dims'
            L.append(pad + ["%s.template %s<%s>(" % (t, fn, names), "%s | noarr::%s<%s>(" % (t, fn, names), "%s.template %s<%s>(" % (t, fn, names)][f] + "[&](auto %s) {" % t2)
            M.append(pad + "vf::sections(%s, %s, %s, %s, [&](const vf::G &%s, const vf::N &%s) {" % (gv, mv, sel, str(k == 'dims').lower(), g2, m2))
        elif k == 'cuda':
            # the dimensions bound to blocks and threads, alternately
            if len(ds) not in (2, 4, 6) or not all(loopable(sigs, d) for d in ds):
                raise Invalid
            L.append(pad + "vf::cuda_launch(c, noarr::cuda_threads<%s>(%s), std::vector<vf::u64>{%s}, [&](auto %s) {" % (names, t, ", ".join("vf::mlen_min(%s, %d, std::vector<vf::St>{vf::St{{}, {}}})" % (shadow, cid(d)) for d in ds), t2))
            M.append(pad + "vf::sections(%s, %s, %s, true, [&](const vf::G &%s, const vf::N &%s) {" % (gv, mv, sel, g2, m2))
        elif k == 'loop':
            d = ds[0]
            top = top_dim(sigs) == d
            if not loopable(sigs, d):
                raise Invalid
            rng_ = "%s.range()" % t if top and f % 2 else "%s.template range<%s>()" % (t, cdim(d))
            if f < 2:
                L.append(pad + "for (auto %s : %s) {" % (t2, rng_))
            elif f < 4 and top:
                L.append(pad + "for (auto %s : %s) {" % (t2, t))
            elif f == 4:
                L.append(pad + "{ const auto r_%d = %s; for (std::size_t i_ = 0; i_ < r_%d.size(); i_++) { const auto %s = r_%d[i_];" % (id_, rng_, id_, t2, id_))
            else:
                L.append(pad + "{ const auto r_%d = %s; for (auto i_ = r_%d.begin(); i_ != r_%d.end(); ++i_) { const auto %s = *i_;" % (id_, rng_, id_, id_, t2))
            M.append(pad + "vf::sections(%s, %s, %s, false, [&](const vf::G &%s, const vf::N &%s) {" % (gv, mv, sel, g2, m2))
        elif k == 'part':
            # the range cut into contiguous parts, each turned into a traverser again
            d = ds[0]
            if not loopable(sigs, d):
                raise Invalid
            top = top_dim(sigs) == d
            rng_ = "%s.range()" % t if top and f % 2 else "%s.template range<%s>()" % (t, cdim(d))
            cut = "cuts%d" % id_
            e.out("const std::vector<vf::u64> %s{c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16), c.draw(1 << 16)};" % cut)
            how = {0: "r_.as_traverser()", 1: "r_.as_traverser()", 2: "r_.order(noarr::neutral_proto())", 3: "r_.as_traverser()", 4: "r_.as_traverser()", 5: "r_.order(noarr::neutral_proto())"}[f]
            L.append(pad + "vf::split_%s(c, %s, %s, [&](const auto &r_) { const auto %s = %s;" % ('tbb' if f >= 3 else 'bounds', rng_, cut, t2, how))
            M.append(pad + "vf::parts(%s, %s, %d, %s, %s, [&](const vf::G &%s, const vf::N &%s) {" % (gv, mv, cid(d), cut, 'true' if f >= 3 else 'false', g2, m2))
        else:
            raise KeyError(k)
        L.append(pad + "\tgot.add(%d, vf::read_state(%s.state()));" % (id_, t2))
        M.append(pad + "\texp.add(%d, %s->reach({}));" % (id_, m2))
        narrow = self.narrow
        if k == 'part':
            self.narrow = narrow | {d}
        for p in plan['in']:
            direct = k == 'part' and f in (2, 5) and p['k'] == 'order'     # range.order(...)
            self.go(dict(p, form=0, part=d) if direct else p, inner, 'r_' if direct else t2, g2, m2, sh2 if k != 'part' else shadow, tup2, ind + 1)
        self.narrow = narrow
        if k == 'loop':
            L.append(pad + ("}" if f < 2 or f < 4 and top else "}}"))
        else:
            L.append(pad + "});")
        M.append(pad + "});")


def union_sig(sigs):
    """signature of several structures traversed together"""
    u = sigs[0]
    for s in sigs[1:]:
        if not is_cube(s):
            raise Invalid
        ch, _ = chain(s)
        have = dims(u)
        for n in ch:
            if n.dim in have:
                for o, _ in occurrences(u, n.dim):
                    if not isinstance(o, F) or o.unset or n.unset or o.n is None or o.n != n.n:
                        raise Invalid
                if not all_branches(u, n.dim):
                    raise Invalid
        for n in reversed(ch):
            if n.dim not in have:
                u = replace(n, sub=u)
    check_needs(u)
    return u


def emit_parts(e, spec):
    """emits the structures and the model of their union; returns (parts, mo, usig)"""
    parts = []
    for i, x in enumerate(spec['structs']):
        for pid, d in (x.get('shared') or {}).items():
            # a parameter whose value is the length of a dimension of the first structure
            e.draw({'id': int(pid), 'lit': False}, "vf::mlen_min(%s, %d, %s)" % (parts[0][1], cid(d), cctx(contexts(parts[0][2], d))))
        parts.append(emit_spec(e, x))
    usig = union_sig([p[2] for p in parts])
    for i in range(1, len(parts)):
        for d in dims(parts[i][2]):
            for j in range(i):
                if d in dims(parts[j][2]):
                    e.out("c.require(vf::mlen_all(%s, %d, %s, [&](vf::u64 l) { return l == vf::mlen(%s, %d); }));" % (
                        parts[j][1], cid(d), cctx(contexts(parts[j][2], d)), parts[i][1], cid(d)))
    if len(parts) == 1:
        m = parts[0][1]
    else:
        m = e.new('m')
        e.out("const vf::N %s = vf::uni({%s});" % (m, ", ".join("{%s, {%s}}" % (p[1], ", ".join(str(cid(d)) for d in dims(p[2]))) for p in parts)))
    mo = e.new('m')
    e.out("const vf::N %s = vf::probe(%s);" % (mo, m))
    return parts, mo, usig


def emit_trav(e, spec):
    """emits structures, traverser and model; returns (t, g, mo, sig)"""
    parts, mo, usig = emit_parts(e, spec)
    sig = usig
    protos = []
    for op in spec['order']['ops']:
        if op['op'] == 'autostep':
            raise Invalid
        lt, mt = emit_op(e, sig, op, mo)
        m2 = e.new('m')
        e.out("const vf::N %s = %s;" % (m2, mt))
        mo = m2
        sig = apply(sig, op)
        protos.append(lt)
    args = []
    for i, p in enumerate(parts):
        args.append("noarr::make_bag(%s, (char *)nullptr)" % p[0] if spec.get('bags', 0) >> i & 1 else p[0])
    tv = "noarr::traverser(%s)" % ", ".join(args)
    if spec.get('tform') == 1:
        tv = "noarr::traverser(noarr::make_union(%s))" % ", ".join(p[0] for p in parts)
    groups = group(protos, spec.get('grouping', []))
    for i, grp in enumerate(groups):
        txt = " ^ ".join(grp)
        tv = "(%s ^ (%s))" % (tv, txt) if spec.get('grouping', [0])[i % max(1, len(spec.get('grouping', [0])))] % 2 else "%s.order(%s)" % (tv, txt)
    e.out("const auto t0 = %s;" % tv)
    e.out("const auto offs = [&](auto st_) { return std::vector<vf::u64>{%s}; };" % ", ".join("(vf::u64)(%s | noarr::offset(st_))" % p[0] for p in parts))
    e.out("const auto moffs = [&](const vf::St &st_) { return std::vector<vf::u64>{%s}; };" % ", ".join("%s->offset(st_)" % p[1] for p in parts))
    return 't0', mo, sig, parts


def group(protos, sizes):
    out = []
    i = 0
    k = 0
    while i < len(protos):
        n = sizes[k % len(sizes)] if sizes else 1
        n = max(1, n)
        out.append(protos[i:i + n])
        i += n
        k += 1
    return out


def gen_struct2(g, first):
    """another structure sharing some dimensions (and lengths) with the first"""
    r = g.r
    s1 = sig_of(first)
    spec = {'base': 'scalar', 't': r.choice(g.types), 'ops': [], 'shared': {}}
    share = [d for d in dims(s1) if all(isinstance(o, F) and o.n is not None and not o.unset for o, _ in occurrences(s1, d)) and all_branches(s1, d)
             and len(set(o.n for o, _ in occurrences(s1, d))) == 1]
    r.shuffle(share)
    todo = []
    for d in share:
        if r.random() < 0.6:
            todo.append(('s', d))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        todo.append(('n', None))
    if r.random() < 0.25 and dims(s1):
        todo.append(('h', r.choice(dims(s1))))   # a dimension of the first structure's name, renamed away
    r.shuffle(todo)
    for k, d in todo:
        sig = sig_of(spec)
        if k == 's':
            n = occurrences(s1, d)[0][0].n
            via = r.random() < 0.2
            dd = g.fresh(sig, 1, dims(s1))[0] if via else d
            if dd in dims(sig):
                continue
            p = g.param(n)
            p.pop('t', None)
            spec['ops'].append({'op': r.choice(['vector', 'vector', 'vector', 'bcast']), 'd': dd, 'p': p, 'form': r.randrange(2)})
            if not p['lit']:
                spec['shared'][str(p['id'])] = d
            if via:
                spec['ops'].append({'op': 'rename', 'pairs': [[dd, d]]})
            if r.random() < 0.15:
                spec['ops'].append({'op': 'reverse', 'd': d})
        elif k == 'n':
            pool = [x for x in g.names if x not in dims(s1) and x not in dims(sig)]
            if not pool:
                continue
            spec['ops'].append({'op': 'vector', 'd': r.choice(pool), 'p': g.lenparam(), 'form': r.randrange(3)})
        else:
            if d in dims(sig):
                continue
            pool = [x for x in g.names if x not in dims(s1) and x not in dims(sig)]
            if len(pool) < 2:
                continue
            spec['ops'].append({'op': 'vector', 'd': d, 'p': g.lenparam(), 'form': r.randrange(3)})
            if r.random() < 0.6:
                spec['ops'].append({'op': 'rename', 'pairs': [[d, r.choice(pool)]]})
            else:
                spec['ops'].append({'op': 'blocks_dyn' if r.random() < 0.3 else 'merge', 'd': d})
                op = spec['ops'].pop()
                spec['ops'].append({'op': 'fix', 'd': d, 'p': g.param(0)})
    if r.random() < 0.4:
        g.add(spec, ['reorder', 'hoist', 'reverse'])
    sig_of(spec)
    return spec


def gen_trav(g, nstructs=1, norders=(0,), depth=2, kinds=('sec', 'sec', 'dims', 'dims', 'each', 'eachd'), tuples=0.25, unsized=0.0, views=(0, 0, 1, 2), bcast=0.1, limit=200):
    r = g.r
    first = g.layout(depth=r.choice([1, 2, 2, 3, 3]), tuples=tuples, bcast=bcast, unsized=unsized, limit=limit)
    for _ in range(r.choice(views)):
        g.add(first, ALL, limit=limit)
    if not unsized or r.random() < 0.5:
        g.finish(first)
    structs = [first]
    for _ in range(nstructs - 1):
        structs.append(gen_struct2(g, first))
    if nstructs > 1 and r.random() < 0.25:
        # one of them once more
        i = r.randrange(len(structs))
        if is_cube(sig_of(structs[i])):
            structs.insert(r.randint(i + 1, len(structs)), dict(structs[i], shared={}))
    sig = union_sig([sig_of(x) for x in structs])
    if leaves(sig) > limit * 3:
        raise Invalid
    order = {'ops': []}
    for _ in range(r.choice(norders)):
        for _ in range(12):
            kind = r.choice(ORDERS + (['setlen'] * 20 if unset_dims(sig) else []) + (['zcurve'] if r.random() < 0.3 else []))
            try:
                op = g.propose(sig, kind)
                s2 = apply(sig, op)
            except Invalid:
                continue
            if leaves(s2) > limit * 3 or len(dims(s2)) > 7:
                continue
            order['ops'].append(op)
            sig = s2
            break
    while unset_dims(sig):
        op = g.propose(sig, 'setlen')
        order['ops'].append(op)
        sig = apply(sig, op)
    spec = {'structs': structs, 'order': order, 'grouping': [r.randint(1, 3) for _ in range(3)], 'bags': r.choice([0, 0, 0, 1, 2, 3]), 'tform': r.choice([0, 0, 0, 1])}
    if spec['tform'] == 1:
        spec['bags'] = 0
    if any(unset_dims(sig_of(x)) for x in structs):
        spec['bags'] = 0
    spec['plan'] = [gen_plan(g, [sig], depth, list(kinds))]
    if r.random() < 0.3:
        spec['plan'].append(gen_plan(g, [sig], 1, list(kinds)))
    return spec


def shrink_plan(plans):
    """smaller lists of plans"""
    for i, p in enumerate(plans):
        if len(plans) > 1:
            yield plans[:i] + plans[i + 1:]
        if p['k'] != 'each':
            yield plans[:i] + [{'k': 'each', 'form': 0}] + plans[i + 1:]
            if p['k'] not in ('eachd', 'laws'):
                yield plans[:i] + p['in'] + plans[i + 1:]
        if p.get('form'):
            yield plans[:i] + [dict(p, form=0)] + plans[i + 1:]
        if len(p.get('ds', [])) > 1:
            for j in range(len(p['ds'])):
                yield plans[:i] + [dict(p, ds=p['ds'][:j] + p['ds'][j + 1:])] + plans[i + 1:]
        if 'in' in p:
            for x in shrink_plan(p['in']):
                yield plans[:i] + [dict(p, **{'in': x})] + plans[i + 1:]


def plan_kinds(plans):
    out = set()
    for p in plans:
        out.add(p['k'])
        if p['k'] == 'order':
            out.add('inner ' + p['op']['op'])
        out |= plan_kinds(p.get('in', []))
    return out


def plan_text(plans):
    return " + ".join(p['k'] + ("<%s>" % ",".join(p['ds']) if 'ds' in p else "") + ("[%s]" % p['op']['op'] if 'op' in p else "") + (" { %s }" % plan_text(p['in']) if 'in' in p else "") for p in plans)
