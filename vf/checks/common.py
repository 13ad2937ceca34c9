import re
from ..sig import *
from ..ops import *
from ..gen import *
from ..runner import Check


def describe_spec(spec):
    e = Emit()
    try:
        emit_spec(e, spec)
    except Invalid:
        return str(spec)
    return "; ".join(l.strip()[len("const "):] for l in e.lines if l.strip().startswith("const auto"))


def has_class(sig):
    return any(t.startswith('vf::') for t in scalars(sig))


def kinds_of(spec):
    out = []

    def go(s):
        for o in s['ops']:
            out.append(o['op'])
        for x in s.get('subs', []):
            go(x)
    go(spec)
    return out


def tag_lines(spec, sig):
    ks = sorted(set(kinds_of(spec)))
    t = ['c.tag("op:%s");' % k for k in ks]
    if not is_cube(sig):
        t.append('c.tag("tuple");')
    t.append('c.tag("dims:%d");' % len(dims(sig)))
    return "\t" + " ".join(t)


class StructCheck(Check):
    """one structure against the model"""
    minops = 1

    def describe(self, spec):
        return describe_spec(spec)

    def body(self, e, spec, s, m, sig):
        raise NotImplementedError

    def emit(self, spec):
        e = Emit(big=bool(spec.get('big')), maxlen=spec.get('maxlen', 6))
        s, m, sig = emit_spec(e, spec)
        if unset_dims(sig):
            raise Invalid
        e.out(tag_lines(spec, sig).strip())
        self.body(e, spec, s, m, sig)
        return {'body': "\n".join(e.lines)}


ADDRESS = """
	const vf::u64 size = {s} | noarr::get_size();
	c.eq(size, {m}->size({{}}), "size"); c.barrier();
	vf::AddressCheck<std::remove_cvref_t<decltype({s})>> chk{{c, {s}, {m}, size}};
"""


def to_dyn(spec, lit=False):
    """the same composition with every parameter dynamic (lit=False) or literal (lit=True); tuple dimensions always literal"""
    import copy
    r = copy.deepcopy(spec)
    if r['base'] == 'tuple':
        r['subs'] = [to_dyn(x, lit) for x in r['subs']]
    sig = base_sig(r)
    for op in r['ops']:
        d = op.get('d')
        if op['op'] == 'autostep':
            d = sig.dim
        tup = d is not None and any(isinstance(o, D) for o, _ in occurrences(sig, d))
        for k in ('p', 'q'):
            if k in op and not tup:
                op[k]['lit'] = lit
                op[k].pop('t', None)
        sig = apply(sig, op)
    return r


def index_tuples(sig, rng, k):
    """k random full index assignments (list of (dim, index)) with nominal lengths; [] when some length is unknown"""
    out = []

    def one():
        idx = []
        s = sig
        while not isinstance(s, S):
            if isinstance(s, D):
                i = rng.randrange(len(s.subs))
                idx.append((s.dim, i))
                s = s.subs[i]
            else:
                if not s.n:
                    return None
                idx.append((s.dim, rng.choice([0, s.n - 1, rng.randrange(s.n)])))
                s = s.sub
        return idx
    for _ in range(k):
        x = one()
        if x is not None and x not in out:
            out.append(x)
    return out


def lit_state(idx, rng=None, lit=True):
    idx = list(idx)
    if rng:
        rng.shuffle(idx)
    if not idx:
        return "noarr::empty_state"
    return "noarr::idx<%s>(%s)" % (", ".join(cdim(d) for d, _ in idx), ", ".join("noarr::lit<%d>" % i for _, i in idx))


def model_state(idx):
    return "vf::St{{%s}, {}}" % ", ".join("{%d, %d}" % (cid(d), i) for d, i in idx)


def long_emit(spec):
    """some lengths much longer than usual, if the specification says so"""
    return Emit(maxlen="c.draw(4) ? 4 : %d" % spec['long']) if spec.get('long') else Emit()


def go_long(rng, i, spec, every=6):
    """one program in `every` has long dimensions"""
    if spec is not None and i % every == 1:
        spec['long'] = rng.choice([30, 70, 130, 300, 700])
    return spec


class TravCheck(Check):
    """a traverser, its inner traversers and states against the model's enumeration"""
    header = 'trav.hpp'
    lib_first = False

    def describe(self, spec):
        from ..trav import plan_text, emit_trav
        e = Emit()
        try:
            emit_trav(e, spec)
        except Invalid:
            return str(spec)
        return "; ".join(l.strip()[len("const "):] for l in e.lines if re.match(r"const auto (s\d+|t0) ", l.strip())) + "; " + plan_text(spec['plan'])

    def shrinks(self, spec):
        from ..trav import shrink_plan
        from ..runner import shrink_spec
        for x in shrink_plan(spec['plan']):
            yield dict(spec, plan=x)
        if len(spec['structs']) > 1:
            for i in range(len(spec['structs'])):
                yield dict(spec, structs=spec['structs'][:i] + spec['structs'][i + 1:])
        for k in ('bags', 'tform', 'long'):
            if spec.get(k):
                yield dict(spec, **{k: 0})
        for x in shrink_spec({'structs': spec['structs'], 'order': spec['order']}):
            yield dict(spec, **x)

    def before(self, e, spec, sig, mo):
        pass

    def after(self, e, spec, sig, mo, parts):
        pass

    def emit(self, spec):
        from ..trav import emit_trav, PlanEmit, grt, plan_kinds
        e = long_emit(spec)
        t, mo, sig, parts = emit_trav(e, spec)
        pe = PlanEmit(e)
        for p in spec['plan']:
            pe.go(p, [sig], t, 'g0', mo, mo, False)
        ks = sorted(set(k for x in spec['structs'] + [spec['order']] for k in kinds_of(x)))
        e.out(" ".join('c.tag("op:%s");' % k for k in ks) + " " + " ".join('c.tag("plan:%s");' % k for k in sorted(plan_kinds(spec['plan']))))
        if not is_cube(sig):
            e.out('c.tag("tuple");')
        e.out("c.require(vf::count_all(c, %s{}, %s) <= %d);" % (csig(sig), mo, 3000 if spec.get('long') else 400))
        if spec.get('long'):
            e.out('c.tag("long");')
        e.out("const vf::G g0 = %s; vf::Log got, exp; exp.model = true; exp.cap = 20000; vf::u64 leaves = 0;" % grt(sig))
        self.before(e, spec, sig, mo)
        lib = ["\ttry {"] + pe.lib + ["\t} catch (vf::Fail &) { }"]
        if self.lib_first:
            e.out("got.cap = 30000;")
            e.lines += lib + pe.mod
        else:
            e.lines += pe.mod
            e.out("got.cap = exp.ev.size() + 50; c.require(exp.ev.size() < 20000);")
            e.lines += lib
        e.out("got.compare(c, exp, \"traversal\");")
        e.out("leaves = exp.ev.size(); if (!leaves) c.tag(\"empty\"); c.nontrivial(leaves >= 2); c.note(\"calls\", leaves);")
        self.after(e, spec, sig, mo, parts)
        return {'body': "\n".join(e.lines)}
