from .common import *
from ..trav import *

OUT_TYPES = ['vf::Acc', 'vf::Acc', 'vf::u64', 'unsigned char', 'int', 'double', 'unsigned short']


def created(op):
    k = op['op']
    if k == 'rename':
        return [b for _, b in op['pairs']]
    if k in ('join', 'merge', 'zcurve'):
        return [op['d']]
    if k.startswith('blocks'):
        return [op.get(x) for x in ('M', 'm', 'pr', 'B') if not (x == 'M' and op['M'] == op['d'])]
    return []


class C11(TravCheck):
    id = 'C11'
    header = 'reduce.hpp'
    flags = ['-O0', '-fopenmp']
    libs = ['-ltbb']
    per_tu = 6
    deterministic = False
    programs = {'quick': 90, 'thorough': 900}
    cases = {'quick': 14, 'thorough': 60}
    rule = ("A case is a TBB reduction of a traverser (1-2 generated structures, 0-3 orders) into a generated output (bag owning its data, bag over a pointer, or structure and pointer; scalar, arrays, tuples, views), whose dimensions are "
            "some of the input's and/or others (indexed by a hash of the input's state, as a histogram is), with one of up to 7 operations per element type, an arbitrary or neutral initial content, 1-16 threads and pseudo-random delays "
            "between reading and writing an element. The output's bytes are compared with the sequential model's. Non-trivial: at least two input elements and one output element.")
    assumptions = ["schedules are those the real TBB run-time produces under varied thread counts and injected delays", "the outermost dimension is not a tuple dimension and its length needs no index (required by the library)",
                   "an output dimension of the outermost dimension's name is indexed by that dimension's index (see the known finding)", "output elements of different indices are different (no bcast)"]

    probes = [{'key': 'tbb-reduce-shared-alias', 'wrong': 'updates of a shared output element were lost',
               'body': """
	const vf::Threads th_(8);
	bool lost = false;
	for (int round = 0; round < 30 && !lost; round++) {
		const auto in = noarr::scalar<int>() ^ noarr::vector<'y'>(16) ^ noarr::vector<'x'>(2);
		const auto out = noarr::make_bag(noarr::scalar<vf::u64>() ^ noarr::array<'x', 2>());
		noarr::traverser(out).for_each([&](auto st) { out[st] = 0; });
		noarr::tbb_reduce(noarr::traverser(in) ^ noarr::merge_blocks<'x', 'y', 'x'>(), [](auto st, auto &o) { o[st] = 0; },
			[](auto st, auto &o) { const vf::u64 x = o[st]; std::this_thread::sleep_for(std::chrono::milliseconds(1)); o[st] = x + 1; },
			[](auto st, auto &l, const auto &r) { l[st] += r[st]; }, out);
		noarr::traverser(out).for_each([&](auto st) { lost |= out[st] != 16; });
	}
	c.expect(!lost, "updates of a shared output element were lost");"""}]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([2, 3, 4, 6, 9]))
        spec = gen_trav(g, nstructs=rng.choice([1, 1, 2]), norders=(0, 0, 1, 1, 2, 3), depth=0, kinds=('each',), tuples=0.1, views=(0, 0, 1, 2), limit=150)
        g.types = [rng.choice(OUT_TYPES)]
        if rng.random() < 0.2:
            have = set(dims(union_sig([sig_of(x) for x in spec['structs']])))
            g.names = [x for x in g.names if x not in have]
            out = g.layout(depth=rng.choice([0, 1, 2]), tuples=0.5, bcast=0, limit=60)
            if rng.random() < 0.5:
                g.add(out, [x for x in ALL if x not in ('bcast', 'blocks_static', 'blocks_dyn')], limit=60)
        elif rng.random() < 0.25:
            # a tuple whose members have different dimensions of the input (an element of one member may be private to a section, of another not)
            used = dims(union_sig([sig_of(x) for x in spec['structs']]))
            subs = [gen_struct2(g, spec['structs'][0]) for _ in range(rng.choice([2, 2, 3]))]
            pool = [x for x in g.names if x not in used and not any(x in dims(sig_of(b)) for b in subs)]
            if not pool:
                return None
            out = {'base': 'tuple', 'd': pool[0], 'subs': subs, 'ops': [], 'shared': {}}
            for b in subs:
                out['shared'].update(b.pop('shared', {}))
        else:
            out = gen_struct2(g, spec['structs'][0])
        if any(o['op'] in ('bcast', 'ubcast') for s in [out] + out.get('subs', []) for o in s['ops']) or leaves(sig_of(out)) > 100:
            return None
        spec['out'] = out
        spec['form'] = rng.randrange(3)
        return go_long(rng, i, spec, 3)

    def describe(self, spec):
        return super().describe(spec) + "; into " + describe_spec(spec['out'])

    def shrinks(self, spec):
        from ..runner import shrink_spec
        for x in super().shrinks(spec):
            yield x
        for x in shrink_spec({'out': spec['out']}):
            yield dict(spec, **x)

    def emit(self, spec):
        e = long_emit(spec)
        t, mo, sig, parts = emit_trav(e, spec)
        d = top_dim([sig])
        if d is None or has_unset([sig]) or not loopable([sig], d):
            raise Invalid
        check_needs(sig)
        for pid, sd in (spec['out'].get('shared') or {}).items():
            e.draw({'id': int(pid), 'lit': False}, "vf::mlen_min(%s, %d, %s)" % (parts[0][1], cid(sd), cctx(contexts(parts[0][2], sd))))
        so, mout, osig = emit_spec(e, spec['out'])
        if unset_dims(osig):
            raise Invalid
        usig = union_sig([p[2] for p in parts])
        # dimensions the two have in common have the same lengths
        both = [x for x in dims(osig) if x in dims(usig)]
        for x in both:
            if not all(isinstance(o, F) and o.n is not None for s in (osig, usig) for o, _ in occurrences(s, x)) or not all_branches(usig, x):
                raise Invalid
            e.out("c.require(vf::mlen_all(%s, %d, %s, [&](vf::u64 l) { return vf::mlen_all(%s, %d, %s, [&](vf::u64 k) { return k == l; }); }));" % (parts[0][1] if x in dims(parts[0][2]) else parts[1][1], cid(x), "{{}}", mout, cid(x), cctx(contexts(osig, x))))
        if d in dims(osig) and (d not in both or any(d in created(o) for o in spec['order']['ops'])):
            raise Invalid
        T = scalars(osig)[0]
        ks = sorted(set(k for x in spec['structs'] + [spec['order']] for k in kinds_of(x)))
        e.out(" ".join('c.tag("op:%s");' % k for k in ks) + ' c.tag("%s");' % ('shared' if d in dims(osig) and all_branches(osig, d) else 'partly shared' if d in dims(osig) else 'private') + ' c.tag("form:%d");' % spec['form'])
        e.out("c.require(vf::count_all(c, %s{}, %s) <= %d);" % (csig(sig), mo, 4000 if spec.get('long') else 600))
        if spec.get('long'):
            e.out('c.tag("long");')
        e.out("const vf::G g0 = %s, gout = %s; typedef %s T; const vf::u64 osize = %s | noarr::get_size();" % (grt(sig), grt(osig), T, so))
        e.out("const vf::u64 threads = c.pick({1, 2, 3, 4, 8, 16}); c.note(\"threads\", threads); const vf::Threads th_(threads); vf::Jitter jit; jit.seed = c.draw(1 << 20);")
        e.out("const vf::Mon<T> op{(int)c.draw(vf::Mon<T>::kinds)}; c.note(\"operation\", op.k); const bool neutral = c.draw(2); c.note(\"neutral initial content\", neutral);")
        if spec['form'] == 0:
            e.out("const auto ob = noarr::make_bag(%s); void *const op_ = (void *)ob.data();" % so)
        else:
            e.out("vf::Buffer buf(osize); void *const op_ = buf.p;")
            if spec['form'] == 1:
                e.out("const auto ob = noarr::make_bag(%s, op_);" % so)
        e.out("vf::fill(op_, osize, 3 + threads); if (neutral || std::is_floating_point_v<T>) noarr::traverser(%s).for_each([&](auto st_) { (%s | noarr::get_at(op_, st_)) = op.neutral(); });" % (so, so))
        e.out("std::vector<unsigned char> image((unsigned char *)op_, (unsigned char *)op_ + osize);")
        # the sequential result
        e.out("vf::u64 n_in = 0, n_out = 0;")
        e.out("vf::visit(g0, %s, [&](const vf::St &in_) { n_in++; const vf::u64 h = vf::hash_st(in_); vf::mcomplete(gout, %s, in_, {}, h, [&](const vf::St &o_) { n_out++; T v; unsigned char *p = &image[%s->offset(o_)]; std::memcpy(&v, p, sizeof v); v = op(v, op.value(h)); std::memcpy(p, &v, sizeof v); }); });" % (mo, mout, mout))
        if spec['form'] < 2:
            at = lambda b, s: "%s[%s]" % (b, s)
            ty, cty, tail = "auto &", "const auto &", "ob"
        else:
            at = lambda b, s: "(%s | noarr::get_at(%s, %s))" % (so, b, s)
            ty, cty, tail = "void *", "const void *", "%s, op_" % so
        e.out("noarr::tbb_reduce(%s," % t)
        e.out("\t[&](auto st_, %so_) { %s = op.neutral(); }," % (ty, at('o_', 'st_')))
        e.out("\t[&](auto st_, %so_) { const vf::u64 h = vf::hash_st(vf::read_state(st_)); vf::complete(%s{}, %s, st_, h, [&](auto full_) { const T x = %s; jit(h); %s = op(x, op.value(h)); }); }," % (ty, csig(osig), so, at('o_', 'full_'), at('o_', 'full_')))
        e.out("\t[&](auto st_, %sl_, %sr_) { %s = op(%s, %s); }," % (ty, cty, at('l_', 'st_'), at('l_', 'st_'), at('r_', 'st_')))
        e.out("\t%s);" % tail)
        e.out("const auto where = [&](vf::u64 k) { return vf::fmt(\"byte %llu of %llu of the output differs from the sequential result\", k, osize); };")
        e.out("for (vf::u64 k = 0; k < osize; k++) c.expect(((unsigned char *)op_)[k] == image[k], [&] { return where(k); });")
        e.out("if (jit.threads.size() > 1) c.tag(\"several threads\"); if (!n_in) c.tag(\"empty\"); c.nontrivial(n_in >= 2 && n_out >= 1); c.note(\"elements\", n_in);")
        return {'body': "\n".join(e.lines)}


CHECK = C11()
