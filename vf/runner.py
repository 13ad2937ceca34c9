"""Builds generated programs against /repo, runs them, shrinks failures, writes evidence."""
import concurrent.futures as cf
import copy
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from .sig import Invalid

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = os.path.join(ROOT, 'vf', 'cpp')
REPO = os.environ.get('VF_REPO', '/repo')
JOBS = int(os.environ.get('VF_JOBS', '8'))
FAST = os.environ.get('VF_FAST')     # for mutation runs: stop at the first failure, do not shrink
COMPILE_TIMEOUT = 400
RUN_TIMEOUT = 240


class Check:
    id = None
    header = 'walk.hpp'
    cxx = 'g++'
    flags = ['-O0']
    libs = []
    programs = {'quick': 160, 'thorough': 2000}
    cases = {'quick': 20, 'thorough': 60}
    per_tu = 8
    rule = ''
    assumptions = []
    level = 'exploration'
    env = {}
    deterministic = True
    probes = []     # fixed programs for recorded defects: {'key', 'body', optional 'pre', 'wrong': text of the failure that is recorded}

    def gen(self, rng, i):
        raise NotImplementedError

    def emit(self, spec):
        raise NotImplementedError

    def shrinks(self, spec):
        return shrink_spec(spec)

    def describe(self, spec):
        return json.dumps(spec)

    def extra(self, run):
        """checks beyond generated programs; returns list of violations"""
        return []

    def generate(self, rng, i):
        for k in range(400):
            try:
                spec = self.gen(rng, i)
                if spec is None:
                    continue
                self.emit(spec)
                return spec
            except (Invalid, AttributeError, KeyError, IndexError, TypeError):
                continue
        raise RuntimeError("generator gave up")


def shrink_spec(spec):
    """all specs one step smaller: drop an op, a tuple member, a tuple, an extra list element"""
    def go(x):
        if isinstance(x, dict):
            if 'ops' in x:
                for i in range(len(x['ops']) - 1, -1, -1):
                    y = dict(x)
                    y['ops'] = x['ops'][:i] + x['ops'][i + 1:]
                    yield y
            if x.get('base') == 'tuple':
                for s in x['subs']:
                    y = copy.deepcopy(s)
                    y['ops'] = y['ops'] + x['ops']
                    yield y
                if len(x['subs']) > 1:
                    for i in range(len(x['subs'])):
                        y = dict(x)
                        y['subs'] = x['subs'][:i] + x['subs'][i + 1:]
                        yield y
            for k, v in x.items():
                if k in ('p', 'q'):
                    continue
                if k == 'opt' and isinstance(v, list):   # optional steps
                    for i in range(len(v)):
                        y = dict(x)
                        y[k] = v[:i] + v[i + 1:]
                        yield y
                    continue
                if isinstance(v, (dict, list)):
                    for w in go(v):
                        y = dict(x)
                        y[k] = w
                        yield y
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    for w in go(v):
                        yield x[:i] + [w] + x[i + 1:]
    return go(spec)


class Build:
    def __init__(self, check, work):
        self.check = check
        self.work = work
        self.flags = ['-std=c++20', '-w', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'tests'), '-I', CPP] + check.flags
        if check.cxx == 'g++':
            self.flags += ['-fmax-errors=1']
        else:
            self.flags += ['-ferror-limit=1']
        self.n = 0
        # for programs that call the compiler themselves
        inc = '-include ' + os.path.join(work, 'pch.hpp') if check.cxx == 'g++' else '-include-pch ' + os.path.join(work, 'pch.hpp.pch')
        self.lock = threading.Lock()
        self.env = {'VF_WORK': work, 'VF_CC': ' '.join([check.cxx] + self.flags + [inc])}

    def sh(self, cmd, timeout=COMPILE_TIMEOUT):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            return -1, "timeout: %s" % ' '.join(cmd)

    def prepare(self):
        """runtime objects and precompiled header; returns error text or None"""
        pch = os.path.join(self.work, 'pch.hpp')
        with open(pch, 'w') as f:
            f.write('#include "%s"\n' % self.check.header)
        ext = '.gch' if self.check.cxx == 'g++' else '.pch'
        cxx = self.check.cxx
        san = [x for x in self.check.flags if x.startswith('-fsanitize')]
        jobs = [
            [cxx, '-std=c++20', '-O1', '-w', '-I', CPP] + san + ['-c', os.path.join(CPP, 'main.cpp'), '-o', os.path.join(self.work, 'main.o')],
            [cxx, '-std=c++20', '-O1', '-w', '-I', CPP] + san + ['-c', os.path.join(CPP, 'model.cpp'), '-o', os.path.join(self.work, 'model.o')],
            [cxx] + self.flags + ['-x', 'c++-header', pch, '-o', pch + ext],
        ]
        with cf.ThreadPoolExecutor(3) as ex:
            rs = list(ex.map(self.sh, jobs))
        for (rc, out) in rs[:2]:
            if rc:
                raise RuntimeError("cannot build the runtime:\n" + out[-3000:])
        return rs[2][1][-3000:] or 'failed' if rs[2][0] else None

    def source(self, progs):
        out = []
        for idx, body in progs:
            out.append("namespace prog_%d {\n%s\nstatic void run(vf::Ctx &c) {\n%s\n}\nstatic vf::Reg reg(%d, \"p%d\", run);\n}\n" % (idx, body.get('pre', ''), body['body'], idx, idx))
        return "".join(out)

    def compile(self, progs, name=None):
        """progs: [(idx, {'pre','body'})] -> (exe or None, output)"""
        self.n += 1
        base = os.path.join(self.work, name or ("tu%d" % self.n))
        with open(base + '.cpp', 'w') as f:
            f.write(self.source(progs))
        cxx = self.check.cxx
        inc = ['-include', os.path.join(self.work, 'pch.hpp')] if cxx == 'g++' else ['-include-pch', os.path.join(self.work, 'pch.hpp.pch')]
        cmd = [cxx] + self.flags + inc + [base + '.cpp', os.path.join(self.work, 'main.o'), os.path.join(self.work, 'model.o'), '-o', base + '.exe'] + self.check.libs
        rc, out = self.sh(cmd)
        if rc and (rc < 0 or 'Killed' in out or 'error' not in out):      # out of time or memory: once more, alone
            with self.lock:
                rc, out = self.sh(cmd)
        if rc:
            lines = out.splitlines()
            errs = [l[max(0, l.find('error') - 200):][:700] for l in lines if 'error' in l]
            return None, "\n".join(errs[:3] + ['...'] + [l[:400] + (' ... ' + l[-200:] if len(l) > 600 else '') for l in lines[-6:]])
        return base + '.exe', out


def run_exe(exe, args, env, timeout=RUN_TIMEOUT):
    try:
        for k in range(50):
            try:
                p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', env=env)
                break
            except OSError as ex:      # another thread forked while the linker had the file open
                if ex.errno != 26 or k == 49:
                    raise
                time.sleep(0.1)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout if isinstance(e.stdout, str) else (e.stdout or b'').decode(errors='replace')), 'timeout'
    res = []
    other = []
    for line in out.splitlines():
        if line.startswith('{'):
            try:
                res.append(json.loads(line))
                continue
            except ValueError:
                pass
        if line.strip():
            other.append(line)
    return rc, res, "\n".join(other[-20:])


class Run:
    def __init__(self, check, tier, seed, scale=1.0):
        self.check = check
        self.tier = tier
        self.seed = seed
        self.nprog = max(1, int(check.programs[tier] * scale))
        self.ncases = check.cases[tier]
        self.t0 = time.time()
        self.stats = dict(ok=0, discarded=0, nontrivial=0, points=0)
        self.tags = {}
        self.samples = []
        self.known = []
        self.violations = []    # dicts
        self.starved = 0
        self.env = dict(os.environ)
        self.env.update({'OMP_WAIT_POLICY': 'passive', 'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0', 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0'})
        self.env.update(check.env)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def specs(self):
        out = []
        for i in range(self.nprog):
            rng = random.Random("%d:%s:%d" % (self.seed, self.check.id, i))
            out.append(self.check.generate(rng, i))
        return out

    def go(self):
        c = self.check
        base = os.path.join(ROOT, '_build')
        os.makedirs(base, exist_ok=True)
        work = tempfile.mkdtemp(prefix=c.id + '-', dir=base)
        try:
            return self.inner(work)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def inner(self, work):
        c = self.check
        self.build = b = Build(c, work)
        self.env.update(b.env)
        specs = self.specs()
        err = b.prepare()
        if err:
            self.violations.append({'kind': 'compile', 'spec': None, 'pre': '', 'body': '', 'msg': 'the public headers do not compile: ' + err})
            return self.finish(work)
        bodies = [c.emit(s) for s in specs]
        tus = [list(range(i, min(i + c.per_tu, len(specs)))) for i in range(0, len(specs), c.per_tu)]
        self.failures = []   # (idx, record)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            pf = [ex.submit(self.do_probe, p) for p in c.probes]
            futs = [ex.submit(self.do_tu, tu, bodies) for tu in tus]
            for f in cf.as_completed(futs + pf):
                f.result()
        self.log("built and ran %d programs" % len(specs))
        self.failures.sort(key=lambda r: (r[1]['kind'] == 'flaky', r[0]))
        for idx, rec in self.failures:
            rec['spec'] = specs[idx]
        if self.failures:
            real = [r for r in self.failures if r[1]['kind'] != 'flaky' or not c.deterministic]
            self.log("%d failing programs" % len(self.failures))
            for idx, rec in self.failures[:3]:
                self.log(idx, rec['kind'], rec['msg'][:600].replace('\n', ' | '), rec.get('notes'))
            flaky = [r for r in self.failures if r[1]['kind'] == 'flaky' and c.deterministic]
            for idx, rec in flaky:
                self.log("not reproducible, ignored:", idx)
            if real:
                # shrink the first of them, list the rest
                idx, rec = real[0]
                try:
                    v = self.shrink(idx, rec) if not FAST else dict(rec, **{'pre': '', **c.emit(rec['spec'])})
                except Exception as ex:     # report the failure as it is
                    self.log("shrinking failed:", repr(ex))
                    body = c.emit(rec['spec'])
                    v = dict(rec, pre=body.get('pre', ''), body=body['body'])
                self.violations.append(v)
                self.violations[0]['others'] = len(real) - 1
        self.violations += [f.result() for f in pf if f.result()]
        for v in c.extra(self):
            self.violations.append(v)
        self.bodies = bodies
        self.all_specs = specs
        return self.finish(work)

    def do_probe(self, p):
        """a violation, marked as the recorded finding when it fails in the recorded way"""
        body = {'pre': p.get('pre', ''), 'body': p['body']}
        exe, out = self.build.compile([(0, body)], "probe-" + p['key'])
        v = None
        if exe is None:
            v = {'kind': 'compile', 'msg': out[-2500:]}
        else:
            rc, res, other = run_exe(exe, ['run', '--seed', '1', '--cases', '1'], self.env)
            os.unlink(exe)
            f = [r for r in res if r.get('fail')]
            if f:
                v = {'kind': 'run', 'msg': f[0]['msg'], 'notes': f[0].get('notes')}
            elif rc or not any(r.get('done') and r['ok'] for r in res):
                v = {'kind': 'run', 'msg': 'program died (%s): %s' % (rc, other[-500:])}
        if v:
            v.update(choices=[], spec=None, finding=p['key'] if p['wrong'] in v['msg'] else None, **body)
        return v

    def do_tu(self, idxs, bodies):
        if FAST and self.failures:
            return
        b = self.build
        progs = [(i, bodies[i]) for i in idxs]
        exe, out = b.compile(progs, "tu%d" % idxs[0])
        if exe is None:
            good = []
            for p in progs:
                if sum(1 for f in self.failures if f[1]['kind'] == 'compile') > 6:
                    break
                e1, o1 = b.compile([p], "one%d" % p[0])
                if e1 is None:
                    self.failures.append((p[0], {'kind': 'compile', 'msg': o1[-2500:], 'choices': []}))
                else:
                    os.unlink(e1)
                    good.append(p)
            if not good:
                return
            exe, out = b.compile(good, "tu%dx" % idxs[0])
            if exe is None:
                return
            idxs = [p[0] for p in good]
        self.run_tu(exe, idxs)
        os.unlink(exe)

    def run_tu(self, exe, idxs):
        todo = list(idxs)
        first = True
        while todo:
            args = ['run', '--seed', str(self.seed), '--cases', str(self.ncases)]
            if not first:
                args += ['--prog', str(todo[0])]
            rc, res, other = run_exe(exe, args, self.env)
            crashed = None
            for r in res:
                if 'crash' in r:
                    crashed = r
                else:
                    self.take(r)
                    if r.get('done') and r['prog'] in todo:
                        todo.remove(r['prog'])
            if crashed is None and rc != 0:
                # died without a word (sanitizer, kill): attribute to the first unfinished program
                if not todo:
                    break
                crashed = {'prog': todo[0], 'case': None, 'crash': rc}
                if first:
                    first = False
                    continue
            if crashed is not None:
                p = crashed['prog']
                rec = None
                if crashed['case'] is not None:
                    rc2, res2, _ = run_exe(exe, ['crash', '--prog', str(p), '--case', str(crashed['case']), '--seed', str(self.seed)], self.env, 900)
                    for r in res2:
                        if r.get('fail') or r.get('flaky'):
                            rec = {'kind': 'run' if r.get('fail') else 'flaky', 'msg': r.get('msg', ''), 'choices': r['choices'], 'notes': r.get('notes')}
                if rec is None:
                    rec = {'kind': 'run', 'msg': 'program died (%s): %s' % (crashed['crash'], other[-1500:]), 'choices': []}
                self.failures.append((p, rec))
                if p in todo:
                    todo.remove(p)
                first = False
            elif first:
                todo = []
            elif rc == 0 and todo and not any(r.get('done') for r in res):
                todo.pop(0)

    def take(self, r):
        if r.get('fail'):
            self.failures.append((r['prog'], {'kind': 'run', 'msg': r['msg'], 'choices': r['choices'], 'notes': r.get('notes'), 'replays': r['replays']}))
        elif r.get('flaky'):
            self.failures.append((r['prog'], {'kind': 'flaky', 'msg': 'not reproducible', 'choices': r['choices']}))
        elif r.get('done'):
            for k in self.stats:
                self.stats[k] += r[k]
            if r['ok'] == 0 and not r['failed']:
                self.starved += 1
            for k, v in r['tags'].items():
                self.tags[k] = self.tags.get(k, 0) + v
            for s in r['samples']:
                self.samples.append((r['prog'], s))

    # ------------------------------------------------------------------ type-level shrinking
    def shrink(self, idx, rec):
        c, b = self.check, self.build
        body = c.emit(rec['spec'])
        best = dict(rec, pre=body.get('pre', ''), body=body['body'])
        deadline = time.time() + (100 if self.tier == 'quick' else 400)
        kind = rec['kind']
        if kind == 'flaky':
            return best
        msgkey = None

        def key(spec):
            return hashlib.md5(json.dumps(spec, sort_keys=True, default=str).encode()).hexdigest()[:12]

        def attempt(spec):
            try:
                body = c.emit(spec)
            except (Invalid, KeyError, ValueError, IndexError):
                return None
            if time.time() > deadline:
                return None
            exe, out = b.compile([(0, body)], "sh%d_%s" % (idx, key(spec)))
            if exe is None:
                if kind == 'compile':
                    return dict(kind='compile', msg=out[-2500:], choices=[], spec=spec, pre=body.get('pre', ''), body=body['body'])
                return None
            try:
                if kind == 'compile':
                    return None
                rc, res, other = run_exe(exe, ['run', '--seed', str(self.seed), '--cases', str(max(self.ncases, 60))], self.env, 120)
                for r in res:
                    if r.get('fail') and r.get('replays') == 3:
                        return dict(kind='run', msg=r['msg'], choices=r['choices'], notes=r.get('notes'), spec=spec, pre=body.get('pre', ''), body=body['body'])
                    if 'crash' in r:
                        rc2, res2, _ = run_exe(exe, ['crash', '--prog', '0', '--case', str(r['case']), '--seed', str(self.seed)], self.env, 120)
                        for r2 in res2:
                            if r2.get('fail'):
                                return dict(kind='run', msg=r2['msg'], choices=r2['choices'], notes=r2.get('notes'), spec=spec, pre=body.get('pre', ''), body=body['body'])
                return None
            finally:
                os.unlink(exe)

        progress = True
        with cf.ThreadPoolExecutor(JOBS) as ex:
            while progress and time.time() < deadline:
                progress = False
                cands = list({key(x): x for x in c.shrinks(best['spec'])}.values())
                for i in range(0, len(cands), JOBS):
                    if time.time() > deadline:
                        break
                    rs = [r for r in ex.map(attempt, cands[i:i + JOBS]) if r]
                    if rs:
                        best = rs[0]
                        progress = True
                        break
        return best

    # ------------------------------------------------------------------ reporting
    def finish(self, work):
        c = self.check
        known = known_findings(c.id)
        new = []
        for v in self.violations:
            k = match_known(known, v)
            if k:
                self.known.append(k)
            else:
                new.append(v)
        for k in dict.fromkeys(self.known):
            print("KNOWN-FINDING: property=%s %s" % (c.id, k))
        rdir = os.path.join(ROOT, 'replays')
        lines = []
        for v in new:
            os.makedirs(rdir, exist_ok=True)
            text = {'property': c.id, 'kind': v['kind'], 'message': v['msg'], 'parameters': v.get('notes'), 'choices': v.get('choices', []),
                    'header': c.header, 'flags': c.flags, 'libs': c.libs, 'cxx': c.cxx, 'pre': v.get('pre', ''), 'body': v.get('body', ''), 'spec': v.get('spec'),
                    'how': 'cd /verif && python3 -m vf.replay <this file>'}
            h = hashlib.md5(json.dumps(text, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s.json" % (c.id, h))
            with open(path, 'w') as f:
                json.dump(text, f, indent=1, default=str)
            print("%s: %s" % (v['kind'], v['msg'][:1500]))
            if v.get('notes'):
                print("parameters: %s" % json.dumps(v['notes']))
            if v.get('spec') is not None:
                print("composition: %s" % c.describe(v['spec']))
            if v.get('body'):
                print("program:\n" + v['body'])
            lines.append("VIOLATION property=%s replay=%s" % (c.id, path))
        self.write_evidence(len(new))
        for line in lines:
            print(line)
        print("%s: %s, %d cases (%d non-trivial, %d discarded), %d comparisons, %.1f s" % (
            c.id, "VIOLATED" if new else "held", self.stats['ok'], self.stats['nontrivial'], self.stats['discarded'], self.stats['points'], time.time() - self.t0))
        return 1 if new else 0

    def write_evidence(self, nviol):
        c = self.check
        rng = random.Random(self.seed)
        ss = sorted(self.samples, key=lambda x: x[0])
        pick = [ss[i * len(ss) // 6] for i in range(min(6, len(ss)))]
        samples = []
        for p, s in pick:
            samples.append({'program': p, 'composition': c.describe(self.all_specs[p]) if getattr(self, 'all_specs', None) else '', 'parameters': s})
        ev = {
            'property': c.id, 'tier': self.tier, 'seed': self.seed, 'level': c.level,
            'coverage': {
                'evaluations': self.stats['ok'], 'distinct_nontrivial': self.stats['nontrivial'], 'rule': c.rule,
                'samples': samples, 'programs': self.nprog, 'discarded': self.stats['discarded'], 'comparisons': self.stats['points'],
                'programs_with_no_valid_case': self.starved, 'classes': self.tags,
            },
            'assumptions': c.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol,
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', c.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def known_findings(pid):
    """lines 'finding: property=<id> key=<key> <text>' of KNOWN_FINDINGS.txt"""
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def match_known(known, v):
    for key, text in known:
        if v.get('finding') == key:
            return text
    return None
