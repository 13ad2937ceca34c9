#!/usr/bin/env python3
"""Mutation measurement of the checks (development tool, not run by any check).

usage: mutate.py OUTDIR COUNT SEED [FILE...]   plan: writes mutants as patches of include/noarr files
       mutate.py run OUTDIR WORKTREE           for each mutant: relevant checks (fast), then, if missed, the test suite of WORKTREE
"""
import json
import os
import random
import re
import subprocess
import sys

REPO = '/repo'
CAP = int(os.environ.get('CAP', '6'))
INC = 'include/noarr/structures/'
REL = {
    'structs/layouts.hpp': 'C01 C24 C23 C05', 'structs/scalar.hpp': 'C01 C23', 'structs/setters.hpp': 'C24 C02 C05 C23', 'structs/views.hpp': 'C02 C23 C07 C24',
    'structs/slice.hpp': 'C02 C23 C24 C05', 'structs/blocks.hpp': 'C03 C23 C05 C24 C07', 'structs/zcurve.hpp': 'C04 C23', 'structs/bcast.hpp': 'C02 C06 C23 C24',
    'base/state.hpp': 'C14 C24 C02', 'base/signature.hpp': 'C23 C06 C02', 'base/structs_common.hpp': 'C23 C22 C24 C13', 'base/utility.hpp': 'C05 C14 C23 C18', 'base/contain.hpp': 'C25 C14',
    'extra/funcs.hpp': 'C01 C24 C23', 'extra/shortcuts.hpp': 'C21 C07', 'extra/sig_utils.hpp': 'C23 C06', 'extra/struct_concepts.hpp': 'C23', 'extra/struct_traits.hpp': 'C23', 'extra/to_struct.hpp': 'C13 C08',
    'extra/traverser.hpp': 'C06 C07 C08 C09', 'extra/planner.hpp': 'C12 C10', 'extra/mangle.hpp': 'C18', 'interop/bag.hpp': 'C13', 'interop/traverser_iter.hpp': 'C09 C10', 'interop/planner_iter.hpp': 'C12 C10',
    'interop/tbb.hpp': 'C10 C11', 'interop/omp.hpp': 'C10 C11', 'interop/std_para.hpp': 'C10', 'interop/serialize_data.hpp': 'C17', 'interop/cuda_striped.cuh': 'C19', 'interop/cuda_traverser.cuh': 'C20',
    'introspection/contiguous.hpp': 'C15', 'introspection/uniform_along.hpp': 'C15', 'introspection/stride_along.hpp': 'C15', 'introspection/offset_along.hpp': 'C15', 'introspection/lower_bound_along.hpp': 'C16',
}
SWAPS = [(' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' % '), (' % ', ' / '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' < ', ' <= '), (' <= ', ' < '), (' >= ', ' > '), (' > ', ' >= '),
         ('lit<0>', 'lit<1>'), ('lit<1>', 'lit<0>'), ('true', 'false'), ('false', 'true'), ('DimMajor', 'DimMinor'), ('DimMinor', 'DimMajor'), ('sub_state(state)', 'state'), ('clean_state(state)', 'state'), ('constexpr (!', 'constexpr ('),
         ('if constexpr (', 'if constexpr (!'), (' + 1', ''), (' - 1', ''), ('start_', 'start'), ('std::size_t(0)', 'std::size_t(1)'), ('0>', '1>'), ('IsBorder', 'IsBody'), ('offset_of', 'offset_of'), ('(0)', '(1)'), ('<Rest...>', '<>'),
         ('sub_length', 'length'), ('minor_length', 'major_length'), ('major_length', 'minor_length'), ('offset1', 'offset2'), ('std::max', 'std::min'), ('index_in', 'length_in'), ('length_in', 'index_in'), ('!', ''), ('size() - ', ''), ('begin_idx', 'end_idx'), ('end_idx', 'begin_idx'),
         ('.begin', '.end'), ('.end', '.begin'), ('++', '--'), ('+=', '-='), ('-=', '+='), ('std::memcpy', '(void)')]


def sites(text):
    out = []
    pos = 0
    incomment = False
    for line in text.splitlines(True):
        s = line.strip()
        skip = s.startswith(('//', '*', '/*', '#', 'static_assert', 'namespace', 'using namespace')) or incomment
        if '/*' in s:
            incomment = '*/' not in s.split('/*', 1)[1]
        elif '*/' in s:
            incomment = False
        if not skip:
            for a, b in SWAPS:
                if a == b:
                    continue
                for m in re.finditer(re.escape(a), line):
                    if a in ('true', 'false') and re.match(r'\w', line[m.start() - 1:m.start()] + ' ') and (line[m.start() - 1].isalnum() or line[m.start() - 1] == '_'):
                        continue
                    if a == ' && ' and 'requires' in line or a == '!' and line[m.end():m.end() + 1] == '=':
                        continue
                    if a == ' > ' or a == ' * ' and '*' in s[:2]:
                        if a == ' > ':
                            continue
                    out.append((pos + m.start(), a, b))
            # drop a with/remove link of a state chain
            for m in re.finditer(r'\.(template )?(with|remove)<[^<>()]*(<[^<>]*>)?[^<>()]*>\([^()]*(\([^()]*\))?[^()]*\)', line):
                out.append((pos + m.start(), m.group(0), ''))
            # swap two call arguments
            for m in re.finditer(r'\((\w+), (\w+)\)', line):
                out.append((pos + m.start(), m.group(0), '(%s, %s)' % (m.group(2), m.group(1))))
            # drop a statement
            if re.match(r'^[\w.\->:\[\]]+ ?(=|\+=|-=) [^;]*;$', s) and 'using' not in s and 'constexpr' not in s:
                out.append((pos + line.index(s), s, ';'))
        pos += len(line)
    return out


def plan(outdir, count, seed, files):
    rng = random.Random(seed)
    os.makedirs(outdir, exist_ok=True)
    every = []
    for f in files or REL:
        t = open(os.path.join(REPO, INC, f)).read()
        for s in sites(t):
            every.append((f, s))
    rng.shuffle(every)
    perfile = {}
    n = 0
    for f, (pos, a, b) in every:
        if n >= count:
            break
        if perfile.get(f, 0) >= CAP:
            continue
        perfile[f] = perfile.get(f, 0) + 1
        t = open(os.path.join(REPO, INC, f)).read()
        line = t.count('\n', 0, pos) + 1
        json.dump({'file': f, 'pos': pos, 'a': a, 'b': b, 'line': line, 'text': t.splitlines()[line - 1].strip()}, open('%s/m%04d.json' % (outdir, n), 'w'), indent=1)
        n += 1
    print(n, 'mutants of', len(every), 'sites', perfile)


def run(outdir, wt):
    for name in sorted(os.listdir(outdir)):
        if not re.match(r'm\d+\.json$', name):
            continue
        p = os.path.join(outdir, name)
        m = json.load(open(p))
        if 'result' in m:
            continue
        src = os.path.join(REPO, INC, m['file'])
        dst = os.path.join(wt, INC, m['file'])
        t = open(src).read()
        assert t[m['pos']:m['pos'] + len(m['a'])] == m['a']
        open(dst, 'w').write(t[:m['pos']] + m['b'] + t[m['pos'] + len(m['a']):])
        try:
            r = subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-w', '-I', wt + '/include', '-I', wt + '/tests', '-include', 'noarr_test_cuda_dummy.hpp', '-fopenmp', '-x', 'c++', '/tmp/mt/quick.cpp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                m['result'] = 'nocompile'
            else:
                m['result'] = 'missed'
                for c in REL[m['file']].split():
                    env = dict(os.environ, VF_REPO=wt, VF_FAST='1', VERIF_SEED='1')
                    r = subprocess.run(['python3', '-m', 'vf.run', c, 'quick'], cwd=os.environ.get('VF_HOME', '/verif'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 1:
                        m['result'] = 'caught ' + c
                        break
                    if r.returncode:
                        m['result'] = 'broken ' + c + ' ' + r.stdout[-500:]
                        break
                if m['result'] == 'missed':
                    b = subprocess.run(['bash', '/tmp/sbvp/test.sh', '/tmp/mt/out.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    try:
                        o = json.load(open('/tmp/mt/out.json'))
                        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                        ok = base <= set(o['passed'] if 'passed' in o else [k for k, v in o.items() if v == 'passed'])
                    except Exception as ex:
                        ok = repr(ex)
                    m['tests'] = ok
        finally:
            subprocess.run(['cp', src, dst])
        json.dump(m, open(p, 'w'), indent=1)
        print(name, m['file'], m['line'], repr(m['a']), '->', repr(m['b']), '|', m['result'], m.get('tests', ''), '|', m['text'][:110], flush=True)


if sys.argv[1] == 'run':
    run(sys.argv[2], sys.argv[3])
else:
    plan(sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:])
