#!/usr/bin/env python3
"""Runs the check of one property against the working tree of /repo.

usage: run_check.py ID [--tier quick|thorough] [--seed N] [--cases N]
       run_check.py --replay FILE

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: it does
not hold, the replay file has the smallest failing case found.  Exit 2: the
check could not run (the tree does not build, for example).
"""

import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VT_REPO', '/repo')
PYTHON = '/opt/detools/venv/bin/python3'
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from catalog import CHECKS  # noqa: E402

ASAN_CHECKS = {'P05', 'P07', 'P15', 'P20'}


def say(*args):
    print(*args, flush=True)


def environment(pid, out):
    env = dict(os.environ)
    env.pop('VT_FEW', None)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['VT_OUT'] = out
    env['VT_CLI'] = os.path.join(out, 'detools-cli')
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    # No caches in front of the heap: what is in use is what is kept.
    if pid == 'P16':
        env['GLIBC_TUNABLES'] = 'glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0'
    env['LC_ALL'] = 'C.UTF-8'
    env['PYTHONHASHSEED'] = '1'
    return env


def build(pid, out, guided=False):
    harness = CHECKS[pid][0]
    env = environment(pid, out)
    env.pop('VT_GUIDED', None)
    if guided:
        env['VT_GUIDED'] = '1'
    if harness == 'c' and pid != 'C11':
        env['VT_FEW'] = '1'
    if pid in ('P16', 'P20'):
        env['VT_HDP'] = '1'
    if pid in ('P15', 'P20'):
        env['VT_OOM'] = '1'
    if pid in ASAN_CHECKS:
        env['VT_PYFLAGS'] = '-O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all'
    r = subprocess.run([os.path.join(HERE, harness, 'build.sh'), REPO, out], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors='replace')[-3000:])
        say('the harness does not build against', REPO)
        return False
    return True


def command(pid, out, env):
    if CHECKS[pid][0] == 'c':
        return [os.path.join(out, 'harness')]
    if pid in ASAN_CHECKS:
        libs = [subprocess.run(['gcc', '-print-file-name=' + n], stdout=subprocess.PIPE, text=True).stdout.strip()
                for n in ('libasan.so', 'libubsan.so')]
        env['LD_PRELOAD'] = ' '.join(libs)
        env['PYTHONMALLOC'] = 'malloc'
        env['VT_ASAN'] = '1'
    return [PYTHON, os.path.join(HERE, 'py', 'props.py')]


def run(cmd, env, timeout, cwd):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, start_new_session=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        output, _ = p.communicate(timeout=timeout)
        return p.returncode, output.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, 'timeout'


def property_of_replay(path):
    with open(path) as f:
        for line in f:
            if line.startswith('property '):
                return line.split()[1]
    raise SystemExit('not a replay file: ' + path)


def replay(path):
    path = os.path.abspath(path)
    pid = property_of_replay(path)
    out = tempfile.mkdtemp(prefix='vt-{}-'.format(pid))
    try:
        if not build(pid, out):
            return 2
        env = environment(pid, out)
        code, output = run(command(pid, out, env) + ['--prop', pid, '--replay', path, '--scratch', os.path.join(out, 's')],
                           env, 300, out)
        sys.stdout.write(output)
        if code == 1:
            say('VIOLATION property={} replay={}'.format(pid, path))
            return 1
        return 0 if code == 0 else 2
    finally:
        shutil.rmtree(out, ignore_errors=True)


def merged(a, b):
    labels = dict(a['labels'])
    for name, count in b['labels'].items():
        labels[name] = labels.get(name, 0) + count
    r = dict(a, labels=labels, violations=b['violations'], message=b['message'])
    if b['slowest_case_cpu_s'] > a['slowest_case_cpu_s']:
        r['slowest_case_cpu_s'], r['slowest_case'] = b['slowest_case_cpu_s'], b['slowest_case']
    for name in ('evaluations', 'nontrivial', 'distinct_nontrivial', 'wall_s', 'requested'):
        r[name] = a[name] + b[name]
    for name in ('flaky', 'infra'):
        r[name] = a[name] or b[name]
    return r


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('id', nargs='?', choices=sorted(CHECKS))
    parser.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    parser.add_argument('--cases', type=int)
    parser.add_argument('--wall', type=float)
    parser.add_argument('--replay')
    args = parser.parse_args()
    if args.replay:
        return replay(args.replay)
    pid = args.id
    if pid is None:
        parser.error('a property is needed')
    t0 = time.time()
    harness, quick, thorough, level, rule = CHECKS[pid]
    evidence = os.path.join(HERE, 'evidence')
    os.makedirs(evidence, exist_ok=True)
    replay_path = os.path.join(evidence, 'replay-{}-seed{}.txt'.format(pid, args.seed))
    for path in (replay_path, os.path.join(evidence, pid + '.json')):
        if os.path.exists(path):
            os.remove(path)
    out = tempfile.mkdtemp(prefix='vt-{}-'.format(pid))
    try:
        # Half of a thorough campaign of the C library looks for what its code
        # has not done before, by varying the choices of earlier cases.
        guided = harness == 'c' and args.tier == 'thorough'
        if not build(pid, out, guided):
            return 2
        env = environment(pid, out)
        cases = args.cases or (quick if args.tier == 'quick' else thorough)
        wall = args.wall or (240 if args.tier == 'quick' else 700)
        workers = max(1, min(8, int(os.environ.get("VT_WORKERS") or os.cpu_count() or 1)))
        result = os.path.join(out, 'result.json')
        cmd = command(pid, out, env)
        r = None
        for flags in ([], ['--guided']) if guided else ([],):
            part = cmd + [
                '--prop', pid, '--seed', str(args.seed), '--cases', str(cases // 2 if guided else cases),
                '--wall', str(wall / 2 if guided else wall),
                '--workers', str(workers), '--shrink', '40', '--out', result, '--replay-out', replay_path,
                '--scratch', os.path.join(out, 's')] + flags
            if args.tier == 'thorough':
                part.append('--thorough')
            code, output = run(part, env, wall + 480, out)
            try:
                with open(result) as f:
                    more = json.load(f)
            except (OSError, ValueError):
                sys.stdout.write(output[-3000:])
                say('no result from the harness, exit', code)
                return 2
            os.remove(result)
            r = more if r is None else merged(r, more)
            if r['violations']:
                break
    finally:
        shutil.rmtree(out, ignore_errors=True)
    wall_s = round(time.time() - t0, 1)
    assumptions = ['The compilers, libraries (liblzma, bz2, zstd, lz4, heatshrink2) and sanitizers installed here are right.']
    if r['evaluations'] < cases and not r['violations']:
        assumptions.append('The time limit ended the run after {} of {} cases.'.format(r['evaluations'], cases))
    with open(os.path.join(evidence, pid + '.json'), 'w') as f:
        json.dump({
            'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': level,
            'coverage': {
                'evaluations': r['evaluations'],
                'distinct_nontrivial': r['distinct_nontrivial'],
                'rule': rule,
                'samples': r['samples'][:6],
                'nontrivial': r['nontrivial'],
                'requested': cases,
                'classes': r['labels'],
                'campaign_s': r['wall_s'],
                'slowest_case_cpu_s': r.get('slowest_case_cpu_s'),
                'slowest_case': r.get('slowest_case'),
            },
            'assumptions': assumptions,
            'wall_s': wall_s,
            'violations': r['violations'],
        }, f, indent=1)
        f.write('\n')
    say('{} {} seed {}: {} of {} cases, {} distinct non-trivial, {:.1f} s'.format(
        pid, args.tier, args.seed, r['evaluations'], cases, r['distinct_nontrivial'], wall_s))
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('finding: property={} '.format(pid)):
                say('KNOWN-FINDING: ' + line.split(': ', 1)[1].strip())
    if r['flaky']:
        say('not reproducible, not reported:', r['flaky'])
    if r['violations']:
        say(r['message'])
        say('VIOLATION property={} replay={}'.format(pid, replay_path))
        return 1
    if r['infra']:
        say('infrastructure:', r['infra'])
        if 'harness: ' in r['infra']:
            return 2
    if r['evaluations'] == 0:
        say('nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
