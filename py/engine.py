"""Property based testing engine for the Python side.

A case is a function of a sequence of 64 bit choices.  A campaign draws the
choices from a generator seeded with (property, seed, case index); a replay
reads them from a file, zero when exhausted.  Cases run in forked workers,
so a crash or a hang of an extension module is a failing case as well.
Failures are shrunk on the choice sequence and replayed three times.
"""

import argparse
import hashlib
import json
import mmap
import os
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

MASK = (1 << 64) - 1


class Failed(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case does not reach the property."""


def check(condition, message, *args):
    if not condition:
        raise Failed(message.format(*args) if args else message)


class Src:
    """Source of choices."""

    def __init__(self, rng=None, choices=None):
        self._rng = rng
        self._choices = choices
        self.record = []

    def value(self):
        n = len(self.record)
        if self._choices is not None:
            v = self._choices[n] if n < len(self._choices) else 0
        else:
            v = self._rng.getrandbits(64)
        self.record.append(v)
        if n > 200000:
            raise Skip('too many choices')
        return v

    def below(self, n):
        return self.value() % n if n > 1 else (self.value(), 0)[1]

    def range(self, low, high):
        return low + self.below(high - low + 1)

    def flip(self):
        return self.below(2) == 1

    def chance(self, a, b):
        """True with probability a / b; false is the simple outcome."""
        return self.below(b) >= b - a

    def pick(self, items):
        return items[self.below(len(items))]

    def logsize(self, high):
        """0 .. high, small values much more likely."""
        if high <= 0:
            self.value()
            return 0
        bits = self.below(high.bit_length() + 1)
        return min(high, self.below(1 << bits))

    def rng(self):
        """A cheap generator for bulk data; None for choice 0."""
        return random.Random(self.value())

    def seed(self):
        return self.value()


class Case:

    def __init__(self, scratch, thorough):
        self.scratch = scratch
        self.thorough = thorough
        self.labels = []
        self.nontrivial = False
        self.summary = ''

    def label(self, text):
        self.labels.append(text)

    def path(self, name):
        return os.path.join(self.scratch, name)


class Prop:

    def __init__(self, pid, function, rule, cpu=40, memory=3 << 30):
        self.id = pid
        self.function = function
        self.rule = rule
        self.cpu = cpu
        self.memory = memory


def case_rng(pid, seed, index):
    return random.Random('{}/{}/{}'.format(pid, seed, index))


def limits(prop):
    # AddressSanitizer reserves terabytes.
    if prop.memory and not os.environ.get('VT_ASAN'):
        resource.setrlimit(resource.RLIMIT_AS, (prop.memory, prop.memory))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(prop, src, case):
    """Returns None or the failure message."""

    signal.setitimer(signal.ITIMER_PROF, prop.cpu)
    signal.setitimer(signal.ITIMER_REAL, 3 * prop.cpu)
    try:
        prop.function(src, case)
    except Skip:
        case.nontrivial = False
        case.label('skipped')
    except Failed as e:
        return str(e)
    except MemoryError:
        # The address space limit of the worker, not a decision where a patch
        # may ask for any amount.
        if prop.id not in ('P11', 'P12', 'P16', 'P19', 'P20'):
            return 'out of memory'
        case.nontrivial = False
        case.label('memory limit')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '{}:{}'.format(os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
        mine = [f for f in tb if '/py/props' in f.filename]
        here = '{}'.format(mine[-1].lineno) if mine else '?'
        return 'unexpected {} at {} (check line {}): {}'.format(type(e).__name__, where, here, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def worker(prop, seed, cases, w, workers, deadline, slot, scratch, thorough, fd):
    limits(prop)
    done = nontrivial = 0
    labels = {}
    digests = set()
    samples = []
    fail = None
    slowest = (0, 0)
    i = w
    # Sample rarely enough to show different cases.
    while i < cases and time.time() < deadline:
        slot[0:16] = struct.pack('<QQ', 1, i)
        src = Src(case_rng(prop.id, seed, i))
        case = Case(scratch, thorough)
        start = time.process_time()
        message = execute(prop, src, case)
        slowest = max(slowest, (round(time.process_time() - start, 2), i))
        slot[0:8] = struct.pack('<Q', 0)
        done += 1
        for text in set(case.labels):
            labels[text] = labels.get(text, 0) + 1
        if message is not None:
            fail = (i, message)
            break
        if case.nontrivial:
            nontrivial += 1
            digests.add(hashlib.blake2b(
                struct.pack('<{}Q'.format(len(src.record)), *src.record),
                digest_size=8).hexdigest())
            if len(samples) < 3 and (done > 3 or cases < 50):
                samples.append(case.summary[:300])
        i += workers
    data = json.dumps({'done': done, 'nontrivial': nontrivial, 'labels': labels,
                       'digests': sorted(digests), 'samples': samples, 'fail': fail,
                       'slowest': slowest}).encode()
    with os.fdopen(fd, 'wb') as f:
        f.write(data)
    os._exit(0)


def status_text(status):
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s == signal.SIGPROF:
            return 'hang: the case used up its CPU time'
        if s == signal.SIGALRM:
            return 'hang: the case does not end'
        return 'the process died from signal {}'.format(s)
    return 'the process exited with status {}'.format(os.WEXITSTATUS(status))


def run_child(prop, choices, scratch, thorough):
    """Run one case in a child. Returns (failure message or None, used)."""

    rfd, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        limits(prop)
        devnull = os.open(os.path.join(scratch, 'child.err'), os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        src = Src(choices=choices)
        case = Case(scratch, thorough)
        message = execute(prop, src, case)
        with os.fdopen(wfd, 'wb') as f:
            f.write(json.dumps([message, src.record]).encode())
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
        return None, None
    if status != 0 or not data:
        text = status_text(status)
        try:
            with open(os.path.join(scratch, 'child.err'), errors='replace') as f:
                log = f.read()
            for line in log.splitlines():
                if 'ERROR: AddressSanitizer' in line or 'runtime error' in line:
                    text += ': ' + line.strip()[:200]
                    break
        except OSError:
            pass
        return text, None
    message, record = json.loads(data)
    return message, record


def run_sequence(prop, seed, indexes, scratch, thorough):
    """Run cases after each other in one fresh child, as a worker does.
    Returns (failure message or None, number of cases run)."""

    scratch = tempfile.mkdtemp(dir=scratch)
    at = mmap.mmap(-1, 8)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        limits(prop)
        os.chdir(scratch)
        log = os.open(os.path.join(scratch, 'child.err'), os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
        os.dup2(log, 1)
        os.dup2(log, 2)
        message = None
        for n, i in enumerate(indexes):
            at[:8] = struct.pack('<Q', n + 1)
            message = execute(prop, Src(case_rng(prop.id, seed, i)), Case(scratch, thorough))
            if message is not None:
                break
        with os.fdopen(wfd, 'wb') as f:
            f.write(json.dumps(message).encode())
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    count = struct.unpack('<Q', at[:8])[0]
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
        return None, count
    if status != 0 or not data:
        return status_text(status), count
    return json.loads(data), count


def history(prop, seed, index, step, budget, scratch, thorough):
    """A case that only fails after others of its worker: the cases it takes.
    Returns (indexes, message) or None."""

    deadline = time.time() + budget
    cases = list(range(index % step, index + 1, step))
    found = None
    n = 2
    while found is None and time.time() < deadline:
        part = cases[-n:]
        message, count = run_sequence(prop, seed, part, scratch, thorough)
        if message is not None:
            found = part[:count], message
        elif n >= len(cases):
            return None
        n *= 4
    if found is None:
        return None
    best = found[0]
    size = (len(best) - 1) // 2
    while size >= 1:
        i = 0
        while i < len(best) - 1 and time.time() < deadline:
            part = best[:i] + best[min(i + size, len(best) - 1):]
            message, count = run_sequence(prop, seed, part, scratch, thorough)
            if message is not None:
                best = part[:count]
            else:
                i += size
        size = min(size // 2, len(best) - 1) if size > 1 else 0
    for _ in range(2):
        message, count = run_sequence(prop, seed, best, scratch, thorough)
        if message is None or message.startswith('hang: '):
            return None
    return best, message


def shrink(prop, choices, budget, scratch, thorough):
    deadline = time.time() + budget
    attempts = [0]

    def fails(c):
        if time.time() > deadline or attempts[0] > 3000:
            return None
        attempts[0] += 1
        message, record = run_child(prop, c, scratch, thorough)
        if message is None:
            return None
        if record is not None:
            while record and record[-1] == 0:
                record.pop()
            if len(record) <= len(c):
                return record
        return c

    best = fails(choices) or choices
    improved = True
    while improved and time.time() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < deadline:
            i = 0
            while i < len(best):
                for repl in ([], [0] * size):
                    if repl and not any(best[i:i + size]):
                        continue
                    c = best[:i] + repl + best[i + size:]
                    r = fails(c)
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                        break
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or time.time() > deadline:
                break
            v = best[i]
            for n in (v & 0xff, v & 0xffff, v % 1000, v >> 32, v >> 8, v // 2, v - 1):
                if 0 <= n < v:
                    r = fails(best[:i] + [n] + best[i + 1:])
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                        break
    return best


def load_replay(path):
    pid = None
    choices = []
    sequence = None
    inside = False
    with open(path) as f:
        for line in f:
            if line.startswith('#'):
                continue
            if line.startswith('property '):
                pid = line.split()[1]
            elif line.startswith('sequence '):
                words = line.split()
                sequence = int(words[1]), words[2] == 'thorough', [int(x) for x in words[3:]]
            elif line.startswith('choices'):
                inside = True
            elif inside:
                choices += [int(x) for x in line.split()]
    return pid, choices, sequence


def save_replay(path, pid, seed, index, choices, message):
    with open(path, 'w') as f:
        f.write('# replay: see /verif/DESIGN.md (run_check.py --replay FILE)\n')
        f.write('property {}\n# seed {} case {}\n'.format(pid, seed, index))
        f.write('# failure: {}\nchoices\n'.format(message.replace('\n', ' ')))
        for i in range(0, len(choices), 16):
            f.write(' '.join(str(x) for x in choices[i:i + 16]) + '\n')


def save_sequence(path, pid, seed, thorough, indexes, message):
    with open(path, 'w') as f:
        f.write('# replay: see /verif/DESIGN.md (run_check.py --replay FILE)\n')
        f.write('property {}\n# cases after each other in one process\n'.format(pid))
        f.write('# failure: {}\n'.format(message.replace('\n', ' ')))
        f.write('sequence {} {} {}\n'.format(seed, 'thorough' if thorough else 'quick', ' '.join(str(i) for i in indexes)))


def campaign(prop, args):
    workers = args.workers
    shared = mmap.mmap(-1, 16 * workers)
    t0 = time.time()
    deadline = t0 + args.wall
    pids = {}
    pipes = {}
    sys.stdout.flush()
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            scratch = os.path.join(args.scratch, 'w{}'.format(w))
            os.makedirs(scratch, exist_ok=True)
            os.chdir(scratch)
            log = os.open(os.path.join(scratch, 'err'), os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
            os.dup2(log, 1)
            os.dup2(log, 2)
            try:
                worker(prop, args.seed, args.cases, w, workers, deadline,
                       memoryview(shared)[16 * w:16 * w + 16], scratch, args.thorough, wfd)
            except BaseException:
                traceback.print_exc()
                os._exit(77)
        os.close(wfd)
        pids[pid] = w
        pipes[w] = rfd
    infra = ''
    fails = []
    done = nontrivial = 0
    labels = {}
    digests = set()
    samples = []
    slowest = (0, 0)
    # The pipes have to be drained before the workers can exit.
    for pid, w in pids.items():
        with os.fdopen(pipes[w], 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        active, index = struct.unpack('<QQ', shared[16 * w:16 * w + 16])
        if status == 0 and data:
            r = json.loads(data)
            done += r['done']
            nontrivial += r['nontrivial']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            digests |= set(r['digests'])
            samples.append(r['samples'])
            slowest = max(slowest, tuple(r['slowest']))
            if r['fail']:
                fails.append(tuple(r['fail']))
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
            infra = 'a worker was killed'
        elif active:
            fails.append((index, status_text(status)))
        else:
            infra = 'worker {}: {}'.format(w, status_text(status))
            try:
                with open(os.path.join(args.scratch, 'w{}'.format(w), 'err'), errors='replace') as f:
                    infra += ' ' + f.read()[-500:]
            except OSError:
                pass
    t1 = time.time()
    violations = 0
    flaky = ''
    message = ''
    if fails:
        index, message = min(fails)
        rng = case_rng(prop.id, args.seed, index)
        raw = [rng.getrandbits(64) for _ in range(20000)]
        # A hang takes its time: it is repeated less, and is made smaller with
        # less time for every attempt.
        repeats = 1 if message.startswith('hang: ') else 3
        hits = sum(run_child(prop, raw, args.scratch, args.thorough)[0] is not None for _ in range(repeats))
        if hits == repeats:
            record = None
            cpu = prop.cpu
            if repeats == 3:
                _, record = run_child(prop, raw, args.scratch, args.thorough)
            else:
                prop.cpu = min(cpu, 5)
            best = shrink(prop, record or raw, args.shrink, args.scratch, args.thorough)
            prop.cpu = cpu
            last = [run_child(prop, best, args.scratch, args.thorough)[0] for _ in range(repeats)]
            if None in last:
                best = record or raw
                last = [run_child(prop, best, args.scratch, args.thorough)[0] if repeats == 3 else None]
            message = last[-1] or message
            save_replay(args.replay_out, prop.id, args.seed, index, best, message)
            violations = 1
        else:
            flaky = 'case {} failed in the campaign ({}) but only {} of {} replays failed'.format(index, message, hits, repeats)
            # It may take what the worker did before.
            for index, text in sorted(fails)[:3]:
                if text.startswith('hang: '):
                    continue
                found = history(prop, args.seed, index, workers, args.shrink + 20, args.scratch, args.thorough)
                if found is not None:
                    message = 'after {} other cases: {}'.format(len(found[0]) - 1, found[1])
                    save_sequence(args.replay_out, prop.id, args.seed, args.thorough, found[0], message)
                    violations = 1
                    flaky = ''
                    break
    flat = [s for group in zip(*samples) for s in group] if samples else []
    flat = flat or [s for g in samples for s in g]
    with open(args.out, 'w') as f:
        json.dump({'requested': args.cases, 'evaluations': done, 'nontrivial': nontrivial,
                   'distinct_nontrivial': len(digests), 'violations': violations,
                   'message': message, 'flaky': flaky, 'infra': infra,
                   'wall_s': round(t1 - t0, 2), 'labels': dict(sorted(labels.items())),
                   'slowest_case_cpu_s': slowest[0], 'slowest_case': slowest[1],
                   'samples': flat[:8]}, f)
    return 1 if violations else 0


def main(props):
    parser = argparse.ArgumentParser()
    parser.add_argument('--prop')
    parser.add_argument('--seed', type=int, default=1)
    parser.add_argument('--cases', type=int, default=1000)
    parser.add_argument('--wall', type=float, default=300)
    parser.add_argument('--shrink', type=float, default=30)
    parser.add_argument('--workers', type=int, default=8)
    parser.add_argument('--out', default='result.json')
    parser.add_argument('--replay-out', default='replay.txt')
    parser.add_argument('--replay')
    parser.add_argument('--scratch', default=None)
    parser.add_argument('--thorough', action='store_true')
    parser.add_argument('--one', type=int)
    args = parser.parse_args()
    args.scratch = os.path.abspath(args.scratch or tempfile.mkdtemp())
    os.makedirs(args.scratch, exist_ok=True)
    table = {p.id: p for p in props}
    if args.replay:
        pid, choices, sequence = load_replay(args.replay)
        prop = table[args.prop or pid]
        if sequence is not None:
            message, _ = run_sequence(prop, sequence[0], sequence[2], args.scratch, sequence[1])
        else:
            message, _ = run_child(prop, choices, args.scratch, args.thorough)
        print('FAILED: ' + message if message is not None else 'ok')
        return 1 if message is not None else 0
    prop = table[args.prop]
    if args.one is not None:
        src = Src(case_rng(prop.id, args.seed, args.one))
        case = Case(args.scratch, args.thorough)
        try:
            prop.function(src, case)
        except Skip as e:
            print('skip', e)
        print(case.nontrivial, case.labels, case.summary)
        return 0
    return campaign(prop, args)
