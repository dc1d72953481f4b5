"""Shared machinery of the checks: scratch directory, driver processes, TLC, verdicts, evidence.

A check is a sequence of
  1. TLC explores a specification (specs/*.tla) in small bounds and prints behaviours,
  2. the behaviours (and random ones) are executed by the code under check (drivers/*.py, or a C harness),
     which records one event per operation together with what it observed,
  3. TLC decides whether the recorded events are a behaviour of the specification.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402

SPECS = os.path.join(VERIF, 'specs')
DRIVERS = os.path.join(VERIF, 'drivers')
EVID = os.path.join(VERIF, 'evidence')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class TlcError(Exception):
    pass


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        self.rejected = None
        m = re.search(r'<<"REJECTED", (\d+)>>', out)
        if m:
            self.rejected = int(m.group(1))
        self.ok = rc == 0
        # an observation the specification cannot even evaluate (a value of an unexpected kind) is rejected too
        self.error = None
        if self.rejected is None and rc != 0 and 'TLC was evaluating' in out:
            m = re.search(r'depth of the complete state graph search is (\d+)', out)
            if m:
                self.rejected = int(m.group(1))
                self.error = out[out.find('Error:'):][:600]
        if self.rejected is None and rc != 0 and 'threw an unexpected exception' in out and ': Attempted to' in out:
            m = re.findall(r'^State (\d+): ', out, re.M)
            if m:
                self.rejected = int(m[-1])
                self.error = out[out.find('Error:'):][:600]

    def printed(self, tag):
        """The values printed by PrintT(<<tag, ToJson(x)>>)."""
        res = []
        pre = '<<"%s", "' % tag
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('">>'):
                s = line[len(pre):-3]
                res.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))
        return res


class Check:
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        os.chmod(self.scratch, 0o755)
        self.b = None
        self.libs = {}
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events_validated': 0,
                    'samples': [], 'specs': {}}
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = []
        self._n = 0
        self._lock = threading.Lock()

    quick = property(lambda s: s.tier == 'quick')

    def left(self, total=None):
        total = total or (840 if self.quick else 3600 * 3)
        return total - (time.time() - self.t0)

    # ---- build
    def build(self, *kinds):
        if self.b is None:
            self.b = B.Build(os.path.join(self.scratch, 'b'))
        for k in kinds:
            if k not in self.libs:
                self.libs[k] = self.b.ext(k)
        return self.b

    def pyenv(self, kind='asan', extra=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LD_', 'ASAN'))}
        e.update({'PYTHONPATH': self.libs[kind], 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'LANG': 'C.UTF-8'})
        if kind == 'asan':
            e.update(B.asan_env())
        e.update(extra or {})
        return e

    def shim(self, src):
        """Compiles harness/src into a library to preload; returns the environment to run a driver with."""
        out = os.path.join(self.scratch, os.path.basename(src) + '.so')
        if not os.path.exists(out):
            B._run(['gcc', '-O1', '-g', '-fPIC', '-shared', '-w', os.path.join(VERIF, 'harness', src), '-o', out, '-ldl'], self.scratch, 'shim')
        return out

    def clib(self, src='clib.c'):
        """Environment of drivers that call the C library through ctypes."""
        self.build()
        return {'CLIB': self.b.clib(src.replace('.', '_'), [os.path.join(VERIF, 'harness', src)])}

    def preload(self, src, kind='asan'):
        so = self.shim(src)
        return {'LD_PRELOAD': B.asan_env()['LD_PRELOAD'] + ':' + so if kind == 'asan' else so}

    # ---- driver
    def drive(self, script, cases, kind='asan', nproc=None, case_timeout=30, env=None, argv=()):
        """Runs the cases (JSON objects) in driver processes, returns a list of lists of events.

        A driver reads one case per line on stdin, and answers with event lines and then a line "." .
        If the process dies or hangs in a case, an event {"op":"crash"} ends the events of that case,
        and another process continues with the next one."""
        nproc = nproc or NCPU
        nproc = max(1, min(nproc, len(cases)))
        res = [None] * len(cases)
        shards = [list(range(i, len(cases), nproc)) for i in range(nproc)]
        crashed = [0]

        def work(idx):
            p = None
            for i in idx:
                if crashed[0] >= 8:       # enough to report
                    res[i] = []
                    continue
                if p is None:
                    p = self._spawn(script, kind, env, argv)
                ev, alive = self._one(p, cases[i], case_timeout)
                res[i] = ev
                if not alive:
                    crashed[0] += 1
                    p = None
            if p is not None:
                try:
                    p.stdin.close()
                    p.wait(20)
                except Exception:
                    p.kill()
                p.stdout.close()
        with cf.ThreadPoolExecutor(nproc) as ex:
            list(ex.map(work, shards))
        return res

    def _spawn(self, script, kind, env, argv):
        with self._lock:
            self._n += 1
            n = self._n
        d = os.path.join(self.scratch, 'd%d' % n)
        os.makedirs(d, exist_ok=True)
        err = open(os.path.join(d, 'stderr'), 'wb')
        p = subprocess.Popen([B.PY, os.path.join(DRIVERS, script)] + list(argv), cwd=d, env=self.pyenv(kind, env),
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err)
        p.errpath = err.name
        err.close()
        return p

    def _one(self, p, case, timeout):
        ev = []
        hung = [False]

        def kill():
            hung[0] = True
            p.kill()
        t = threading.Timer(timeout, kill)
        t.start()
        done = False
        try:
            p.stdin.write((json.dumps(case) + '\n').encode())
            p.stdin.flush()
            while True:
                line = p.stdout.readline()
                if not line:
                    break
                if line == b'.\n':
                    done = True
                    break
                ev.append(json.loads(line))
        except (BrokenPipeError, ValueError):
            pass
        finally:
            t.cancel()
        if done:
            return ev, True
        try:
            p.kill()
        except Exception:
            pass
        p.wait()
        err = open(p.errpath, 'rb').read().decode(errors='replace')
        m = re.search(r'SUMMARY: (.*)', err)
        what = 'hang' if hung[0] else (m.group(1) if m else 'exit %s' % p.returncode)
        if '!driver-error!' in err:
            what = 'unexpected observation'
        ev.append({'op': 'crash', 'what': what, 'stderr': err[-1500:]})
        return ev, False

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, args=(), heap='3g', simulate=None, name=None):
        with self._lock:
            self._n += 1
            n = self._n
        d = os.path.join(self.scratch, 't%d' % n)
        os.makedirs(d)
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4',
               '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPECS, '-cp', TLA_CP, 'tlc2.TLC',
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-workers', str(workers),
               '-config', os.path.join(SPECS, (cfg or module) + '.cfg')]
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(args) + [os.path.join(SPECS, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired as x:
            raise TlcError('TLC timed out on %s' % module)
        out = r.stdout.decode(errors='replace')
        t = Tlc(out, r.returncode)
        shutil.rmtree(d, ignore_errors=True)
        if 'Finished in' not in out and 'The number of states generated' not in out:
            raise TlcError('TLC failed on %s:\n%s' % (module, out[-4000:]))
        return t

    def explore(self, module, cfg=None, **kw):
        """TLC on the specification itself; an invariant violated here is an error of the specification."""
        # with a view, the history that stands for a state is that of the worker which gets there first;
        # one worker makes the quick check the same on every run
        view = 'VIEW' in open(os.path.join(SPECS, (cfg or module) + '.cfg')).read()
        kw.setdefault('workers', 1 if view and self.quick else NCPU)
        t = self.tlc(module, cfg, **kw)
        if not t.ok:
            raise TlcError('specification %s/%s does not hold:\n%s' % (module, cfg, t.out[-5000:]))
        self.cov['states'] += t.distinct
        self.cov['transitions'] += t.generated
        self.cov['specs'][cfg or module] = {'distinct': t.distinct, 'generated': t.generated}
        return t

    def _judge_shard(self, module, cfg, trace, env, timeout):
        with self._lock:
            self._n += 1
            n = self._n
        f = os.path.join(self.scratch, 'trace%d.ndjson' % n)
        with open(f, 'w') as h:
            for e in trace:
                h.write(json.dumps(e) + '\n')
        e = {'TRACE': f}
        e.update(env or {})
        t = self.tlc(module, cfg, env=e, timeout=timeout)
        os.unlink(f)
        if t.rejected is None and not t.ok:
            raise TlcError('TLC could not evaluate the trace with %s:\n%s' % (module, t.out[max(0, t.out.find('Error:')):][:3000]))
        return t

    def judge(self, module, cases, cfg=None, env=None, nshards=None, timeout=600, weight=None, max_viol=4):
        """cases: list of event lists.  Returns the list of (case index, event index) that TLC rejects.

        The cases are concatenated (a case begins with an event that resets the specification's state)
        and split over several TLC processes."""
        w = [weight(c) if weight else len(c) for c in cases]
        total = sum(w) or 1
        nshards = nshards or max(1, min(NCPU, total // 250 + 1, len(cases)))
        order = list(range(len(cases)))
        shards = [[] for _ in range(nshards)]
        load = [0] * nshards
        for i in order:
            k = load.index(min(load))
            shards[k].append(i)
            load[k] += w[i]
        bad = []
        found = [0]

        def work(idx):
            out = []
            idx = list(idx)
            while idx and found[0] < max_viol:
                trace = [e for i in idx for e in cases[i]]
                if not trace:
                    break
                t = self._judge_shard(module, cfg, trace, env, timeout)
                with self._lock:
                    self.cov['states'] += t.distinct
                    self.cov['transitions'] += t.generated
                if t.rejected is None:
                    if t.distinct < len(trace):
                        raise TlcError('%s accepted a trace of %d events with %d states' % (module, len(trace), t.distinct))
                    break
                pos, k = t.rejected - 1, 0      # 0-based index of the first event that is not a behaviour
                while pos >= len(cases[idx[k]]):
                    pos -= len(cases[idx[k]])
                    k += 1
                out.append((idx[k], pos))
                found[0] += 1
                idx = idx[k + 1:]
            return out
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(work, [s for s in shards if s]):
                bad += r
        self.cov['traces_validated_against_impl'] += len(cases)
        self.cov['events_validated'] += sum(len(c) for c in cases)
        return sorted(bad)

    # ---- verdicts
    def violation(self, summary, data, key=None):
        """key: what identifies the failing input in the known-findings file."""
        for k in self.known:
            if key is not None and k['key'] == key:
                self.known_hit.append(k)
                return
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, len(self.violations)))
        with open(path, 'w') as h:
            json.dump({'property': self.prop, 'summary': summary, 'key': key, 'data': data}, h, indent=1, default=str)
        self.violations.append((summary, path))

    def sample(self, **kw):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(kw)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        # every listed finding is reported; a listed finding that no longer shows is only noted
        for k in self.known:
            hit = any(h is k for h in self.known_hit)
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations), 'known_findings_reported': [k['what'] for k in self.known_hit]}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, default=str)
        for s, path in self.violations:
            print('  %s' % s)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if not self.violations:
            print('OK property=%s tier=%s states=%d traces=%d events=%d wall=%.0fs' % (
                self.prop, self.tier, self.cov['states'], self.cov['traces_validated_against_impl'],
                self.cov['events_validated'], time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append({'key': m.group(2), 'what': m.group(3)})
    return out


def standard(chk, script, module, cases, cfg=None, kind='asan', env=None, tlc_env=None, describe=None, key=None,
             prep=None, nshards=None, case_timeout=30, weight=None):
    """execute -> judge -> confirm: a rejected case is executed and judged again, alone, and only reported
    when that repeats."""
    evs = chk.drive(script, cases, kind=kind, env=env, case_timeout=case_timeout)
    if prep:
        evs = [prep(c, e) for c, e in zip(cases, evs)]
    # whatever crashes is no behaviour
    bad = [(i, len(e) - 1) for i, e in enumerate(evs) if e and e[-1].get('op') == 'crash'][:4]
    ok = [i for i, e in enumerate(evs) if not (e and e[-1].get('op') == 'crash')]
    bad += [(ok[i], pos) for i, pos in chk.judge(module, [evs[i] for i in ok], cfg=cfg, env=tlc_env, nshards=nshards, weight=weight)]
    for i, pos in bad[:6]:
        again = chk.drive(script, [cases[i]], kind=kind, env=env, nproc=1, case_timeout=case_timeout)
        if prep:
            again = [prep(cases[i], again[0])]
        b2 = [(0, len(again[0]) - 1)] if again[0] and again[0][-1].get('op') == 'crash' else chk.judge(module, again, cfg=cfg, env=tlc_env)
        if not b2:
            continue
        e = again[0][b2[0][1]]
        chk.violation(describe(cases[i], e) if describe else 'event %d is not a behaviour of %s: %s' % (
            b2[0][1], module, json.dumps(e)[:600]), {'case': cases[i], 'events': again[0], 'rejected': b2[0][1]},
            key=key(cases[i], e) if key else None)
    return evs


def main(run, prop):
    """run(chk) for `checkmodule.py tier`."""
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
        tier = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = Check(prop, tier, seed)
    try:
        run(chk)
        rc = chk.finish()
    except B.BuildError as x:
        print('build error: %s' % x)
        rc = 2
    except Exception:
        if not chk.violations:
            raise
        rc = chk.finish()       # what was found stands
    finally:
        shutil.rmtree(chk.scratch, ignore_errors=True)
    sys.exit(rc)


def behaviours(t, cap, seed):
    """The behaviours TLC printed as [h |-> history, same |-> the last operation does not change the state]:
    operations which do not change the state are joined after the history that leads to that state."""
    import random
    groups, out = {}, []
    for b in t.printed('B'):
        h = b['h']
        if b['same']:
            groups.setdefault(json.dumps(h[:-1]), []).append(h[-1])
        else:
            out.append(h)
    out += [json.loads(k) + v for k, v in groups.items()]
    n = len(out)
    out.sort(key=json.dumps)        # TLC's workers print in any order
    if n > cap:
        out = random.Random(seed).sample(out, cap)
    return out, n


def brief(e, n=500):
    e = {k: v for k, v in e.items() if k != 'post'}
    return json.dumps(e)[:n]


def outcomes(chk, evs, required=()):
    """How often each operation happened, with which kind of outcome; a check that no longer executes an
    operation at all is broken, which is an error of the check, not a violation."""
    n = {}
    for c in evs:
        for e in c:
            k = e['op'] + (':' + e['res']['k'] if isinstance(e.get('res'), dict) and 'k' in e['res'] else '')
            n[k] = n.get(k, 0) + 1
    d = chk.cov.setdefault('operations', {})
    for k, v in n.items():
        d[k] = d.get(k, 0) + v
    missing = [r for r in required if not any(k.split(':')[0] == r for k in n)]
    if missing and not chk.violations:
        raise TlcError('no %s event was recorded' % missing)
    for c in evs[:2]:
        chk.sample(events=[{k: v for k, v in e.items() if k != 'post'} for e in c[:6]])
