"""P07: a file is published completely or not at all."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import gen
import tracefs
import vlib
import build as B

CHILD = os.path.join(vlib.DRIVERS, 'publish_child.py')
ERRS = {'openat': ['EACCES', 'EMFILE', 'ENOSPC', 'EINTR'], 'open': ['EACCES', 'EMFILE', 'ENOSPC'], 'write': ['ENOSPC', 'EIO', 'EINTR'], 'pwrite64': ['ENOSPC', 'EIO'],
        'writev': ['ENOSPC', 'EIO'], 'fsync': ['EIO', 'ENOSPC'], 'fdatasync': ['EIO', 'ENOSPC'], 'fchmod': ['EPERM', 'EROFS'], 'close': ['EIO', 'EINTR'],
        'rename': ['EACCES', 'EIO', 'EXDEV', 'ENOSPC'], 'renameat': ['EACCES', 'EIO'], 'renameat2': ['EACCES', 'EIO'], 'lseek': ['EINVAL', 'EIO'], 'ftruncate': ['EIO', 'ENOSPC'],
        'link': ['EACCES', 'EMLINK'], 'linkat': ['EACCES', 'EMLINK'], 'fcntl': ['EINVAL'], 'fstat': ['EIO'], 'newfstatat': ['EIO'], 'fallocate': ['ENOSPC'], 'chmod': ['EPERM']}
OLD = b'what was there before, ' * 40


def careless(chk):
    """The model of the writer is right, and each way to be careless is one that the model does not allow."""
    chk.explore('PublishGen')
    names = ('nosync', 'early', 'ignore', 'retry', 'inplace', 'litter')
    with cf.ThreadPoolExecutor(6) as ex:
        ts = list(ex.map(lambda c: chk.tlc('PublishGen', 'PublishGen' + c), names))
    for c, t in zip(names, ts):
        if t.ok or 'is violated' not in t.out:
            raise vlib.TlcError('PublishGen%s should be violated' % c)
        chk.cov['specs']['PublishGen' + c] = {'distinct': t.distinct, 'generated': t.generated, 'violated as it should': True}


class Runs:
    def __init__(self, chk):
        self.chk = chk
        self.env = chk.pyenv('plain')
        self.n = 0

    def go(self, case):
        """Runs one case; returns the parsed calls, marks, exit status, directory, listing, what the target is."""
        with self.chk._lock:
            self.n += 1
            d = os.path.join(self.chk.scratch, 'p%d' % self.n)
        os.makedirs(os.path.join(d, 'w'))
        w = os.path.join(d, 'w')
        t = os.path.join(w, 'target.map')
        env = case.get('env', 'none')
        if env in ('old', 'neighbour'):
            open(t, 'wb').write(OLD)
        if env == 'neighbour':
            open(os.path.join(w, 'target.map.1'), 'wb').write(b'x')
            os.makedirs(os.path.join(w, 'target.map.d'))
        if env == 'readonly':
            open(t, 'wb').write(OLD)
            os.chmod(t, 0o400)
        if env == 'dir':
            os.makedirs(t)
        if env == 'missing':
            os.rmdir(w)
        names = tracefs.Names(w, t)
        first = sorted(os.listdir(w)) if os.path.isdir(w) else []
        spec = {'g': case['g'], 'opts': case['opts'], 'target': t if not case.get('rel') else 'target.map', 'size': True}
        if 'limit' in case:
            spec['limit'] = case['limit']
        with open(os.path.join(d, 'spec.json'), 'w') as h:
            json.dump(spec, h)
        cmd = ['strace', '-s', '200', '-o', os.path.join(d, 'log'), '-e', 'trace=' + ','.join(tracefs.CALLS)]
        for i in case.get('inject', []):
            cmd += ['-e', 'inject=' + i]
        cmd += [B.PY, CHILD, os.path.join(d, 'spec.json')]
        r = subprocess.run(cmd, cwd=w if case.get('rel') else d, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        calls, marks = tracefs.parse(os.path.join(d, 'log'))
        last = sorted(os.listdir(w)) if os.path.isdir(w) else []
        new = open(os.path.join(d, 'spec.json.new'), 'rb').read() if os.path.exists(os.path.join(d, 'spec.json.new')) else None
        if os.path.isdir(t):
            target = 'old' if env == 'dir' and not os.listdir(t) else 'torn'
        elif os.path.exists(t):
            b = open(t, 'rb').read()
            target = 'new' if b == new else 'old' if b == OLD else 'torn'
        else:
            target = 'none'
        if marks[0] is None:
            return None, 'never began (status %s): %s' % (r.returncode, r.stdout.decode(errors='replace')[-800:]), d
        body = calls[marks[0] + 1:marks[1]]
        ev = [{'op': 'begin', 'names': [names.base(x) for x in first], 'total': len(new) if new is not None else 0,
               'fault': bool(case.get('inject') or 'limit' in case or env in ('dir', 'missing'))}]
        ev += tracefs.events(body, names, w if case.get('rel') else d, last)
        killed = r.returncode < 0 or r.returncode == 137
        if marks[1] is None and killed and any('signal=KILL' in i for i in case.get('inject', [])):
            ev.append({'op': 'killed', 'names': [names.base(x) for x in last], 'target': target})
        elif marks[1] is not None and 10 <= r.returncode <= 13:
            k = r.returncode - 10
            ev.append({'op': 'end', 'res': 'exc' if k & 1 else 'ok', 'names': [names.base(x) for x in last], 'target': target,
                       'leak': (k >> 1) if not any(i.startswith('close:') for i in case.get('inject', [])) else 0})
        elif killed and marks[1] is not None and any('signal=KILL' in i for i in case.get('inject', [])):
            shutil.rmtree(d, ignore_errors=True)
            return None, 'killed too late', None
        else:
            ev.append({'op': 'crash', 'what': 'status %s' % r.returncode, 'stderr': r.stdout.decode(errors='replace')[-800:]})
        hit = any(c[3] for c in body)
        shutil.rmtree(d, ignore_errors=True)
        return (calls, marks, hit, len(new or b'')), ev, None


def run(chk):
    chk.build('plain')
    careless(chk)
    rng = random.Random(chk.seed)
    runs = Runs(chk)
    r = subprocess.run(['strace', '-o', '/dev/null', 'true'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise vlib.TlcError('strace does not work here: %s' % r.stdout.decode(errors='replace'))

    def nested(k):
        """Many small containers and strings: many seeks and writes."""
        n = [{'k': 'list', 'ch': list(range(2, k + 2))}]
        n += [gen.STR('s%d' % i + 'x' * (i % 50)) if i % 3 else {'k': 'list', 'ch': []} for i in range(k)]
        return {'n': n, 'r': 1}
    objs = [({'n': [gen.INT(7)], 'r': 1}, 'none'), (nested(12), 'old'), (nested(300), 'neighbour'), (nested(60), 'readonly')]
    if not chk.quick:
        objs += [(nested(3000), 'old')]
        while len(objs) < 16:
            objs.append((gen.container_graph(rng, rng.choice([1, 2, 3])), rng.choice(['none', 'old', 'neighbour'])))
    cases = []
    O = {'unwiden_strings': False, 'normalize_bitvector': True}
    for gi, (g, env) in enumerate(objs):
        base = {'g': g, 'env': env, 'opts': O}
        info, ev, d = runs.go(base)
        if info is None:
            chk.violation('the writer did not run: %s' % ev, base)
            return
        cases.append((base, ev))
        calls, marks, hit, size = info
        todo = []
        seen, count = {}, {}
        for i, c in enumerate(calls):
            seen[c[0]] = seen.get(c[0], 0) + 1
            if marks[0] < i < marks[1]:
                count.setdefault(c[0], []).append(seen[c[0]])
        for name, ns in sorted(count.items()):
            if name in ('access', 'faccessat', 'faccessat2', 'getrandom'):
                continue
            cap = (6 if chk.quick else 24) if name == 'lseek' else (12 if chk.quick else 80)
            pick = ns if len(ns) <= cap else sorted(set(ns[:cap // 3] + ns[-(cap // 3):] + rng.sample(ns, cap - 2 * (cap // 3))))
            for n in pick:
                for err in ERRS.get(name, ['EIO']):
                    todo.append(dict(base, inject=['%s:error=%s:when=%d' % (name, err, n)]))
                    if name in ('write', 'fsync', 'close') and err == ERRS[name][0]:
                        todo.append(dict(base, inject=['%s:error=%s:when=%d+' % (name, err, n)]))
                todo.append(dict(base, inject=['%s:signal=KILL:when=%d' % (name, n)]))
            if name in ('write', 'fsync', 'rename'):       # it fails, and the clean-up is cut off
                for other in ('close', 'unlink', 'unlinkat'):
                    todo.append(dict(base, inject=['%s:error=%s:when=%d' % (name, ERRS[name][0], ns[0]), '%s:signal=KILL:when=%d' % (other, seen.get(other, 0) + 1 if other != 'close' else count.get('close', [1])[0])]))
        lim = [0, 1, 100, 4095, 4096, 5000, size - 1, size]
        for v in sorted({x for x in lim if x <= size}):
            todo.append(dict(base, limit=v))
        if gi == 0:
            for e2 in ('none', 'old', 'neighbour', 'readonly', 'dir', 'missing'):
                todo += [dict(base, env=e2), dict(base, env=e2, rel=True)] if e2 != 'missing' else [dict(base, env=e2)]
            for name in ('write', 'fsync', 'rename', 'fchmod'):
                if name in count:
                    for e2 in ('old', 'dir'):
                        todo.append(dict(base, env=e2, inject=['%s:error=%s:when=%d' % (name, ERRS[name][0], count[name][0])]))
                    todo.append(dict(base, env='old', rel=True, inject=['%s:error=%s:when=%d' % (name, ERRS[name][0], count[name][-1])]))
        with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
            for c, (info, ev, d) in zip(todo, ex.map(runs.go, todo)):
                if info is None or ('inject' in c and not info[2] and ev[-1]['op'] == 'end' and all('error' in i for i in c['inject'])):
                    chk.cov['faults that did not occur'] = chk.cov.get('faults that did not occur', 0) + 1
                    continue
                cases.append((c, ev))
    evs = [e for c, e in cases]
    bad = [(i, len(e) - 1) for i, e in enumerate(evs) if e[-1]['op'] == 'crash']
    ok = [i for i, e in enumerate(evs) if e[-1]['op'] != 'crash']
    bad += [(ok[i], pos) for i, pos in chk.judge('PublishTrace', [evs[i] for i in ok])]
    for i, pos in bad[:6]:
        info, again, d = runs.go(cases[i][0])
        if info is None:
            continue
        b2 = [(0, len(again) - 1)] if again[-1]['op'] == 'crash' else chk.judge('PublishTrace', [again])
        if b2:
            c = {k: v for k, v in cases[i][0].items() if k not in ('g', 'opts')}
            chk.violation('with %s, event %d is not one of Publish: %s' % (json.dumps(c), b2[0][1], vlib.brief(again[b2[0][1]])),
                          {'case': cases[i][0], 'events': again, 'rejected': b2[0][1]})
    vlib.outcomes(chk, evs, ['begin', 'end', 'killed', 'sync', 'rename', 'open', 'write'])
    ends = {}
    for c, e in cases:
        k = '%s %s' % (e[-1].get('res', e[-1]['op']), e[-1].get('target'))
        ends[k] = ends.get(k, 0) + 1
    chk.cov['outcomes'] = ends
    chk.cov['faults injected'] = sum(1 for c, e in cases if 'inject' in c or 'limit' in c)
