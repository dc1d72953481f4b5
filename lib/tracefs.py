"""System calls of a process, recorded by strace, as the events of Publish.tla."""
import ctypes
import os
import re

CALLS = ('open openat openat2 creat write pwrite64 writev pwritev lseek fsync fdatasync ftruncate fallocate fchmod fchmodat chmod close rename renameat renameat2 link linkat '
         'unlink unlinkat dup dup2 dup3 fcntl fstat newfstatat stat lstat access faccessat faccessat2 mkdir rmdir symlink symlinkat copy_file_range sendfile statx').split()
MARK = '/vp-begin', '/vp-end'
_line = re.compile(r'^(\w+)\((.*)\)\s+= (-?\d+|\?)(.*)$')
_unf = re.compile(r'^(\w+)\((.*?)\s*<unfinished \.\.\.>\s*$')


def split(s):
    """Arguments of a call (strings are printed in quotes)."""
    out, cur, q, depth, i = [], '', False, 0, 0
    while i < len(s):
        ch = s[i]
        if q:
            if ch == '\\':
                cur += s[i:i + 2]
                i += 2
                continue
            q = ch != '"'
        elif ch == '"':
            q = True
        elif ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        elif ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
            i += 1
            continue
        cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(path):
    """[(name, args, result or None, injected, unfinished)], and indices of the marks."""
    calls, marks = [], [None, None]
    for line in open(path, errors='replace'):
        line = line.rstrip('\n')
        m = _line.match(line)
        if m:
            c = [m.group(1), split(m.group(2)), None if m.group(3) == '?' else int(m.group(3)), 'INJECTED' in m.group(4), m.group(3) == '?']
        else:
            m = _unf.match(line)
            if not m:
                continue
            c = [m.group(1), split(m.group(2)), None, False, True]
        if c[0] in ('access', 'faccessat', 'faccessat2'):
            for k in (0, 1):
                if any(MARK[k] in a for a in c[1]):
                    marks[k] = len(calls)
        calls.append(c)
    return calls, marks


def unq(s):
    m = re.match(r'^"((?:[^"\\]|\\.)*)"', s)
    return m.group(1) if m else None


class Names:
    def __init__(self, directory, target):
        self.d, self.t, self.m = directory, target, {}

    def of(self, path):
        """Name in the model of a path of the directory, None for any other."""
        if path is None or os.path.dirname(path) != self.d:
            return None
        return self.base(os.path.basename(path))

    def base(self, b):
        if b == os.path.basename(self.t):
            return 'T'
        return self.m.setdefault(b, 't%d' % (len(self.m) + 1))


def at(args, k, cwd):
    p = unq(args[k + 1])
    if p is not None and not p.startswith('/'):
        p = os.path.join(cwd, p)
    return p


def events(calls, names, cwd, listing):
    """Events of the calls; listing: names that exist afterwards, decides whether a call that was cut off took place."""
    ev, fds, pos = [], {}, {}

    def path(a):
        p = unq(a)
        return p if p is None or p.startswith('/') else os.path.join(cwd, p)

    def opened(p, fd, flags):
        if p == names.d:
            fds[fd] = 0
            ev.append({'op': 'opendir', 'fd': fd})
            return
        n = names.of(p)
        if n is None:
            return
        fds[fd] = n
        if 'O_RDWR' in flags or 'O_WRONLY' in flags:
            ev.append({'op': 'open', 'name': n, 'fd': fd, 'trunc': 'O_TRUNC' in flags})
        else:
            ev.append({'op': 'open', 'name': n, 'fd': fd, 'trunc': False})

    for name, a, res, inj, unf in calls:
        if name in ('openat', 'openat2') and len(a) > 2:
            p, fl = at(a, 0, cwd), ' '.join(a[2:])
            if unf:
                if names.of(p) and os.path.basename(p) in listing and 'O_CREAT' in fl and not any(e['op'] == 'open' and e['name'] == names.of(p) for e in ev):
                    opened(p, 999, fl)
            elif res is not None and res >= 0:
                opened(p, res, fl)
        elif name in ('open', 'creat') and res is not None and res >= 0:
            opened(path(a[0]), res, a[1] if name == 'open' else 'O_WRONLY O_TRUNC O_CREAT')
        elif name in ('rename', 'link') or name in ('renameat', 'renameat2', 'linkat'):
            x, y = (path(a[0]), path(a[1])) if name in ('rename', 'link') else (at(a, 0, cwd), at(a, 2, cwd))
            nx, ny = names.of(x), names.of(y)
            op = 'link' if 'link' in name else 'rename'
            done = res == 0 or (unf and y and os.path.basename(y) in listing and (op == 'link' or os.path.basename(x) not in listing))
            if done:
                if nx and ny:
                    ev.append({'op': op, 'a': nx, 'b': ny})
                elif nx and op == 'rename':
                    ev.append({'op': 'unlink', 'a': nx})
                elif ny:            # from elsewhere: nothing is known of it
                    ev.append({'op': 'open', 'name': ny, 'fd': 1000, 'trunc': True})
        elif name in ('unlink', 'unlinkat'):
            p = path(a[0]) if name == 'unlink' else at(a, 0, cwd)
            n = names.of(p)
            if n and (res == 0 or (unf and os.path.basename(p) not in listing)):
                ev.append({'op': 'unlink', 'a': n})
        elif not a or not a[0].isdigit():
            continue
        elif int(a[0]) in fds:
            fd = int(a[0])
            if name in ('write', 'writev') and res is not None and res > 0:
                ev.append({'op': 'write', 'fd': fd, 'n': res})
            elif name == 'pwrite64' and res is not None and res > 0:
                ev.append({'op': 'pwrite', 'fd': fd, 'n': res, 'at': int(a[3])})
            elif name == 'lseek' and res is not None and res >= 0:
                if pos.get(fd) != res or (ev and ev[-1]['op'] != 'seek'):
                    if ev and ev[-1]['op'] == 'seek' and ev[-1]['fd'] == fd:
                        ev.pop()
                    ev.append({'op': 'seek', 'fd': fd, 'at': res})
                pos[fd] = res
            elif name == 'ftruncate' and res == 0:
                ev.append({'op': 'trunc', 'fd': fd, 'n': int(a[1])})
            elif name in ('fsync', 'fdatasync') and res is not None:
                ev.append({'op': 'sync' if res == 0 else 'nosync', 'fd': fd})
            elif name == 'close':
                ev.append({'op': 'close', 'fd': fd})
                fds.pop(fd)
            elif name in ('dup', 'dup2', 'dup3') or (name == 'fcntl' and 'F_DUPFD' in a[1]):
                if res is not None and res >= 0:
                    fds[res] = fds[fd]       # shares the position; treated as the same descriptor
    return ev
