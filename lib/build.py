"""Builds the code under check from /repo's current working tree, in a scratch directory.

Every check calls build(); nothing is taken from earlier builds.  The list of sources, the include
directories and the macros come from /repo/setup.py itself (it is executed with setup() and the judy
build stubbed out), so a source file that is added, renamed or split is picked up.
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/vp/venv/bin/python'

_PROBE = r'''
import json, sys, subprocess, os
import setuptools
out = {}
def fake_setup(**kw):
    e = kw['ext_modules'][0]
    out.update(sources=list(e.sources), include_dirs=list(e.include_dirs),
               macros=[list(m) for m in e.define_macros], extra=list(e.extra_compile_args),
               link=list(e.extra_link_args), objects=list(e.extra_objects),
               libs=list(e.libraries), libdirs=list(e.library_dirs), undef=list(e.undef_macros))
setuptools.setup = fake_setup
subprocess.getstatusoutput = lambda *a, **k: (0, 'gcc version 13')
sys.argv = ['setup.py', 'build_ext']
_p = print
import builtins
builtins.print = lambda *a, **k: None
exec(compile(open('setup.py').read(), 'setup.py', 'exec'), {'__name__': '__main__'})
import sysconfig
out['cflags'] = sysconfig.get_config_var('CFLAGS').split()
out['suffix'] = sysconfig.get_config_var('EXT_SUFFIX')
out['incpy'] = sysconfig.get_config_var('INCLUDEPY')
_p(json.dumps(out))
'''


class BuildError(Exception):
    pass


def _run(cmd, cwd, what, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                       stdin=subprocess.DEVNULL)
    if r.returncode:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd)[:300], r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout.decode(errors='replace')


def copy_tree(dst):
    """Copies /repo's working tree (tracked and untracked sources, no build output) to dst."""
    def ignore(d, names):
        rel = os.path.relpath(d, REPO)
        out = []
        for n in names:
            if n in ('.git', '_build', '__pycache__', 'build', 'dist') and rel == '.':
                out.append(n)
            elif n.endswith(('.o', '.a', '.so', '.pyc')):
                out.append(n)
            elif os.path.islink(os.path.join(d, n)) and 'judy' in rel:
                out.append(n)
        return out
    shutil.copytree(REPO, dst, ignore=ignore, symlinks=True)


class Build:
    """One scratch build: .repo (copy of the tree), .ext(kind) -> directory to put on PYTHONPATH."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.repo = os.path.join(scratch, 'repo')
        copy_tree(self.repo)
        env = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'LDFLAGS', 'CPPFLAGS', 'COPT', 'ARCHFLAGS')}
        env['CC'] = 'gcc'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        self.env = env
        o = _run([PY, '-c', _PROBE], self.repo, 'reading setup.py', env)
        self.info = json.loads(o.strip().splitlines()[-1])
        self._judy()

    def _judy(self):
        d = os.path.join(self.repo, 'judy-1.0.5/src')
        env = dict(self.env)
        env['COPT'] = '-DJU_64BIT -O0 -fPIC -fno-strict-aliasing -fno-aggressive-loop-optimizations'
        env['CC'] = 'gcc'
        _run(['sh', '-e', './sh_build'], d, 'judy build', env)
        self.judy = os.path.join(d, 'libJudy.a')

    def _flags(self, kind):
        if kind == 'asan':
            return ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']
        if kind == 'plain':
            return ['-O2', '-g']
        raise ValueError(kind)

    def _objects(self, kind, sources, tag, extra=(), cc='gcc'):
        i = self.info
        od = os.path.join(self.scratch, 'obj-%s-%s' % (kind, tag))
        os.makedirs(od, exist_ok=True)
        base = [cc] + ['-fwrapv', '-DNDEBUG', '-fPIC', '-w'] + self._flags(kind)
        base += ['-D%s' % m[0] if m[1] is None else '-D%s=%s' % (m[0], m[1]) for m in i['macros']]
        base += ['-U%s' % u for u in i['undef']]
        base += ['-I' + x for x in i['include_dirs']] + ['-I' + i['incpy']] + list(i['extra'])
        base += ['-I' + os.path.join(self.repo, 'judy-1.0.5/src')] + list(extra)
        jobs = []
        for s in sources:
            o = os.path.join(od, s.replace('/', '_').strip('.') + '.o')
            jobs.append((base + ['-c', s, '-o', o], o))
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: _run(j[0], self.repo, 'compile', self.env), jobs))
        return [j[1] for j in jobs]

    def ext(self, kind='asan'):
        i = self.info
        objs = self._objects(kind, i['sources'], 'ext')
        lib = os.path.join(self.scratch, 'lib-' + kind)
        os.makedirs(lib, exist_ok=True)
        extra_o = [o for o in i['objects']]
        link = ['gcc', '-shared'] + (['-fsanitize=address'] if kind == 'asan' else []) + objs + extra_o
        if not any('libJudy.a' in x for x in extra_o + i['link']):
            link += [self.judy]
        link += ['-L' + d for d in i['libdirs']] + list(i['link']) + ['-l' + x for x in i['libs'] if x != 'Judy']
        so = os.path.join(lib, 'pointless' + i['suffix'])
        _run(link + ['-o', so], self.repo, 'link', self.env)
        return lib

    def csources(self):
        return [s for s in self.info['sources'] if not s.startswith(('python/', './python/')) and 'pointless_ext' not in s]

    def cprog(self, name, harness_sources, kind='asan', extra=(), ldextra=(), all_src=True):
        """A C harness from /verif linked with the library sources of the tree."""
        srcs = sorted(os.path.relpath(p, self.repo) for p in glob.glob(os.path.join(self.repo, 'src/*.c'))) if all_src else self.csources()
        objs = self._objects(kind, srcs, 'c', extra=['-D_GNU_SOURCE', '-D_REENTRANT'])
        hobjs = self._objects(kind, harness_sources, 'h-' + name, extra=['-D_GNU_SOURCE'] + list(extra))
        out = os.path.join(self.scratch, name)
        _run(['gcc'] + (['-fsanitize=address'] if kind == 'asan' else []) + objs + hobjs + [self.judy] +
             list(ldextra) + ['-lpthread', '-ldl', '-lm', '-o', out], self.repo, 'link ' + name, self.env)
        return out


    def clib(self, name, harness_sources, kind='asan'):
        """The library sources and a harness from /verif as a shared library, for ctypes."""
        srcs = sorted(os.path.relpath(p, self.repo) for p in glob.glob(os.path.join(self.repo, 'src/*.c')))
        objs = self._objects(kind, srcs, 'cl', extra=['-D_GNU_SOURCE', '-D_REENTRANT'])
        hobjs = self._objects(kind, harness_sources, 'hl-' + name, extra=['-D_GNU_SOURCE'])
        out = os.path.join(self.scratch, name + '.so')
        _run(['gcc', '-shared'] + (['-fsanitize=address'] if kind == 'asan' else []) + objs + hobjs + [self.judy] +
             ['-lpthread', '-ldl', '-lm', '-o', out], self.repo, 'link ' + name, self.env)
        return out


def asan_env(extra=None):
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    e = {'LD_PRELOAD': os.path.realpath(lib),
         'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_segv=1:max_allocation_size_mb=4096',
         'PYTHONMALLOC': 'malloc'}
    e.update(extra or {})
    return e
