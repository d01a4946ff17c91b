"""Builds what the checks need from /repo's current working tree.

Every build lives in /verif/build/<kind>-<hash>, where the hash covers the
content of every file of /repo that can influence it and of the wrapper sources
in /verif: a build is reused only for exactly the same sources.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
FLAVOURS = ['azafran', 'curcuma', 'oregano', 'mascada']
TOOLS = ['ecom', 'edat', 'elog', 'emod', 'emes', 'ezip']
UTILS = ['airtovac', 'helicorr', 'vactoair']
NPAR = {'azafran': 8, 'curcuma': 6, 'oregano': 7, 'mascada': 7}


class BuildError(Exception):
    pass


def _files(extra=()):
    out = [os.path.join(REPO, 'CMakeLists.txt')]
    for top in ('src/main', 'src/test/resources'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out) + sorted(extra)


def source_hash(extra=()):
    h = hashlib.sha256()
    for f in _files(extra):
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fd:
                h.update(hashlib.sha256(fd.read()).digest())
            h.update(b'x' if os.access(f, os.X_OK) else b'-')
        except OSError:
            h.update(b'missing')
    return h.hexdigest()[:20]


def _run(cmd, cwd=None, env=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def _env():
    e = {k: v for k, v in os.environ.items()
         if k not in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS')}
    e['CC'], e['CXX'] = 'gcc', 'g++'
    return e


def _guarded(kind, key, make):
    """Calls make(tmpdir) once for the key; returns the finished directory."""
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, '%s-%s' % (kind, key))
    with open(os.path.join(BUILD, '.lock-' + kind), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, '.done')):
            os.utime(final)
            return final
        shutil.rmtree(final, ignore_errors=True)
        # keep at most three older builds of the kind
        old = sorted((d for d in glob.glob(os.path.join(BUILD, kind + '-*'))
                      if os.path.basename(d)[len(kind) + 1:].isalnum()),
                     key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(final)
        t = time.time()
        make(final)
        open(os.path.join(final, '.done'), 'w').close()
        sys.stderr.write('[build] %s in %.1f s\n' % (kind, time.time() - t))
    return final


SAN = {
    'cli': ('Release', ''),
    'cliasan': ('None', '-O1 -g1 -fsanitize=address,undefined '
                '-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'),
    'clitsan': ('None', '-O1 -g1 -fsanitize=thread'),
}


def cli(kind='cli'):
    """The programs, built by the project's own build files out of tree."""
    btype, flags = SAN[kind]

    def make(d):
        env = _env()
        cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja',
               '-DCMAKE_BUILD_TYPE=' + btype]
        if flags:
            cmd += ['-DCMAKE_CXX_FLAGS=' + flags,
                    '-DCMAKE_EXE_LINKER_FLAGS=' + flags]
        _run(cmd, env=env)
        targets = FLAVOURS + TOOLS + UTILS
        _run(['ninja', '-C', d, '-j', '8'] + targets, env=env)
        for f in ('erun', 'foreach'):
            shutil.copy(os.path.join(REPO, 'src/main/scripts', f),
                        os.path.join(d, f))
            os.chmod(os.path.join(d, f), 0o755)
        # object files are not needed any more
        shutil.rmtree(os.path.join(d, 'CMakeFiles'), ignore_errors=True)
    return _guarded(kind, source_hash(), make)


def native(name, sources=(), flags=('-O2',)):
    """A shared library with C entry points: native/<name>.cc + core files."""
    wrapper = os.path.join(VERIF, 'native', name + '.cc')
    common = os.path.join(VERIF, 'native', 'common.h')
    core = os.path.join(REPO, 'src/main/cxx/core')
    extra = [wrapper] + ([common] if os.path.exists(common) else [])
    cfg = cli()

    def make(d):
        srcs = [wrapper] + sorted(glob.glob(os.path.join(core, '*.cxx')))
        objs, procs = [], []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + '.o')
            objs.append(o)
            procs.append((s, subprocess.Popen(
                ['g++', '-std=c++11', '-fPIC', *flags, '-I', core, '-I', cfg,
                 '-I', os.path.join(VERIF, 'native'), '-c', s, '-o', o],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise BuildError('compiling %s:\n%s' % (s, out[-4000:]))
        _run(['g++', '-shared', *flags, '-o', os.path.join(d, 'lib.so')] + objs
             + ['-llapack', '-lblas', '-lpthread'])
        for o in objs:
            os.unlink(o)
    d = _guarded('native_' + name, source_hash(extra), make)
    return os.path.join(d, 'lib.so')


def fuzzer(name):
    """A libFuzzer program: native/<name>.cc + core files, instrumented."""
    wrapper = os.path.join(VERIF, 'native', name + '.cc')
    core = os.path.join(REPO, 'src/main/cxx/core')
    cfg = cli()

    def make(d):
        flags = ['-std=c++11', '-O1', '-g1', '-w',
                 '-fsanitize=fuzzer,address,undefined',
                 '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
        objs, procs = [], []
        for s in [wrapper] + sorted(glob.glob(os.path.join(core, '*.cxx'))):
            o = os.path.join(d, os.path.basename(s) + '.o')
            objs.append(o)
            procs.append((s, subprocess.Popen(
                ['clang++', *flags, '-I', core, '-I', cfg, '-c', s, '-o', o],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise BuildError('compiling %s:\n%s' % (s, out[-4000:]))
        _run(['clang++', *flags, '-o', os.path.join(d, 'fuzz')] + objs
             + ['-llapack', '-lblas', '-lpthread'])
        for o in objs:
            os.unlink(o)
    d = _guarded('fuzz_' + name, source_hash([wrapper]), make)
    return os.path.join(d, 'fuzz')


def preload(name):
    """A preloadable library: native/<name>.c, independent of /repo."""
    src = os.path.join(VERIF, 'native', name + '.c')
    with open(src, 'rb') as f:
        key = hashlib.sha256(f.read()).hexdigest()[:20]

    def make(d):
        _run(['gcc', '-O2', '-shared', '-fPIC', '-o',
              os.path.join(d, 'lib.so'), src, '-ldl', '-lpthread'])
    return os.path.join(_guarded('preload_' + name, key, make), 'lib.so')


if __name__ == '__main__':
    for k in sys.argv[1:] or ['cli']:
        print(cli(k) if k in SAN else native(k))
