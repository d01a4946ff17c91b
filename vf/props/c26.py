import os
import shutil
import stat
import subprocess

from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub, Violation
from .common import need, setup_cli

NOBODY = 65534
NAMES = ['a.dat', 'b', 'two words.txt', ' lead', 'trail ', 'a.b.c', 'x*y',
         '[ab]', "it's", 'say "hi"', 'semi;colon', '$HOME', 'back\\slash',
         'new\nline', 'tab\there', '#hash', '~', 'sub/inner.dat',
         'sub dir/deep file', 'sub/*.dat', 'a', 'ab', '0', 'q?', '&amp', 'c.bak',
         '(paren)', 'under_score', 'UPPER', 'ünïcode']
FAULTS = ['none', 'before', 'partial', 'after', 'nothing', 'signal',
          'kill parent before', 'kill parent partial', 'kill parent after',
          'cp', 'cp partial', 'mv', 'rm', 'cp kill', 'mv kill', 'mv kill after',
          'missing', 'no command']

COMMAND = '''#!/bin/sh
# transforms a file; misbehaves for the k-th call
echo x >> "$LOG"
n=$(wc -l < "$LOG")
conv() { tr a-z n-za-m < "$1"; echo end; }
if [ "$n" -eq "$FAULT_AT" ]; then
  case "$FAULT" in
    before|partial|after|nothing|signal|"kill parent"*) : > "$LOG.hit";;
  esac
  case "$FAULT" in
    before) exit 3;;
    partial) conv "$1" | head -c 3 > "$2"; exit 3;;
    after) conv "$1" > "$2"; exit 1;;
    nothing) exit 0;;
    signal) kill -9 $$;;
    "kill parent before") kill -9 $PPID; exit 0;;
    "kill parent partial") conv "$1" | head -c 3 > "$2"; kill -9 $PPID; exit 0;;
    "kill parent after") conv "$1" > "$2"; kill -9 $PPID; exit 0;;
  esac
fi
conv "$1" > "$2"
'''
SHIM = '''#!/bin/sh
# stands in for %(tool)s; misbehaves in the k-th call
echo x >> "$LOG.%(tool)s"
n=$(wc -l < "$LOG.%(tool)s")
if [ "$n" -eq "$FAULT_AT" ]; then
  case "$FAULT" in "%(tool)s"*) : > "$LOG.hit";; esac
  case "$FAULT" in
    "%(tool)s") exit 1;;
    "%(tool)s partial") for f; do t="$f"; done; printf xyz > "$t"; exit 1;;
    "%(tool)s kill") kill -9 $PPID; exit 1;;
    "%(tool)s kill after") %(real)s "$@"; kill -9 $PPID; exit 1;;
  esac
fi
exec %(real)s "$@"
'''


def content(seed, i):
    return (b'file %d of %d\nlorem ipsum dolor\n' % (i, seed)
            + bytes((seed * 7 + i * 13 + k * k) % 26 + 97
                    for k in range(seed % 50)))


def converted(b):
    t = bytes.maketrans(b'abcdefghijklmnopqrstuvwxyz',
                        b'nopqrstuvwxyzabcdefghijklm')
    return b.translate(t) + b'end\n'


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6,
                          unique=True))
    k = draw(st.integers(1, len(names)))
    # bystanders, also ones that look like working files of others
    others = draw(st.lists(st.sampled_from(NAMES).flatmap(
        lambda f: st.sampled_from([f, f, f + '.backup', f + '.target', f + '~',
                                   'x' + os.path.basename(f) + '.backup'])),
        max_size=5, unique=True))
    mine = {f + e for f in names for e in ('.backup', '.target')}
    others = [o for o in others if o not in mine]
    return dict(files=names, others=[o for o in others if o not in names],
                seed=draw(st.integers(0, 999)), at=k,
                fault=draw(st.sampled_from(FAULTS)),
                words=draw(st.booleans()), absolute=draw(st.booleans()))


def snapshot(d):
    out = {}
    for top, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(top, f)
            with open(p, 'rb') as fd:
                out[os.path.relpath(p, d)] = fd.read()
    return out


def as_nobody():
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


def ev(case, ctx):
    top = ctx.fresh()
    os.chmod(top, 0o755)
    p = os.path.dirname(top)
    d, tools = os.path.join(top, 'work'), os.path.join(top, 'tools')
    os.mkdir(d)
    os.mkdir(tools)
    for f, t in (('cmd', COMMAND),):
        with open(os.path.join(tools, f), 'w') as fd:
            fd.write(t)
    for t in ('cp', 'mv', 'rm'):
        with open(os.path.join(tools, t), 'w') as fd:
            fd.write(SHIM % dict(tool=t, real=shutil.which(t)))
    shutil.copy(os.path.join(ctx.built['cli'], 'foreach'),
                os.path.join(tools, 'foreach'))
    for f in os.listdir(tools):
        os.chmod(os.path.join(tools, f), 0o755)
    orig, fault, at = {}, case['fault'], case['at']
    for i, f in enumerate(case['files'] + case['others']):
        q = os.path.join(d, f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if fault == 'missing' and i == at - 1:
            continue
        with open(q, 'wb') as fd:
            orig[f] = content(case['seed'], i)
            fd.write(orig[f])
    before = snapshot(d)
    for q, ds, fs in os.walk(top):
        for f in ds + fs:
            os.chown(os.path.join(q, f), NOBODY, NOBODY)
    os.chown(top, NOBODY, NOBODY)
    log = os.path.join(top, 'log')
    env = dict(PATH=tools + ':/usr/bin:/bin', LOG=log, FAULT=fault,
               FAULT_AT=str(at), HOME=top, LC_ALL='C')
    cmd = 'sh %s/cmd' % tools if case['words'] else tools + '/cmd'
    if fault == 'no command':
        cmd = tools + '/none'
    args = [os.path.join(d, f) if case['absolute'] else f
            for f in case['files']]
    # the directories above are only searchable by root
    opened = []
    while p not in ('/', '/tmp'):
        m = stat.S_IMODE(os.stat(p).st_mode)
        if not m & 1:
            opened.append((p, m))
            os.chmod(p, m | 0o011)
        p = os.path.dirname(p)
    try:
        r = subprocess.run(['sh', os.path.join(tools, 'foreach'), cmd] + args,
                           cwd=d, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           preexec_fn=as_nobody, timeout=60)
    except subprocess.TimeoutExpired:
        raise Violation('foreach does not end')
    calls = 0
    if os.path.exists(log):
        with open(log) as fd:
            calls = len(fd.readlines())
    now = snapshot(d)
    n = len(case['files'])
    if fault not in ('none', 'missing', 'no command') and \
            not os.path.exists(log + '.hit'):
        fault = 'none'      # this call was not made
    if fault == 'none':
        need(r.returncode == 0, 'foreach: exit status %d although every '
             'command succeeds: %s', r.returncode, r.stderr[-300:])
        need(set(now) == set(before), 'files left behind or lost: %r',
             sorted(set(now) ^ set(before)))
        for f in case['files']:
            need(now[f] == converted(orig[f]),
                 'file %r was not replaced by the output of the command', f)
        need(calls == n, 'the command ran %d times for %d files', calls, n)
    else:
        need(r.returncode != 0, 'foreach reports success although a step '
             'failed (%s at file %d of %d)', fault, at, n)
        if fault not in ('rm',) and 'cp' not in fault:
            need(calls <= at or fault.startswith('mv'),
                 'foreach went on after the failure: %d calls', calls)
        done = all(now.get(f) == converted(orig[f]) for f in case['files']
                   if f in orig)
        for i, f in enumerate(case['files']):
            if f not in orig:
                continue
            have = now.get(f) == orig[f] or now.get(f + '.backup') == orig[f]
            need(have or fault == 'rm' and done,
                 'the original content of file %r is lost after %r at file %d '
                 'of %d', f, fault, at, n)
            if i >= at and fault != 'rm':
                need(now.get(f) == orig[f], 'file %r after the failure was '
                     'changed', f)
    # nothing else is touched
    for f in case['others']:
        need(now.get(f) == orig[f], 'foreach changed %r, which is not one of '
             'its files', f)
    allowed = set(before) | {f + e for f in case['files']
                             for e in ('.backup', '.target')}
    need(set(now) <= allowed, 'foreach left files %r',
         sorted(set(now) - allowed))
    if fault == 'missing':
        need(case['files'][at - 1] not in now, 'a missing file was created')
    return dict(nontrivial=fault != 'none' or n > 1,
                classes=[fault, 'n=%d' % n])


PROP = Prop(
    'C26',
    [Sub('faults', cases, ev, 1200, 16000,
         fixed=[dict(files=['a.dat', 'two words.txt', 'sub/inner.dat'],
                     others=['b'], seed=3, at=k, fault=f, words=False,
                     absolute=False) for f in FAULTS for k in (1, 2, 3)])],
    rule='Every fault kind at every one of three files (fixed cases), and '
    'Hypothesis draws of one to six file names (spaces, quotes, wildcards, '
    'newlines, directories), bystander files (also with the suffixes .backup '
    'and .target), a fault kind and the call at '
    'which it strikes: the command fails before, during or after writing, '
    'writes nothing, is killed, the script itself is killed before, during or '
    'after the command, or cp, mv or rm fail, write partially, or the script '
    'is killed in them. Contents of the whole directory before and after are '
    'compared. Non-trivial: a fault, or more than one file.',
    technique='property-based fault injection (generated file lists and crash '
    'points) with a file content oracle',
    level_note='Runs as an unprivileged user in a scratch directory; cp, mv, '
    'rm are replaced by shims that can fail. Names <file>.backup and '
    '<file>.target are taken to be unused before, and the files of a list to '
    'be distinct. When only the final removal of backups fails, all files '
    'carry their new content.',
    setup=setup_cli)
