"""Case evaluation, Hypothesis driving, crash isolation, evidence, replay."""
import collections
import faulthandler
import hashlib
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken for the case at hand."""


class Sub:
    """One generated check of a property.

    name      unique within the property
    strategy  () -> Hypothesis strategy of JSON-able cases
    evaluate  (case, ctx) -> dict(nontrivial=bool, classes=[str]) or Violation
    quick     number of cases of the quick tier (all workers together)
    thorough  number of cases of the thorough tier
    fixed     explicit cases evaluated before the generated ones
    isolate   evaluate every case in a process of its own
    listing   (worker, number, seed) -> cases, in place of the strategy

    An evaluation may stand for several ('count' of its result), and its
    Violation may name the smaller case which failed ('case').
    """

    def __init__(self, name, strategy, evaluate, quick, thorough, fixed=(),
                 isolate=False, workers=8, case_timeout=100, listing=None):
        self.name, self.strategy, self.evaluate = name, strategy, evaluate
        self.quick, self.thorough = quick, thorough
        self.fixed, self.isolate, self.workers = list(fixed), isolate, workers
        self.case_timeout = case_timeout
        self.listing = listing


class Prop:
    def __init__(self, id, subs, rule, technique, level_note, setup=None,
                 level='exploration', confirm='all', assumptions=()):
        self.id, self.subs, self.rule = id, subs, rule
        self.technique, self.level_note, self.level = technique, level_note, level
        self.setup, self.confirm = setup, confirm
        self.assumptions = list(assumptions)


class Ctx:
    """What an evaluation may use: built programs, libraries, scratch space."""

    def __init__(self, tier, built):
        self.tier = tier
        self.built = built
        self.tmp = None
        self.cache = {}

    def scratch(self):
        if self.tmp is None or not os.path.isdir(self.tmp):
            self.tmp = tempfile.mkdtemp(prefix='vf-')
        return self.tmp

    def fresh(self):
        """An empty scratch directory."""
        d = self.scratch()
        for f in os.listdir(d):
            q = os.path.join(d, f)
            if os.path.isdir(q) and not os.path.islink(q):
                shutil.rmtree(q, ignore_errors=True)
            else:
                os.unlink(q)
        return d

    def close(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


def jdump(x):
    return json.dumps(x, sort_keys=True)


def case_hash(case):
    return hashlib.sha1(jdump(case).encode()).hexdigest()[:16]


def derive(*parts):
    h = hashlib.sha256('/'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1


class _Stop(BaseException):
    pass


def guarded(sub, case, ctx):
    """An oracle that cannot interpret what it got has seen wrong output."""
    try:
        return sub.evaluate(case, ctx)
    except (Violation, OSError, MemoryError):
        raise
    except Exception:
        raise Violation('the result cannot be interpreted:\n'
                        + traceback.format_exc()[-1500:])


def eval_isolated(sub, case, ctx, timeout):
    """Evaluates a case in a forked child; crash and hang become violations."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setsid()
            ctx.tmp = None
            try:
                info = guarded(sub, case, ctx)
                out = {'ok': info or {}}
            except Violation as e:
                out = {'violation': str(e)}
            except BaseException:
                out = {'error': traceback.format_exc()}
            ctx.close()
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    import select
    data = b''
    end = time.time() + timeout
    hung = False
    while True:
        left = end - time.time()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hung = True
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Violation('no answer within %d s (endless loop?)' % timeout)
    if os.WIFSIGNALED(st):
        raise Violation('the code under test crashed: signal %d'
                        % os.WTERMSIG(st))
    try:
        out = json.loads(data.decode())
    except ValueError:
        raise Violation('the code under test ended the process, status %d'
                        % os.WEXITSTATUS(st))
    if 'violation' in out:
        raise Violation(out['violation'])
    if 'error' in out:
        raise RuntimeError(out['error'])
    return out['ok']


def worker(prop, sub, ctx, index, n, seed, state_file, out_file, isolate,
           shrink_s):
    """Runs n generated cases; writes a JSON report."""
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    import hypothesis
    faulthandler.enable(file=open(os.devnull, 'w'))
    rep = dict(evaluations=0, hashes=[], classes={}, samples=[],
               violation=None, error=None, done=False)
    hashes = set()
    classes = collections.Counter()
    st = dict(first=None, best=None, best_msg=None, size=None)
    fd = os.open(state_file, os.O_RDWR | os.O_CREAT | os.O_TRUNC)

    def one(case):
        text = jdump(case).encode()
        os.pwrite(fd, text, 0)
        os.ftruncate(fd, len(text))
        if isolate or sub.isolate:
            return eval_isolated(sub, case, ctx, sub.case_timeout)
        return guarded(sub, case, ctx)

    def body(case):
        if st['first'] is not None and time.time() - st['first'] > shrink_s:
            raise _Stop()
        try:
            info = one(case) or {}
        except Violation as e:
            case = getattr(e, 'case', case)
            size = len(jdump(case))
            if st['first'] is None:
                st['first'] = time.time()
            if st['size'] is None or size <= st['size']:
                st.update(best=case, best_msg=str(e), size=size)
            raise
        if st['first'] is None:
            rep['evaluations'] += info.get('count', 1)
            if info.get('nontrivial', True):
                h = case_hash(case)
                if h not in hashes:
                    hashes.add(h)
                    if len(rep['samples']) < 2:
                        rep['samples'].append(
                            {'sub': sub.name, 'case': info.get('sample', case)})
            for c in info.get('classes', ()):
                classes[c] += 1

    try:
        if index == 0:
            for case in sub.fixed:
                body(case)
        if sub.listing:
            for case in sub.listing(index, n, seed):
                body(case)
        elif n > 0:
            @hseed(seed)
            @settings(max_examples=n, database=None, deadline=None,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink),
                      verbosity=hypothesis.Verbosity.quiet)
            @given(sub.strategy())
            def test(case):
                body(case)
            test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException:
        if st['best'] is None:
            rep['error'] = traceback.format_exc()
    if st['best'] is not None:
        rep['violation'] = dict(case=st['best'], message=st['best_msg'],
                                sub=sub.name)
    rep['hashes'] = sorted(hashes)
    rep['classes'] = dict(classes)
    rep['done'] = True
    ctx.close()
    with open(out_file + '.tmp', 'w') as f:
        json.dump(rep, f)
    os.rename(out_file + '.tmp', out_file)
    os.close(fd)


class Runner:
    def __init__(self, prop, tier, seed, limit_s, scale=1.0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.limit_s, self.scale = limit_s, scale
        self.t0 = time.time()

    def build(self):
        built = {}
        if self.prop.setup:
            built = self.prop.setup(self.tier) or {}
        return built

    def run(self):
        prop = self.prop
        ctx = Ctx(self.tier, self.build())
        top = tempfile.mkdtemp(prefix='vfrun-')
        total = collections.Counter()
        classes = collections.Counter()
        samples = []
        hashes = set()
        per_sub = {}
        violation = None
        errors = []
        truncated = False
        t_build = time.time() - self.t0
        tasks = []
        for sub in prop.subs:
            n = sub.quick if self.tier == 'quick' else sub.thorough
            if n > 1:
                n = max(1, int(n * self.scale))
            k = max(1, min(sub.workers, n))
            for i in range(k):
                m = n // k + (1 if i < n % k else 0)
                tasks.append((sub, i, m))
        running = {}
        pending = list(tasks)
        isolate_again = []
        tid = 0
        try:
            while (pending or running or isolate_again) and not violation:
                while len(running) < 8 and (pending or isolate_again):
                    iso = False
                    if isolate_again:
                        sub, i, m = isolate_again.pop(0)
                        iso = True
                    else:
                        sub, i, m = pending.pop(0)
                    tid += 1
                    sf = os.path.join(top, 's%d' % tid)
                    of = os.path.join(top, 'o%d' % tid)
                    sys.stdout.flush()
                    sys.stderr.flush()
                    pid = os.fork()
                    if pid == 0:
                        code = 0
                        try:
                            os.setsid()
                            wt = os.path.join(top, 'w%d' % tid)
                            os.mkdir(wt)
                            tempfile.tempdir = wt
                            worker(prop, sub, ctx, i, m,
                                   derive(self.seed, prop.id, sub.name, i),
                                   sf, of, iso, 40)
                        except BaseException:
                            traceback.print_exc()
                            code = 4
                        os._exit(code)
                    running[pid] = (sub, i, m, sf, of, iso, tid)
                pid, st = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    time.sleep(0.02)
                    now = time.time()
                    if now - self.t0 > self.limit_s:
                        truncated = True
                        break
                    for q, (sub, i, m, sf, of, iso, k) in running.items():
                        lim = sub.case_timeout * (4 if iso else 1) + 20
                        if os.path.exists(sf) and \
                                now - os.path.getmtime(sf) > lim:
                            os.killpg(q, signal.SIGKILL)
                    continue
                if pid not in running:
                    continue
                sub, i, m, sf, of, iso, k = running.pop(pid)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                if os.path.exists(of):
                    with open(of) as f:
                        rep = json.load(f)
                    total['evaluations'] += rep['evaluations']
                    per_sub[sub.name] = per_sub.get(sub.name, 0) + rep['evaluations']
                    for h in rep['hashes']:
                        hashes.add((sub.name, h))
                    classes.update({'%s:%s' % (sub.name, c): v
                                    for c, v in rep['classes'].items()})
                    if rep['samples'] and sum(
                            s['sub'] == sub.name for s in samples) < 2:
                        samples.append(rep['samples'][-1])
                    if rep['error']:
                        errors.append('%s: %s' % (sub.name, rep['error']))
                    if rep['violation']:
                        v = self.confirm(sub, rep['violation'], ctx)
                        if v:
                            violation = v
                else:
                    # killed: find the case that did it, shrink in isolation
                    if iso or not os.path.exists(sf):
                        v = self.confirm_crash(sub, sf, ctx)
                        if v:
                            violation = v
                        else:
                            errors.append('%s: worker died, not reproduced'
                                          % sub.name)
                    else:
                        v = self.confirm_crash(sub, sf, ctx)
                        if v:
                            # try for a smaller case, but never lose this one
                            violation = v
                        else:
                            isolate_again.append((sub, i, m))
                shutil.rmtree(os.path.join(top, 'w%d' % k), ignore_errors=True)
        finally:
            for q in running:
                try:
                    os.killpg(q, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.waitpid(q, 0)
                except OSError:
                    pass
            ctx.close()
            shutil.rmtree(top, ignore_errors=True)
        return self.finish(violation, errors, truncated, total, hashes,
                           classes, samples, per_sub, t_build)

    def confirm(self, sub, v, ctx, times=3):
        n = 0
        msg = v['message']
        for _ in range(times):
            try:
                eval_isolated(sub, v['case'], ctx, sub.case_timeout * 2)
            except Violation as e:
                n += 1
                msg = str(e)
            except Exception:
                sys.stderr.write(traceback.format_exc())
        if n == times or self.prop.confirm == 'any':
            return dict(v, message=msg if n else v['message'])
        sys.stderr.write('[%s] unconfirmed (%d of %d): %s\n'
                         % (self.prop.id, n, times, v['message']))
        self.unconfirmed = getattr(self, 'unconfirmed', 0) + 1
        return None

    def confirm_crash(self, sub, sf, ctx):
        try:
            with open(sf) as f:
                case = json.load(f)
        except (OSError, ValueError):
            return None
        v = self.confirm(sub, dict(case=case, message='crash', sub=sub.name),
                         ctx)
        if not v or self.prop.confirm == 'any' and v['message'] == 'crash':
            return None
        return v

    def finish(self, violation, errors, truncated, total, hashes, classes,
               samples, per_sub, t_build):
        p = self.prop
        ev = dict(property=p.id, tier=self.tier, seed=self.seed, level=p.level,
                  coverage=dict(
                      evaluations=total['evaluations'],
                      distinct_nontrivial=len(hashes),
                      rule=p.rule,
                      samples=[_clip(s) for s in samples[:12]] or
                      [{'note': 'stopped at the first violation'}],
                      per_check=per_sub, classes=dict(sorted(classes.items())),
                      truncated_by_time=truncated,
                      unconfirmed_failures=getattr(self, 'unconfirmed', 0),
                      build_s=round(t_build, 1)),
                  assumptions=p.assumptions,
                  wall_s=round(time.time() - self.t0, 1),
                  violations=1 if violation else 0)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % p.id)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(d, p.id + '.json'))
        if violation:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s-%s.json' % (
                p.id, violation['sub'], case_hash(violation['case'])))
            with open(path, 'w') as f:
                json.dump(dict(property=p.id, sub=violation['sub'],
                               case=violation['case'],
                               message=violation['message']), f, indent=1)
            print(violation['message'][:3000])
            print('VIOLATION property=%s replay=%s' % (p.id, path))
            return 1
        if errors:
            for e in sorted(set(errors))[:3]:
                sys.stderr.write('ERROR %s\n' % e)
            return 2
        print('%s: held on %d cases (%d distinct non-trivial), %.1f s'
              % (p.id, total['evaluations'], len(hashes),
                 time.time() - self.t0))
        return 0


def _clip(x, depth=0):
    """A sample short enough to read."""
    if isinstance(x, dict):
        return {k: _clip(v, depth + 1) for k, v in list(x.items())[:24]}
    if isinstance(x, (list, tuple)):
        y = [_clip(v, depth + 1) for v in x[:12]]
        return y + ['... %d more' % (len(x) - 12)] if len(x) > 12 else y
    if isinstance(x, str) and len(x) > 600:
        return x[:600] + '... %d more' % (len(x) - 600)
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    return x


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--limit', type=float)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    mod = importlib.import_module('vf.props.' + a.property.lower())
    prop = mod.PROP
    if a.only:
        prop.subs = [s for s in prop.subs if s.name in a.only.split(',')]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        sub = next(s for s in prop.subs if s.name == r['sub'])
        ctx = Ctx(tier, prop.setup(tier) if prop.setup else {})
        try:
            eval_isolated(sub, r['case'], ctx, sub.case_timeout * 2)
        except Violation as e:
            print(str(e)[:3000])
            print('VIOLATION property=%s replay=%s' % (prop.id, a.replay))
            return 1
        print('%s: replay of %s holds' % (prop.id, a.replay))
        return 0
    limit = a.limit or (600 if tier == 'quick' else 840)
    return Runner(prop, tier, a.seed, limit, a.scale).run()

