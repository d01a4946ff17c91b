from .. import build, spec
from ..core import Prop, Sub, Violation


def setup_cli(tier):
    return {'cli': build.cli()}


def static_run(case, ctx, args=spec.STATIC, rc=(2,), write=True):
    """Evaluates a model at its start values; returns the parsed result."""
    d = ctx.fresh() if write else ctx.scratch()
    if write:
        spec.write_data(case, d)
    r = spec.fit(ctx, case['flavour'], spec.model_text(case), d, args)
    if r.rc not in rc:
        raise Violation('%s: exit status %d instead of %s\n%s' % (
            case['flavour'], r.rc, rc, r.err[-400:]))
    res = spec.Result(r.out)
    res.rc, res.err = r.rc, r.err
    if len(res.data) != len(case['sections']):
        raise Violation('%d sections in the data block, %d in the model'
                        % (len(res.data), len(case['sections'])))
    return res


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)
