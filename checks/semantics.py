import random

from checks import check
from checks.syntax import _write


def _logic(ctx, clauses):
    # The guarantees hold on every sentence of the specification up to three words (and on random ones up to seven, below) ...
    ctx.model_check('LogicMC', 'LogicMC%s_3' % ctx.prop)
    if ctx.thorough:
        ctx.model_check('LogicMC', 'LogicSimAll', timeout=3000, extra=('-simulate', 'num=100', '-depth', '7', '-seed', str(ctx.seed)))
    # ... and the real pipeline agrees with it on all two-word sentences, on sentences grown at random by TLC, and on generated ones
    behs = ctx.behaviours('LogicMC', 'LogicBeh')
    grown = ctx.behaviours('LogicMC', 'LogicSim', timeout=3000, extra=('-simulate', 'num=%d' % (100 if ctx.thorough else 5), '-depth', '7', '-seed', str(ctx.seed)))
    rng = random.Random(ctx.seed)
    grown = [b for b in grown if len(b['sent']) > 3]
    behs += rng.sample(grown, min(len(grown), 20000 if ctx.thorough else 600))
    ctx.notes['behaviours_replayed'] = len(behs)
    path, cases = ctx.drive('logic', timeout=3000, behaviours=_write(ctx, 'beh', behs))
    ctx.validate('LogicTrace', path, cases, clauses=clauses)


@check('C21')
def c21(ctx):
    _logic(ctx, {'exc', 'nodes', 'wiring', 'whole'})


@check('C22')
def c22(ctx):
    _logic(ctx, {'exc', 'canon', 'wiring', 'whole'})


@check('C23')
def c23(ctx):
    _logic(ctx, {'exc', 'args', 'wiring', 'whole'})


@check('C24')
def c24(ctx):
    _logic(ctx, {'exc', 'tuples', 'shape'})


@check('C25')
def c25(ctx):
    _logic(ctx, {'exc', 'negation', 'sign'})


@check('C26')
def c26(ctx):
    path, cases = ctx.drive('containers', timeout=600)
    ctx.validate('ContainersTrace', path, cases)
