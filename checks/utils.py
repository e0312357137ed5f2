import random

from checks import check
from checks.syntax import _write


@check('C31')
def c31(ctx):
    # every history of the specification up to five steps, and longer random ones
    behs = ctx.behaviours('TimerMC')
    ctx.notes['behaviours_replayed'] = len(behs)
    path, cases = ctx.drive('timer', timeout=600, behaviours=_write(ctx, 'beh', behs))
    ctx.validate('TimerTrace', path, cases)


@check('C32')
def c32(ctx):
    path, cases = ctx.drive('files', timeout=600)
    ctx.validate('FilesTrace', path, cases)


@check('C33')
def c33(ctx):
    path, cases = ctx.drive('helpers', timeout=600)
    ctx.validate('HelpersTrace', path, cases)
