from checks import check
from vlib.core import _known_findings


def _known(ctx):
    return [e['key'] for e in _known_findings(ctx.prop)]


@check('C01')
def c01(ctx):
    path, cases = ctx.drive('tokenizer', known=_known(ctx))
    ctx.validate('TokenizerTrace', path, cases, {'raised', 'wellformed', 'conserved'})


@check('C02')
def c02(ctx):
    path, cases = ctx.drive('tokenizer')
    ctx.validate('TokenizerTrace', path, cases)


@check('C03')
def c03(ctx):
    path, cases = ctx.drive('sentencizer', known=_known(ctx))
    ctx.validate('SentencizerTrace', path, cases, {'raised', 'conserved', 'quotes', 'brackets'})


@check('C04')
def c04(ctx):
    path, cases = ctx.drive('sentencizer')
    ctx.validate('SentencizerTrace', path, cases)


@check('C05')
def c05(ctx):
    path, cases = ctx.drive('purity', timeout=1500 if ctx.thorough else 600)
    ctx.validate('PurityTrace', path, cases)
