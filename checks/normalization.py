from checks import check


def _norm(ctx, mode):
    path, cases = ctx.drive('normalization', mode=mode)
    ctx.validate('NormalizationTrace', path, cases, env={'WORLDS': path + '.worlds'})


@check('C12')
def c12(ctx):
    _norm(ctx, 'standard')


@check('C13')
def c13(ctx):
    _norm(ctx, 'lemma')


@check('C14')
def c14(ctx):
    _norm(ctx, 'pp')
