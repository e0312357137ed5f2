from checks import check


@check('C06')
def c06(ctx):
    path, cases = ctx.drive('ngrams', mode='extract')
    ctx.validate('NgramsTrace', path, cases)
    path, cases = ctx.drive('ngrams', mode='mle')
    ctx.validate('NgramsTrace', path, cases, {'raised', 'extraction', 'counts'})


@check('C07')
def c07(ctx):
    path, cases = ctx.drive('ngrams', mode='mle')
    ctx.validate('NgramsTrace', path, cases)


@check('C08')
def c08(ctx):
    path, cases = ctx.drive('ngrams', mode='mkn')
    ctx.validate('NgramsTrace', path, cases)
    ctx.notes['refused_corpora'] = sum('refused' in c for c in cases)


@check('C10')
def c10(ctx):
    path, cases = ctx.drive('langmodel', mode='lookup')
    ctx.validate('LangModelTrace', path, cases)
    path, cases = ctx.drive('langmodel', mode='context')
    ctx.validate('LangModelTrace', path, cases)


@check('C11')
def c11(ctx):
    path, cases = ctx.drive('langmodel', mode='context')
    ctx.validate('LangModelTrace', path, cases)


@check('C09')
def c09(ctx):
    path, cases = ctx.drive('builder', timeout=700)
    ctx.validate('BuilderTrace', path, cases)
