from checks import check


@check('C30')
def c30(ctx):
    # every interleaving of the design, every set of failing items: the design refines what callers rely on
    ctx.model_check('ParMapThreads', 'ParMapThreads5' if ctx.thorough else None)
    # behaviours of the design, replayed into the real code
    behs = ctx.behaviours('ParMapBeh', extra=['-seed', str(ctx.seed)])
    seen, uniq = set(), []
    for b in behs:
        k = (b['n'], b['k'], tuple(b['order']), tuple(b['fail']))
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    ctx.notes['behaviours_generated'] = len(uniq)
    step = max(1, len(uniq) // (2000 if ctx.thorough else 250))
    path, cases = ctx.drive('parmap', timeout=800, behaviours=uniq[::step])
    ctx.validate('ParMapTrace', path, cases)
