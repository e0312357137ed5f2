from checks import check


@check('C20')
def c20(ctx):
    path, cases = ctx.drive('tree')
    ctx.validate('TreeTrace', path, cases)


def _write(ctx, name, rows):
    import json
    import os
    path = os.path.join(ctx.scratch, name + '.json')
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')
    return path


@check('C15')
def c15(ctx):
    # every sequence of predictions on short sentences: the transition system keeps its guarantees and ends
    ctx.model_check('ArcEagerMC', 'ArcEagerMC5' if ctx.thorough else 'ArcEagerMC')
    # ... and the real parser does the same on each of those behaviours
    behs = ctx.behaviours('ArcEagerMC', 'ArcEagerBeh')
    ctx.notes['behaviours_replayed'] = len(behs)
    path, cases = ctx.drive('parser', timeout=800, mode='behaviours', behaviours=_write(ctx, 'beh', behs))
    ctx.validate('ParserTrace', path, cases)
    path, cases = ctx.drive('parser', timeout=800, mode='random')
    ctx.validate('ParserTrace', path, cases)


@check('C16')
def c16(ctx):
    behs = ctx.behaviours('OracleMC', 'OracleMC6' if ctx.thorough else 'OracleMC')
    ctx.notes['projective_trees'] = len(behs)
    path, cases = ctx.drive('labelled', timeout=800, behaviours=_write(ctx, 'beh', behs))
    ctx.validate('LabelledTrace', path, cases)


@check('C17')
def c17(ctx):
    path, cases = ctx.drive('parser', timeout=800, mode='batches')
    ctx.validate('BatchTrace', path, cases)


@check('C18')
def c18(ctx):
    path, cases = ctx.drive('vectors')
    ctx.validate('VectorsTrace', path, cases)


@check('C19')
def c19(ctx):
    path, cases = ctx.drive('training')
    ctx.validate('TrainingTrace', path, cases)
