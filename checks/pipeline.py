from checks import check


def _system(ctx):
    # The pipeline as a system of workers, batches and ranges: every schedule gives every text its own document
    ctx.model_check('PipelineMC', 'PipelineMC4' if ctx.thorough else 'PipelineMC', timeout=3000)


@check('C27')
def c27(ctx):
    _system(ctx)
    path, cases = ctx.drive('pipeline', timeout=3000 if ctx.thorough else 800, mode='docs')
    ctx.validate('PipelineTrace', path, cases, timeout=3000)


@check('C28')
def c28(ctx):
    _system(ctx)
    path, cases = ctx.drive('pipeline', timeout=3000 if ctx.thorough else 800, mode='long')
    ctx.validate('PipelineTrace', path, cases, timeout=3000)


@check('C29')
def c29(ctx):
    _system(ctx)
    path, cases = ctx.drive('pipeline', timeout=3000 if ctx.thorough else 800, mode='par')
    ctx.validate('PurityTrace', path, cases, timeout=3000)
