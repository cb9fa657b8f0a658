"""Family "update": Update.tla, UpdateReg.tla, UpdateSteps.tla, UpdateTrace.tla: updates of the real application."""
INV = ['InvWhole', 'InvSuccess', 'InvClean', 'ENABLEDInstall']
STEPS = ['StepConsent', 'StepQuiet', 'Refines']


def model(ctx):
    ctx.background(ctx.modelcheck, 'UpdateSteps', {'Blobs': {1} if ctx.quick else {1, 2, 3}, 'MaxLen': 99, 'Emit': False, 'Weigh': False, 'Only': 'all'}, INV, view='View', props=STEPS)


def jobs(ctx, n, depth, only='all'):
    hs = ctx.histories('UpdateSteps', {'Blobs': {1, 2}, 'Weigh': True, 'Only': only}, 'simulate', num=n, depth=depth, steps=20 * depth)
    ctx.rng.shuffle(hs)
    return [dict(seed=ctx.rng.randrange(1 << 30), ops=h) for h in hs[:n]]


def run(ctx, n, depth):
    model(ctx)
    ctx.judge('update', 'UpdateTrace', jobs(ctx, n, depth), env=dict(VDRV_APP=ctx.app()), timeout=180)


def refused(ctx, n, depth):
    """Answers that are not yes to the question of a sound, newer release."""
    js = jobs(ctx, n, depth, 'refused')
    js = [dict(j, seed=ctx.rng.randrange(1 << 30)) for j in (js * n)[:n]]
    ctx.judge('update', 'UpdateTrace', js, env=dict(VDRV_APP=ctx.app()), timeout=180)
