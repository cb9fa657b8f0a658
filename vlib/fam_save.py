"""Family "save": Save.tla, SaveSteps.tla, SaveTrace.tla: saving the settings, interrupted anywhere."""

def consts():
    return {'Values': {0, 1, 2}, 'None': 0}


def model(ctx):
    ctx.background(ctx.modelcheck, 'SaveSteps', dict(consts(), MaxLen=99, Emit=False), ['InvComplete'], view='View', props=['Refines'])


def jobs(ctx, n, depth):
    hs = ctx.histories('SaveSteps', consts(), 'simulate', num=n, depth=depth, steps=6 * depth)
    ctx.rng.shuffle(hs)
    return [dict(seed=ctx.rng.randrange(1 << 30), ops=h) for h in hs[:n]]


def run(ctx, n, depth):
    model(ctx)
    ctx.judge('save', 'SaveTrace', jobs(ctx, n, depth), env=dict(VDRV_APP=ctx.app()), timeout=120)
