"""Family "reach": Reach.tla, ReachSteps.tla, ReachTrace.tla: an update server that is slow or silent."""
CMDS = {'categories', 'configure', 'list', 'update', 'gui'}


def jobs(ctx, n, ts, budget, cmds=CMDS):
    c = {'Cmds': set(cmds), 'Ts': set(ts), 'Budget': budget}
    hs = ctx.histories('ReachSteps', c, 'simulate', num=12 * n, depth=1, steps=60)
    ctx.rng.shuffle(hs)
    # half of them fall silent somewhere
    silent = [h for h in hs if h[-1] != [0, 0] and any(p >= (h[0]['t2'] if h[0]['first'] and k > 1 else h[0]['t1']) for k, e in enumerate(h[1:-1], 1) for p in e)]
    rest = [h for h in hs if h not in silent]
    k = min(len(silent), (2 * n + 2) // 3)
    hs = silent[:k] + rest[:n - k]
    ctx.rng.shuffle(hs)
    return [dict(seed=ctx.rng.randrange(1 << 30), run=h[0], ex=h[1:-1]) for h in hs]


def run(ctx, n, far, cmds=CMDS):
    c = {'Cmds': set(CMDS), 'Ts': {1, 2, 3}, 'Budget': 3, 'Emit': False, 'MaxLen': 0}
    ctx.background(ctx.modelcheck, 'ReachSteps', c, ['InvIdle', 'InvOutcome', 'InvGaveUp'], props=['Ends'])
    js = jobs(ctx, far, {10, 17, 30}, 0, cmds) if far else []
    js += jobs(ctx, n, {1, 2, 3, 4, 5}, 7, cmds)
    ctx.judge('reach', 'ReachTrace', js, env=dict(VDRV_APP=ctx.app()), workers=32, timeout=180)
