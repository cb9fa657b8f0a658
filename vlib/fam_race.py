"""Family "race": RaceReg.tla, SaveRace.tla, UpdateRace.tla, RaceTrace.tla: runs of the real program at the same time."""
MODULES = {'save': ('SaveRace', ['InvWhole', 'InvSaved']), 'update': ('UpdateRace', ['InvApp', 'InvSuccess'])}


def model(ctx, kind):
    m, inv = MODULES[kind]
    n = 3 if kind == 'save' or not ctx.quick else 2
    c = {'Runs': set(range(1, n + 1)), 'Private': True, 'Kills': True, 'Emit': False, 'MaxLen': 0}
    ctx.background(ctx.modelcheck, m, c, inv, props=['Refines'])


def jobs(ctx, kind, n, runs, kills):
    """Schedules: half of them would do damage if the files the runs work with were shared."""
    m, _ = MODULES[kind]
    c = {'Runs': set(range(1, runs + 1)), 'Private': False, 'Kills': kills}
    hs = ctx.histories(m, c, 'simulate', num=30 * n, depth=1, steps=14 * runs)
    ctx.rng.shuffle(hs)
    torn = [h for h in hs if h[-1]['torn']]
    rest = [h for h in hs if not h[-1]['torn']]
    k = min(len(torn), (2 * n + 2) // 3)
    hs = torn[:k] + rest[:n - k]
    ctx.log(kind, 'schedules:', k, 'dangerous with shared files,', len(hs) - k, 'others')
    return [dict(seed=ctx.rng.randrange(1 << 30), kind=kind, n=runs, sound=h[-1]['sound'], sched=h[:-1]) for h in hs]


def run(ctx, kind, n):
    model(ctx, kind)
    js = jobs(ctx, kind, n // 2, 2, False) + jobs(ctx, kind, n // 4, 2, True) + jobs(ctx, kind, n // 4, 3, True)
    ctx.judge('race', 'RaceTrace', js, env=dict(VDRV_APP=ctx.app()), timeout=180)
