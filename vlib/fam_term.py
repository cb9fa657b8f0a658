"""Family "term": Terminal.tla, TerminalSteps.tla, TerminalTrace.tla: whose the terminal is, and that it is given back."""
CMDS = {'categories', 'configure', 'list', 'overview', 'details', 'update', 'gui'}
KEYS = {'Open', 'Down', 'Enter', 'Right', 'Lock', 'Interrupt', 'Wrong', 'Tab', 'q'}


def model(ctx):
    c = {'Cmds': {'categories', 'configure', 'list', 'update', 'gui'}, 'Keys': {'Open'}, 'Emit': False, 'MaxLen': 8 if ctx.quick else 9}
    ctx.background(ctx.modelcheck, 'TerminalSteps', c, ['TypeOK', 'InvBack', 'InvWaiting', 'InvRaw', 'InvPlaces'], props=['Refines'])


def jobs(ctx, n, cmds=CMDS, depth=9):
    hs = ctx.histories('TerminalSteps', {'Cmds': set(cmds), 'Keys': KEYS}, 'simulate', num=12 * n, depth=depth, steps=60, per=9)
    ctx.rng.shuffle(hs)
    # every kind of end of every command, in turn
    kinds = {}
    for h in hs:
        l = h[1:]
        ks = [x.get('k', x['a']) for x in l]
        hurt = 'Hurt' in ks and 'Open' in ks[ks.index('Hurt'):]  # what was damaged is read
        kinds.setdefault((h[0]['cmd'], h[0]['first'], h[0]['tiny'], l[-1]['a'] if l else '', l[-1].get('pw', '') if l else '',
                          hurt and 'Open' in ks[:ks.index('Hurt')], hurt, 'Open' in ks, any(x.get('tiny') for x in l)), []).append(h)
    hs, ks = [], sorted(kinds)
    while len(hs) < n and ks:
        for k in list(ks):
            hs.append(kinds[k].pop())
            if not kinds[k]:
                ks.remove(k)
    ctx.rng.shuffle(hs)
    return [dict(seed=ctx.rng.randrange(1 << 30), run=h[0], steps=h[1:]) for h in hs]


def run(ctx, n, cmds=CMDS):
    model(ctx)
    js = jobs(ctx, n, cmds)
    if 'gui' in cmds:
        js += jobs(ctx, n // 2, {'gui'}, 12)
    ctx.judge('term', 'TerminalTrace', js, env=dict(VDRV_APP=ctx.app()), timeout=120)
