"""Family "hurt": Intact.tla, IntactSteps.tla, IntactTrace.tla: vaults whose files are damaged."""
CMDS = {'list', 'overview', 'details', 'gui'}
BANDS = {'b1', 'b2', 'b3'}
KINDS = {'profile': ['short', 'cut', 'hole', 'null', 'shape', 'type', 'missing', 'mode', 'dir', 'gone', 'link'],
         'band': ['short', 'cut', 'hole', 'null', 'shape', 'type', 'missing', 'entry', 'mode', 'dir', 'link']}


def model(ctx):
    c = {'Cmds': {'list', 'gui'}, 'Bands': {'b1', 'b2'} if ctx.quick else BANDS, 'Emit': False, 'MaxLen': 99999}
    ctx.background(ctx.modelcheck, 'IntactSteps', c, ['InvFits', 'InvWhole', 'InvRefused', 'InvOpen'], view='View')


def jobs(ctx, n, depth=9, odd=False):
    hs = ctx.histories('IntactSteps', {'Cmds': CMDS, 'Bands': BANDS}, 'simulate', num=6 * n, depth=depth, steps=4 * depth)
    ctx.rng.shuffle(hs)
    # those in which something is entered while something is hurt, and others
    def score(h):
        hurt, pts, on = set(), 0, False
        for x in h[1:]:
            a = x['a']
            if a == 'Hurt':
                hurt.add(x['f'])
            elif a == 'Mend':
                hurt.discard(x['f'])
            elif a == 'Enter':
                pts += 3 if x['right'] and hurt else 2 if x['right'] else 1
            elif a == 'Start':
                pts += 1
        return pts + ctx.rng.random()
    hs.sort(key=score, reverse=True)
    if odd:  # the terminal interface shows all items, one after another
        hs.sort(key=lambda h: (score(h) + ctx.rng.random()) * (1.2 if h[0] == 'gui' else 1), reverse=True)
    hs = hs[:n]
    deck = {k: [] for k in KINDS}
    for h in hs:
        for x in h[1:]:
            if x['a'] == 'Hurt':
                k = 'profile' if x['f'] == 'profile' else 'band'
                if not deck[k]:
                    deck[k] = list(KINDS[k])
                    ctx.rng.shuffle(deck[k])
                x['how'] = deck[k].pop()
    ctx.rng.shuffle(hs)
    return [dict(seed=ctx.rng.randrange(1 << 30), cmd=h[0], odd=odd, ops=h[1:]) for h in hs]


def run(ctx, n, depth=9, odd=False):
    model(ctx)
    ctx.judge('hurt', 'IntactTrace', jobs(ctx, n, depth, odd), env=dict(VDRV_APP=ctx.app()), timeout=120)
