"""Family "session": Session.tla, SessionMC.tla, SessionTrace.tla."""

INV = ['InvPassword', 'InvLocked', 'InvShown', 'InvAltered', 'InvQueries']
ALL = {'Add', 'Del', 'Edit', 'Trash', 'Rekey', 'Tamperk', 'Tampero', 'Tamperd', 'Profm', 'Profo', 'Repair'}
TZS = [('UTC', 0), ('Etc/GMT-9', 9 * 3600), ('Etc/GMT+5', -5 * 3600), ('Asia/Kolkata', 19800)]


def tzc(off):
    return dict(TzEast=max(off, 0), TzWest=max(-off, 0))


def model(ctx, changes=None, maxchanges=1):
    ctx.background(ctx.modelcheck, 'SessionMC', dict(TzEast=0, TzWest=0, Vaults={'v1', 'v2'}, MaxChanges=maxchanges, MaxLen=99, Emit=False, Weigh=False, ChangeNames=changes or ALL),
                   INV, view='View')


def jobs(ctx, n, depth, changes, maxchanges, opts, cover=0, autoquery=True):
    c = dict(TzEast=0, TzWest=0, Vaults={'v1', 'v2'}, MaxChanges=maxchanges, ChangeNames=changes)
    hs = ctx.histories('SessionMC', dict(c, Weigh=True), 'simulate', num=n, depth=depth, steps=2 * depth + 4)
    if cover:
        cv = ctx.histories('SessionMC', dict(c, Weigh=False, MaxChanges=min(1, maxchanges)), 'cover', depth=99, view='View')
        ctx.rng.shuffle(cv)
        hs += cv[:cover]
    out = []
    for h in hs:
        ops = []
        for o in h:
            ops.append(o)
            if autoquery and o['a'] in ('Unlock', 'Lock'):
                ops.append({'a': 'Query'})
            if o['a'] in ('Add', 'Edit', 'Del') and ctx.rng.random() < .2:
                ops.append({'a': 'Move', 'v': o['v']})
        out.append(dict(opts, seed=ctx.rng.randrange(1 << 30), ops=ops))
    return out


def run(ctx, n, depth, changes=ALL, maxchanges=3, opts=None, cover=0, tzs=1, mc=True):
    if mc:
        model(ctx, maxchanges=1 if ctx.quick else 2)
    js = jobs(ctx, n, depth, changes, maxchanges, opts or {}, cover)
    k = max(1, tzs)
    for t in range(k):
        tz, off = TZS[t]
        part = js[t::k]
        if part:
            ctx.judge('session', 'SessionTrace', part, constants=tzc(off), env=dict(TZ=tz))


def shapes(ctx, n, opts, tzs=1):
    """Histories of one unlock on many different vaults."""
    js = [dict(opts, seed=ctx.rng.randrange(1 << 30),
               ops=[{'a': 'Validate', 'v': 'v1'}, {'a': 'Unlock', 'pw': 'right'}, {'a': 'Query'}]) for _ in range(n)]
    for t in range(tzs):
        tz, off = TZS[t]
        part = js[t::tzs]
        if part:
            ctx.judge('session', 'SessionTrace', part, constants=tzc(off), env=dict(TZ=tz))
