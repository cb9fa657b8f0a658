"""Family "gui": Gui.tla, GuiMC.tla, GuiTrace.tla: keys typed into the real terminal interface."""
from .fam_session import tzc, TZS

INV = ['InvSecrets', 'InvNothing', 'InvLocked', 'InvMark', 'InvCount']
STEPS = ['StepOpen', 'StepSess']


def consts(many=False, scroll=2):
    return dict(TzEast=0, TzWest=0, MaxScroll=scroll, Many=many)


def model(ctx):
    ctx.background(ctx.modelcheck, 'GuiMC', dict(consts(not ctx.quick, 1 if ctx.quick else 6), MaxLen=99, Emit=False, Weigh=False), INV, view='View',
                   extra='CONSTRAINT Small\n', props=STEPS)


def jobs(ctx, n, depth, opts=None):
    hs = ctx.histories('GuiMC', dict(consts(True, 99), Weigh=True), 'simulate', num=n, depth=depth, steps=2 * depth + 1)
    ctx.rng.shuffle(hs)
    hs = [pastes(ctx, h) for h in hs]
    return [dict(opts or {}, seed=ctx.rng.randrange(1 << 30), ops=bursts(ctx, h, 2 * depth) if k % 3 == 0 else resizes(ctx, h) if k % 6 == 1 else lastrow(ctx, h) if k % 6 in (2, 4) else h)
            for k, h in enumerate(hs[:n])]


def pastes(ctx, h):
    """Now and then the password and Enter come at once (Paste in Gui)."""
    out = []
    for o in h:
        if out and out[-1].get('a') == 'Type' and o.get('k') == 'Enter' and ctx.rng.random() < .25:
            out[-1] = dict(out[-1], a='Paste')
        else:
            out.append(o)
    return out


def lastrow(ctx, h):
    """Goes to the last rows, mostly the trash, and uncovers and covers what is there."""
    key = lambda *l: [{'a': 'Key', 'k': x} for x in l]
    at = [k + 1 for k in range(1, len(h)) if h[k - 1] == {'a': 'Type', 'pw': 'right'} and h[k].get('k') == 'Enter']
    if not at:
        return h
    c = ctx.rng.choice
    see = []
    for _ in range(c([1, 2, 3])):
        see += key('Tab', *c([[], ['Down'], ['Down', 'Right'], ['Down', 'Down', 'Down', 'Right', 'Left']]), 'Tab', c(['Down', 'Down', 'Up', 'Tab']))
    go = key(*['Down'] * c([8, 25]), *c([[], [], ['Up']]), 'Right') + see + key('Lock')
    return h[:at[0]] + go + h[at[0] - 2:]  # opened again: as before


def resizes(ctx, h):
    """The terminal changes its size now and then."""
    out = list(h)
    for how in ctx.rng.choice([['back'], ['back', 'back'], ['back', 'stay'], ['stay'], ['stay', 'stay']]):
        out.insert(ctx.rng.randrange(len(out) + 1), {'a': 'Resize', 'how': how})
    return out


def bursts(ctx, h, limit):
    """Holds movement keys down: far into long lists and texts."""
    out = []
    for o in h:
        k = 1
        if o.get('k') in ('Down', 'Up', 'Left', 'Right') and ctx.rng.random() < .3:
            k = ctx.rng.choice([2, 3, 5, 8, 10, 12, 16, 25])
        out += [o] * k
    return out[:limit]


def judge(ctx, js, tz=0):
    name, off = TZS[tz]
    ctx.judge('gui', 'GuiTrace', js, constants=tzc(off), env=dict(TZ=name, VDRV_APP=ctx.app()), workers=14, timeout=120)


def run(ctx, n, depth, tzs=1, **kw):
    model(ctx)
    js = jobs(ctx, n, depth, **kw)
    for t in range(tzs):
        if js[t::tzs]:
            judge(ctx, js[t::tzs], t)
