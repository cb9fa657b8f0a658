"""Family "app": App.tla, AppMC.tla, AppTrace.tla: commands of the real application."""
from .fam_session import tzc, TZS

INV = ['InvSelected', 'InvRefused', 'InvDialog', 'InvConsent']
STEPS = ['StepRecorded', 'StepNotify', 'StepFlag', 'StepCut']
CMDS = {'list', 'overview', 'details', 'gui', 'categories', 'configure', 'version', 'update'}
SUBST = 'CONSTANT Current <- Cur\n'


def consts(cmds=CMDS, flags=('', 'v1', 'v2', 'b'), pws=('right', 'wrong'), answers=('ok', 'bad', 'odd'), cuts=()):
    return dict(CutSet=set(cuts), Answered=set(answers), TzEast=0, TzWest=0, CmdSet=set(cmds), Flags=set(flags), Pws=set(pws))


def model(ctx, cmds=None, cuts=()):
    ctx.background(ctx.modelcheck, 'AppMC', dict(consts(cmds or ({'list', 'categories', 'configure', 'update', 'gui'} if ctx.quick else CMDS),
                                        ('', 'v1', 'b') if ctx.quick else ('', 'v1', 'v2', 'b'), cuts=set(cuts) & ({'list', 'configure'} if ctx.quick else CMDS)), MaxLen=99, Emit=False, Weigh=False),
                   INV, view='View', extra=SUBST, props=STEPS)


def jobs(ctx, n, depth, cmds=CMDS, flags=('', 'v1', 'v2', 'b'), pws=('right', 'wrong'), opts=None, answers=('ok', 'bad', 'odd'), cuts=()):
    hs = ctx.histories('AppMC', dict(consts(cmds, flags, pws, answers, cuts), Weigh=True), 'simulate', num=n, depth=depth, steps=2 * depth + 1, extra=SUBST)
    hs = [h for h in hs if any(o['a'] in ('Run', 'Cut') for o in h)]
    ctx.rng.shuffle(hs)
    out = []
    for h in hs[:n]:
        while h and h[-1]['a'] not in ('Run', 'Cut'):
            h = h[:-1]
        out.append(dict(opts or {}, seed=ctx.rng.randrange(1 << 30), ops=h))
    return out


def judge(ctx, js, tz=0):
    name, off = TZS[tz]
    ctx.judge('app', 'AppTrace', js, constants=tzc(off), env=dict(TZ=name, VDRV_APP=ctx.app()), extra=SUBST)


def run(ctx, n, depth, mc=True, tzs=1, **kw):
    if mc:
        model(ctx, cuts=kw.get('cuts', ()))
    js = jobs(ctx, n, depth, **kw)
    for t in range(tzs):
        part = js[t::tzs]
        if part:
            judge(ctx, part, t)
