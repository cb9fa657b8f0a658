"""Which explorations decide which property."""
from . import fam_session as S, fam_app as A, fam_gui as G, fam_save as V, fam_update as U, fam_race as R, fam_reach as T, fam_term as M, fam_hurt as H


def scale(ctx, q, t):
    return q if ctx.quick else t


def C01(ctx):
    S.run(ctx, scale(ctx, 150, 3000), 9, changes={'Rekey', 'Edit', 'Profm', 'Profo', 'Repair'}, maxchanges=1, cover=scale(ctx, 150, 3000),
          opts=dict(maxitems=3, queries=1, bigiter=1))
    A.run(ctx, scale(ctx, 50, 1500), 6, cmds={"list", "overview", "details", "gui"})
    G.run(ctx, scale(ctx, 40, 800), 14, opts=dict(maxitems=4))


def C02(ctx):
    S.run(ctx, scale(ctx, 40, 600), 7, changes={'Add', 'Del', 'Edit', 'Trash'}, maxchanges=3, opts=dict(maxitems=8, queries=2))
    S.shapes(ctx, scale(ctx, 100, 2000), dict(maxitems=40, queries=1))


def C03(ctx):
    S.model(ctx)
    S.shapes(ctx, scale(ctx, 240, 5000), dict(maxitems=14, queries=0), tzs=scale(ctx, 3, 4))


def C04(ctx):
    S.run(ctx, scale(ctx, 200, 4000), 10, changes={'Tamperk', 'Tampero', 'Tamperd', 'Profm', 'Profo', 'Repair'}, maxchanges=4,
          opts=dict(maxitems=5, queries=1), cover=scale(ctx, 60, 1000))


def C05(ctx):
    S.run(ctx, scale(ctx, 150, 2500), 10, changes={'Edit', 'Add', 'Profm', 'Profo'}, maxchanges=1, opts=dict(maxitems=5, queries=2), cover=scale(ctx, 60, 1500))
    G.run(ctx, scale(ctx, 70, 2000), 30)


def C06(ctx):
    S.run(ctx, scale(ctx, 200, 3500), 12, changes={'Add', 'Del', 'Edit', 'Trash', 'Rekey'}, maxchanges=4, opts=dict(maxitems=4, queries=1),
          cover=scale(ctx, 60, 2000))
    G.run(ctx, scale(ctx, 50, 1500), 30)


def C07(ctx):
    S.run(ctx, scale(ctx, 20, 200), 7, changes={'Trash', 'Add', 'Edit'}, maxchanges=2, opts=dict(maxitems=10, queries=10))
    S.shapes(ctx, scale(ctx, 60, 1200), dict(maxitems=40, queries=50, titles=1))
    S.shapes(ctx, scale(ctx, 40, 800), dict(maxitems=25, queries=40))
    A.run(ctx, scale(ctx, 60, 1500), 7, cmds={'list', 'categories'}, flags={'', 'v1', 'v2'}, pws={'right'}, opts=dict(maxitems=14))


def C08(ctx):
    A.run(ctx, scale(ctx, 150, 4000), 8, cmds={'overview', 'details'}, flags={'', 'v1', 'v2'}, opts=dict(maxitems=12), tzs=scale(ctx, 2, 4))


def C09(ctx):
    G.run(ctx, scale(ctx, 150, 4000), 40)


def C10(ctx):
    G.run(ctx, scale(ctx, 100, 3000), 45, tzs=scale(ctx, 1, 3))
    G.judge(ctx, G.jobs(ctx, scale(ctx, 60, 1500), 60, opts=dict(maxitems=45, rows=14)))


def C11(ctx):
    U.run(ctx, scale(ctx, 250, 6000), 5)


def C12(ctx):
    U.run(ctx, scale(ctx, 250, 6000), 6)


def C13(ctx):
    A.run(ctx, scale(ctx, 220, 5000), 7, cmds={'update', 'list', 'gui', 'categories'})
    U.run(ctx, scale(ctx, 80, 2000), 5)
    U.refused(ctx, scale(ctx, 50, 500), 8)


def C14(ctx):
    A.run(ctx, scale(ctx, 250, 6000), 7, cmds={'update', 'categories', 'list', 'gui'}, flags={'', 'v1'})


def C15(ctx):
    A.run(ctx, scale(ctx, 200, 5000), 8)


def C16(ctx):
    A.run(ctx, scale(ctx, 150, 4000), 8, cmds={'configure', 'categories', 'overview'})
    V.run(ctx, scale(ctx, 80, 2000), 6)


def C17(ctx):
    A.run(ctx, scale(ctx, 220, 6000), 6, cmds={'configure', 'list', 'gui'}, flags={'', 'v1'}, cuts={'configure', 'list'})
    V.run(ctx, scale(ctx, 60, 1500), 6)
    M.run(ctx, scale(ctx, 40, 800), {'configure', 'list'})


def C18(ctx):
    V.run(ctx, scale(ctx, 250, 6000), 7)


def C19(ctx):
    A.run(ctx, scale(ctx, 200, 5000), 8, cmds={'list', 'overview', 'details', 'gui', 'configure'})


CUTS = {'list', 'details', 'gui', 'configure'}


def C20(ctx):
    A.run(ctx, scale(ctx, 150, 4000), 8, cuts=CUTS)
    G.run(ctx, scale(ctx, 50, 1500), 30)
    U.run(ctx, scale(ctx, 60, 1500), 5)


def C21(ctx):
    A.run(ctx, scale(ctx, 200, 5000), 8, cmds={'list', 'overview', 'details', 'gui', 'configure'})


def C22(ctx):
    A.run(ctx, scale(ctx, 200, 5000), 8, answers={'bad', 'odd'}, cmds={'list', 'overview', 'details', 'gui', 'categories', 'configure', 'update'})
    U.run(ctx, scale(ctx, 60, 1500), 5)
    T.run(ctx, scale(ctx, 24, 300), 0)


def C23(ctx):
    A.run(ctx, scale(ctx, 180, 5000), 8, cuts=CUTS)


def C24(ctx):
    A.run(ctx, scale(ctx, 150, 4000), 6, cmds={'list', 'overview', 'details', 'gui'})
    G.run(ctx, scale(ctx, 50, 1500), 25)
    M.run(ctx, scale(ctx, 60, 1200), {'list', 'overview', 'details'})


def C25(ctx):
    R.run(ctx, 'save', scale(ctx, 120, 3000))
    R.run(ctx, 'update', scale(ctx, 120, 3000))


def C26(ctx):
    T.run(ctx, scale(ctx, 150, 3000), scale(ctx, 16, 200))


def C27(ctx):
    M.run(ctx, scale(ctx, 200, 4000))


def C28(ctx):
    H.run(ctx, scale(ctx, 500, 8000))


def C29(ctx):
    H.run(ctx, scale(ctx, 450, 8000), odd=True)


CHECKS = {k: v for k, v in globals().items() if k[:1] == 'C' and k[1:].isdigit()}

SESSION = 'Session/Decode/Text'
LINKED = ('Exhaustive model of the session at small constants; behaviours simulated and covering every transition are replayed into the '
          'facade/service/repository code of /repo linked into a driver, on vaults written by an independent OPVault writer; every recorded '
          'result is checked by TLC. Trusted: Go crypto libraries, the vault writer, TLC. ')
REAL = ('Exhaustive model of the commands at small constants; random behaviours of it are replayed into the real program, built from /repo, on a '
        'pseudo terminal or a pipe, in a private mount namespace as an unprivileged user, with an update server of ours; everything printed, asked, '
        'requested and changed on disk is checked by TLC. Trusted: the vault writer, the terminal emulation, TLC. ')
GUI = ('Exhaustive model of the windows and keys at small constants; random key sequences of it are typed into the real terminal interface, built '
       'from /repo, on a pseudo terminal whose screen is interpreted, with random vaults and terminal sizes; after every key the whole screen is compared '
       'with the specification by TLC. Trusted: the vault writer, the terminal emulation, TLC. ')
SAVE = ('Exhaustive step-level model of saving the settings, refining an atomic register; random histories of it are replayed into the real program and '
        'the packages of /repo under ptrace: the process is killed, a write cut short, an operation made to fail or the disk filled at any file operation; '
        'what the next run finds is checked by TLC. Trusted: the tracer, a YAML reader, TLC; no power loss. ')
UPD = ('Exhaustive step-level model of an update with changing server answers, refining an atomic register for the installed application; random histories of it are '
       'replayed into the real program, built from /repo, with an update server of ours sending sound, damaged and hostile archives and checksums, and with ptrace killing the '
       'process or failing an operation at any point; what is installed, touched and left is checked by TLC. Trusted: the tracer, TLC, MD5; no power loss. ')
RACE = ('Exhaustive step-level models of two or three saves, and of updates, at the same time with kills, refining an atomic register with several writers; schedules of them (those that do '
        'damage when the runs share files, and others) are imposed on real processes, built from /repo, by ptrace, one file operation at a time; the settings file and the installed application '
        'are looked at after every operation and everything is checked by TLC. Trusted: the tracer, a YAML reader, TLC. ')
SLOW = ('Exhaustive tick-level model of a run that waits for a server which is slow or falls silent at any point, with the time limit of the settings, shown to end and to give up exactly where '
        'the abstract outcome says; walks of it are replayed into the real program, built from /repo, with an update server of ours that is silent for those times at those points; how long every '
        'run takes and what comes of it is checked by TLC. Trusted: the clock (with some seconds of slack), TLC. ')
TERM = ('Exhaustive step-level model of who has the terminal (modes, screen), with the interrupt key between any two steps, refining the abstract one; random histories of it are typed into the real '
        'program, built from /repo, on a pseudo terminal with random modes and size which goes on after the run, like the one of a shell; modes, screens and cursor are compared with the specification '
        'by TLC at every place and after the end. Trusted: the terminal emulation, TLC; signals other than the interrupt key are not covered. ')
HURT = ('Exhaustive file-by-file model of opening a vault whose files are damaged and mended at any time, with the abstract account of what may come of it; random histories of it are replayed into the '
        'real program, built from /repo, on a pseudo terminal, with files cut off, overwritten, of another form or unreadable while it waits and in between; what is shown, said and returned is checked by '
        'TLC. Trusted: the vault writer, the terminal emulation, TLC; files are not changed in the middle of being read. ')
ODD = (HURT.replace('with files cut off, overwritten', 'with items whose authentic contents are random and unusual, and with files cut off, overwritten'))
NOTES = {
    'C29': ('Intact/IntactSteps', ODD),
    'C28': ('Intact/IntactSteps', HURT),
    'C27': ('Terminal/TerminalSteps', TERM),
    'C26': ('Reach/ReachSteps', SLOW),
    'C25': ('RaceReg/SaveRace/UpdateRace/Dialog/Update', RACE),
    'C01': (SESSION, LINKED), 'C02': (SESSION, LINKED), 'C03': (SESSION, LINKED), 'C04': (SESSION, LINKED),
    **{k: ('App/Dialog/Version/Vault', REAL) for k in 'C08 C13 C14 C15 C16 C17 C19 C20 C21 C22 C23 C24'.split()},
    'C11': ('Update/UpdateReg/UpdateSteps/Version', UPD), 'C12': ('Update/UpdateReg/UpdateSteps/Version', UPD),
    'C18': ('Save/SaveSteps/Dialog', SAVE),
    'C09': ('Gui/Vault', GUI), 'C10': ('Gui/Vault', GUI),
    'C05': (SESSION, LINKED), 'C06': (SESSION, LINKED), 'C07': (SESSION, LINKED),
}
