"""C01-C13: the result database."""
from sim.run import Spec

from props import dbmore
from props.dbhist import Config, History, Gen, run_history, finish

BASE = dict(edit=4, touch=2, delout=2, code=2, shift=1, rename=0, remove=0, restore=1, delsrc=0,
            delall=0)


def spec(cfg, fn=run_history, **kw):
    kw.setdefault('budget', 400000)
    return Spec(lambda sim: fn(sim, cfg), **kw)


BROKEN = {'call-failed', 'build-broken'}
STALE = BROKEN | {'stale', 'stale-output', 'missing-output', 'old-code', 'wrong-arguments'}

C01 = spec(Config(kinds=STALE, p_clash=0.1, p_alter=0.04))
C02 = spec(Config(kinds=BROKEN | {'needless-run'}, weights=dict(
    BASE, edit=2, touch=4, shift=3, restore=3, code=1, delout=1)))
C03 = spec(Config(
    kinds=BROKEN | {'missing-output', 'stale-output', 'stale'}, p_dst=0.9, p_extdst=0.5, p_inproc=0.4,
    mutations=(1, 4),
    weights=dict(edit=1, touch=1, delout=8, code=1, shift=0, rename=0, remove=0, restore=0, delsrc=0, delall=2)))
C04 = spec(Config(
    kinds=STALE, functions=(2, 6), p_call=0.9, p_wide=0.08, p_parent=0.8, p_super=0.8, p_rec=0.3, p_branch=0.4,
    p_focus=0.3, p_inproc=0.0, steps=(1, 3),
    builds=(3, 6), mutations=(1, 3),
    weights=dict(edit=1, touch=0, delout=0, code=8, shift=1, rename=1, remove=1, restore=0, delsrc=0, delall=0)))
C05 = spec(Config(
    kinds=STALE | {'sets-differ', 'needless-run'}, p_ext=0.8, p_include=0.6, p_extdst=0.5, p_call=0.7,
    sources=(2, 4), mutations=(1, 3),
    weights=dict(edit=6, touch=2, delout=3, code=1, shift=0, rename=0, remove=0, restore=2, delsrc=2, delall=1)))
C06 = spec(Config(
    kinds=STALE | {'needless-run', 'sets-differ'}, threads=(2, 4), p_par=0.8, p_map=0.4, p_inproc=0.15,
    functions=(2, 6), builds=(2, 4)))
C07 = spec(Config(
    kinds=STALE | {'needless-run', 'exception-changed', 'sets-differ'}, p_fail=0.35, p_unfail=0.25, p_try=0.4, p_call=0.8,
    functions=(2, 5), threads=(1, 3), p_par=0.2, mutations=(1, 3), builds=(3, 6),
    weights=dict(edit=8, touch=1, delout=1, code=2, shift=0, rename=0, remove=0, restore=3, delsrc=0, delall=0)))
C08 = spec(Config(
    kinds=STALE | {'needless-run', 'exception-changed'}, engines=['pickle', 'sqlite'], threads=(1, 3), p_par=0.4,
    p_fail=0.1, p_unfail=0.25, p_inproc=0.1, endings=dict(ok=2, sigint=3), steps=(1, 5), builds=(2, 4),
    weights=dict(edit=4, touch=1, delout=3, code=1, shift=0, rename=0, remove=0, restore=2, delsrc=0, delall=0)))
C09 = spec(Config(
    kinds=STALE | {'needless-run'}, engines=['pickle', 'sqlite'], threads=(1, 2), p_par=0.2,
    p_torn=0.12, p_inproc=0.1, endings=dict(ok=2, crash=2, power=2), steps=(1, 5), builds=(3, 6),
    weights=dict(edit=4, touch=1, delout=0, code=1, shift=0, rename=0, remove=0, restore=1, delsrc=0, delall=0)))
C10 = spec(Config(
    kinds=STALE | {'needless-run'}, engines=['pickle', 'sqlite'], threads=(1, 2), p_par=0.2,
    p_inproc=0.1, endings=dict(ok=2, fault=3), steps=(1, 5), builds=(3, 6),
    weights=dict(edit=4, touch=1, delout=0, code=1, shift=0, rename=0, remove=0, restore=1, delsrc=0, delall=0)))
C11 = spec(Config(
    kinds=STALE | {'needless-run', 'not-rerun'}, engines=['pickle', 'sqlite'], threads=(1, 2), p_par=0.1,
    p_inproc=0.1, p_near=0.7, endings=dict(ok=3, crash=2, power=2, fault=1), steps=(1, 4), builds=(2, 5),
    mutations=(0, 1),
    weights=dict(edit=3, touch=1, delout=0, code=1, shift=0, rename=0, remove=0, restore=1, delsrc=0, delall=0)),
    dbmore.run_versions)
C12 = spec(Config(
    kinds=STALE | {'needless-run', 'not-rerun', 'exit-status'}, engines=['pickle', 'sqlite', 'pickle', 'sqlite', 'cache'],
    threads=(1, 2), p_inproc=0.05, p_ext=0.5, p_include=0.5, steps=(1, 4), builds=(1, 3), mutations=(0, 1)),
    dbmore.run_delete)
C13 = spec(Config(
    kinds=BROKEN | {'engines-differ'}, p_map=0.0, p_fail=0.1, p_try=0.1, p_ext=0.4, p_extdst=0.3, builds=(2, 4)),
    dbmore.run_engines)
