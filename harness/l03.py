"""L03: callbacks run exactly when and where their schedule says."""
import itertools
from fractions import Fraction

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of schedules on the real main loop: every interval kind and value x stage x run length x split of the run, the sequence of calls compared with the schedule computed in exact rational arithmetic"
NOTE = "all stages at once in every registration order of three callbacks of three kinds, integer intervals 1-7, time intervals a/b dt, all divisions of a 6-step run, predicates with all truth patterns over 5 steps, species subsets, 1-2 processes; time intervals over 20000 steps of accumulated time; invalid intervals."
ASSUMPTIONS = ["a time interval shorter than a step is due every step; a multiple of the interval within 1/500 dt of a step may be attributed to that step or the next, once"]
SPECIES_STAGES = ("_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition")


def boot():
    global lp, simmpi, cbk, Callback, SimulationCallbacks
    from vlib import simmpi as M
    M.install()
    from vlib import lp as L
    from lambdapic import callback as c
    from lambdapic.callback.callback import Callback as C
    lp, simmpi, cbk, Callback = L, M, c, C


STAGES = ("init", "start", "maxwell_1", "_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition",
          "qed_create_particles", "_laser", "maxwell_2", "end", "final")


def tiny(nspecies=1, dim=2, disabled=(), size=1):
    sp = [lp.Electron(name=f"s{i}", density=None, ppc=0) for i in range(nspecies)]
    for i in disabled:
        sp[i].disable()
    n = (8, 4, 4)[:dim]
    sim = lp.make_sim(dim, n, (2, 1, 1)[:dim], "p" * dim, d=(0.1e-6, 0.07e-6, 0.08e-6)[:dim], ng=2, cpml=2, species=sp)
    return sim


def due(itime, interval):
    if callable(interval):
        return interval(itime)
    return itime % interval == 0


def make(kind, tag, stage, interval, log):
    """three kinds of callback"""
    if kind == "decorated":
        @cbk(stage, interval=interval)
        def f(sim):
            log.append((tag, stage, sim.itime, sim.ispec if stage in SPECIES_STAGES else None))
        return f
    if kind == "class":
        class K(Callback):
            def __init__(self):
                self.stage, self.interval = stage, interval

            def _call(self, sim):
                log.append((tag, stage, sim.itime, sim.ispec if stage in SPECIES_STAGES else None))
        return K()
    if kind == "function":
        def g(sim):
            log.append((tag, "end", sim.itime, None))
        return g


def order(active, unified):
    """stages of one step with the species they are run for"""
    for st in ("start", "maxwell_1"):
        yield st, None
    for i in active:
        for st in SPECIES_STAGES[:-1] if not unified else ():
            yield st, i
        yield "current_deposition", i
    for st in ("qed_create_particles", "_laser", "maxwell_2", "end"):
        yield st, None


def expected(cbs, active, lengths, start=0):
    """cbs: (tag, stage, interval(step)) in registration order"""
    out = []
    unified = not any(st in SPECIES_STAGES[:-1] for _, st, _ in cbs)
    t = start
    for n in lengths:
        out += [(g, "init", t, None) for g, st, iv in cbs if st == "init" and due(t, iv)]
        for i in range(t, t + n):
            for st, sp in order(active, unified):
                out += [(g, st, i, sp) for g, s2, iv in cbs if s2 == st and due(i, iv)]
        t += n
        out += [(g, "final", t, None) for g, st, iv in cbs if st == "final" and due(t, iv)]
    return out


def compositions(n):
    for m in range(2 ** (n - 1)):
        c, out = 1, []
        for i in range(n - 1):
            if m >> i & 1:
                out.append(c)
                c = 1
            else:
                c += 1
        yield out + [c]


def run_once(ctx, case, cbs, spec, lengths, nspecies=1, disabled=(), dim=2, size=1, start=0):
    """cbs(log) -> list of callbacks"""
    ctx.case(case)
    ctx.state(case)
    logs = [[] for _ in range(size)]

    def body(r):
        sim = tiny(nspecies, dim, disabled)
        if start:
            sim.initialize()
            sim.itime = start
        c = cbs(logs[r])
        for n in lengths:
            sim.run(nsteps=n, callbacks=c)
        return sim.itime
    if size == 1:
        end = [body(0)]
    else:
        P = lp.partition()
        P.queue = [[0, 1]]
        w = simmpi.World(size, simmpi.MODES["eager"], None)
        w.run(body)
        if not w.ok():
            ctx.violation("run", f"{case}: {w.report()}", case)
            return False
        end = w.results
    want = expected(spec, [i for i in range(nspecies) if i not in disabled], lengths, start)
    for r in range(size):
        ctx.add("transitions", len(want))
        ctx.add("traces")
        if end[r] != start + sum(lengths):
            ctx.violation("steps", f"{case}: ends at step {end[r]}", case)
            return False
        if logs[r] != want:
            i = next((i for i, (a, b) in enumerate(zip(logs[r], want)) if a != b), min(len(want), len(logs[r])))
            ctx.violation("sequence:" + str((want + logs[r])[min(i, len(want + logs[r]) - 1)][1]),
                          f"{case}: call number {i} on process {r} is {logs[r][i] if i < len(logs[r]) else 'missing'} instead of {want[i] if i < len(want) else 'none'} (callback, stage, step, species)", case)
            return False
    return True


def stages(ctx, interval, lengths_of=6, staged=True, nspecies=1, disabled=(), dim=2, size=1):
    """all stages, every registration order of three kinds of callback, every division of the run"""
    boot()
    st = STAGES if staged else tuple(s for s in STAGES if s not in SPECIES_STAGES[:-1])
    for kinds in itertools.permutations(("decorated", "class", "function")):
        for lengths in compositions(lengths_of):
            case = dict(interval=interval, kinds=kinds, lengths=lengths, staged=staged, nspecies=nspecies, disabled=list(disabled), dim=dim, size=size)

            def cbs(log):
                out = []
                for n, k in enumerate(kinds):
                    if k == "function":
                        out.append(make(k, n, "end", 1, log))
                    else:
                        # registered last stage first: the stage decides, not the place in the list
                        out += [make(k, n, s, interval, log) for s in reversed(st)]
                return out
            spec = []
            for n, k in enumerate(kinds):
                spec += [(n, "end", 1)] if k == "function" else [(n, s, interval) for s in reversed(st)]
            if not run_once(ctx, case, cbs, spec, lengths, nspecies, disabled, dim, size):
                return
    ctx.sample(case)


def ints(ctx, intervals, start):
    boot()
    for combo in itertools.product(intervals, repeat=2):
        for stage in ("start", "maxwell_2", "current_deposition", "init", "final"):
            case = dict(intervals=combo, stage=stage, start=start)

            def cbs(log):
                return [make("class", 0, stage, combo[0], log), make("decorated", 1, stage, combo[1], log)]
            spec = [(0, stage, combo[0]), (1, stage, combo[1])]
            if not run_once(ctx, case, cbs, spec, [5, 4], start=start):
                return
    ctx.sample(case)


def predicates(ctx, n=5):
    """every truth pattern, with every kind of truth value"""
    boot()
    yes = (True, 1, np.bool_(True), "yes", [0], 2.5)
    no = (False, 0, np.bool_(False), "", [], 0.0, None)
    for pat in itertools.product((0, 1), repeat=n):
        case = dict(pattern=pat)

        def val(sim):
            i = sim.itime
            return (yes if pat[i] else no)[i % 6]

        def cbs(log):
            return [make("decorated", 0, "start", val, log), make("class", 1, "end", val, log), make("class", 2, "end", 2, log)]
        spec = [(0, "start", lambda i: pat[i]), (1, "end", lambda i: pat[i]), (2, "end", 2)]
        if not run_once(ctx, case, cbs, spec, [2, n - 2]):
            return
    ctx.sample(case)


def changed(ctx):
    """interval and stage of an object read at each call / each run"""
    boot()
    for a, b in itertools.product(range(1, 5), repeat=2):
        case = dict(first=a, then=b)
        ctx.case(case)
        log = []
        k = make("class", 0, "end", a, log)
        sim = tiny()
        sim.run(nsteps=4, callbacks=[k])
        k.interval = b
        sim.run(nsteps=5, callbacks=[k])
        want = [i for i in range(4) if i % a == 0] + [i for i in range(4, 9) if i % b == 0]
        ctx.add("transitions", 9)
        ctx.state(case)
        if [x[2] for x in log] != want:
            ctx.violation("changed", f"{case}: called in steps {[x[2] for x in log]} instead of {want}", case)
            return


def times(ctx, T, dts, steps, how):
    """a time interval: exactly one call per interval, in its first step.  T: (a, b) -> a/b dt"""
    boot()
    sim = tiny()
    sim.initialize()
    for d in dts:
        sim.dt = d
        for a, b in T:
            iv = {"product": a * d / b, "quotient": d / b * a, "rounded": float(f"{a * d / b:.6g}"), "sum": sum([d / b] * a)}[how]
            if not 0 < iv < 1:
                continue
            case = dict(dt=d, interval=iv, as_=f"{a}/{b} dt", how=how, steps=steps)
            ctx.case(case)
            ctx.state(case)
            n = 0
            log = []

            @cbk("end", interval=iv)
            def f(s):
                log.append(s.itime)
            sim.itime, sim.time = 0, 0.0
            for n in range(steps):
                f(sim)
                sim.time += sim.dt
                sim.itime += 1
            ctx.add("transitions", steps)
            ctx.add("traces")
            fi, fd = Fraction(iv), Fraction(d)
            if iv < d:
                want = list(range(steps))
                amb = set()
            else:
                want, amb = [], set()
                k = 0
                while True:
                    q = k * fi / fd
                    up = lambda v: -((-v.numerator) // v.denominator)        # noqa  first step at or after
                    i, j = up(q - Fraction(1, 500)), up(q + Fraction(1, 500))
                    if i != j:
                        amb.add(len(want))
                    if i >= steps:
                        break
                    want.append(i)
                    k += 1
            ok = abs(len(log) - len(want)) <= (1 if amb else 0) and all(x == y or (m in amb and x in (y, y + 1)) for m, (x, y) in enumerate(zip(log, want)))
            if ok and len(log) != len(want):
                ok = len(log) == len(want) - 1 and want[-1] == steps - 1
            if not ok:
                m = next((m for m, (x, y) in enumerate(zip(log, want)) if x != y), min(len(log), len(want)))
                ctx.violation("time:" + ("multiple" if b == 1 else "fraction"), f"{case}: {len(log)} calls instead of {len(want)}; call number {m} is in step {log[m] if m < len(log) else None} instead of {want[m] if m < len(want) else None}; steps {log[max(0, m - 2):m + 3]}", case)
                return
    ctx.sample(case)


def time_loop(ctx, dim, T):
    """the same in the real loop, also from a later run"""
    boot()
    for a, b in T:
        for lengths in ([12], [5, 7], [1] * 12):
            sim = tiny(dim=dim)
            sim.initialize()
            iv = a * sim.dt / b
            case = dict(dim=dim, as_=f"{a}/{b} dt", lengths=lengths)
            ctx.case(case)
            ctx.state(case)
            log = []
            cbs = [make("decorated", 0, "start", iv, log), make("class", 1, "end", iv, log), make("class", 2, "_laser", iv, log)]
            for n in lengths:
                sim.run(nsteps=n, callbacks=cbs)
            want = [i for i in range(12) if a < b or (i * b) // a != ((i - 1) * b) // a]
            ctx.add("transitions", 12)
            for tag in range(3):
                got = [x[2] for x in log if x[0] == tag]
                if got != want:
                    ctx.violation("loop-time", f"{case}: callback {tag} ran in steps {got} instead of {want}", case)
                    return
    ctx.sample(case)


def invalid(ctx):
    boot()
    for iv in (0, -1, -3, 0.0, -0.5, 1.0, 1.5, float("nan"), float("inf"), "3", None, [1, 2], (1,), 1j):
        for kind in ("decorated", "class"):
            case = dict(interval=repr(iv), kind=kind)
            ctx.case(case)
            ctx.state(case)
            ctx.add("transitions")
            log = []
            try:
                c = make(kind, 0, "end", iv, log)
                tiny().run(nsteps=3, callbacks=[c])
            except (TypeError, ValueError):
                continue
            except BaseException as e:
                ctx.violation("invalid", f"{case}: {type(e).__name__}: {e}", case)
                return
            if iv != iv:
                continue        # nan: nothing sensible to expect
            ctx.violation("invalid", f"{case}: accepted, ran in steps {[x[2] for x in log]}", case)
            return
    for st in ("nostage", "End", "maxwell"):
        case = dict(stage=st)
        ctx.case(case)
        log = []
        try:
            tiny().run(nsteps=1, callbacks=[make("class", 0, st, 1, log)])
        except ValueError:
            continue
        ctx.violation("invalid-stage", f"{case}: accepted", case)
    ctx.sample(case)


def agree(ctx):
    """the simulation's own question whether a stage will act agrees with what runs"""
    boot()
    from lambdapic.simulation.simulation import SimulationCallbacks
    for ivs in itertools.product((1, 2, 3, "p", "t"), repeat=2):
        sim = tiny()
        sim.initialize()
        tab = {"p": lambda s: s.itime in (1, 4), "t": 2.5 * sim.dt}
        iv = [tab.get(i, i) for i in ivs]
        log = []
        cbs = [make("class", n, "end", v, log) for n, v in enumerate(iv)]
        m = SimulationCallbacks(cbs, sim)
        case = dict(intervals=ivs)
        ctx.case(case)
        ctx.state(case)
        for n in range(8):
            a = m.has_triggered_callbacks("end")
            k = len(log)
            m.run("end")
            ctx.add("transitions")
            if bool(a) != (len(log) > k) or m.has_triggered_callbacks("start"):
                ctx.violation("agree", f"{case}: step {n}: announced {a}, {len(log) - k} calls", case)
                return
            sim.time += sim.dt
            sim.itime += 1


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    for iv in (1, 2, 3) + ((4, 5, 7) if th else ()):
        J.append((f"stages{iv}", stages, dict(interval=iv, lengths_of=5 if not th else 6)))
    J.append(("unified", stages, dict(interval=2, lengths_of=4, staged=False, nspecies=2)))
    J.append(("species", stages, dict(interval=1, lengths_of=3, nspecies=3)))
    for k in ((0,), (1,), (2,), (0, 2), (0, 1, 2)):
        J.append((f"disabled{''.join(map(str, k))}", stages, dict(interval=1, lengths_of=3, nspecies=3, disabled=k)))
        J.append((f"unified-disabled{''.join(map(str, k))}", stages, dict(interval=1, lengths_of=3, nspecies=3, disabled=k, staged=False)))
    J.append(("3d", stages, dict(interval=2, lengths_of=4, dim=3, nspecies=2)))
    J.append(("two", stages, dict(interval=2, lengths_of=4, size=2)))
    for s in (0, 1, 5, 100, 999999):
        J.append((f"ints{s}", ints, dict(intervals=range(1, 8), start=s)))
    J.append(("predicates", predicates, dict(n=5 if not th else 7)))
    J.append(("changed", changed, {}))
    T = [(a, b) for b in (1, 2, 3, 4, 7) for a in range(1, 13 if not th else 31)]
    base = [1e-16 * (1 + k / 7) for k in range(3 if not th else 8)] + [0.95 * (100 + 1 / 0.0049) ** -0.5 * 1e-6 / 299792458.0, 1.0e-16, 2.0 ** -53, 1 / 3 * 1e-15]
    for k, d in enumerate(base):
        for how in ("product", "quotient", "rounded", "sum"):
            J.append((f"times{k}-{how}", times, dict(T=T, dts=[d], steps=1500 if not th else 20000, how=how)))
    for dim in (2, 3):
        J.append((f"loop{dim}", time_loop, dict(dim=dim, T=[(a, b) for a in range(1, 7) for b in (1, 2, 3)])))
    J.append(("invalid", invalid, {}))
    J.append(("agree", agree, {}))
    return J
