"""What each property's check runs."""
import sys

import vlib

check = sys.modules['__main__']
prop = check.prop
MASSES = [0, 1, 2, 3, 4, 5, 6]
DIRS = list(range(46))


# ---------------------------------------------------------------- particles and spinor products
def spinor(run, plans, keep=lambda ev, why: True):
    """plans: (name, plan, mode, count, masses, dirs)"""
    exe = vlib.driver('core')
    tabs = {}

    def gen(p):
        name, plan, mode, count, masses, dirs, seed = p
        return vlib.behaviours('GenSpinor', dict(SEED=str(seed), NAME=name, MODE=mode),
                               dict(PLAN=plan, COUNT=count, MASSES=masses, DIRS=dirs))
    plans = [p if len(p) == 7 else p + (run.seed,) for p in plans]
    for s in {p[6] for p in plans}:
        tabs[s] = vlib.points(s)
    hist = []
    with vlib.pool() as ex:
        for p, (bs, st) in zip(plans, ex.map(gen, plans)):
            tab = tabs[p[6]]
            run.generated(st)
            hist += [[' '.join(tab.get(w, w) for w in c.split(' ')) for c in b] for b in bs]
    run.conform(exe, 'TraceSpinor', hist, keep=keep)


CACHE = 'SPECIFICATION Spec\nPROPERTY AlwaysFaithful\nVIEW SymView\nCONSTANTS Slots=%s\nMasses=%s\nMutant="%s"\nCopies=%s\nInner=%s\nDepth=0\n'
PRODUCT = 'SPECIFICATION Spec\nPROPERTY AlwaysFaithful\nVIEW SymView\nCONSTRAINT Bounded\nCONSTANTS Slots={1,2}\nMasses={0,1}\nMutant="%s"\nCopies=FALSE\nInner={0,1}\nDepth=%d\n'


def seeds(run, quick, thorough):
    return [run.seed * 1000 + i if i else run.seed for i in range(run.pick(quick, thorough))]


@prop('C01')
def c01(run):
    run.model('SpinorLaws', 'SPECIFICATION Spec\nINVARIANT Single\nINVARIANT Pair\n', env=dict(SEED=str(run.seed)))
    spinor(run, [('values', ['make1', 'allspinors1'], 'all', 1, MASSES, DIRS, s) for s in seeds(run, 4, 60)])


@prop('C02')
def c02(run):
    run.model('SpinorCache', CACHE % ('{1,2}', '{0,1}' if run.quick else '{0,1,2}', 'none', 'TRUE', '{}'), 'SpinorCache, two particles')
    run.mutant('SpinorCache', CACHE % ('{1,2}', '{0,1}', 'keepmat', 'TRUE', '{}'), 'keepmat')
    plans = [('pairs', ['both', 'query1', 'way1', 'query1'], 'all', 1, [0, 1], [7, 11]),
             ('rest', ['new2', 'rest1', 'query1', 'way1', 'query1'], 'all', 1, [0, 1], [7])]
    plans += [('long%d' % i, ['cast'] + ['any'] * 80, 'some', run.pick(15, 100), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 8, 32))]
    spinor(run, plans, keep=lambda ev, why: ev['op'][0] == 'p')


@prop('C03')
def c03(run):
    plans = [('badq', ['new2', 'new1', 'query1', 'bad1', 'spinors1'], 'all', 1, [0, 1], [7]),
             ('badc', ['make1', 'query1', 'badchange1', 'recover1', 'query1'], 'all', 1, [0, 1], [7, 11]),
             ('bad2', ['new2', 'new1', 'bad1', 'way1', 'bad1', 'allspinors1'], 'all', 1, [0, 1], [7]),
             ('late', ['both', 'allspinors1', 'way1', 'bad1'], 'all', 1, [0, 1, 2], [7, 11])]
    plans += [('shell%d' % i, ['make1', 'badchange1', 'recover1', 'allspinors1'], 'all', 1, [0, 1, 2, 3, 4, 6], DIRS[i::8], s) for i, s in enumerate(seeds(run, 8, 40))]
    plans += [('long%d' % i, ['cast'] + ['any'] * 80, 'some', run.pick(10, 80), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 4, 24))]
    spinor(run, plans, keep=lambda ev, why: ev['op'][0] == 'p')


@prop('C04')
def c04(run):
    spinor(run, [('plain', ['new2', 'make1', 'allplain1'], 'all', 1, MASSES, d, s) for s in seeds(run, 1, 12) for d in (DIRS[0::4], DIRS[1::4], DIRS[2::4], DIRS[3::4])])


@prop('C05')
def c05(run):
    spinor(run, [('gens', ['make1', 'gens1'], 'all', 1, MASSES, DIRS, s) for s in seeds(run, 6, 60)])


@prop('C06')
def c06(run):
    plans = [('forms%d' % i, ['cast', 'form1', 'probe1'], 'all', 1, MASSES, DIRS, s) for i, s in enumerate(seeds(run, 3, 30))]
    spinor(run, plans, keep=lambda ev, why: ev['op'][0] == 's')


@prop('C07')
def c07(run):
    run.model('SpinorCache', PRODUCT % ('none', run.pick(6, 8)), 'SpinorCache, two particles and a product')
    run.mutant('SpinorCache', PRODUCT % ('keepval', 6), 'keepval')
    plans = [('touch%d' % i, ['cast', 'legal1', 'v1', 'touch1', 'upd1', 'probe1', 'touch1', 'upd1', 'probe1'], 'some', run.pick(900, 12000), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 4, 8))]
    plans += [('long%d' % i, ['cast'] + ['any'] * 80, 'some', run.pick(15, 100), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 8, 32))]
    spinor(run, plans, keep=lambda ev, why: ev['op'][0] == 's')


@prop('C08')
def c08(run):
    run.model('SpinorCache', PRODUCT % ('none', run.pick(5, 7)), 'SpinorCache, two particles and a product')
    plans = [('badv%d' % i, ['cast', 'form1', 'v1', 'badv1', 'badv1', 'probe1'], 'some', run.pick(1500, 20000), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 4, 8))]
    plans += [('forms%d' % i, ['cast', 'form1', 'badv1', 'probe1', 'badv1'], 'some', run.pick(1500, 20000), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 2, 8))]
    plans += [('touch%d' % i, ['cast', 'legal1', 'v1', 'touch1', 'upd1', 'badv1', 'probe1'], 'some', run.pick(900, 12000), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 2, 8))]
    spinor(run, plans, keep=lambda ev, why: ev['op'][0] == 's')


# ---------------------------------------------------------------- processes
def calls(rows):
    return [' '.join(map(str, r)) for r in rows]


def split(lines, head):
    """Cuts a script into histories, each starting with a call of the given kind."""
    hs = []
    for l in lines:
        if l.split(' ', 1)[0] == head or not hs:
            hs.append([])
        hs[-1].append(l)
    return hs


def judging(tol, double):
    return dict(RELTOL=tol, PRECISION='double' if double else 'long')


def processes(run, module, plan, tol='1e-10', env=None, head='new', only=None, shards=16, keep=lambda ev, why: True, double=False):
    """Generates, replays and judges one script per shard of the process classes."""
    exe = vlib.driver('sm', double)
    cls = only or vlib.sm_classes()
    shards = min(shards, len(cls))

    def one(k):
        mine = cls[k::shards]
        with vlib.Scratch() as d:
            e = dict(env or {}, SEED=str(run.seed))
            for n, v in dict(plan, CLASSES=mine).items():
                e[n] = '%s/%s.json' % (d, n)
                with open(e[n], 'w') as f:
                    vlib.json.dump(v, f)
            rows, st = vlib.generate(module, 'INIT Init\nNEXT Next\n', env=e, only=mine)
        hs = split(calls(rows), head)
        lines = [c for h in hs for c in h]
        tr = vlib.replay(exe, lines)
        rej, js = vlib.judge('TraceSM', tr, env=judging(tol, double), only=mine)
        return hs, lines, tr, rej, js, st
    with vlib.pool() as ex:
        for hs, lines, tr, rej, js, st in ex.map(one, range(shards)):
            run.generated(st)
            run.account(hs, tr, js)
            run.collect(exe, 'TraceSM', hs, lines, tr, rej, None, keep)


def regimes(mom, *ask):
    """Steps that visit the regimes of masses, energies, angles and frames."""
    plan = []
    for new, moms in (('new1 tiny minus', ('soft', 'close', 'soft tilted')), ('new1 heavy wide lowh', ('', 'forward', 'high')),
                      ('new1 equal narrow weak', ('side', 'backward fast', 'close')), ('new1 light highh', ('tilted', 'high', 'forward tilted')),
                      ('new1 tiny narrow lightW', ('', 'side soft'))):
        plan.append(new)
        for m in moms:
            plan.append((mom + ' ' + m).strip())
            plan += ask
    return plan


@prop('C14')
def c14(run):
    processes(run, 'GenValues', dict(NPAR=run.pick(2, 6), NMOM=run.pick(3, 14)))
    sessions(run, [('regimes', regimes('mom1', 'sweep1') * run.pick(1, 5), None)])


def sessions(run, plans, tol='1e-10', only=None, shards=16, module='TraceSM', gen='GenSession', env=None, keep=lambda ev, why: True, driver='sm', double=False):
    """plans: (name, plan, count or None for one behaviour per class); the classes are dealt out anew for each seed."""
    exe = vlib.driver(driver, double)
    cls = sorted(only or vlib.sm_classes())
    vlib.random.Random(run.seed).shuffle(cls)
    shards = min(shards, len(cls))

    def one(k):
        mine = cls[k::shards]
        hs, sts = [], []
        for name, plan, count in plans:
            b, st = vlib.behaviours(gen, dict(env or {}, SEED=str(run.seed), NAME=name), dict(PLAN=[p.split(' ') for p in plan], COUNT=count or len(mine), CLASSES=mine), only=mine)
            hs += b
            sts.append(st)
        lines = [c for h in hs for c in h]
        tr = vlib.replay(exe, lines)
        rej, js = vlib.judge(module, tr, env=judging(tol, double), only=mine)
        return hs, lines, tr, rej, js, sts
    with vlib.pool() as ex:
        for hs, lines, tr, rej, js, sts in ex.map(one, range(shards)):
            for st in sts:
                run.generated(st)
            run.account(hs, tr, js)
            run.collect(exe, module, hs, lines, tr, rej, None, keep)


WALK = 'walk one1 early1 inner1 vev1 reagain1 old1 again1 mom1'
PROCESS = 'SPECIFICATION Spec\nPROPERTY AlwaysCurrent\nPROPERTY AcceptsValid\nVIEW SymView\nCONSTANTS Ext={1,2}\nInn={1,2}\nOthers={1,2}\nMutant="%s"\n'


@prop('C15')
def c15(run):
    run.model('ProcessCache', PROCESS % 'none')
    for m in ('leg2', 'propagator', 'coupling', 'sameskip', 'keepval', 'denominator'):
        run.mutant('ProcessCache', PROCESS % m, m)
    steps = ['new1', 'mom1', 'sweep1', 'masses1', 'sweep1', 'retry1', 'few1', 'inner1', 'sweep1', 'one1', 'square1', 'few1', 'excursion1', 'few1', 'square1', 'again1', 'square1', 'reagain1', 'few1', 'same1', 'few1', 'old1', 'few1', 'mom1', 'square1', 'vev1', 'few1', 'twice1', 'few1', 'at1', 'square1', 'early1', 'few1', 'square1', 'back1', 'few1', 'square1', 'base1', 'few1', 'square1', 'frame1', 'few1', 'square1', 'early1', 'square1']
    plans = [('each', steps, None), ('walks', ['new1', 'mom1'] + [WALK, 'square1'] * 2, None), ('inner', ['new1 light', 'mom1', 'square1', 'inner1', 'square1', 'sweep1', 'inner1', 'sweep1', 'vev1', 'square1', 'excursion1 light', 'sweep1', 'masses1 light', 'square1', 'inner1', 'square1'], None)]
    if not run.quick:
        plans += [('each%d' % i, ['new1', 'mom1', 'sweep1', 'one1', 'sweep1', 'refuse1', 'mom1', 'sweep1', 'vev1', 'sweep1', 'masses1', 'square1', 'sweep1', 'one1', 'few1', 'square1'], None) for i in range(6)]
    sessions(run, plans)


def about(*laws):
    """Keeps the rejections in which one of the laws failed; the reasons name them."""
    return lambda ev, why: any('"%s"' % l in why for l in laws)


LAWS = ['new1', 'base1', 'sweep1', 'frame1', 'squares1', 'swap1', 'square1', 'swapout1', 'square1', 'frame1', 'squares1', 'masses1', 'base1', 'sweep1', 'frame1', 'square1', 'frame1', 'squares1']


@prop('C16')
def c16(run):
    sessions(run, [('sums', ['new1', 'mom1', 'sweep1', 'squares1', 'masses1', 'sweep1', 'squares1', 'mom1', 'sweep1', 'squares1'] * run.pick(1, 4), None), ('regimes', regimes('mom1', 'sweep1', 'squares1') * run.pick(1, 4), None)], module='TraceLaws', keep=about('sum'))


@prop('C17')
def c17(run):
    sessions(run, [('frames', ['new1'] + ['base1', 'squares1'] + ['frame1', 'squares1'] * 4 + ['masses1', 'base1', 'squares1'] + ['frame1', 'squares1'] * run.pick(3, 20), None),
                   ('tilted', [x for new in ('new1 minus', 'new1 light lowh', 'new1 heavy highh', 'new1 tiny weak') for b in ('', ' forward', ' side')
                               for x in (new, 'base1' + b + (' soft' if 'tiny' in new else ''), 'squares1', 'frame1 tilted', 'squares1', 'frame1 tilted', 'squares1', 'frame1 fast', 'squares1', 'frame1', 'squares1')] * run.pick(1, 4), None)], module='TraceLaws', keep=about('frame'))


@prop('C20')
def c20(run):
    sessions(run, [('swaps', (['narrow1', 'base1', 'sweep1', 'square1', 'swap1', 'square1', 'swapout1', 'square1', 'new1', 'base1', 'square1', 'swap1', 'square1', 'swapout1', 'square1', 'frame1', 'square1']) * run.pick(1, 5), None)],
             module='TraceLaws', keep=about('exchange', 'parity', 'frame'))
    sessions(run, [('family%d' % i, ['family'], 11) for i in range(run.pick(3, 30))], module='TraceLaws', shards=1, keep=about('partner'))
    sessions(run, [('light', ['new1 tiny narrow', 'base1', 'square1', 'base1', 'square1', 'masses1', 'new1 tiny narrow minus', 'base1', 'square1'] * run.pick(1, 5), None)], module='TraceLaws', keep=about('partner'))


@prop('C18')
def c18(run):
    cls = [c for c in vlib.sm_classes() if vlib.has_width(c)]
    peaks = ['light1', 'peak1', 'sweep1', 'peakb1', 'sweep1', 'peakc1', 'few1', 'square1', 'lightmasses1', 'sweep1', 'peakb1', 'few1', 'square1']
    widths = [x for how in (' thin', ' wide') for x in ('light1' + how, 'peak1', 'sweep1', 'lightmasses1' + how, 'few1', 'square1', 'peakb1', 'few1', 'lightmasses1', 'square1')]
    sessions(run, [('peaks', peaks * run.pick(1, 6), None), ('widths', widths * run.pick(1, 4), None)], only=cls)


@prop('C19')
def c19(run):
    together = ['new1', 'new2', 'new3', 'mom1', 'mom2', 'mom3', 'few1', 'few2', 'few3', 'masses2', 'few1', 'few3', 'few2', 'retry1', 'few2', 'few1', 'masses3', 'square2', 'few1', 'free2', 'few1', 'few3', 'new2', 'few1', 'mom2', 'few2']
    twins = ['new1', 'mom1', 'square1'] + ['twin2', 'square2', 'few2', 'few1', 'square1'] * 3 + ['mom1', 'square1', 'twin2', 'few2', 'square2', 'inner1', 'square1', 'square2', 'few2']
    plans = [('together', together, None), ('twins', twins, None), ('copy', ['new1', 'mom1', 'few1', 'copy12', 'mom2', 'few1', 'square2', 'few2'], 1)]
    plans += [('any%d' % i, ['any'] * 40, run.pick(3, 40)) for i in range(run.pick(1, 3))]
    sessions(run, plans)


# ---------------------------------------------------------------- the rest of the core library
def core(run, plans, keep=lambda ev, why: True):
    """plans: (name, plan, mode, count)"""
    exe = vlib.driver('core')

    def gen(p):
        name, plan, mode, count = p
        return vlib.behaviours('GenCore', dict(SEED=str(run.seed), NAME=name, MODE=mode), dict(PLAN=plan, COUNT=count))
    hist = []
    with vlib.pool() as ex:
        for bs, st in ex.map(gen, plans):
            run.generated(st)
            hist += bs
    run.conform(exe, 'TraceCore', hist, keep=keep)


@prop('C09')
def c09(run):
    core(run, [('spins', ['spins'], 'all', 1), ('slong', ['spinslong'] * 4, 'some', run.pick(15, 200))] + ([] if run.quick else [('s7', ['spins7'], 'all', 1), ('s8', ['spins8'], 'all', 1)]))


@prop('C10')
def c10(run):
    n = run.pick(100, 1500)
    core(run, [('prop%d' % i, ['gnews'] + ['gany'] * 25 + ['gdens'], 'some', n) for i in range(4)])


@prop('C11')
def c11(run):
    core(run, [('each', ['loadall', 'alg'], 'all', run.pick(2, 20)), ('eachmom', ['loadmom', 'alg'], 'all', run.pick(2, 20)),
               ('gets', ['loadall', 'gets'], 'all', 1), ('dets', ['loadmom', 'dets'], 'some', run.pick(40, 500)),
               ('nudge', ['loadall', 'nudge'], 'all', run.pick(10, 100)), ('almost', ['almost'], 'all', run.pick(8, 80))]
         + [('long%d' % i, ['load'] + ['alg'] * 12 + ['load'] + ['alg'] * 12, 'some', run.pick(40, 400)) for i in range(4)])


@prop('C12')
def c12(run):
    run.model('SpinorLaws', 'SPECIFICATION Spec\nINVARIANT Single\nINVARIANT Pair\n', env=dict(SEED=str(run.seed)))
    core(run, [('rot%d' % i, ['rots'], 'all', run.pick(12, 200)) for i in range(4)] + [('boost%d' % i, ['boosts'], 'all', run.pick(15, 300)) for i in range(4)])


@prop('C13')
def c13(run):
    core(run, [('init', ['hinit'] * 10, 'some', run.pick(20, 300)), ('mom', ['hmom'] * 10, 'some', run.pick(10, 100)), ('move', ['hmove'] * 10, 'some', run.pick(20, 300))]
         + [('runs%d' % i, ['hruns'], 'all', run.pick(1, 6)) for i in range(2)])


@prop('C21')
def c21(run):
    core(run, [('rnd', ['rnds'], 'all', run.pick(2, 20))])


@prop('C22')
def c22(run):
    core(run, [('list', ['mstrs'], 'all', 1), ('num', ['mstr'] * 20, 'some', run.pick(20, 400)), ('vec', ['vmstr'] * 10, 'some', run.pick(15, 300)), ('mat', ['mmstr'] * 10, 'some', run.pick(15, 300))])


@prop('C23')
def c23(run):
    n = run.pick(500, 8000)
    plans = [('copies%d' % i, ['cast', 'legal1', 'v1', 'legal2', 'v2', 'copy2', 'probe2', 'probe1', 'touch1', 'upd2', 'probe2', 'touch1', 'upd1', 'probe1', 'upd2', 'probe2'], 'some', n, MASSES, DIRS, s) for i, s in enumerate(seeds(run, 3, 8))]
    plans += [('gone%d' % i, ['cast', 'legal1', 'copy2', 'v2', 'free1', 'probe2', 'touch2', 'upd2', 'probe2', 'back1', 'self1', 'probe1', 'touch1', 'upd1', 'probe1', 'upd2', 'probe2'], 'some', n, MASSES, DIRS, s) for i, s in enumerate(seeds(run, 3, 8))]
    plans += [('renew%d' % i, ['cast', 'legal1', 'copy2', 'probe2', 'touch1', 'upd1', 'v1', 'copy2', 'probe2', 'touch1', 'upd1', 'copy2', 'probe2'], 'some', n, MASSES, DIRS, s) for i, s in enumerate(seeds(run, 3, 8))]
    plans += [('long%d' % i, ['cast'] + ['anycopy'] * 80, 'some', run.pick(15, 100), MASSES, DIRS, s) for i, s in enumerate(seeds(run, 6, 24))]
    spinor(run, plans, keep=lambda ev, why: ev['op'][0] == 's')


@prop('C24')
def c24(run):
    core(run, [('text%d' % i, ['texts'], 'all', run.pick(25, 400)) for i in range(4)])


@prop('C25')
def c25(run):
    plan = ['new1', 'mom1', 'sweep1', 'square1', 'masses1', 'sweep1', 'retry1', 'few1', 'square1', 'excursion1', 'few1', 'square1', 'again1', 'square1', 'reagain1', 'few1', 'same1', 'few1', 'old1', 'few1', 'mom1', 'square1', 'twice1', 'few1', 'early1', 'sweep1', 'square1', 'back1', 'few1', 'square1', 'base1', 'few1', 'square1', 'frame1', 'few1', 'square1', 'early1', 'square1']
    sessions(run, [('alone', plan, run.pick(12, 200)), ('regimes', regimes('mom1', 'sweep1', 'square1'), run.pick(6, 100)), ('any', ['any'] * 40, run.pick(10, 100))], only=['eemmQED'], driver='user')


@prop('C26')
def c26(run):
    processes(run, 'GenValues', dict(NPAR=run.pick(2, 6), NMOM=run.pick(3, 14)), double=True, tol='1e-7')
    sessions(run, [('regimes', regimes('mom1', 'sweep1') * run.pick(1, 5), None)], double=True, tol='1e-7')
    sessions(run, [('each', ['new1', 'mom1', 'square1', 'masses1', 'sweep1', 'retry1', 'few1', 'inner1', 'few1', 'square1', 'again1', 'square1', 'old1', 'few1', 'early1', 'square1', 'at1', 'square1'] * run.pick(1, 4), None)], double=True, tol='1e-7')


# ---------------------------------------------------------------- threads
THREADS = 'SPECIFICATION Spec\nINVARIANT Alone\nCONSTANTS Workers={1,2,3}\nSettings={"a","b"}\nMutant="%s"\n'


def together(run, exe, module, groups, ms, env=None, only=lambda g: None):
    """Replays each group of histories in threads, one group after the other, and judges every different record."""
    done = [(g, vlib.replay_threads(exe, g, max(4, vlib.CORES), ms)) for g in groups]

    def one(x):
        g, (hs, tr) = x
        rej, st = vlib.judge(module, tr, env=env, only=only(g))
        return hs, tr, rej, st
    with vlib.pool() as ex:
        for hs, tr, rej, st in ex.map(one, done):
            run.account(hs, tr, st)
            run.collect(exe, module, hs, [c for h in hs for c in h], tr, rej, env, lambda ev, why: True)


@prop('C27')
def c27(run):
    run.model('Threads', THREADS % 'none')
    for m in ('shared', 'stale'):
        run.mutant('Threads', THREADS % m, m)
    n = max(4, vlib.CORES)
    # particles, products and matrices
    exe = vlib.driver('core')
    tab = vlib.points(run.seed)
    bs, st = vlib.behaviours('GenSpinor', dict(SEED=str(run.seed), NAME='threads', MODE='some'), dict(PLAN=['cast'] + ['any'] * 40, COUNT=n * run.pick(6, 60), MASSES=MASSES, DIRS=DIRS))
    run.generated(st)
    hs = [[' '.join(tab.get(w, w) for w in c.split(' ')) for c in b] for b in bs]
    together(run, exe, 'TraceSpinor', [hs[i::run.pick(6, 60)] for i in range(run.pick(6, 60))], 400)
    groups = []
    for name, plan in (('alg', ['load'] + ['alg'] * 12), ('prop', ['gnews'] + ['gany'] * 12 + ['gdens']), ('rot', ['rots', 'boosts', 'rots']), ('spins', ['spins'] * 4), ('text', ['mstr', 'vmstr', 'mmstr', 'texts', 'texts'])):
        bs, st = vlib.behaviours('GenCore', dict(SEED=str(run.seed), NAME=name + 'threads', MODE='some'), dict(PLAN=plan, COUNT=n * run.pick(1, 10)))
        run.generated(st)
        groups += [bs[i:i + n] for i in range(0, len(bs), n)]
    together(run, exe, 'TraceCore', groups, 400)
    # processes: as many objects of one class as there are threads at a time
    exe = vlib.driver('sm')
    plan = [p.split(' ') for p in ['new1', 'mom1', 'square1', 'few1', 'masses1', 'few1', 'square1']]
    cls = sorted(vlib.sm_classes())

    def gen(mine):
        return vlib.behaviours('GenSession', dict(SEED=str(run.seed), NAME='threads'), dict(PLAN=plan, COUNT=n * len(mine), CLASSES=mine), only=mine)
    parts = [cls[k::16] for k in range(16)]
    groups = []
    with vlib.pool() as ex:
        for mine, (bs, st) in zip(parts, ex.map(gen, parts)):
            run.generated(st)
            groups.append([b for c in mine for b in bs if b[1].split(' ')[2] == c])
    together(run, exe, 'TraceSM', groups, run.pick(120, 600), env=judging('1e-10', False), only=lambda g: sorted({b[1].split(' ')[2] for b in g}))
