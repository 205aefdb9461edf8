#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, quant, why, files, state, mech, observe, level_note, technique, hook=False):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook),
                      note=level_note, technique=technique))


PART = ['source/particle.cpp', 'include/particle.h']
SPRO = ['source/sproduct.cpp', 'include/sproduct.h']
SM = ['SM/*.cpp', 'include/process.h', 'source/process.cpp']
GEN = 'TLC generates the behaviours from the specification, the code replays them, and TLC judges every recorded call against the specification'

prop('C01', 'Spinors have their defined value for every mass and on-shell momentum',
     'For every mass and every on-shell momentum, each of the angle and square spinors, left and right, with upper or lower spin index, as single vectors and as two-by-two matrices over both spins, equals the value its definition gives for that mass and momentum, including light particles at high energy and momenta along or near any axis. '
     'Massless particles give helicity spinors, massive ones spin spinors.',
     ['inputs'], 'all masses (zero, tiny, comparable to, larger than the energy) and all on-shell momenta in any direction, every spinor form and spin label',
     'Unit tests look at a few random momenta and mostly compare one form of the code against another; the values over all kinematic regions and forms are unbounded.',
     PART, [('c, s, sqrtEpP, sqrtEmP', 'half-angle and energy factors all spinors are made of', 'source/particle.cpp:70 particle::update'),
            ('rangleUpperP1 ... rsquareLowerM1', 'memoised spinors', 'include/particle.h:41-64')],
     [('update derives the factors from the momentum', 'source/particle.cpp:70'), ('spinor accessors', 'source/particle.cpp:157-420'), ('matrix forms', 'source/particle.cpp:424-500')],
     'return values of rangle, langle, rsquare, lsquare and the _matrix forms',
     'All kinematic corners named by the specification (7 masses x 46 directions x every form) per seed, values judged to 1e-11; other momenta are sampled.',
     'TLA+ specification of the spinors (Spinor.tla, ParticleState.tla); ' + GEN)

prop('C02', 'A particle answers from its latest mass and momentum whatever was asked before',
     'Whatever sequence of constructions, copies, assignments, mass changes, momentum changes, refreshes and queries a particle has been through, in whatever order, every query after the particle was last brought up to date answers exactly as a newly made particle of the same mass and momentum would. '
     'Copies are independent of their original, and queries change nothing.',
     ['histories', 'inputs'], 'all finite histories of calls on any number of particles, all masses and on-shell momenta',
     'There are 20 separately memoised results and six ways to change a particle; a forgotten invalidation shows only for the right pair of earlier query and later change, and tests build a particle once.',
     PART, [('upMatCalculated, m0rangleCalculated, rangleUpperP1Calculated, ... (20 flags)', 'which results are memoised', 'include/particle.h:38-64'), ('m, p', 'mass and momentum', 'include/particle.h:30')],
     [('invalidation', 'source/particle.cpp:86-107'), ('memoisation in every accessor', 'source/particle.cpp:138-420'), ('changes', 'source/particle.cpp:51-58')],
     'return values of all queries of particle',
     'The memo model closes (all reachable states for two particles and two or three masses); every query x every way to change x every query is replayed; longer histories are sampled.',
     'Exhaustive TLC check of the memo model against the specification (SpinorCache.tla) with broken variants that must fail; ' + GEN)

prop('C03', 'Impossible particle requests are refused and do no lasting harm',
     'A momentum that is not on the particle\'s mass shell, or whose components are not numbers, is refused when given; a spinor form that does not exist for the particle (spin labels on a massless particle, none on a massive one, a spin label other than plus or minus one) is refused when asked for. '
     'After a refusal the particle still works: valid queries and a following valid change give the right values.',
     ['histories', 'inputs'], 'all histories that mix valid and invalid requests, all masses, off-shell momenta and invalid labels',
     'Tests check a handful of refusals on freshly made particles; whether a refusal is lost because a value was memoised earlier, or leaves the particle damaged, depends on the history.',
     PART, [('memo flags', 'a memoised value can bypass the validity check', 'include/particle.h:38-64')],
     [('mass shell check', 'source/particle.cpp:74'), ('form and label checks', 'source/particle.cpp:161-413')],
     'exceptions and return values of particle',
     'Every query followed by every invalid request, every invalid change with every recovery; momenta between 2e-11 and 1e-8 off shell are left unspecified.',
     GEN + ' (SpinorMachine.tla, TraceSpinor.tla)')

prop('C04', 'Momentum matrices, dot products and angles agree with the momentum',
     'For every particle the upper and lower momentum matrices have the entries the momentum defines, and so determinant mass squared and product mass squared times unity; the dot product of two particles is their Minkowski product; mass and momentum components are returned as given, and the angle self test reports agreement.',
     ['inputs', 'histories'], 'all masses and on-shell momenta, in any order of queries',
     'Tests compare a few random momenta; the axes, the poles, particles at rest and large energies each take other paths through the angle functions.',
     PART, [('theta, phi, pxymag, pmag', 'angles and magnitudes', 'include/particle.h:32-33'), ('upMat, loMat', 'memoised matrices', 'include/particle.h:39')],
     [('umat, lmat, dot, test_angles', 'source/particle.cpp:109-155')],
     'return values of umat, lmat, dot, mass, get_mass, get_momentum, test_angles',
     'All mass x direction corners of the specification, each with dot products against two other particles.',
     GEN + ' (ParticleState.tla, TraceSpinor.tla)')

prop('C05', 'Spin and Lorentz generators act on the spinors as angular momentum',
     'The spin generators obey the angular momentum algebra and, for every massive particle, each Lorentz generator acting on the spinors of its chirality raises, lowers or measures exactly the spin label the corresponding spin generator does; for massless particles they measure the helicity and the ladder generators annihilate or vanish as defined. '
     'This holds for every mass, including masses far below the energy.',
     ['inputs'], 'all masses and on-shell momenta, all eighteen generators',
     'Tests apply the generators at a few random momenta with comparable mass and energy; the relation is a statement about all of them.',
     PART, [('c, s, sc, pmag, m', 'direction and boost of the particle', 'include/particle.h:30-35')],
     [('generators', 'source/particle.cpp:520-760')],
     'return values of spin_j*_* and lorentz_j*_*',
     'All mass x direction corners of the specification, every generator, judged to 1e-10 relative to its size.',
     'TLA+ definition of the generators by their action on the specified spinors (ParticleState.tla); ' + GEN)

prop('C06', 'Every spinor product has the value of its bracket expression',
     'A spinor product built from a left spinor, any chain of zero to six momenta and a right spinor, with any choice of angle or square bracket and of upper or lower spin indices, equals the bracket expression of its particles for all spin labels; the right bracket type follows from the chain length and momenta alternate between the two matrix forms.',
     ['programs', 'inputs'], 'all constructor forms, chain lengths 0 to 6, massless or massive ends, repeated particles, all on-shell momenta and spin labels',
     'There are 28 constructors times bracket type times massless or massive ends times spins, and each must keep its own order of momenta; tests check only some at a few momenta.',
     SPRO + PART, [('pL, p[6], pR, N', 'the particles of the product', 'include/sproduct.h:31-35'), ('pMat', 'product of the inner momenta', 'include/sproduct.h:33'), ('isLeftUpper, isRightUpper', 'position of the spin index', 'include/sproduct.h:44')],
     [('constructors', 'source/sproduct.cpp:38-248'), ('chain', 'source/sproduct.cpp:251'), ('values', 'source/sproduct.cpp:287-470')],
     'return values of v(), v(j), v(jL,jR)',
     'All 2016 constructor forms over massless and massive ends with every spin, for several casts of momenta per run.',
     'TLA+ definition of bracket expressions (Spinor.tla Bracket); ' + GEN)

prop('C07', 'A refreshed spinor product answers for the current particles',
     'After any of its particles was changed (momentum, mass, from massless to massive or back) and the product was refreshed, every value it returns is that of the current masses and momenta, no matter which values were asked for before, in which order, or how often. Values that were already computed are not disturbed by asking for others.',
     ['histories', 'inputs'], 'all histories of changes, refreshes and value requests over several products sharing particles',
     'The value is memoised per spin pair and the inner chain separately; a stale entry is visible only if the same entry was asked before the change, which tests rarely do.',
     SPRO, [('isCalculated[2][2], product[2][2]', 'memoised values per spin', 'include/sproduct.h:47-48'), ('pMat', 'memoised inner chain', 'include/sproduct.h:33'), ('isLeftMassive, isRightMassive', 'what kind of spinor the ends are', 'include/sproduct.h:38')],
     [('update', 'source/sproduct.cpp:251'), ('v', 'source/sproduct.cpp:287-470')],
     'return values of v after update',
     'Random and structured histories over up to four products sharing six particles; the memo model is checked for all states of one product.',
     'TLC check of the memo model (SpinorCache.tla); ' + GEN)

prop('C08', 'Spinor product misuse is refused and leaves the product usable',
     'Asking a product for the wrong number of spin labels for its ends, or for a label other than plus or minus one, or building or refreshing it with a lower spin index on a massless end, is refused with an error instead of returning some number; afterwards valid requests still give the right values.',
     ['histories', 'inputs', 'programs'], 'all product forms, all label counts and values, before and after valid requests and changes of the particles',
     'Whether a wrong request is refused may depend on what was computed before and on the current masses; tests only try a few on new products.',
     SPRO, [('isCalculated', 'a memoised entry can bypass the check', 'include/sproduct.h:47'), ('isLeftMassive, isRightMassive', 'number of labels needed', 'include/sproduct.h:38')],
     [('checks in v and update', 'source/sproduct.cpp:251-400')],
     'exceptions and return values of v, update and constructors',
     'All forms x label counts x labels {-2,-1,0,1,2,3} sampled with and without earlier requests.',
     GEN + ' (SpinorMachine.tla)')

prop('C14', 'Every Standard Model process gives its defined amplitude and rate',
     'For every provided process class, every admissible choice of charges, masses and widths and every momentum configuration, each helicity or spin amplitude and the squared amplitude equal the expression that defines the process, summed over final and averaged over initial spins and colours with the proper symmetry factors, including every diagram, coupling, sign, width and colour factor.',
     ['inputs', 'programs'], 'all 141 process classes, parameters, momenta and spin assignments',
     'Tests compare squared amplitudes with tables at one or two parameter points where widths are zero and many terms coincide or cancel; amplitudes with spin labels are never compared.',
     SM, [('masses, couplings, prefactors, propagators', 'parameters of a process', 'SM/*.cpp set_masses and constructors'), ('spinor products', 'the brackets of the process', 'SM/*.cpp set_momenta')],
     [('amp', 'SM/*.cpp'), ('amp2 and its variants', 'SM/*.cpp')],
     'return values of amp and amp2 and its variants of every class',
     'All classes at several parameter and momentum points per run, every spin assignment, judged to 1e-10; the expressions were transcribed once from the code and validated against the reference tables and the relations of C16-C20.',
     'TLA+ specification of all 141 processes (spec/sm); ' + GEN)

CORE = ['source/process.cpp', 'include/process.h']

prop('C09', 'The spin-one bookkeeping covers exactly the spin-half decompositions',
     'For any list of spin-one particles with spins plus one, zero and minus one, the number of decompositions, the normalisation and the sequence of spin-half pairs produced together visit every way of writing each spin as two spin-half labels exactly once, with the weight a symmetrised spin-one state requires. '
     'The one to six particle calls and the list call agree.',
     ['inputs', 'programs'], 'all assignments of spins to one to eight particles and all positions of the enumeration, in every call form',
     'Tests try a few assignments of few particles; a wrong carry in the enumeration shows up only with several zero spins in particular positions.',
     CORE, [('iterator', 'position in the enumeration of decompositions', 'source/process.cpp:148')],
     [('counting', 'source/process.cpp:49-78'), ('normalisation', 'source/process.cpp:80-110'), ('enumeration', 'source/process.cpp:112-180')],
     'return values of get_num_spin_loops, get_spin_normalization and get_spinor_spins',
     'All assignments of up to six particles in all call forms (up to eight in the list form when thorough); exhaustive within that bound.',
     'TLA+ definition of the decompositions (Harness.tla, TraceCore.tla); ' + GEN)

prop('C10', 'Propagator denominators use the latest mass and width',
     'For every momentum the denominator of a propagator is the squared momentum minus the squared mass minus i times mass times width, with the mass and width most recently given, in whatever order and however often they were set, and independently for every propagator. '
     'This holds for time-like, light-like and space-like momenta and asking changes nothing.',
     ['histories', 'inputs'], 'all histories of construction, mass and width changes and questions over several propagators; all momenta, masses and widths',
     'Tests compare the denominator of new propagators only, mostly at zero width.',
     ['source/propagator.cpp', 'include/propagator.h'], [('m, w', 'mass and width', 'include/propagator.h:29-30')],
     [('set_mass, set_width', 'source/propagator.cpp:36-41'), ('denominator', 'source/propagator.cpp:45')],
     'return values of denominator',
     'Random histories of 25 calls on three propagators, several hundred per run, plus the denominators of every momentum kind.',
     'TLA+ state machine of propagators (GenCore.tla, TraceCore.tla); ' + GEN)

prop('C11', 'Complex vectors and matrices obey their algebra, alone and in sequences',
     'Every operation on two component complex vectors and two by two matrices (access, conjugate, sums, differences, negation, all products, quotients, scalings by complex, real and integer numbers, outer product, determinant, comparison, assignment forms) gives the value linear algebra defines. '
     'Only the object assigned to changes, and results may be used as operands in any later operation.',
     ['programs', 'histories', 'inputs'], 'all sequences of operations on several vectors and matrices with any entries',
     'There are about sixty overloads, and tests check few of them on few values; aliasing (an object used as operand of its own assignment) is not tested.',
     ['source/cmatrix.cpp', 'include/cmatrix.h', 'source/cvector.cpp', 'include/cvector.h'],
     [('mat, vec', 'entries', 'include/cmatrix.h, include/cvector.h')],
     [('matrix operations', 'source/cmatrix.cpp:60-200'), ('vector operations', 'source/cvector.cpp:46-125')],
     'values of the objects after each operation',
     'Every operation on every kind of operand several times, random programs of 24 operations; comparison is judged only clearly inside or outside its tolerance.',
     'TLA+ definition of the algebra (Algebra.tla); ' + GEN)

prop('C12', 'Rotations and boosts of momenta are the Lorentz transformations they name',
     'Rotating a momentum about an axis by any angle, of either sign and any size, and boosting it by any velocity below that of light, zero included, gives the momentum that Lorentz transformation gives: same invariant mass, same sense of rotation, energy scaled as special relativity demands. '
     'Axis and velocity may point anywhere and the momentum may be massless, massive, at rest or space-like.',
     ['inputs'], 'all momenta, axes, angles and velocities below one',
     'Tests only check that the mass is unchanged, which a wrong direction or angle does not alter.',
     ['source/utilities.cpp', 'include/utilities.h'], [('momentum', 'changed in place', 'source/utilities.cpp:57-92')],
     [('rotate_momentum', 'source/utilities.cpp:57'), ('boost_momentum', 'source/utilities.cpp:72')],
     'the momentum after the call',
     'Every listed axis, angle and velocity corner with sampled momenta, several thousand calls per run.',
     'TLA+ definition of the transformations (Lorentz.tla); ' + GEN)

prop('C13', 'The 2 to 2 comparison runs the right kinematics and counts mismatches',
     'The two-to-two test harness gives the process twenty (times ten for the randomly moved variants) on-shell, momentum conserving configurations at the scattering angles whose reference values are listed, moved by genuine rotations or boosts in the moved variants, and reports exactly the number of squared amplitudes that disagree with the reference. '
     'Values that are not numbers never count as agreement, and the score variant measures the same comparison.',
     ['inputs', 'programs'], 'all masses, beam momenta, reference lists and squared amplitude functions, in every variant',
     'The harness is what the tests themselves rely on; nothing checks that it would notice a wrong amplitude.',
     CORE, [('momenta p1..p4', 'configuration of each comparison', 'source/process.cpp:214-330')],
     [('kinematics', 'source/process.cpp:330-366'), ('comparison loops', 'source/process.cpp:188-330'), ('random moves', 'source/process.cpp:367-400')],
     'momenta given to the process and the returned count or score',
     'Every variant with matching, slightly wrong, wrong and non-number references; random moves are judged by invariants and orientation.',
     'TLA+ model of the harness (Harness.tla); ' + GEN)

prop('C15', 'A process answers from its latest parameters and momenta whatever came before',
     'Whatever was asked of a process object before, and however often its masses, couplings or momenta were changed or a change was refused because the momenta were off shell, once it has valid momenta for its current masses every amplitude and squared amplitude equals that of a new object made with these parameters and given these momenta. '
     'Asking for amplitudes changes nothing.',
     ['histories', 'inputs', 'programs'], 'all histories of construction, mass and momentum changes, refused momenta and questions for every process class',
     'Each class copies its masses, prefactors and propagators by hand in the constructor and again in the mass setter; tests seldom change a mass and never after asking.',
     SM, [('masses, prefactors, propagators of a process', 'copied by hand in two places', 'SM/*.cpp constructors and set_masses'), ('spinor products and particles', 'refreshed in set_momenta', 'SM/*.cpp set_momenta')],
     [('set_masses', 'SM/*.cpp'), ('set_momenta', 'SM/*.cpp')],
     'return values of amp and amp2 and its variants after each change',
     'One or more sessions of about twenty steps (each mass changed alone, all changed, vacuum value changed, refused momenta and retry, repeated and returning momenta) for each of the 141 classes per run.',
     'TLA+ state machine of process objects (TraceSM.tla, GenSession.tla); ' + GEN)

prop('C16', 'Squared amplitudes are the spin and colour sums of the amplitudes',
     'For every process class, the squared amplitude is the sum over all spins, times the sum over colours, of the squared modulus of the amplitudes the same object returns, divided by the number of initial spins and colours and by the factor for identical final particles; the variants with fixed polarisation of an initial photon or gluon are the corresponding partial sums. '
     'The unpolarised square is the average of the polarised ones.',
     ['inputs', 'programs'], 'all process classes, parameters and momenta',
     'Tests compare the squared amplitude with a table, not with the amplitudes; a loop that leaves out a helicity which happens to vanish at the tested point is not seen.',
     SM, [('spin loops and averages', 'loops and factors in each amp2', 'SM/*.cpp')], [('amp2 and its variants', 'SM/*.cpp')],
     'return values of amp for every spin assignment and of amp2 and its variants',
     'All classes with several parameter and momentum points per run; the process particle content is specified by hand independently of the code.',
     'TLA+ laws over the recorded answers (SMLaws.tla, SMParticles.tla, TraceLaws.tla); ' + GEN)

prop('C17', 'Squared amplitudes are the same in every frame',
     'For every process class, the squared amplitude and its variants with fixed photon or gluon helicity do not change when all momenta are rotated or boosted together, in any direction and by any amount, whatever was asked before.',
     ['inputs', 'histories'], 'all process classes, parameters, momenta and Lorentz transformations',
     'Tests apply ten random transformations to one parameter point for the main squared amplitude only; special directions and the polarised variants are not covered.',
     SM + PART, [('spinors', 'each amplitude is built of frame dependent spinors', 'source/particle.cpp:157-420')], [('amp2 and its variants', 'SM/*.cpp')],
     'return values of amp2 and its variants for the moved momenta',
     'All classes, at least seven frames each per run, including frames that put a momentum on or close to an axis.',
     'TLA+ law over the recorded answers (TraceLaws.tla); ' + GEN)

prop('C18', 'Widths are honoured at and around every resonance',
     'For every process class that takes a width, all amplitudes and squared amplitudes at, just above and just below the energy of each resonance are those of the unstable-particle propagator with that mass and width, with the width given at construction and the masses most recently set. '
     'In particular the resonance stays finite, and narrow and broad widths give the right height and phase.',
     ['inputs', 'histories'], 'all process classes with a width, all widths and masses, momenta at and near resonances',
     'Tests run with zero widths or far from resonances, where the width makes no visible difference.',
     SM + ['source/propagator.cpp'], [('propagators', 'mass and width of each exchanged particle', 'SM/*.cpp constructors')],
     [('propagator denominators in set_momenta', 'SM/*.cpp'), ('denominator', 'source/propagator.cpp:45')],
     'return values of amp and amp2 at resonance',
     'All 98 classes with a width; the peak and points around it, every spin assignment, before and after a mass change.',
     'TLA+ specification of the processes evaluated at resonances found by the generator (GenSession.tla, TraceSM.tla); ' + GEN)

prop('C19', 'Process objects do not influence each other',
     'Any number of process objects of the same or different classes used in any interleaving, made, changed, asked and destroyed in any order, each answer exactly as if they were alone; a copy of an object has the state of the original at that time and is from then on independent of it.',
     ['histories', 'programs'], 'all interleavings of calls on up to three objects of any classes, including destruction and copying',
     'Tests use one object at a time; shared static state, or products that refer to particles of another object, show only when objects live together.',
     SM + SPRO, [('particles and spinor products of a process', 'products hold pointers to particles', 'SM/*.cpp, include/sproduct.h:31-35')],
     [('constructors', 'SM/*.cpp')],
     'return values of amp and amp2 of each object',
     'Sessions over three objects for every class plus random interleavings; copying is a known finding.',
     'TLA+ state machine of several process objects (GenSession.tla, TraceSM.tla); ' + GEN)

prop('C20', 'Processes respect the exchange, parity, flavour and time reversal symmetries',
     'The squared amplitude of a process is unchanged when identical initial or final particles (or a particle and its antiparticle when the other two particles are their own antiparticles) exchange their momenta; in processes without weak interactions of fermions, amplitudes with all spins reversed have the same size in the centre of mass frame; and processes that differ only in flavour, charge, colour or direction of time have squares in the proportion of their couplings, colours and initial states. '
     'The last two hold for zero widths.',
     ['inputs', 'programs'], 'all process classes with identical particles, all parity conserving ones and all pairs of related classes; all parameters and momenta',
     'Each class was written on its own and is tested against its own table; no test relates two classes or two configurations.',
     SM, [('amplitude expressions', 'written separately for each crossing', 'SM/*.cpp')], [('amp and amp2', 'SM/*.cpp')],
     'return values of amp2 of related configurations and classes',
     'All related classes and configurations per run at sampled points; partner processes by proportion or, for light fermions, by a common textbook form (120 of 141 classes); one unfinished class is a known finding.',
     'TLA+ laws relating recorded answers (SMParticles.tla, SMLaws.tla, SMLight.tla, TraceLaws.tla); ' + GEN)

prop('C21', 'Random choices stay in their range and random momenta are on shell',
     'Random integers, real and complex numbers lie in the requested range with both ends of an integer range reachable and values not confined to a part of it; a random momentum has components in the range, an energy that makes the returned mass its invariant mass, and a massless one has mass zero. Repeated calls give new values.',
     ['inputs', 'programs'], 'all ranges, negative, degenerate and wide, any number of draws',
     'Tests use the random functions but do not check their results.',
     ['source/utilities.cpp', 'include/utilities.h'], [('random engine', 'state behind successive draws', 'source/utilities.cpp:90-135')],
     [('choose_random_* functions', 'source/utilities.cpp:95-135')],
     'returned numbers and momenta',
     'Several hundred draws for each of the listed ranges; each eighth of a range must be reached, which fails by chance with probability below 1e-24.',
     'TLA+ statement of the ranges over recorded draws (TraceCore.tla); ' + GEN)

prop('C22', 'Mathematica text reads back as the number, vector or matrix it was made from',
     'The Mathematica text of any real number, complex vector or matrix, read by the rules of that language, is the same number within the digits printed, with sign, exponent and imaginary part in the right place, for very small, very large, negative and zero components alike.',
     ['inputs'], 'all finite numbers, vectors and matrices',
     'Tests do not read the text back; exponents and negative imaginary parts matter only for some values.',
     ['source/utilities.cpp', 'source/cvector.cpp', 'source/cmatrix.cpp'], [('text', 'the produced string', 'source/utilities.cpp:38')],
     [('double_to_Mathematica_string', 'source/utilities.cpp:38'), ('to_Mathematica_string', 'source/cmatrix.cpp:219, source/cvector.cpp:145')],
     'returned strings',
     'A grid of magnitudes and signs plus several hundred sampled values per run; the reader is part of the specification.',
     'TLA+ reader of the language (MText.tla); ' + GEN)

prop('C23', 'Copied and assigned spinor products work like the original, independently',
     'A spinor product made by copying another, or one another was assigned to, even one that had belonged to other particles or was made without any, belongs to the same particles and gives the same values as its original. '
     'From then on each is brought up to date with its particles by its own update only, and updating, asking or destroying one does not change what the other answers.',
     ['histories', 'inputs'], 'all histories of constructions, copies, assignments, updates, queries and destructions of several products, with changes of their particles in between',
     'No test copies a product that has been used; whether a copy shares or loses remembered values shows only when original and copy are updated at different times.',
     SPRO, [('pL, pR, p[6]', 'the particles of the product', 'include/sproduct.h:29-30'), ('isCalculated, product, pMat', 'remembered values', 'include/sproduct.h:31-45')],
     [('copying and assignment', 'include/sproduct.h:27'), ('update', 'source/sproduct.cpp:246')],
     'return values of v() of originals and copies',
     'Several thousand histories per run with copies at every stage; which histories is sampled.',
     'TLA+ state machine of particles and products (SpinorMachine.tla, GenSpinor.tla, TraceSpinor.tla); ' + GEN)

prop('C24', 'Plain text of vectors and matrices shows their components',
     'The plain text of a complex vector shows both components in order, as pairs of real and imaginary part or on request as length and angle, and that of a matrix shows its four entries row by row, each to six digits with the right sign. '
     'A stream receives the same text, between what is written before and after it.',
     ['inputs'], 'all finite vectors and matrices, small, large, negative and zero components',
     'Tests print vectors and matrices only when something failed and nobody reads the text back.',
     ['source/cvector.cpp', 'source/cmatrix.cpp'], [('text', 'the produced string', 'source/cvector.cpp:127, source/cmatrix.cpp:204')],
     [('to_string and stream output', 'source/cvector.cpp:127-142, source/cmatrix.cpp:204-216')],
     'returned strings and stream contents',
     'Every layout for several hundred sampled vectors and matrices per run; the reader is part of the specification.',
     'TLA+ reader of the layouts (PlainText.tla); ' + GEN)

prop('C25', 'A user process assembled from assigned parts works like a provided one',
     'A process class of a user whose particles, propagator and spinor products are first made without arguments and then assigned their values, like the example that comes with the library, gives the amplitudes and squared amplitudes of the provided process of the same content, for all parameters and momenta and after any history of changes, refusals and queries.',
     ['histories', 'inputs', 'programs'], 'all histories of calls on objects of the example class, all masses, couplings and on-shell momenta',
     'The example is not part of the test suite at all, and the provided processes do not build their parts this way.',
     ['user-dir/eemm.cpp', 'user-dir/include/eemm.h', 'include/particle.h', 'include/sproduct.h', 'include/propagator.h', 'include/process.h'],
     [('p1..p4, prop, a13a, ...', 'parts assigned after default construction', 'user-dir/include/eemm.h:27-31')],
     [('constructor that assigns the parts', 'user-dir/eemm.cpp:36'), ('default constructors of the parts', 'source/particle.cpp:35, source/sproduct.cpp, source/propagator.cpp')],
     'return values of amp and amp2 of the example',
     'About thirty histories per run over the regimes of masses, energies and frames; values judged to 1e-10.',
     'TLA+ specification of the process (P_eemmQED.tla, TraceSM.tla) applied to the example; ' + GEN)

prop('C26', 'A double precision build accepts the same momenta and gives the same amplitudes',
     'Built without extended precision, the library accepts every on-shell momentum given in double precision and every process gives the amplitudes and squared amplitudes of its definition up to the precision of the numbers, after construction, after changes of masses, and in all regimes of masses, energies, angles and frames.',
     ['configurations', 'inputs', 'histories'], 'the double precision configuration of the build; all process classes, parameters, momenta and spin labels, and histories of changes',
     'The test suite is only built in extended precision; tolerances and constants that are too tight or too precise for double numbers never meet one.',
     ['include/types.h'] + SM + PART + SPRO, [('ldouble', 'the type of all numbers', 'include/types.h:26-30')],
     [('choice of precision', 'CMakeLists.txt:22, include/types.h:26'), ('mass shell tolerance', 'source/particle.cpp:74')],
     'exceptions and return values of all processes of the double precision build',
     'All process classes at several points in every regime per run; values judged to 1e-7, a thousand times what double numbers lose in these regimes.',
     'TLA+ definitions of the amplitudes (spec/sm) with the tolerances of double numbers (TraceSM.tla); ' + GEN)

prop('C27', 'Objects used by different threads at the same time do not disturb each other',
     'When several threads work at the same time, each on particles, spinor products, propagators, matrices, vectors or process objects of its own, every call gives what it would give if its thread were alone, even when the objects are of the same class and the threads keep changing their masses and momenta.',
     ['schedules', 'histories'], 'all interleavings of threads that each work on objects of their own, all classes and histories',
     'The test suite runs in one thread; a variable shared behind the scenes gives wrong values only when two threads meet inside the same function.',
     PART + SPRO + ['source/propagator.cpp', 'source/cmatrix.cpp', 'source/cvector.cpp', 'source/utilities.cpp'] + SM,
     [('all state of an object is its own', 'there are no variables shared between objects', 'include/particle.h, include/sproduct.h, SM/include/*.h')],
     [('memoisation', 'source/particle.cpp:138-420'), ('amplitudes', 'SM/*.cpp')],
     'return values of all calls of all threads',
     'The model of the threads is checked for all interleavings; the code runs eight threads at a time for each class and kind of object, and every different record is judged. Which interleavings the code meets is up to the machine.',
     'Exhaustive TLC check of the model of threads (Threads.tla) with broken variants that must fail; every thread\'s record is judged by the specification of a single thread (TraceSM.tla, TraceSpinor.tla, TraceCore.tla)')


def main():
    with open(VERIF + '/properties.jsonl', 'w') as f:
        for p in sorted(PROPS, key=lambda p: p['id']):
            q = {k: v for k, v in p.items() if k not in ('note', 'technique')}
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    man = dict(version=1, setup_cmd='python3 tools/check.py setup',
               checks=[dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3 tools/check.py ' + p['id'],
                            thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + p['id'], technique=p['technique'],
                            level='model_checking', level_note=p['note']) for p in sorted(PROPS, key=lambda p: p['id'])],
               not_applicable=NA,
               notes='Every check builds its drivers from the current tree of /repo into build/, and runs TLC on the modules in spec/. VERIF_SEED selects the sampled behaviours and numbers.')
    with open(VERIF + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
