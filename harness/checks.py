"""The checks, one function per property."""

MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'


def _driver(c, trace, *args, **kw):
    """Run a driver; report its death on the real code as a violation."""
    parts = kw.pop('parts', 1)
    if parts > 1:
        rc, out = c.drive_parts(parts, *args, **kw)
    else:
        rc, out = c.drive(*args, **kw)
    if rc != 0:
        c.driver_failed(rc, out, 'died')
        return False
    return True


def _modulator(c, mode, what):
    k = 3 if c.quick else 4
    r = c.model('MC_Modulator', MC + 'CONSTANTS K=%d Emit=TRUE\n' % k +
                'INVARIANTS LevelsInv NoOverloadInv ShapingInv BoundInv '
                'EmitInv\n', what='every input word of length %d over the '
                'catalogue of modulators' % k)
    scen = c.scen_file(r, 'scen.json')
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_mod.py', mode, scen, tr):
        c.validate('Trace_Modulator', tr, what=what)


def M01(c):
    _modulator(c, 'm01', 'cycles against the modulator machine')


def M02(c):
    _modulator(c, 'm02', 'returned values under every recording choice')


def M03(c):
    _modulator(c, 'm03', 'backends against one another')


def M04(c):
    _modulator(c, 'm04', 'chunked runs against whole runs')


def M06(c):
    r = c.model('MC_SimArgs', MC + 'CONSTANTS F=%d\nINVARIANTS EmitInv Sane\n'
                % (1 if c.quick else 2), what='simulation requests with at '
                'most %d malformed aspects' % (1 if c.quick else 2))
    scen = c.scen_file(r, 'scen.json')
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_simargs.py', scen, tr):
        c.validate('Trace_SimArgs', tr, what='outcome of every request')


def M05(c):
    tr = c.tmp('trace.json')
    c.model('MC_Modulator', MC + 'CONSTANTS K=%d Emit=FALSE\n'
            'INVARIANTS ShapingInv\n' % (4 if c.quick else 6),
            what='the state-space machine implies the noise-shaping law')
    if _driver(c, tr, 'drv_ntf.py', tr):
        c.validate('Trace_NoiseShaping', tr, what='P(v-u) = N(v-y) on '
                   'recorded runs')


def O01(c):
    n = 200 if c.quick else 2500
    r = c.model('MC_Options', MC + 'CONSTANTS K=4\nINVARIANTS OwnDefaults '
                'EmitInv\n', what='random histories of 4 changes and calls',
                simulate='num=%d' % n, workers=1)
    hist = c.scen_file(r, 'hist.json')
    r = c.model('MC_OptSweep', MC + 'INVARIANTS EmitInv\n',
                what='every option of every function and back end')
    with open(c.scen_file(r, 'sweep.json')) as h, open(hist, 'a') as g:
        g.write(h.read())
    r = c.model('MC_Digest', MC + 'INVARIANTS EmitInv\n',
                what='digested_options over small dictionaries')
    dig = c.scen_file(r, 'dig.json')
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_options.py', hist, dig, tr):
        c.validate('Trace_Options', tr, what='option protocol')


def _relab(c, mode, parts, what):
    files = []
    for part, k in parts:
        r = c.model('MC_Relab', MC + 'CONSTANTS Part="%s" K=%d\nINVARIANTS '
                    'EmitInv PairInv ShiftInv QuantInv\n' % (part, k),
                    what='arguments of the services: %s, up to %d items' % (
                        part, k))
        files.append(c.scen_file(r, part + '.json'))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_relab.py', mode, *(files + [tr])):
        c.validate('Trace_Relab', tr, what=what)


def M07(c):
    _relab(c, 'm07', [('quant', 2)], 'quantized values')


def C01(c):
    _relab(c, 'c01', [('pair', 3 if c.quick else 4)], 'arrangements in pairs')


def A01(c):
    _relab(c, 'a01', [('shift', 3 if c.quick else 4), ('part', 2)],
           'shifts, paddings, partitions')


def B01(c):
    _relab(c, 'b01', [], 'decibels, spacing, rms, chopping, products')


def _signal(c, mode, k, what):
    wide = 'FALSE' if c.quick else 'TRUE'
    files = []
    if k:
        r = c.model('MC_Signal', MC + 'CONSTANTS K=%d Wide=%s\nINVARIANTS '
                    'ParsevalInv CorrInv IrInv EmitInv\n' % (k, wide),
                    what='pairs of integer sequences up to length %d' % k)
        files.append(c.scen_file(r, 'scen.json'))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_signal.py', mode, *(files + [tr])):
        c.validate('Trace_Signal', tr, what=what)


def K01(c):
    _signal(c, 'k01', 3, 'correlations')


def E01(c):
    _signal(c, 'e01', 0, 'values of transfer functions')


def I01(c):
    _signal(c, 'i01', 3, 'impulse responses')


def F01(c):
    _signal(c, 'f01', 0, 'Fourier transforms')


def N01(c):
    _signal(c, 'n01', 2,
            'noise gains and their quadratic form')


def G01(c):
    _signal(c, 'g01', 0, 'rms gains')


def _ntfdes(c, mode, part, k, what):
    files = []
    if part:
        r = c.model('MC_Ntf', MC + 'CONSTANTS Part="%s" K=%d\nINVARIANTS '
                    'OrthInv ChebInv EmitInv\n' % (part, k),
                    what='requests, part %s, up to %d' % (part, k))
        files.append(c.scen_file(r, 'scen.json'))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_ntfdes.py', mode, *(files + [tr])):
        c.validate('Trace_Ntf', tr, what=what)


def Z01(c):
    _ntfdes(c, 'z01', 'zeros', 2, 'optimal zeros, bands, objective')


def Z02(c):
    _ntfdes(c, 'z02', '', 0, 'zeros of the helper functions')


def S01(c):
    _ntfdes(c, 's01', 'schreier', 6 if c.quick else 8, 'Schreier designs')


def S02(c):
    _ntfdes(c, 's02', 'cheby', 6 if c.quick else 8, 'Chebyshev designs')


def S03(c):
    _ntfdes(c, 's03', 'clans', 6 if c.quick else 7, 'CLANS designs')


def _fir(c, mode, part, k, sound, what):
    if sound:
        c.model('MC_Fir', MC + 'CONSTANTS Part="sound" K=%d\nINVARIANTS '
                'GainInv WeakInv MinmaxInv\n' % (4 if c.quick else 8),
                what='soundness of the dual bounds on small instances')
    r = c.model('MC_Fir', MC + 'CONSTANTS Part="%s" K=%d\nINVARIANTS EmitInv'
                '\n' % (part, k), what='design requests, part %s, orders up '
                'to %d' % (part, k))
    scen = c.scen_file(r, 'scen.json')
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_fir.py', mode, scen, tr, parts=6, timeout=800):
        c.validate('Trace_Fir', tr, what=what)


def D01(c):
    _fir(c, 'd01', 'weighted', 6 if c.quick else 12, True,
         'feasibility and optimality of FIR and hybrid designs')


def D02(c):
    _fir(c, 'd02', 'minmax', 5 if c.quick else 9, True,
         'feasibility and optimality of min-max designs')


def D03(c):
    _fir(c, 'd03', 'audio', 8 if c.quick else 12, False,
         'psychoacoustic designs')


def B02(c):
    c.model('MC_Audio', MC + 'CONSTANTS Part="sound" K=29\nINVARIANTS '
            'RoundInv MonoInv PhonInv UnitInv\n', what='consistency of the '
            'contours and of the weightings at the frequencies of ISO 226')
    files = []
    for part in ('weights', 'iso'):
        r = c.model('MC_Audio', MC + 'CONSTANTS Part="%s" K=1\nINVARIANTS '
                    'EmitInv\n' % part, what='requests, part '+part)
        files.append(c.scen_file(r, part + '.json'))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_audio.py', 'b02', *(files + [tr])):
        c.validate('Trace_Audio', tr, what='weightings, filters, contours')


def _api(c, parts, what):
    res = c.models([
        ('MC_Api', MC + 'CONSTANTS Slow=%s Part="%s" K=%d\nINVARIANTS FullInv '
         'EmitInv\n' % (('FALSE' if c.quick else 'TRUE',)+pk),
         'calls, part ' + pk[0]) for pk in parts])
    files = [c.scen_file(r, pk[0] + '.json') for r, pk in zip(res, parts)]
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_api.py', 'api', *(files + [tr]), parts=8,
               timeout=800):
        c.validate('Trace_Api', tr, what=what)


def X04(c):
    res = c.tlc('MC_Prog', MC + 'CONSTANTS K=%d\nINVARIANTS ConvexInv '
                'CornersInv EmitInv\n' % (500 if c.quick else 4000))
    f, tr = c.scen_file(res, 'prog.json'), c.tmp('trace.json')
    if _driver(c, tr, 'drv_prog.py', 'main', f, tr, parts=8, timeout=850):
        c.validate('Trace_Prog', tr, what='programs with formal arguments')


def W01(c):
    _api(c, (('alias', 6 if c.quick else 60), ('filter', 6 if c.quick
                                              else 18)),
         'entry points against what they stand for')


def V01(c):
    _api(c, (('self', 8 if c.quick else 60),),
         'calls against the ones with all the arguments')


def _plot(c, parts, what):
    res = c.models([
        ('MC_Plot', MC + 'CONSTANTS Part="%s" K=%d\nINVARIANTS RootsInv '
         'StepsInv EmitInv\n' % pk, pk[0]) for pk in parts])
    files = [c.scen_file(r, pk[0] + '.json') for r, pk in zip(res, parts)]
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_plot.py', 'plot', *(files + [tr]), parts=8,
               timeout=800):
        c.validate('Trace_Plot', tr, what=what)


def U01(c):
    _plot(c, (('labels', 8 if c.quick else 100),
              ('plots', 6 if c.quick else 40)), 'labels and plots')


def U02(c):
    _plot(c, (('runs', 12 if c.quick else 200),), 'runs of the test suites')


def H01(c):
    files = []
    for part, k, sim in (('family', 0, None), ('cross', 0 if c.quick else 1,
                                               None),
                         ('walk', 12, 'num=%d' % (40 if c.quick else 400))):
        r = c.model('MC_History', MC + 'CONSTANTS Part="%s" K=%d\nINVARIANTS '
                    'PureInv EmitInv\n' % (part, k), what='sessions, part ' +
                    part, simulate=sim, workers=1)
        files.append(c.scen_file(r, part + '.json'))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_history.py', 'h01', *(files + [tr]), parts=8,
               timeout=800):
        c.validate('Trace_History', tr, what='sessions against single calls')


def H02(c):
    inv = 'INVARIANTS UseInv LeaveInv EmitInv\n'
    cfg = 'CONSTANTS Part="%s" Where="%s" Slices=24 Grain=%d Switches=%d\n'
    c.model('MC_Inter', MC + cfg % ('solvers', 'shared', 2, 1) +
            'INVARIANTS UseInv LeaveInv\n', what='shared settings withstand '
            'calls within others')
    files = []
    q = c.quick
    for part, grain, sw, sim, what in (
            ('related', 6 if q else 2, 2, None, 'calls that cross others'),
            ('solvers', 6 if q else 1, 2, None, 'calls that cross others'),
            ('itself', 12 if q else 4, 1, None, 'calls from functions that '
             'calls of the same service are given'),
            ('callback', 6, 1, 80 if q else 1200, 'calls from functions '
             'that calls are given'),
            ('related', 1, 4, 120 if q else 2400, 'random switches between '
             'calls of a service'),
            ('any', 1, 4, 80 if q else 1600, 'random switches between any '
             'calls')):
        r = c.model('MC_Inter', MC + cfg % (part, 'own', grain, sw) + inv,
                    what=what, workers=1 if sim else 8,
                    simulate='num=%d' % sim if sim else None)
        files.append(c.scen_file(r, '%s%d.json' % (part, sw)))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_inter.py', 'h02', *(files + [tr]), parts=8,
               timeout=800):
        c.validate('Trace_Inter', tr, what='calls in progress together '
                   'against calls alone')


def X01(c):
    r = c.model('MC_Expr', MC + 'CONSTANTS Part="laws" K=0\nINVARIANTS '
                'LawInv\n', what='algebraic laws of the denotations')
    files = []
    for part, k, sim in (
            ('unary', 0, None), ('binary', 0, None), ('wrap', 0, None),
            ('cmp', 0, None), ('param', 3 if c.quick else 4, None),
            ('sparse', 2 if c.quick else 3, None),
            ('left', 0 if c.quick else 1, None),
            ('right', 0 if c.quick else 1, None),
            ('walk', 5 if c.quick else 7, 'num=%d' % (600 if c.quick
                                                     else 8000))):
        r = c.model('MC_Expr', MC + 'CONSTANTS Part="%s" K=%d\nINVARIANTS '
                    'ParInv EmitInv\n' % (part, k), what='expressions, part ' +
                    part, simulate=sim, workers=1 if sim else 8)
        files.append(c.scen_file(r, part + '.json'))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_expr.py', 'x01', *(files + [tr]), parts=8,
               timeout=800):
        c.validate('Trace_Expr', tr, what='values, shapes and variables of '
                   'expressions')


def X02(c):
    # soundness of the rules (the model alone), besides the scenarios
    sound = ['lin', 'fn'] + ([] if c.quick else ['scale', 'nest'])
    parts = ['lin', 'fn', 'scale', 'prod', 'nest', 'rel']
    jobs = [('MC_Dcp', MC + 'CONSTANTS Part="%s" K=0\nINVARIANTS %s EmitInv\n'
             % (p, 'SoundInv TightInv' if p in sound else 'TightInv'),
             'expressions, part ' + p +
             (', soundness of the rules' if p in sound else ''))
            for p in parts]
    res = c.models(jobs, timeout=800 if c.quick else 2400)
    files = [c.scen_file(r, p + '.json') for r, p in zip(res, parts)]
    r = c.model('MC_Dcp', MC + 'CONSTANTS Part="walk" K=%d\nINVARIANTS '
                'TightInv EmitInv\n' % (4 if c.quick else 6), workers=1,
                what='expressions, part walk',
                simulate='num=%d' % (800 if c.quick else 10000))
    files.append(c.scen_file(r, 'walk.json'))
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_dcp.py', 'x02', *(files + [tr]), parts=8,
               timeout=800):
        c.validate('Trace_Dcp', tr, what='curvature of expressions')


def X03(c):
    parts = (('num', 0), ('odd', 0), ('plain', 0 if c.quick else 1),
             ('combo', 150 if c.quick else 3000),
             ('nest', 100 if c.quick else 1500),
             ('con', 25 if c.quick else 500),
             ('set', 250 if c.quick else 6000))
    res = c.models([
        ('MC_Solve', MC + 'CONSTANTS Part="%s" K=%d\nINVARIANTS EmitInv\n' %
         pk, 'programs, part ' + pk[0]) for pk in parts])
    files = [c.scen_file(r, pk[0] + '.json') for r, pk in zip(res, parts)]
    tr = c.tmp('trace.json')
    if _driver(c, tr, 'drv_dcp.py', 'x03', *(files + [tr]), parts=8,
               timeout=850 if c.quick else 3000):
        c.validate('Trace_Dcp', tr, what='programs solved')
