# -*- coding: utf-8 -*-
"""Planted bugs: each an edit of the original code, and a demonstration."""
R, C, M, K, L, O, S, G = ['hapuamod/%s.py' % n for n in ('riv', 'coast', 'mor', 'core', 'loadmod', 'out', 'synth', 'geom')]
MAIN = 'hapuamod/__main__.py'
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('lagoon-level-wrong-side', 'H04', 'lagoon transects beyond the online reach on the right, and a water level that varies along it',
    'the cut-off lagoon to the right gets the level of the leftmost online transect instead of the nearest one',
    [(R, 'LagoonWL[MaxOnline+1:] = LagoonWL[MaxOnline]', 'LagoonWL[MaxOnline+1:] = LagoonWL[MinOnline]')], '''
s = State()
(dx, z, B, la, ll, h, v, on, oix, flag, closed) = s.assemble(phys())
h[flag == 1] = np.linspace(1., 2., on.size)
wl = riv.storeHydraulics(h, v, on, oix, flag, s.Z[:, 3], closed)[0]
check(close(wl[max(on) + 1:], wl[max(on)]), 'level right of the channel')
check(close(wl[:min(on)], wl[min(on)]), 'level left of the channel')
''')

bug('pinched-transect-lost', 'H03', 'an online lagoon transect with a width above zero but below the minimum outlet width',
    'the area of the pinched transect is neither channel nor storage',
    [(R, 'EndArea += np.nansum(LagoonWidth[OnlineLagoon[LagCloseIx:]] * Dx)', 'EndArea += np.nansum(LagoonWidth[OnlineLagoon[LagCloseIx+1:]] * Dx)')], '''
s = State()
s.Y[7, 3] = s.Y[7, 4] + 3.
(dx, z, B, la, ll, h, v, on, oix, flag, closed) = s.assemble(phys())
check(closed, 'a pinched lagoon closes the outlet')
total = np.sum(s.Y[:, 3] - s.Y[:, 4]) * s.Dx
check(close(np.sum(la) + np.sum(B[flag == 1]) * s.Dx, total), 'lagoon area is counted once')
''')

bug('momentum-old-step-reverse', 'H06', 'flow reversing along the channel, so that velocities of both signs meet at the start of a step, and theta below one',
    'the advection of momentum at the old time level ignores the direction of flow',
    [(R, """-2*Beta*(dtdx)*Theta1 * (V_old[1:]*np.abs(V_old[1:])*A_old[1:]
                                       - V_old[:-1]*np.abs(V_old[:-1])*A_old[:-1])""",
      """-2*Beta*(dtdx)*Theta1 * (V_old[1:]**2*A_old[1:]
                                       - V_old[:-1]**2*A_old[:-1])""")], '''
n = 12
p, nu = phys(BarrierPermeability=0.), num(ErrTol=1e-9, MaxIt=60)
z = np.linspace(.2, -.6, n); B = np.full(n, 40.); dx = np.full(n - 1, 20.)
h0 = np.full(n, 2.) - z; v0 = np.linspace(.5, -.8, n)
h, v = h0.copy(), v0.copy()
dt, th, be, g, nn = 4., nu['Theta'], nu['Beta'], 9.81, .04
riv.solveFullPreissmann(z, B, np.zeros(n), np.zeros(n), False, h, v, dx, sd(dt), np.array([20.]), np.array([2.02]), nu, p)
def mom(h, v):
    A = h * B; Sf = v * abs(v) * nn**2 / h**(4/3); S0 = (z[:-1] - z[1:]) / dx
    adv = be * (v[1:] * abs(v[1:]) * A[1:] - v[:-1] * abs(v[:-1]) * A[:-1]) / dx
    pre = g * (A[1:] + A[:-1]) / 2 * (h[1:] - h[:-1]) / dx
    src = g * (A[1:] * (S0 - Sf[1:]) + A[:-1] * (S0 - Sf[:-1])) / 2
    return adv + pre - src
Q = lambda h, v: (h * v * B)[1:] + (h * v * B)[:-1]
res = (Q(h, v) - Q(h0, v0)) / 2 / dt + th * mom(h, v) + (1 - th) * mom(h0, v0)
check(np.max(abs(res)) < 1e-3, 'momentum is conserved in a step with reversing flow: %g' % np.max(abs(res)))
''')

bug('narrow-last-transect-open', 'H02', 'an outlet over several transects of which only the most seaward is too narrow',
    'the outlet stays open',
    [(R, "if np.any(OutletWidth<=PhysicalPars['MinOutletWidth']) |", "if np.any(OutletWidth[:max(1,OutletWidth.size-1)]<=PhysicalPars['MinOutletWidth']) |")], '''
for e in ((40., 70.), (-40., -70.)):
    s = State(e)
    i = np.where(s.X == np.sign(e[0]) * 60.)[0][0]
    s.Y[i, 2] = s.Y[i, 1] - 4.
    check(s.assemble(phys())[-1], 'outlet narrower than the minimum at its last transect is closed')
''')

bug('offshore-waves-mask', 'C01', 'waves nearly parallel to the coast, and a stretch of shore turned so that they come from behind it',
    'waves which cannot reach a stretch of shore still move sediment along it: shore angle left out for waves from the left',
    [(C, 'LocalWavePower[LocalEDir_h < (-np.pi/2)] = 0', 'LocalWavePower[np.minimum(LocalEDir_h, EDir_h) < (-np.pi/2)] = 0\n    LocalWavePower[np.logical_and(LocalEDir_h < (-np.pi/2), EDir_h > -1.3)] = WavePower')], '''
Y = np.full((6, 5), NAN)
Y[:, 0] = [90., 60., 30., 0., 0., 10.]
p = phys()
for d in (-1.2, -1.25, -1.4):
    L = coast.longShoreTransport(Y, 20., 4000., 8., 60., d, p)
    loc = d - np.arctan((Y[:-1, 0] - Y[1:, 0]) / 20.)
    check(np.all(L[abs(loc) > np.pi / 2] == 0), 'no transport where waves come from behind, direction %g' % d)
    check(np.all(L[abs(loc) < 1.5] != 0), 'transport elsewhere')
''')

bug('zero-width-channel-overwash', 'C02', 'a relic channel of exactly zero width in a barrier that is low for its width',
    'overtopping at a filled channel goes onto the crest instead of into the channel',
    [(C, 'ZeroWidthOutlet[OutletPresent] = ShoreY[OutletPresent,1] <= ShoreY[OutletPresent,2]', 'ZeroWidthOutlet[OutletPresent] = ShoreY[OutletPresent,1] < ShoreY[OutletPresent,2]')], '''
s = State()
s.Y[9, 2] = s.Y[9, 1]
s.Z[9, 0] = .5
cst, over = coast.overtopping(5., 1., s.Y, s.Z, phys())
check(bool(over[9]), 'overwash into a channel of zero width')
check(cst[9] > 0, 'overtopped')
''')

bug('output-times-drift', 'T03', 'timesteps which do not divide the output interval, over several output intervals',
    'every late record delays all the later ones: output is not at the intervals asked for',
    [(K, "TsOutTime += OutputOpts['TsOutInt']", "TsOutTime = MorTime + OutputOpts['TsOutInt']")], '''
t = times(MorDtMin=sd(70), MorDtMax=sd(70), EndTime=T0 + sd(2100))
o, ts = simulate(model(State(), phys(), num(), t, opts=dict(TsOutInt=sd(100), OutInt=sd(100))))
k = ts['time'] - ts['time'][0]
want = sorted({70. * np.ceil(100. * i / 70.) for i in range(1, 22) if 70. * np.ceil(100. * i / 70.) <= 2100.} | {0.})
check(list(k) == want, 'times of records %s' % k)
check(list(o['time'] - o['time'][0]) == want, 'times of snapshots')
''')

bug('leftward-mouth-not-limiting', 'T02', 'an outlet end moving to the left faster than anything else changes',
    'migration of the outlet end to the left does not shorten the step, as migration to the right does',
    [(M, "                           abs(OutletEndXMoveRate))", "                           OutletEndXMoveRate)")], '''
for e, sg in (((40., 70.), 1), ((-40., -70.), -1)):
    s = State(e=e)
    p, n_, t = phys(), num(), times(MorDtMin=sd(1.875), MorDtMax=sd(960))
    lst = np.full(s.n - 1, .3 * sg)
    x, w = s.e[1], float(s.ew)
    bed = np.zeros(s.assemble(p)[1].size - 1)
    bed[-1] = .3      # the channel takes from the banks of its end what the sea puts there
    dt, _ = s.step(p, n_, t, lst=lst, bed=bed, dt=960.)
    check(close(float(s.ew), w, 1e-3), 'width of the end')
    check(abs(s.e[1] - x) <= n_['MaxMorChange'] * (1 + 1e-9), 'moves %g m in a step of %s' % (s.e[1] - x, dt))
    check(abs(s.e[1] - x) > n_['MaxMorChange'] / 4, 'moves %g m in a step of %s' % (s.e[1] - x, dt))
''')

bug('cliff-retreat-leaves-lagoon', 'M04', 'a shoreline eroding through a sliver of barrier and of lagoon back to the cliff in one step',
    'the lagoon retreats with the cliff instead of ending: a sliver of it stays where the shoreline is at the cliff',
    [(M, 'ShoreY[CliffCollision, 3] = ShoreY[CliffCollision, 4]\n', 'ShoreY[CliffCollision, 3] -= CliffRetDist\n')], '''
s = State()
s.Y[1, 3] = s.Y[1, 4] + .0002
s.Y[1, 0] = s.Y[1, 4] + .0005
lst = np.zeros(s.n - 1); lst[1] = .05
s.step(phys(), num(), times(), lst=lst, dt=15.)
check(s.Y[1, 3] == s.Y[1, 4], 'no lagoon is left where the cliff retreats: %r' % (s.Y[1, 3] - s.Y[1, 4]))
check(s.Y[1, 0] > s.Y[1, 4], 'shore in front of the cliff')
''')

bug('extension-takes-neighbour-width', 'M05', 'an outlet migrating to the left past a transect while its end has another width than its last transect',
    'the new channel gets the width of the last transect instead of that of the outlet end',
    [(M, 'ShoreY[ExtendMask,2] = ShoreY[ExtendMask,1] - OutletEndWidth\n', 'ShoreY[ExtendMask,2] = ShoreY[ExtendMask,1] - (OutletEndWidth if OutletEndX[0] < OutletEndX[1] else np.minimum(OutletEndWidth, ShoreY[OutletChanIx[-1],1] - ShoreY[OutletChanIx[-1],2]))\n')], '''
for e in ((40., 79.9999), (-40., -79.9999)):
    s = State(e)
    p = phys(OutletBankEroFac=0.)
    sg = np.sign(e[0])
    lst = np.full(s.n - 1, sg * .003)
    i = np.where(s.X == sg * 80.)[0][0]
    s.step(p, num(), times(), lst=lst, dt=15.)
    check(abs(s.e[1]) >= 80., 'migrated')
    check(close(s.Y[i, 1] - s.Y[i, 2], float(s.ew), 1e-9), 'width of the new channel %r %r' % (s.Y[i, 1] - s.Y[i, 2], float(s.ew)))
''')

bug('relic-breach-nearest-river', 'M06', 'a closed lagoon with a connected relic channel, whose barrier is eroded through at two transects in the same step',
    'the breach opens where the channel is closest to the river instead of closest to its upstream end',
    [(M, 'ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])', 'ChanLength = np.abs(ShoreX[PossBreachTsects])')], '''
s = State(e=(20., -70.), closed=False)
s.closed = True
s.e = np.array([60., 60.])
on = (s.X >= 20) & (s.X <= 80)
i = np.where(on)[0]
s.Y[i, 1] = s.Y[i, 0] - 15.; s.Y[i, 2] = s.Y[i, 1] - 14.; s.Z[i, 1] = -1.; s.Z[i, 2] = s.Z[i, 0] - .2
off = (s.X < 0) & ~np.isnan(s.Y[:, 1])
s.Y[off, 1:3] = NAN; s.Z[off, 1:3:1] = NAN
s.Y[6, 1:3] = NAN; s.Z[6, 1:3] = NAN
for x in (20., 60.):
    k = np.where(s.X == x)[0][0]
    d = s.Y[k, 0] - s.Y[k, 1]
    s.Y[k, 1] += d - .00001; s.Y[k, 2] += d - .00001
lst = np.zeros(s.n - 1); lst[7] = .02; lst[9] = .02
dt, breach = s.step(phys(), num(), times(), lst=lst, dt=15.)
check(breach, 'breach')
check(s.e[1] == 60., 'breach nearest to the upstream end of the channel: %r' % s.e)
''')

bug('hotstart-outlet-depth', 'O03', 'a hot start with an open outlet whose bed differs from the lagoon bed',
    'depths in the outlet channel are taken from the wrong bed',
    [(L, 'OutletDep = OutletWL - ShoreZ[:,1]', 'OutletDep = OutletWL - np.fmin(ShoreZ[:,1], ShoreZ[:,3])')], '''
import netCDF4, shutil
d = tempfile.mkdtemp()
try:
    s = State(); p = phys()
    s.Z[:, 3] = -1.6
    out.newOutFile(d + '/h.nc', 'x', T0, s.X, s.Dx, s.rz, np.zeros(2), 0., p, True)
    z = np.zeros
    out.writeCurrent(d + '/h.nc', T0, .1, 50., 1., 0., s.Y, s.Z, s.lwl, s.lv, z(s.n), s.od, s.ov, z(s.n), z(s.n - 1), z(s.n), z(s.n), s.rz, s.rd, s.rv, z(5), s.e, s.ee, s.ew, s.oed, s.oev, 0., False)
    base = {k: v for k, v in p.items() if k not in ('K2coef', 'BreakerCoef', 'BarRatSlope', 'BarRatInt')}
    st = '%d/%m/%Y %H:%M'
    ix = pd.date_range(T0, periods=5, freq='1h')
    for f, c in (('flow', 'Flow'), ('sea', 'SeaLevel')):
        open(d + '/%s.csv' % f, 'w').write('t,%s\\n' % c + ''.join('%s,1.0\\n' % t.strftime(st) for t in ix))
    open(d + '/waves.csv', 'w').write('t,WavePeriod,Wlen_h,WavePower,EDir_h,Hsig_Offshore\\n' + ''.join('%s,8,60,1000,5,1\\n' % t.strftime(st) for t in ix))
    S = lambda n, kv: '[%s]\\n' % n + ''.join('%s = %s\\n' % i for i in kv.items())
    open(d + '/m.cnf', 'w').write('ModelName = x\\n' + S('BoundaryConditions', dict(RiverFlow='flow.csv', WaveConditions='waves.csv', SeaLevel='sea.csv')) + S('HotStart', dict(InitialConditionsNetCDF='h.nc', HotStartTime="'%s'" % T0, ContinueSimulation='True'))
        + '[SpatialInputs]\\n' + S('InitialConditions', dict(OutletWidth=20, OutletBed=-1, LagoonBed=-1, BarrierElev=3)) + S('Time', dict(StartTime="'%s'" % T0, EndTime="'%s'" % (T0 + sd(7200)), HydDt=5, MorDtMin=15, MorDtMax=60))
        + S('PhysicalParameters', base) + S('NumericalParameters', dict(Dx=20.)) + S('OutputOptions', dict(OutInt=600, TsOutInt=600, LogInt=600)))
    od = loadmod.loadModel(d + '/m.cnf')[17]
    on = ~np.isnan(s.od)
    check(close(od[on], s.od[on], 1e-5), 'outlet depth after a hot start: %s' % od[on])
finally:
    shutil.rmtree(d)
''')

bug('series-file-overwritten', 'O02', 'only the time series file exists already, and overwriting is neither asked for nor confirmed',
    'the existing time series file is replaced without consent',
    [(K, """    out.newTsOutFile(OutputOpts['TsOutFile'], ModelName, 
                     TimePars['StartTime'], Overwrite)""", """    out.newTsOutFile(OutputOpts['TsOutFile'], ModelName, 
                     TimePars['StartTime'], True)""")], '''
import builtins, shutil
m = model(State(), phys(), num(), times(EndTime=T0 + sd(60)))
d = tempfile.mkdtemp(); cwd = os.getcwd(); os.chdir(d)
try:
    open('t.nc', 'w').write('precious')
    loadmod.loadModel = lambda f: m
    builtins.input = lambda *a: 'n'
    try:
        core.main('x.cnf', False)
    except Exception:
        pass
    check(open('t.nc', 'rb').read() == b'precious', 'the file is as it was')
finally:
    os.chdir(cwd); shutil.rmtree(d)
''')

bug('breaker-depth-remembered', 'T05', 'two simulations in one process with different densities or breaker ratios and the same wave power',
    'the second simulation uses the breaking depth of the first',
    [(C, "    BreakerDepth = (PhysicalPars['BreakerCoef'] * WavePower)**0.4", "    if WavePower not in _BREAKER_DEPTH:\n        _BREAKER_DEPTH[WavePower] = (PhysicalPars['BreakerCoef'] * WavePower)**0.4\n    BreakerDepth = _BREAKER_DEPTH[WavePower]"),
     (C, 'import logging\n', 'import logging\n\n_BREAKER_DEPTH = {}\n')], '''
run = lambda p: simulate(model(State(), p, num(), times(EndTime=T0 + sd(900)), opts=dict(OutInt=sd(300))))[0]
import subprocess
a, b = phys(), phys(GammaRatio=.9)
if len(sys.argv) > 1:
    np.save(sys.argv[1], run(b)['lst'])
    sys.exit(0)
d = tempfile.mkdtemp()
try:
    subprocess.check_call([sys.executable, '-B', os.path.abspath(__file__), d + '/l.npy'])
    alone = np.load(d + '/l.npy')
finally:
    import shutil
    shutil.rmtree(d)
run(a)
check(np.array_equal(alone, run(b)['lst']), 'the same results whatever was simulated before')
''')

bug('seepage-new-sea-level', 'H07', 'a permeable barrier and a sea level that changes over the step',
    'seepage in the old part of the step is driven by the new sea level: the water balance does not close',
    [(R, '+ Theta1 * (h_old[1:] + h_old[:-1] - 2*DsWl_old)))', '+ Theta1 * (h_old[1:] + h_old[:-1] - 2*DsWl)))')], '''
n = 10
p, nu = phys(BarrierPermeability=.01), num(ErrTol=1e-9, MaxIt=60)
z = np.linspace(.2, -.6, n); B = np.full(n, 40.); dx = np.full(n - 1, 20.)
h, v = 2. - z, np.full(n, .3)
LL = np.zeros(n); LL[3:7] = 20.
g = lambda n_: (h.copy(), v.copy())
sea = [2.0, 2.4]
h1, v1 = g(0)
riv.solveFullPreissmann(z, B, np.zeros(n), LL, False, h1, v1, dx, sd(5), np.array([20.]), np.array(sea[:1]), nu, p)
h2, v2 = h1.copy(), v1.copy()
# the same two steps in one call
h, v = g(0)
riv.solveFullPreissmann(z, B, np.zeros(n), LL, False, h, v, dx, sd(5), np.array([20., 20.]), np.array(sea), nu, p)
vol = lambda h: np.sum((h[1:] * B[1:] + h[:-1] * B[:-1]) / 2 * dx)
Q = lambda h, v: h * v * B
th = nu['Theta']
flow = th * (Q(h, v)[0] - Q(h, v)[-1]) + (1 - th) * (Q(h1, v1)[0] - Q(h1, v1)[-1])
lev = lambda h, s: np.sum((LL[1:] + LL[:-1]) / 2 * ((z[1:] + h[1:] + z[:-1] + h[:-1]) / 2 - s)) * p['BarrierPermeability']
seep = th * lev(h, sea[1]) + (1 - th) * lev(h1, sea[0])
err = vol(h) - vol(h1) - 5 * (flow - seep)
check(abs(err) < 1e-4, 'water balance of a step: %g m3' % err)
''')

bug('steady-energy-without-beta', 'H05', 'a momentum coefficient other than one and a width that varies along the channel',
    'the kinetic energy carried upstream from a critical section ignores the coefficient: profiles violate the energy equation',
    [(R, "        Energy[XS] = ChanElev[XS] + ChanDep[XS] + Beta * ChanVel[XS]**2 / (2*Grav)", "        Energy[XS] = ChanElev[XS] + ChanDep[XS] + (Beta if ChanDep[XS] > CritDep[XS] else 1.0) * ChanVel[XS]**2 / (2*Grav)")], '''
nu = num(Beta=1.2, ErrTol=1e-8, MaxIt=100)
z = np.array([1.5, 1.3, 1.1, .9, -1., -1.2]); B = np.array([40., 40., 35., 20., 60., 60.]); dx = np.full(5, 20.)
Q = 60.
h, v = riv.solveSteady(dx, z, B, .04, Q, .2, nu)
hc = (Q**2 / (B**2 * 9.81))**(1/3)
E = z + h + 1.2 * v**2 / (2 * 9.81); Sf = v**2 * .04**2 / h**(4/3)
res = E[:-1] - E[1:] - dx * (Sf[:-1] + Sf[1:]) / 2
check(np.any(h[:-1] <= hc[:-1] * (1 + 1e-12)), 'there is a critical section')
check(np.all((abs(res) < 1e-6) | (h[:-1] <= hc[:-1] * (1 + 1e-12))), 'energy equation: %s' % res)
''')

bug('bedload-sign-of-reach', 'H08', 'flow meeting from both sides in a reach above the threshold of motion',
    'transport at two cross-sections with opposite flow is added up instead of cancelling',
    [(R, '    Qs_node_bulk[V<0] *= -1\n', ''),
     (R, '    Qs_reach_bulk = (1-Psi)*Qs_node_bulk[:-1] + Psi*Qs_node_bulk[1:]\n', '    Qs_reach_bulk = (1-Psi)*Qs_node_bulk[:-1] + Psi*Qs_node_bulk[1:]\n    Qs_reach_bulk[(1-Psi)*V[:-1] + Psi*V[1:] < 0] *= -1\n')], '''
p = phys()
z, B, h = np.zeros(4), np.full(4, 30.), np.full(4, 1.)
v = np.array([3., 2.5, -2.4, -3.])
q = riv.calcBedload(z, B, h, v, np.full(3, 20.), p, .4)
one = lambda k: riv.calcBedload(z[:2], B[:2], h[:2], np.full(2, v[k]), np.full(1, 20.), p, .4)[0]
check(close(q, [.6 * one(k) + .4 * one(k + 1) for k in range(3)]), 'bedload between cross-sections: %s' % q)
''')

bug('waves-at-end-of-step', 'T04', 'waves which change within a morphological timestep',
    'a step uses the waves of its end instead of its start',
    [(K, 'WavesAtT = interpolate_at(WaveTs, pd.DatetimeIndex([MorTime]))', 'WavesAtT = interpolate_at(WaveTs, HydTimes[-1:])')], '''
m = list(model(State(), phys(), num(), times(EndTime=T0 + sd(30))))
m[2] = m[2].copy()
m[2]['Hsig_Offshore'] = np.linspace(1., 7., len(m[2]))
got = []
keep = coast.runup
coast.runup = lambda T, H, b: (got.append(H), keep(T, H, b))[1]
simulate(tuple(m))
check(close(got[0], 1.), 'wave height of the first step %r' % got[0])
''')

bug('lst-units-negative', 'O01', 'output of longshore transport to the left',
    'transport to the left is written in other units than transport to the right',
    [(O, "NcFile.variables['lst'][TimeIx,:] = LST*3600", "NcFile.variables['lst'][TimeIx,:] = np.fmax(LST*3600, LST*60)")], '''
import netCDF4, shutil
d = tempfile.mkdtemp()
try:
    s = State(); z = np.zeros
    out.newOutFile(d + '/h.nc', 'x', T0, s.X, s.Dx, s.rz, np.zeros(2), 0., phys(), True)
    lst = np.linspace(-.1, .1, s.n - 1)
    out.writeCurrent(d + '/h.nc', T0, .1, 50., 1., 0., s.Y, s.Z, s.lwl, s.lv, z(s.n), s.od, s.ov, z(s.n), lst, z(s.n), z(s.n), s.rz, s.rd, s.rv, z(5), s.e, s.ee, s.ew, s.oed, s.oev, 0., False)
    nc = netCDF4.Dataset(d + '/h.nc')
    check(close(nc['lst'][0], lst * 3600, 1e-5), 'longshore transport per hour')
    nc.close()
finally:
    shutil.rmtree(d)
''')

bug('mirror-extension-boundary', 'M02', 'an outlet that ends exactly on a transect to the left of its last one',
    'an outlet to the left does not take the channel across a transect it just reaches, one to the right does',
    [(M, 'if ShoreX[OutletChanIx[-1]-1] >= OutletEndX[1]:', 'if ShoreX[OutletChanIx[-1]-1] > OutletEndX[1]:')], '''
r = {}
for sg in (1, -1):
    s = State((sg * 40., sg * 79.999999))
    s.e[1] = sg * 80.
    p = phys(OutletBankEroFac=0.)
    s2 = State((sg * 40., sg * 70.)); s2.e[1] = sg * 79.
    a = s2.assemble(p)
    (dx, z, B, la, ll, h, v, on, oix, flag, closed) = a
    s2.e[1] = sg * 80.
    mor.updateMorphology(s2.X, s2.Y, s2.Z, s2.e, s2.ew, s2.ee, s2.rz, on, oix, s2.lwl, s2.od, B, h, dx, flag, closed, np.zeros(s2.n - 1), np.zeros(z.size - 1), np.zeros(s2.n), np.zeros(s2.n, dtype=bool), sd(15.), p, times(), num())
    r[sg] = ~np.isnan(s2.Y[:, 1])
check(np.array_equal(r[1], r[-1][::-1]), 'left and right alike')
''')

bug('mouth-guard-ignores-breach', 'M03', 'the lagoon at the river mouth becoming narrower than the minimum in a step with a breach',
    'the river mouth may be left without a viable lagoon cross-section after a breach',
    [(M, "    if (ShoreY[X0Ix,3] - ShoreY[X0Ix,4]) < PhysicalPars['MinOutletWidth']:", "    if not Breach and (ShoreY[X0Ix,3] - ShoreY[X0Ix,4]) < PhysicalPars['MinOutletWidth']:")], '''
s = State(closed=True)
s.Y[:, 1:3] = NAN; s.Z[:, 1:3] = NAN
s.Y[6, 3] = s.Y[6, 4] + 5.0001
s.Z[6, 0] = 1.
cst = np.full(s.n, 1e-3); over = np.ones(s.n, dtype=bool)
over[:] = False; over[6] = True
wl = s.lwl.copy()
wl[6] = s.Z[6, 0] + .2
p = phys(SpitWidth=80.)
s.step(p, num(), times(), cst=cst, over=over, dt=60., wl=wl)
check(s.Y[6, 3] - s.Y[6, 4] >= 5., 'lagoon at the river mouth %r' % (s.Y[6, 3] - s.Y[6, 4]))
''')

bug('bedload-to-shore-when-updrift', 'M01', 'bedload at the outlet of an outlet end that is close to the edge of the spreading distance, feeding the end transects',
    'sediment leaving the outlet is spread over a different distance from the one it is divided by',
    [(M, "np.maximum(1 - np.abs(ShoreX - OutletEndX[1])/PhysicalPars['OutletSedSpreadDist'], 0.0))", "np.maximum(1 - np.abs(ShoreX - OutletEndX[1])/max(PhysicalPars['OutletSedSpreadDist'], 4*Dx), 0.0))")], '''
s = State()
p = phys(OutletSedSpreadDist=60.)
y = s.Y.copy(); z = s.Z.copy(); e = s.e.copy()
(dx, zz, B, la, ll, h, v, on, oix, flag, closed) = s.assemble(p)
bed = np.zeros(zz.size - 1); bed[-1] = .01
dt, _ = s.step(p, num(), times(), bed=bed, dt=15.)
gain = (s.Y[1:-1, 0] - y[1:-1, 0]) * (p['ClosureDepth'] + z[1:-1, 0]) * s.Dx / dt.total_seconds()
want = s.Dx * .01 / 60. * np.maximum(1 - abs(s.X - e[1]) / 60., 0)[1:-1]
check(close(gain, want, 1e-7), 'sediment put on the shore %s %s' % (gain, want))
''')

bug('outlet-width-includes-end', 'H01', 'an outlet directed back towards the river and ending exactly on a transect',
    'the reach below the last outlet transect is a whole interval too long when the end is on a transect and the outlet runs to the left',
    [(R, "np.full(2, OutletEndWidth)])", "np.full(2, OutletEndWidth)])\n        if OutletEndX[1] < OutletEndX[0] and OutletEndX[1] % Dx == 0:\n            ChanDx[-2] += Dx")], '''
for e in ((40., 60.), (-40., -60.)):
    s = State(e)
    dx = s.assemble(phys())[0]
    check(close(dx, 20.), 'spacing of cross-sections %s' % dx)
''')

bug('whole-second-clock', 'T01', 'a timestep of a fraction of a second over whole ones, as halving makes them',
    'the clock falls behind the steps taken: morphology and hydraulics run for longer than the time that passes',
    [(K, "        MorTime += MorDt\n", "        MorTime = (MorTime + MorDt).floor('s')\n")], '''
t = times(MorDtMin=sd(7.5), MorDtMax=sd(7.5), HydDt=sd(7.5), EndTime=T0 + sd(60))
o, ts = simulate(model(State(), phys(), num(), t, opts=dict(TsOutInt=sd(0), OutInt=sd(600))))
k = ts['time'] - ts['time'][0]
check(close(k[-1], 60.), 'ends at the end')
check(close(k, 7.5 * np.arange(9)), 'times of steps of 7.5 s: %s' % k)
''')

bug('input-from-working-directory', 'L01', 'a file of the same name in the directory the model is started from',
    'a file that happens to lie in the working directory is used instead of the one beside the configuration',
    [(L, """                os.path.join(ConfigFilePath, Config['BoundaryConditions']['SeaLevel'])
""", """                os.path.join('' if os.path.isfile(Config['BoundaryConditions']['SeaLevel']) else ConfigFilePath, Config['BoundaryConditions']['SeaLevel'])
""")], '''
import shutil
want = load()[3].values
sys.path.insert(0, os.getcwd())
here = os.getcwd()
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    table('s.csv', ['SeaLevel'], [(-60, 5), (240, 6)])
    got = load()[3].values
finally:
    os.chdir(here)
    shutil.rmtree(d)
check(close(got, want), 'sea level from beside the configuration: %s' % got)
''')

bug('whole-second-steps', 'L01', 'a hydraulic timestep that is not a whole number of seconds',
    'the fraction of the timestep configured is dropped',
    [(L, "'HydDt': pd.Timedelta(seconds=Config['Time']['HydDt']),", "'HydDt': pd.Timedelta(seconds=max(1, int(Config['Time']['HydDt']))),")], '''
t = load(dict(Time=dict(HydDt=7.5)))[22]
check(t['HydDt'] == sd(7.5), 'hydraulic timestep %s' % t['HydDt'])
''')

bug('last-sample-trimmed', 'L02', 'a sea level series whose last sample is later than the end by more than the longest timestep',
    'the sample after the end is cut off, so that the series does not reach the end of the simulation any more',
    [(L, """    KeepTimes[1:] = SeaLevelTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
    SeaLevelTs""", """    KeepTimes[1:] = SeaLevelTs.index[1:] < (TimePars['EndTime'] + TimePars['MorDtMax'])
    SeaLevelTs""")], '''
s = load(s=[(-60, .1), (60, .2), (119, .5), (360, .3)])
check(s[3].index[-1] >= s[22]['EndTime'], 'sea level reaches the end: %s' % s[3].index[-1])
''')

bug('initial-outlet-widened', 'L03', 'an initial outlet narrower than the minimum outlet width',
    'the outlet does not start with the width configured',
    [(L, "        ShoreY[LagoonMask, 2] = ShoreY[LagoonMask,1] - IniCond['OutletWidth']\n", "        ShoreY[LagoonMask, 2] = ShoreY[LagoonMask,1] - max(IniCond['OutletWidth'], PhysicalPars['MinOutletWidth'] + 0.001)\n")], '''
L = load(dict(InitialConditions=dict(OutletWidth=4.)))
i = np.where(L[6] == 0)[0][0]
check(close(L[7][i, 1] - L[7][i, 2], 4.), 'outlet width %r' % (L[7][i, 1] - L[7][i, 2]))
''')

SHAPES = '''
def coast_(rev=''):
    o = dict(shore=[(-300, 0), (300, 0)], river=(0, -400), lagoon=[(-150, -150), (-145, -60), (0, -50), (145, -60), (150, -150)],
             cliff=[(-320, -160), (-70, -160), (-50, -100), (-110, -130), (-60, -90), (320, -160)], outlet=[(70, -70), (75, -30), (110, -25), (112, 10)])
    return {k: (v[::-1] if k in rev else v) for k, v in o.items()}
SP = dict(SpatialInputs=dict(Shoreline='shore.shp', RiverLocation='river.shp', BarrierBackshore='lagoon.shp', CliffToe='cliff.shp', OutletLocation='outlet.shp'))
'''

bug('first-cliff-crossing', 'L04', 'a cliff line which folds back, so that it crosses a transect more than once, drawn in one direction or the other',
    'the crossing drawn first is taken for the cliff, not the one nearest the sea',
    [(L, "            ShoreY[ii,4] = np.amax(YIntersects)\n", "            ShoreY[ii,4] = YIntersects[0]\n")], SHAPES + '''
a = load(SP, shapes=coast_())
b = load(SP, shapes=coast_(['cliff']))
check(close(a[7], b[7]), 'the same model whichever way the cliff is drawn')
''')

bug('bar-slope-never-negative', 'L05', 'a target barrier height below the top of the beach',
    'the target relation between height and width of the barrier does not go through the target',
    [(L, "    PhysicalPars['BarRatInt'] = (PhysicalPars['BeachTopElev'] - ", "    PhysicalPars['BarRatSlope'] = max(PhysicalPars['BarRatSlope'], 0.0)\n    PhysicalPars['BarRatInt'] = (PhysicalPars['BeachTopElev'] - ")], '''
p = load(dict(PhysicalParameters=dict(BeachTopElev=4., TargetBarHeight=3.)))[23]
check(close(p['BarRatSlope'] * p['TargetBarWidth'] + p['BarRatInt'], 3.), 'through the target')
check(close(p['BarRatSlope'] * p['SpitWidth'] + p['BarRatInt'], 4.), 'through the spit')
''')

bug('tide-daily', 'L06', 'a simulation of more than a day',
    'the tide starts anew every day instead of keeping its period',
    [(S, "np.sin(((OutputTimes - StartDate).total_seconds() / TidePeriod) * 2*np.pi))", "np.sin(((OutputTimes - StartDate).seconds / TidePeriod) * 2*np.pi))")], '''
s = synth.harmonicTide(T0, T0 + sd(3 * 86400), sd(1800), .3, 2.)
t = np.arange(s.size) * 1800.
check(close(s.values, .3 + np.sin(2 * np.pi * t / 44712.0), 1e-6), 'sine of the tidal period')
''')

bug('seed-zero-random', 'L07', 'a random seed of zero',
    'a hydrograph with seed zero is another one every time',
    [(S, "r = random.Random(RandomSeed)", "r = random.Random(RandomSeed or None)")], '''
f = lambda seed: synth.shotNoise(T0, T0 + sd(20 * 86400), sd(3600), sd(3 * 86400), 100., .3, .9, .015, sd(7200), RandomSeed=seed)
check(all(close(f(k), f(k)) for k in (0, 1, 7)), 'repeatable')
check(not close(f(0).values[:100], f(1).values[:100]), 'different')
''')

bug('crossings-sorted', 'L08', 'a line folding back across a transect',
    'crossings come in the order of the transect, not of the line',
    [(G, "    return YIntersects\n", "    return np.unique(YIntersects)\n")], '''
P = np.array([[-10., 5.], [10., 5.], [-10., 5.], [10., -3.], [-10., 2.]])
y = geom.intersectPolyline(P, 0.)
check(close(y.size, 4) and close(y, [5., 5., 1., -.5]), 'crossings in the order of the line: %s' % y)
''')

VIS, ANI, SWAN = 'hapuamod/visualise.py', 'hapuamod/animate.py', 'preprocessing/WaveDataFromSwanOutput.py'

bug('picture-left-mouth-spit', 'V01', 'an outlet to the left, whose mouth lies between transects of different shoreline positions',
    'the right bank of an outlet to the left ends away from the shoreline it meets',
    [(VIS, """                                   np.interp(OutletDsRbX, ShoreX[np.flip(OutletChanIx)], 
                                             ShoreY[np.flip(OutletChanIx), 1]),
                                   np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])])""",
      """                                   np.interp(OutletDsRbX, ShoreX[np.flip(OutletChanIx)], 
                                             ShoreY[np.flip(OutletChanIx), 1]),
                                   np.interp(OutletEndX[1], ShoreX, ShoreY[:,0])])""")], '''
from hapuamod import visualise
import matplotlib.pyplot as plt
s = State((-40., -75.)); s.Y[:, 0] += np.arange(s.n)
ix = np.array([4, 3])
f = visualise.modelView(s.X, s.Y, s.e, s.ew, ix, 30., 10.)
x, y = [np.asarray(v, float) for v in f['OutletLine'].get_data()]
b = s.e[1] + s.ew / 2
check(close(x[-1], b) and close(y[-1], np.interp(b, s.X, s.Y[:, 0])), 'end of the right bank')
''')

bug('longsection-energy-updated', 'V01', 'a long section updated with a channel in which the flow goes back',
    'the energy line of an updated long section is below the water where the flow is reversed',
    [(VIS, """    WL2 = (WL[:-1] + WL[1:])/2
    Vel2 = (ChanVel[:-1] + ChanVel[1:]) / 2
    Energy = WL2 + (Vel2**2) / (2*g)""",
      """    WL2 = (WL[:-1] + WL[1:])/2
    Vel2 = (ChanVel[:-1] + ChanVel[1:]) / 2
    Energy = WL2 + (Vel2*np.abs(Vel2)) / (2*g)""")], '''
from hapuamod import visualise
import matplotlib.pyplot as plt
n = 9
z, B, h, v, dx = np.linspace(1, -1, n), np.full(n, 30.), np.full(n, 2.), np.linspace(1.5, -2., n), np.full(n - 1, 20.)
f = visualise.longSection(dx, z, B, h, abs(v))
visualise.updateLongSection(f, dx, z, B, h, v)
w = z + h; m = lambda a: (a[1:] + a[:-1]) / 2
check(close(f['EnergyLine'].get_ydata(), m(w) + m(v)**2 / 19.62), 'energy line')
''')

bug('transect-channel-inner-level', 'V01', 'a transect with a channel whose barriers have different heights',
    'the barrier between channel and lagoon is drawn with the height of the outer barrier',
    [(VIS, "GroundLineY.extend(TransZ[[0,1,1,2,2]])", "GroundLineY.extend(TransZ[[0,1,1,0,2]])")], '''
from hapuamod import visualise
s = State()
s.Z[:, 2] = s.Z[:, 0] - .7
f = visualise.newTransectFig(s.X, s.Y, s.Z, s.lwl, s.lwl, .1, .13, 10., 6., 2., 60.)
y = [float(v) for v in f['GroundLine'].get_ydata()]
check(sum(abs(v - s.Z[9, 2]) < 1e-9 for v in y) == 2, 'inner barrier: %s' % y)
''')

bug('animation-resampled-end', 'V02', 'an interval of records that does not divide the range asked for',
    'the last picture is left out',
    [(ANI, """                                      frames=range(StartTimestep, EndTimestep, 
                                                   ResampleInt), 
                                      fargs=(NcFile, TransectFig), ""","""                                      frames=range(StartTimestep, EndTimestep - (EndTimestep - StartTimestep) % ResampleInt, 
                                                   ResampleInt), 
                                      fargs=(NcFile, TransectFig), """)], '''
import netCDF4, shutil
from matplotlib import animation
from hapuamod import animate
d = tempfile.mkdtemp()
got = []
def save(self, f, **k):
    got.extend(list(self.new_frame_seq()))
animation.FuncAnimation.save = save
try:
    s = State(); z = np.zeros
    out.newOutFile(d + '/h.nc', 'x', T0, s.X, s.Dx, s.rz, np.zeros(2), 0., phys(), True)
    for k in range(5):
        out.writeCurrent(d + '/h.nc', T0 + sd(60 * k), .1, 50., 1., 0., s.Y, s.Z, s.lwl, s.lv, z(s.n), s.od, s.ov, z(s.n), z(s.n - 1), z(s.n), z(s.n), s.rz, s.rd, s.rv, z(5), s.e, s.ee, s.ew, s.oed, s.oev, 0., False)
    animate.main(d + '/h.nc', d + '/a.mp4', ResampleInt=2, TransectX=10.)
finally:
    shutil.rmtree(d)
check(got == [0, 2, 4], 'frames %s' % got)
''')

bug('animation-closed-stays-open', 'V02', 'a record with a closed outlet after one with an open outlet',
    'the outlet is drawn closed when its end is missing only if it was closed at the start of the film',
    [(ANI, """    visualise.updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
                              OutletChanIx, Closed=Closed, ""","""    visualise.updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
                              OutletChanIx, Closed=Closed and len(OutletChanIx) == 0 and LagoonWL[0] > OutletEndWL[-1], """)], '''
import netCDF4, shutil
from matplotlib import animation
from hapuamod import animate, visualise
d = tempfile.mkdtemp()
got = []
keep = visualise.updateModelView
def save(self, f, **k):
    for i in self.new_frame_seq():
        self._func(i, *self._args)
animation.FuncAnimation.save = save
def spy(F, *a, **k):
    try:
        return keep(F, *a, **k)
    finally:
        got.append(int(np.isnan(np.asarray(F['ShoreLine'].get_ydata(), float)).sum()))
visualise.updateModelView = spy
try:
    s = State(); z = np.zeros
    out.newOutFile(d + '/h.nc', 'x', T0, s.X, s.Dx, s.rz, np.zeros(2), 0., phys(), True)
    for k in range(2):
        nn = np.full(s.n, NAN)
        out.writeCurrent(d + '/h.nc', T0 + sd(60 * k), .1, 50., 1., 0., s.Y, s.Z, s.lwl, s.lv, z(s.n), s.od if k == 0 else nn, s.ov if k == 0 else nn, z(s.n), z(s.n - 1), z(s.n), z(s.n), s.rz, s.rd, s.rv, z(5),
                         s.e if k == 0 else np.full(2, NAN), s.ee, s.ew, s.oed if k == 0 else np.full(2, NAN), s.oev if k == 0 else np.full(2, NAN), 0., k == 1)
    try:
        animate.main(d + '/h.nc', d + '/a.mp4')
    except Exception as e:
        check(False, 'the animation is made: %r' % e)
finally:
    shutil.rmtree(d)
check(got[-2:] == [1, 0], 'gaps in the shoreline %s' % got)
''')

SWANDEMO = '''
import runpy, shutil
names = 'Hsig Tm01 WavePeriod RTpeak Dir Dspr PkDir XWindv YWindv Ubot Urms Wlen_h Depth XTransp YTransp XWForce YWForce Radstr Setup'.split()
def convert(rows):
    d, cwd, keep = tempfile.mkdtemp(), os.getcwd(), (pd.read_table, pd.read_csv)
    script = os.path.join(cwd, 'preprocessing', 'WaveDataFromSwanOutput.py')
    try:
        with open(d + '/t.txt', 'w') as f:
            f.write('% header\\n' * 27)
            for k, r in enumerate(rows):
                t = T0 + sd(3600 * k)
                f.write(' '.join(['', '1.0', str(t.year), str(t.month), str(t.day), str(t.hour), str(t.minute)] + [repr(float(r.get(n, 1.))) for n in names]) + '\\n')
        os.makedirs(d + '/w/x'); os.makedirs(d + '/w/inputs'); os.chdir(d + '/w/x')
        pd.read_table = lambda f, *a, **k: keep[0](d + '/t.txt', *a, **k)
        runpy.run_path(script, run_name='__main__')
        fs = [os.path.join(a, g) for a, _, c in os.walk(d + '/w') for g in c]
        return keep[1](fs[0])
    finally:
        pd.read_table = keep[0]
        os.chdir(cwd)
        shutil.rmtree(d)
'''
bug('swan-oblique-after-offshore', 'L09', 'waves from just inside the half circle facing the sea, on the side where the difference of bearings wraps around',
    'waves from the left of the coast that come from nearly along it are taken for waves going offshore',
    [(SWAN, """                              np.deg2rad(WaveData.Dir)) + np.pi/2, 
                             2*np.pi) - np.pi/2""", """                              np.deg2rad(WaveData.Dir)) + np.pi/3, 
                             2*np.pi) - np.pi/3""")], SWANDEMO + '''
r = convert([dict(Hsig=2., Dir=128. + a, Wlen_h=20., Depth=60.) for a in (-75., -10., 10., 75., 100., -100., 180.)])
h = r.Hsig_Offshore.values
check(np.all(abs(h[:4] - 2.) < .01), 'deep water waves keep their height: %s' % h)
check(np.all(h[4:] == 0), 'waves going offshore: %s' % h)
''')

bug('swan-due-north', 'L09', 'energy transported exactly due north or south',
    'the bearing of the energy is turned by half a circle',
    [(SWAN, "OutputData['EDir_h'] = np.rad2deg(np.arctan2(WaveData['XTransp'], WaveData['YTransp']))-180",
      "OutputData['EDir_h'] = np.rad2deg(np.arctan2(WaveData['XTransp'], WaveData['YTransp']))-180*np.sign(WaveData['XTransp'])")], SWANDEMO + """
r = convert([dict(Hsig=1., Dir=128., Wlen_h=60., Depth=10., XTransp=x, YTransp=y) for x, y in ((1., 0.), (0., 1.), (-1., 0.), (0., -1.))])
d = (r.EDir_h.values - np.array([270., 180., 90., 0.]) + 180) % 360 - 180
check(np.all(abs(d) < .01), 'bearings differ by %s' % d)
""")

CLIDEMO = """
import shutil, subprocess
HERE = os.getcwd()
def configure(d, name, **over):
    os.chdir(d)
    try:
        table('q.csv', ['Flow'], [(-60, 50), (240, 70)])
        table('w.csv', WCOLS, [(-60, 9, 60, 4000, 10, 1.2), (240, 9, 60, 4000, 20, 1.2)])
        table('s.csv', ['SeaLevel'], [(-60, .1), (240, .3)])
        c = copy.deepcopy(CNF)
        c['Time'].update(EndTime='"2001-02-03 04:10"', MorDtMin=60, MorDtMax=60)
        c['OutputOptions'].update(OutFile='o.nc', TsOutFile='t.nc')
        for k, v in over.items():
            c[k].update(v)
        with open(name, 'w') as f:
            f.write('ModelName = demo\\n')
            for k, v in c.items():
                f.write('[%s]\\n' % k + ''.join('%s = %s\\n' % x for x in v.items()))
    finally:
        os.chdir(HERE)
def start(d, *args):
    return subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'hapuamod'] + list(args), cwd=d, env=dict(os.environ, PYTHONPATH=HERE), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
"""
bug('log-begun-anew', 'R01', 'a second simulation of a configuration, with the option to overwrite results, in the same folder',
    'with the option to overwrite results the log of earlier simulations is lost as well',
    [(MAIN, "FileHandler = logging.FileHandler(LogFile)", "FileHandler = logging.FileHandler(LogFile, mode='w' if ArgsIn.Overwrite else 'a')")], CLIDEMO + """
d = tempfile.mkdtemp()
try:
    configure(d, 'm.cnf')
    check(start(d, 'm.cnf').returncode == 0, 'the first simulation ends well')
    old = open(d + '/m_log.txt').read()
    check(start(d, '-o', 'm.cnf').returncode == 0, 'the second simulation ends well')
    new = open(d + '/m_log.txt').read()
finally:
    shutil.rmtree(d)
check(old and new.startswith(old), 'what the first simulation logged is kept')
""")

bug('log-of-dotted-name', 'R01', 'a configuration with more than one dot in its name',
    'the log is named after the part of the name before the first dot, so that different configurations share a log',
    [(MAIN, "LogFile = os.path.splitext(os.path.split(ArgsIn.ModelConfigFile)[1])[0] + '_log.txt'", "LogFile = os.path.split(ArgsIn.ModelConfigFile)[1].partition('.')[0] + '_log.txt'")], CLIDEMO + """
d = tempfile.mkdtemp()
try:
    configure(d, 'case.1.cnf')
    check(start(d, 'case.1.cnf').returncode == 0, 'the simulation ends well')
    logs = sorted(f for f in os.listdir(d) if f.endswith('.txt'))
finally:
    shutil.rmtree(d)
check(logs == ['case.1_log.txt'], 'logs %s' % logs)
""")

bug('progress-drifts', 'R01', 'an interval of progress messages that is not a multiple of the timestep',
    'the next progress message becomes due an interval after the last one was given, not after it was due, so messages fall behind',
    [(K, "            LogTime += OutputOpts['LogInt']", "            LogTime = MorTime + OutputOpts['LogInt']")], CLIDEMO + """
d = tempfile.mkdtemp()
try:
    configure(d, 'm.cnf', OutputOptions=dict(LogInt=90))
    p = start(d, 'm.cnf')
    check(p.returncode == 0, 'the simulation ends well')
    log = open(d + '/m_log.txt').read()
finally:
    shutil.rmtree(d)
t = [l.split('Time = ')[1].split(',')[0] for l in log.splitlines() if 'Time = ' in l]
want = ['2001-02-03 04:%02d:00' % m for m in (2, 3, 5, 6, 8, 9)]
check(t == want, 'progress at %s' % t)
""")

HEARDEMO = """
logging.disable(logging.NOTSET)
class Ear(logging.Handler):
    n = []
    def emit(self, r):
        Ear.n.append(r.levelno)
logging.getLogger().addHandler(Ear())
logging.getLogger().setLevel(logging.DEBUG)
def heard(f):
    Ear.n = []
    f()
    return sum(v >= logging.WARNING for v in Ear.n)
"""
bug('no-warning-at-fixed-step', 'R02', 'a simulation with a fixed timestep (shortest and longest the same) whose change exceeds its limit',
    'change is cut to the limit without a warning',
    [(M, """        logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',""",
      """        logging.log(logging.WARNING if TimePars['MorDtMax'] > TimePars['MorDtMin'] else logging.DEBUG, 'Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',""")], HEARDEMO + """
for hi in (960, 60):
    for maxc, want in ((1e-6, True), (1e6, False)):
        s = State()
        l = .02 * np.sin(np.arange(s.n - 1))
        n = heard(lambda: s.step(phys(), num(MaxMorChange=maxc), times(MorDtMin=sd(60), MorDtMax=sd(hi)), lst=l))
        check((n > 0) == want, 'warnings %d with a limit of %g and steps from 60 to %d s' % (n, maxc, hi))
""")

bug('falling-water-unwarned', 'R02', 'an unsteady step in which water levels and velocities only fall by more than the tolerance set for warnings',
    'only rises beyond the tolerance are warned of',
    [(R, "if np.amax(np.abs(Delta))>NumericalPars['WarnTol']:", "if np.amax(-Delta)>NumericalPars['WarnTol']:")], HEARDEMO + """
def flow(up):
    n = 10
    z, B, dx = np.linspace(.2, -.3, n), np.full(n, 40.), np.full(n - 1, 20.)
    lev, q = (1.6, 20.) if up else (2.4, 60.)
    h = lev - z
    v = q / (B * h)
    riv.solveFullPreissmann(z, B, np.zeros(n), np.zeros(n), False, h, v, dx, sd(600), np.array([40.]), np.array([2.]), num(ErrTol=1e-6, MaxIt=40, WarnTol=.25), phys())
    return h, v
for up in (False, True):
    n = heard(lambda: flow(up))
    check(n > 0, 'warnings %d when %s' % (n, 'rising' if up else 'falling'))
""")

bug('mouth-held-untold', 'R02', 'an outlet that reaches the last but one transect on the left',
    'the outlet end is held at the left edge of the model without a warning',
    [(M, "        logging.warning('Left (negative X) end of outlet channel too close to edge of domain - preventing further migration')",
      "        logging.debug('Left (negative X) end of outlet channel too close to edge of domain - preventing further migration')")], HEARDEMO + """
for e in ((-40., -99.), (40., 99.)):
    s = State(e=e)
    l = np.full(s.n - 1, .05 * np.sign(e[1]))
    n = heard(lambda: s.step(phys(OutletBankEroFac=0.), num(MaxMorChange=1e6), times(MorDtMin=sd(3600), MorDtMax=sd(3600)), lst=l, dt=3600.))
    check(abs(s.e[1]) == 100., 'held at %s' % s.e[1])
    check(n > 0, 'warnings %d at %s' % (n, s.e[1]))
""")

bug('trim-first-segment', 'L08', 'a cliff line that ends short of the trim line, and bends at its last but one node',
    'the end of a line is extended along the direction from its first node instead of its last segment',
    [(G, """        Denominator = ((LineX[-2]-LineX[-1]) * (EndTrimLineY[TrimSeg]-EndTrimLineY[TrimSeg+1]) - 
                       (LineY[-2]-LineY[-1]) * (TrimLineX[TrimSeg]-TrimLineX[TrimSeg+1]))""",
      """        Denominator = ((LineX[-2]-LineX[-1]) * (EndTrimLineY[TrimSeg]-EndTrimLineY[TrimSeg+1]) - 
                       (LineY[0]-LineY[-1]) / (LineX.size - 1) * (TrimLineX[TrimSeg]-TrimLineX[TrimSeg+1]))""")], """
X = np.linspace(-100, 100, 11)
for line, want in ((([0., 0., 0.], [0., 10., 20.]), (0., 30.)), (([0., 5., 20.], [0., 10., 20.]), (35., 30.)), (([0., 5., 20.], [0., 10., 40.]), (15., 30.))):
    x, y = (np.array(a, float) for a in line)
    geom.trimLine(x, y, X, np.full(11, 5.), np.full(11, 30.))
    check(close([x[-1], y[-1]], want, 1e-6), 'end at %s, %s' % (x[-1], y[-1]))
""")
