"""Replay histories on the real code: rec_session.py OUT histories refs

Every history runs in a freshly forked process; every distinct key is executed
alone in another one. Records: what each event did, and the results of the keys."""
import sys, copy
from hsim import *
from pyrtlib.uncertainty import AbsModUncertainty, SpectroscopicParameter
from pyrtlib.weighting_functions import WeightingFunctions
from pyrtlib.climatology import ProfileExtrapolation, AtmosphericProfiles
from pyrtlib import utils as U

rng = np.random.default_rng([SEED, 77])


def scen(k):
    nl = [8, 9, 7][k]
    s = scenario(rng, nf=2, na=2 if k == 0 else 1, cloudy=True, o3=True, models={}, nl=nl, z0=[0.0, 0.35, 1.2][k], top=[48.0, 55.0, 60.0][k], dry=False)
    s['frq'] = [np.array([60.31, 110.84]), np.array([142.18, 183.2]), np.array([101.74, 118.6])][k] + rng.uniform(0, .01, 2)     # one of each where the ozone models differ
    s['ang'] = np.array([90.0, 25.0]) if k == 0 else np.array([[40.0], [61.0]][k - 1])
    s['liq'][:] = 0; s['ice'][:] = 0
    s['liq'][1:4] = rng.uniform(.05, .5, 3); s['ice'][2:5] = rng.uniform(.05, .5, 3)
    s['liq'][s['t'] < 233] = 0
    s['base'], s['top'] = [float(s['z'][1])], [float(s['z'][4])]
    s['cldh'] = np.array([s['base'], s['top']])
    s['es'] = [np.repeat(1.0, 2), rng.uniform(.2, .6, 2), rng.uniform(.6, .95, 2)]
    return s


def sibling(what):
    """Scenario 1 with one of its inputs changed."""
    s = copy.deepcopy(SCEN[0])
    n = len(s['z'])
    if what == 'z':
        s['z'][2:-1] += .3 * np.diff(s['z'])[2:]
        s['base'], s['top'] = [float(s['z'][1])], [float(s['z'][4])]
        s['cldh'] = np.array([s['base'], s['top']])
    elif what == 'p':
        s['p'][1:] *= .97
    elif what == 't':
        s['t'][1:-1] += rng.uniform(-4, 4, n - 2)
    elif what == 'rh':
        s['rh'][1:-1] *= rng.uniform(.3, .9, n - 2)
    elif what == 'frq':
        s['frq'][1] += .7
    elif what == 'ang':
        s['ang'][1] += 6.
    elif what == 'o3n':
        s['o3n'][1:-1] *= 1.7
    elif what in ('liq', 'ice'):
        s[what][2:4] *= .5
    elif what == 'tiny':         # the same to four digits
        s['t'][n // 2] += 2e-3; s['rh'][1:4] *= 1.00001; s['p'][2] *= 1.00001
    elif what == 'order':        # the same values elsewhere
        s['rh'][[2, 3]] = s['rh'][[3, 2]]; s['t'][[1, 2]] = s['t'][[2, 1]]; s['liq'][[1, 3]] = s['liq'][[3, 1]]; s['o3n'][[2, 4]] = s['o3n'][[4, 2]]
    elif what == 'lists':        # frequencies and angles the other way round
        s['frq'], s['ang'] = s['frq'][::-1].copy(), s['ang'][::-1].copy()
    else:
        s['base'], s['top'] = [float(s['z'][2])], [float(s['z'][5])]
        s['cldh'] = np.array([s['base'], s['top']])
    return s


SCEN = [scen(k) for k in range(3)]
SCEN += [sibling(w) for w in ('z', 'p', 't', 'rh', 'frq', 'ang', 'o3n', 'liq', 'ice', 'cldh', 'tiny', 'order', 'lists')]
# perturbation: names, index (None: every entry), mode
PERT = [(['O2gamma', 'gamma_a'], None, 'max'), (['con_Cf', 'O2gamma'], 5, 'max'), (['S', 'O3_S1'], None, 'min')]
KEEP = ('z', 'p', 't', 'rh', 'frq', 'ang', 'o3n', 'liq', 'ice', 'cldh')


class World:
    """What the caller holds in one process."""
    def __init__(self):
        self.inp = copy.deepcopy(SCEN)
        self.orig = copy.deepcopy(SCEN)
        self.objs, self.pars, self.porig, self.res, self.rorig = [], [], [], [], []

    def lists(self, p):
        return {k: (v.value, v.uncer) for k, v in p.items()}

    def same(self, a, b):
        return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

    def touched(self):
        bad = []
        for k, (a, b) in enumerate(zip(self.inp, self.orig)):
            bad += [f"scenario {k + 1} {n}" for n in KEEP if not self.same(a[n], b[n])]
            bad += [f"scenario {k + 1} emissivity" for x, y in zip(a['es'], b['es']) if not self.same(x, y)]
        for k, (a, b) in enumerate(zip(self.pars, self.porig)):
            if list(a) != list(b):
                bad.append(f"parameters {k + 1} names")
            else:
                bad += [f"parameters {k + 1} {n}" for n in a if not (self.same(a[n].value, b[n].value) and self.same(a[n].uncer, b[n].uncer))]
        return bad

    def changed(self):
        return [k + 1 for k, (a, b) in enumerate(zip(self.res, self.rorig)) if flatres(a) != b]

    def addpar(self, p):
        self.pars.append(p); self.porig.append(copy.deepcopy(p))

    def new(self, e):
        s = self.inp[e['scen'] - 1]
        if e.get('reuse'):      # the caller keeps its arrays and writes the new values into them
            b, self.orig[0] = self.inp[0], copy.deepcopy(SCEN[e['scen'] - 1])
            for n in KEEP:
                b[n][...] = SCEN[e['scen'] - 1][n]
            s = b
        with contextlib.redirect_stdout(io.StringIO()):
            r = TbCloudRTE(s['z'], s['p'], s['t'], s['rh'], s['frq'], s['ang'], o3n=s['o3n'] if e['o3'] else None,
                           amu=self.pars[e['amu'] - 1] if e['amu'] else None, absmdl=e['absmdl'],
                           ray_tracing=e['ray'], from_sat=e['sat'], cloudy=e['cloudy'])
        if e['cloudy']:
            r.init_cloudy(s['cldh'], s['ice'], s['liq'])
        self.objs.append((r, e['scen'] - 1))

    def params(self, m, m3):
        p = {**SpectroscopicParameter.water_parameters(m), **SpectroscopicParameter.oxygen_parameters(m), **SpectroscopicParameter.ozono_parameters(m3)}
        for n, v in (('O2gamma', .05), ('gamma_a', .04), ('S', .1), ('O3_S1', .3)):
            p[n].uncer = np.asarray(p[n].value) * v
        p['con_Cf'].uncer = p['con_Cf'].value * .1
        self.addpar(p)

    def perturb(self, n, k):
        names, idx, mode = PERT[k]
        SpectroscopicParameter.set_parameters(self.pars[n])
        self.addpar(AbsModUncertainty.parameters_perturbation(names, mode, idx))

    def wf(self, k, m):
        s = self.inp[k - 1]
        w = WeightingFunctions(s['z'], s['p'], s['t'], s['rh'], 12.0)
        w.frequencies = s['frq']; w.model = m; w.angle = 70.; w.emissivity = .8
        return w.generate_wf()

    def aux(self):
        s = self.inp[0]
        e = U.mr2e(s['p'], np.ones(8)); U.mr2rh(s['p'], s['t'], np.ones(8)); U.satvap(s['t'])
        U.virtual_temperature(s['t'], e); U.dewpoint2rh(s['t'], s['t']); U.get_frequencies('hat'); U.kgkg_to_kgm3(e, s['p'], s['t'])
        U.get_frequencies_sat('ATMS'); AtmosphericProfiles.gl_atm(1); AtmosphericProfiles.gl_atm(1)
        ProfileExtrapolation().profile_extrapolation(45.0, 7, s['z'], (s['p'], s['t'], s['rh']))
        AbsModUncertainty.uncertainty_propagation('A*B', s['p'], s['t'], e, e)
        from pyrtlib.rt_equation import RTEquation as R
        x = R.vapor(s['t'], s['rh'])[0]; n = R.refractivity(s['p'], s['t'], x)[2]; R.ray_tracing(s['z'], n, 33., 0.)
        R.exponential_integration(True, x, s['z'], 1, 8, 1.); R.bright(.5, .5)
        with contextlib.redirect_stdout(io.StringIO()):
            r = TbCloudRTE(s['z'][::-1], s['p'][::-1], s['t'][::-1], s['rh'][::-1], s['frq'], s['ang'], o3n=s['o3n'][::-1], cloudy=True)
            r.init_cloudy(s['cldh'], s['ice'][::-1], s['liq'][::-1])
            attempt(lambda: r.execute())      # refused when a model is missing

    def do(self, e):
        """Perform an event; the result of an execution."""
        op = e['op']
        obj, k = self.objs[e['obj'] - 1] if 'obj' in e else (None, None)
        if op == 'new':
            self.new(e)
        elif op == 'init':
            obj.init_absmdl(e['m'])
        elif op == 'select':
            dict(h2o=H2OAbsModel, o2=O2AbsModel, n2=N2AbsModel, liq=LiqAbsModel, o3=O3AbsModel)[e['sp']].model = e['m']
        elif op == 'sat':
            obj.satellite = e['v']
        elif op == 'ray':
            obj.ray_tracing = e['v']
        elif op == 'ice':
            obj.ice = e['v']
        elif op == 'es':
            obj.emissivity = self.inp[k]['es'][e['v'] - 1]
        elif op == 'cloudy':
            obj.cloudy = e['v']
            if e['v']:
                s = self.inp[k]; obj.init_cloudy(s['cldh'], s['ice'], s['liq'])
        elif op == 'amu':
            obj.set_amu(self.pars[e['par'] - 1])
        elif op == 'params':
            self.params(e['m'], e['m3'])
        elif op == 'perturb':
            self.perturb(e['par'] - 1, e['pert'] - 1)
        elif op == 'wf':
            return self.wf(e['scen'], e['m'])
        elif op == 'aux':
            self.aux()
        elif op == 'badnew':
            s = self.inp[0]; z = s['z'].copy(); z[2] = z[1]
            TbCloudRTE(z, s['p'], s['t'], s['rh'], s['frq'], s['ang'])
        elif op == 'badsat':
            obj.satellite = 'no'
        elif op == 'bades':
            obj.emissivity = 'no'
        elif op == 'badrun':    # an emissivity for the first frequency only, or no clouds: breaks off half way
            es, s = obj.emissivity, self.inp[k]
            obj.emissivity = np.array([.5])
            attempt(obj.execute)
            obj.emissivity = es
            with contextlib.redirect_stdout(io.StringIO()):
                r = TbCloudRTE(s['z'], s['p'], s['t'], s['rh'], s['frq'], s['ang'], o3n=s['o3n'], from_sat=not obj.satellite, ray_tracing=True, cloudy=True)
            r.emissivity = .37
            attempt(r.execute)
        elif op == 'scribble':
            df, d = self.res[e['n'] - 1]
            df.iloc[:, :] = -1.0
            for v in d.values():
                v[...] = -2.0
            self.rorig[e['n'] - 1] = flatres((df, d))
        elif op == 'execute':
            r = obj.execute(only_bt=False)
            self.res.append(r); self.rorig.append(flatres(r))
            return r


def flatres(r):
    df, d = r
    return ([(c, df[c].values.astype(float).tobytes()) for c in COLS], {k: np.asarray(d[k], float).tobytes() for k in ARRS + AMTS})


def replay(h, raw=False):
    w = World()
    evs, full = [], None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for e in h['evs']:
            with np.errstate(all='ignore'):
                r, exc = attempt(lambda: w.do(e))
            o = []
            if e['op'] == 'execute' and not exc:
                x = result(*r)
                full = x
                o = [sum((x[c] for c in COLS), [])] + [np.ravel(np.array(x[k], dtype=object)).tolist() for k in ARRS + AMTS]
            if e['op'] == 'wf' and not exc:
                o = [flat(r, 0)]
            evs.append(dict(e=e, exc=exc, out=o, kept=w.touched(), changed=w.changed()))
    if raw:
        evs[-1]['full'] = full
    return evs


def alone(key):
    """The key in a process of its own: the shortest history that has it."""
    if 'scenwf' in key:
        h = [dict(op='wf', scen=key['scenwf'], m=key['m'])]
        return replay(dict(evs=h))[-1]
    h = []
    m = key['models']
    par = key['par']
    if par:
        p = par
        h.append(dict(op='params', m=p['m'], m3=p['m3']))
        for i, x in enumerate(p['perts']):
            h.append(dict(op='perturb', par=i + 1, pert=x))
    h += [dict(op='select', sp=k, m=v) for k, v in m.items() if v]
    if not m['o3']:
        h.append(dict(op='select', sp='o3', m=''))
    h.append(dict(op='new', scen=key['scen'], sat=key['sat'], ray=key['ray'], o3=key['o3'], cloudy=key['cloudy'],
                  amu=len(par['perts']) + 1 if par else 0, absmdl=''))
    h.append(dict(op='es', obj=1, v=key['es']))
    if key['ice']:
        h.append(dict(op='ice', obj=1, v=True))
    h.append(dict(op='execute', obj=1))
    r = replay(dict(evs=h), raw=True)[-1]
    full = r.pop('full')
    if not par and not r['exc']:      # the same as a record of SimTrace
        s = dict(SCEN[key['scen'] - 1])
        if not key['cloudy']:
            s.update(base=[], top=[], liq=0 * s['liq'], ice=0 * s['ice'])
        s.update(sat=key['sat'], ray=key['ray'], iced=key['ice'], es=s['es'][key['es'] - 1], cloudy=key['cloudy'], models=m)
        if not key['o3']:
            s['o3n'] = None
        r['sim'] = dict(inputs(s), exc='', out=full, clauses=['wet', 'dry', 'cloud', 'total'], label=json.dumps(key['models']))
    return r


def main():
    import multiprocessing as mp
    out, hists, refs = sys.argv[1:4]
    H = [json.loads(l) for l in open(hists)]
    R = [json.loads(l) for l in open(refs)]
    jobs = [(1, h) for h in H] + [(0, r['key']) for r in R]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        done = list(pool.imap(_run, jobs, 1))
    ro = Out(out + ".refs")
    for r, d in zip(R, done[len(H):]):
        ro.put(key=r['key'], exc=d['exc'], out=d['out'])
    ro.close()
    so = Out(out + ".sims")
    for d in done[len(H):]:
        if 'sim' in d:
            so.put(**d['sim'])
    so.close()
    ho = Out(out)
    for h, d in zip(H, done):
        ho.put(evs=d, label=h.get('label', 'history'))
    ho.close()


def _run(job):
    return replay(job[1]) if job[0] else alone(job[1])


if __name__ == "__main__":
    main()
