"""the whole reconstruction, from the input file to the image, runs on a measurement with symbolic samples and is compared with the documented steps"""
import contextlib
import io
import math
import os
import tempfile
from .common import *

UNITS = ['utils.tomo_run.run', 'shortcuts.read_input_file', 'shortcuts.track', 'shortcuts.tomogram', 'utils.tomo_input.raw_data_to_profiles',
         'compat.fortran.calc_baseline', 'pre_process.rebin', 'Frames.to_waterfall', 'Tomography.run', 'tracking.particles.physical_to_coords',
         'tracking.particles.ready_for_tomography', 'data_treatment.phase_space', 'Tracking.track']
BOUNDS = ('measurements of 2-3 frames of 20 raw samples (5 bins), of which up to three samples are symbolic; two machines with given settings, one and two turns per '
          'frame; one or two iterations; every reconstructed frame')
OUTSIDE = 'other machine settings (the steps themselves are decided with symbolic settings by the properties of their own); rounding'
ASSUMPTIONS = ['exact real arithmetic on the measurement; the settings of the machine are given numbers, for which sine, cosine and roots are evaluated numerically']

BASE = dict(path='pipe', out='some dir', nframes=2, skipf=0, flen=20, dtbin=2e-9, dturns=1, skips=0, skipe=0, minbin=0, maxbin=0, rebin=4, synchx=10.2, demax=-1.0,
            fstart=1, fstop=1, fstep=1, niter=1, snpt=1, fullpp=0, beamref=1, machref=1, vrf1=2e7, vrf1dot=0.0, vrf2=0.0, vrf2dot=0.0, h=16.0, hratio=2.0,
            phi12=0.3, b0=0.5, bdot=0.0, R=25.0, rho=8.2, gammat=4.1, erest=938272046.0, q=1.0, selff=0, g=0.0, zwall=0.0, pickup=0.36)
AT = dict(path=12, out=14, nframes=16, skipf=18, flen=20, dtbin=22, dturns=24, skips=26, skipe=28, minbin=31, maxbin=34, rebin=36, synchx=39, demax=41, fstart=43,
          fstop=45, fstep=47, niter=49, snpt=51, fullpp=53, beamref=55, machref=57, vrf1=61, vrf1dot=63, vrf2=65, vrf2dot=67, h=69, hratio=71, phi12=73, b0=75,
          bdot=77, R=79, rho=81, gammat=83, erest=85, q=87, selff=91, g=93, zwall=95, pickup=97)


def numeric(ctx):
    """settings are numbers: functions of them are evaluated"""
    ctx.hooks['numeric'] = ctx.hooks['fork_ite'] = True

    def newton(f, x0, fprime, args):
        x = float(x0)
        for _ in range(60):
            y = x - float(f(ctx.const(x), *args)) / float(fprime(ctx.const(x), *args))
            if abs(x - y) <= 1e-8:
                return ctx.const(y)
            x = y
        raise RuntimeError('no convergence')
    ctx.hooks['newton'] = newton


def samples(ctx, p, nsym):
    """raw measurement: a bump on a constant; the first nsym of some samples are symbolic"""
    nf, n = p['nframes'], p['flen']
    raw = [[ctx.const(3 + (6 * math.exp(-((j - n / 2 - 0.5 + i) / 3.4) ** 2) // 0.125 * 0.125)) for j in range(n)] for i in range(nf)]
    k = 0
    for i, j in [(p['skipf'] + 1, 9), (p['skipf'] + 1, 13), (p['skipf'], 8)]:
        if k < nsym and i < nf:
            raw[i][j] = raw[i][j] + ctx.real(f's{k}', lo=-1 / 8, hi=1 / 8)
            k += 1
    return raw


@contextlib.contextmanager
def input_file(ctx, p, raw):
    t = [f'! comment {i}' for i in range(98)]
    for k, i in AT.items():
        t[i] = p[k] if isinstance(p[k], str) else repr(p[k])
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'input.dat')
        with open(f, 'w') as h:
            h.writelines(x + '\n' for x in t + [ctx.text(x) for r in raw for x in r])
        yield f


def waterfall_spec(ctx, p, raw):
    """baseline of the reference frame off, neighbouring samples joined, negatives off; the same, each frame with unit sum"""
    fr = [r[p['skips']:len(r) - p['skipe']] for r in raw[p['skipf']:]]
    ref = fr[p['beamref'] - 1]
    k = len(ref) // 20
    base = sum(ref[:k]) / k
    raw_, out = [], []
    for r in fr:
        b = [sum(x - base for x in r[i:i + p['rebin']]) for i in range(0, len(r) - p['rebin'] + 1, p['rebin'])]
        b = [x if bool(x > 0) else ctx.const(0) for x in b]
        s = sum(b)
        raw_.append(b)
        out.append([x / s for x in b])
    return raw_, out


def image_spec(ctx, xp, yp, W, nb):
    im = [[ctx.const(0)] * nb for _ in range(nb)]
    for x, y, w in zip(xp, yp, W):
        im[int(x)][int(y)] = im[int(x)][int(y)] + w
    s = sum(sum(r) for r in im)
    return [[v / s for v in r] for r in im]


@contextlib.contextmanager
def replaced(obj, name, new):
    old = getattr(obj, name)
    setattr(obj, name, new)
    try:
        yield
    finally:
        setattr(obj, name, old)


@contextlib.contextmanager
def quiet():
    """no output of the library, neither from Python nor from native code"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


class Case:
    """one measurement, what the program makes of it, and what the documented steps make of it"""

    def __init__(self, ctx, T, nsym, over):
        if is_sym(ctx):
            numeric(ctx)
        self.ctx, self.T, self.p = ctx, T, dict(BASE, **over)
        p = self.p
        self.raw = samples(ctx, p, nsym)
        self.nb = (p['flen'] - p['skips'] - p['skipe']) // p['rebin']
        self.nprof = p['nframes'] - p['skipf']
        self.w0, self.ws = waterfall_spec(ctx, p, self.raw)

    def expect(self, m, xp, yp, idx):
        """weights and image of given particle positions"""
        self.c = [[int(x) for x in r] for r in rows(xp)]
        self.cy = [[int(x) for x in r] for r in rows(yp)]
        self.W, self.D, self.rec = recon_spec(self.ctx, self.c, self.ws, self.p['niter'])
        return self.image(idx)

    def image(self, idx):
        return image_spec(self.ctx, [x[idx] for x in self.c], [x[idx] for x in self.cy], self.W, self.nb)

    def result(self, m, r, im):
        ctx, p = self.ctx, self.p
        t, e, img = r
        ctx.check_eq(rows(img), im, 'reconstructed phase space')
        dt = p['dtbin'] * p['rebin']
        ctx.check_eq(list(t), [(ctx.const(i) - m.synch_part_x) * ctx.const(dt) for i in range(self.nb)], 'time axis')
        ctx.check_eq(list(e), [(ctx.const(i) - ctx.const(self.nb) / 2) * m.dEbin for i in range(self.nb)], 'energy axis')


def frame(ctx, c, rec):
    """index given to the program -> reconstructed frame"""
    return c.p['fstart'] - 1 if rec is None else rec % c.nprof


def whole(ctx, T, nsym, over, rec=None):
    c = Case(ctx, T, nsym, over)
    p, sc = c.p, T.mod('shortcuts')
    if rec == 'any':
        rec = ctx.concrete(ctx.int('rec', -c.nprof, c.nprof - 1))
    idx = frame(ctx, c, rec)
    with input_file(ctx, p, c.raw) as f, quiet(), replaced(T.mod('utils.tomo_output'), 'show', lambda *a, **k: ctx.check(False, 'picture shown without being asked for')):
        r = T.mod('utils.tomo_run').run(f, **({} if rec is None else {'reconstruct_profile': rec}))
        m, w = sc.read_input_file(f)
        ctx.check_eq(rows(w), c.w0, 'waterfall from the input file')
        ctx.check_eq(m.dtbin, ctx.const(p['dtbin'] * p['rebin']), 'width of the joined bins')
        ctx.check(m.nbins == c.nb, 'number of joined bins')
        if p['synchx'] >= 0:
            ctx.check_eq(m.synch_part_x, ctx.const(p['synchx'] / p['rebin']), 'synchronous particle in joined bins')
        else:
            # (nothing but the fit itself is free: its result is compared with another call of it)
            m2, _ = sc.read_input_file(f)
            m2.synch_part_x = ctx.const(0)
            x = T.mod('data.pre_process').fit_synch_part_x(w, m2)
            ctx.check_eq([m.synch_part_x, m.bunchlimit_low, m.bunchlimit_up], list(x), 'fitted synchronous particle')
        if rec is None:
            xp, yp = sc.track(m)
            xq, yq = sc.track(m, idx)
            ctx.check(np.array_equal(np.asarray(xp), np.asarray(xq)) and np.array_equal(np.asarray(yp), np.asarray(yq)), 'tracking starts from another frame than the first film')
        else:
            xp, yp = sc.track(m, rec)
        # the frame that is reconstructed holds one particle per cell: the others do not
        q = sorted((int(a), int(b)) for a, b in zip(rows(xp.T)[idx], rows(yp.T)[idx]))
        ctx.check(len(set(q)) == len(q), 'particles do not start in the reconstructed frame')
        im = c.expect(m, xp, yp, idx)
        tomo = sc.tomogram(w, xp, yp, p['niter'])
        ctx.check_eq(list(tomo.weight), c.W, 'weights of the particles')
        ctx.check_eq([x * x for x in tomo.diff], c.D, 'discrepancies')
        c.result(m, r, im)
        ctx.check(c.ctx.And(*[x >= 0 for q in rows(r[2]) for x in q]), 'negative density')
        ctx.check_eq(sum(x for q in rows(r[2]) for x in q), 1, 'sum of the density')
    ctx.reach('done')


def stdin(ctx, T, nsym, over):
    """the program reads the same measurement from standard input"""
    import sys
    c = Case(ctx, T, nsym, over)
    run = T.mod('utils.tomo_run').run
    with input_file(ctx, c.p, c.raw) as f, quiet():
        a = run(f)
        with open(f) as h, replaced(sys, 'stdin', h):
            b = run('stdin')
    for x, y in zip(a, b):
        ctx.check_eq(x, y, 'measurement on standard input')
    ctx.reach('done')


def fields(ctx, T, nsym, over, on):
    """self-fields enter the tracking if, and only if, the machine asks for them"""
    c = Case(ctx, T, nsym, dict(over, selff=int(on)))
    P = T.mod('data.profiles').Profiles
    n = []

    def given(self, *a, **k):
        n.append(1)
        self.vself = ctx.array([[ctx.const(1e6 * ((3 * i + 2 * j) % 7 - 3)) for j in range(c.nb)] for i in range(c.nprof)])
        self.phiwrap = ctx.const(2 * math.pi)
    with input_file(ctx, c.p, c.raw) as f, quiet(), replaced(P, 'calc_self_fields', given):
        r = T.mod('utils.tomo_run').run(f)
        ctx.check(bool(n) == on, 'self-fields calculated' if n else 'self-fields asked for, but not calculated')
        m, w = T.mod('shortcuts').read_input_file(f)
        tr = T.mod('tracking.tracking').Tracking(m)
        pt = T.mod('tracking.particles')
        idx = m.filmstart
        if on:
            q = P(m, c.p['dtbin'], w)
            given(q)
            tr.enable_self_fields(q)
            xp, yp = tr.track(idx)
        else:
            xp, yp = tr.track(idx)
            xp, yp = pt.physical_to_coords(xp, yp, m, tr.particles.xorigin, tr.particles.dEbin)
        xp, yp = pt.ready_for_tomography(xp, yp, m.nbins)
        c.result(m, r, c.expect(m, xp, yp, idx))
    ctx.reach('done')


def numbers(ctx, text):
    """numbers in the lines of a text"""
    if not is_sym(ctx):
        return [float(x.split()[-1]) for x in text.splitlines()]
    out = []
    for x in text.splitlines():
        s, v = ctx.parse(x)
        out.append(v[0][0] if v else ctx.const(float(s.split()[-1])))
    return out


def near(ctx, a, b, label):
    """numbers of a file (those that do not depend on the measurement are written with eight digits)"""
    ctx.check(len(a) == len(b), f'{label}: {len(a)} values')
    for i, (x, y) in enumerate(zip(a, b)):
        if is_sym(ctx) and not (hasattr(x, 'const') and x.const()):
            ctx.check_eq(x, y, f'{label}, value {i}')
        else:
            ctx.check(ctx.And(x - y <= 1e-6 * abs(x) + 1e-9, y - x <= 1e-6 * abs(x) + 1e-9), f'{label}, value {i}')


def scope(ctx, T, nsym, over, own):
    """the files written for the tomoscope"""
    c = Case(ctx, T, nsym, over)
    p = c.p
    with tempfile.TemporaryDirectory() as d:
        other = os.path.join(d, 'other')
        os.mkdir(other)
        p['out'] = d
        out = other if own else d
        with input_file(ctx, p, c.raw) as f, quiet() as said:
            r = T.mod('utils.tomo_run').run(f, tomoscope=True, **({'output_dir': out} if own else {}))
            text = said.getvalue()
            m, w = T.mod('shortcuts').read_input_file(f)
            xp, yp = T.mod('shortcuts').track(m, m.filmstart)
        c.result(m, r, c.expect(m, xp, yp, m.filmstart))
        charge = sum(c.w0[p['beamref'] - 1]) * ctx.const(p['dtbin'] / (1.602176634e-19 * p['pickup']))
        for key, v in [('profilecount', c.nprof), ('profilelength', c.nb), ('eperimage', charge)]:
            g = [x for x in text.splitlines() if x.startswith(f' {key} = ')]
            ctx.check(len(g) == 1, f'plot info: {key} is printed {len(g)} times')
            x = numbers(ctx, g[0])[0]
            x = x / v if is_sym(ctx) else float(x) / float(v)
            ctx.check(ctx.And(x > 0.999, x < 1.001), f'plot info: {key}')
        films = list(range(p['fstart'] - 1, p['fstop'], p['fstep']))
        want = {f'image{i + 1:03d}.data' for i in films} | {f'profile{i + 1:03d}.data' for i in films} | {f'd{films[-1] + 1:03d}.data'}
        got = {x for x in os.listdir(out) if x != 'other'}
        ctx.check(got == want, f'files written: {sorted(got)}')
        rd = {x: numbers(ctx, open(os.path.join(out, x)).read()) for x in want & got}
        for i in films:
            near(ctx, rd[f'image{i + 1:03d}.data'], [x for q in c.image(i) for x in q], f'image of frame {i} in the file')
            near(ctx, rd[f'profile{i + 1:03d}.data'], c.ws[i], f'profile of frame {i} in the file')
        near(ctx, [x * x for x in rd[f'd{films[-1] + 1:03d}.data']], c.D, 'discrepancies in the file')
    ctx.reach('done')


def plot(ctx, T, nsym, over, rec=None):
    """the picture shows what is returned"""
    c = Case(ctx, T, nsym, over)
    got = []
    with input_file(ctx, c.p, c.raw) as f, quiet(), replaced(T.mod('utils.tomo_output'), 'show', lambda *a, **k: got.append(a)):
        run = T.mod('utils.tomo_run').run
        run(f)
        ctx.check(not got, 'picture shown without being asked for')
        r = run(f, plot=True, **({} if rec is None else {'reconstruct_profile': rec}))
        ctx.check(len(got) == 1, 'no picture shown' if not got else 'picture shown more than once')
        idx = frame(ctx, c, rec)
        m, w = T.mod('shortcuts').read_input_file(f)
        xp, yp = T.mod('shortcuts').track(m, idx)
        c.expect(m, xp, yp, idx)
        ctx.check_eq(rows(got[0][0]), rows(r[2]), 'image shown')
        ctx.check_eq([x * x for x in got[0][1]], c.D, 'discrepancies shown')
        s = sum(got[0][2])
        ctx.check_eq([x / s for x in got[0][2]], c.ws[idx], 'profile shown')
    ctx.reach('done')


SECOND = dict(nframes=3, dturns=2, dtbin=1.5e-9, bdot=0.3, vrf2=-4e6, vrf1=1.2e7, fullpp=1, beamref=2, machref=2, vrf1dot=1e9, fstart=2, fstop=3, snpt=1)
CUT = dict(nframes=3, skipf=1, flen=25, skips=3, skipe=2, rebin=4, synchx=10.2, fullpp=1, minbin=3, maxbin=2)
FIT = dict(flen=40, rebin=4, synchx=-1.0, dtbin=0.8e-9, demax=6e6)


def instances(tier):
    out = []
    b = 120 if tier == 'quick' else 900
    th = tier == 'thorough'

    def add(name, fn, *a, **k):
        w = k.pop('weight', 1)
        out.append(Instance(name, fn, dict(nsym=a[0], over=a[1], **k), budget=b, reach=['done'], rtol=1e-6, atol=1e-8, weight=w))
    add('whole-first', whole, 1, {})
    add('whole-any', whole, 1, {'fullpp': 1}, rec='any')
    add('whole-second', whole, 1, SECOND)
    add('whole-second-any', whole, 1, SECOND, rec='any')
    add('whole-cut', whole, 1, CUT)
    add('whole-fit', whole, 1, FIT)
    add('whole-early', whole, 1, {'fullpp': 1, 'synchx': 2.0})
    add('whole-zero', whole, 1, {'fullpp': 1, 'synchx': 0.0})
    add('whole-two', whole, 2, {})
    add('whole-iter2', whole, 1, {'niter': 2})
    add('stdin', stdin, 1, {})
    for on in (True, False):
        add(f'fields-{"on" if on else "off"}', fields, 1, {'fullpp': 1}, on=on)
    add('scope-own', scope, 1, dict(SECOND, fstart=1, fstop=3, fstep=2), own=True)
    add('scope', scope, 1, dict(SECOND, fstart=2, fstop=3), own=False)
    add('plot', plot, 1, SECOND)
    add('plot-0', plot, 1, SECOND, rec=0)
    return out
