import runpy
import os
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a.py'))
H = _a['H']
M = H + '''from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.tracking import particles as pts


def machine(**k):
    d = dict(dturns=3, vrf1=8e3, mean_orbit_rad=25., bending_rad=8.239, b0=.15722, trans_gamma=4.1, rest_energy=.93827231e9, nprofiles=4, nbins=31, dtbin=2e-8,
             bdot=.795, synch_part_x=15., demax=4e6, machine_ref_frame=0, beam_ref_frame=0, full_pp_flag=True, snpt=2, pickup_sensitivity=.36, g_coupling=1., zwall_over_n=10.)
    d.update(k)
    return Machine(**d)


'''
SEEDS = {
 'self-field-stale-position': dict(property='C08', needs='more than one turn between the frames and a start frame behind the first one',
  what_it_breaks='backward tracking looks the self-field voltage up at the position of the last frame instead of the current turn',
  edits=[('tracking/tracking.py', '''            temp_xp = self._calc_xp_sf(
                dphi, self.machine.phi0[turn], self.particles.xorigin,
                self.machine.h_num, self.machine.omega_rev0[turn],
                self.machine.dtbin, self._phiwrap)

            if turn % self.machine.dturns == 0:
                xp[profile] = temp_xp
''', '''            if turn % self.machine.dturns == 0:
                temp_xp = self._calc_xp_sf(
                    dphi, self.machine.phi0[turn], self.particles.xorigin,
                    self.machine.h_num, self.machine.omega_rev0[turn],
                    self.machine.dtbin, self._phiwrap)
                xp[profile] = temp_xp
''')],
  demo=M + '''m = machine(nprofiles=3)
t = Tracking(m)
nb = 400
r = np.random.default_rng(1)
t._vself = r.uniform(-2e3, 2e3, (2, nb))
t._phiwrap = 2 * np.pi
t.particles.xorigin, t.particles.dEbin = 1., 1e4
dphi, de = r.uniform(-1, 1, 20), r.uniform(-1e5, 1e5, 20)
v1, v2 = m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q
rec = 2
xp, yp = t.kick_and_drift_self(de.copy(), dphi.copy(), v1, v2, rec)


def pos(p, i):
    w = m.h_num * m.omega_rev0[i] * m.dtbin
    x = p + m.phi0[i] - t.particles.xorigin * w
    return (x - t._phiwrap * np.floor(x / t._phiwrap)) / w


turn, p, e, prof = rec * m.dturns, dphi.copy(), de.copy(), rec - 1
x = pos(p, turn)
while turn > 0:
    e = e - (v1[turn] * np.sin(p + m.phi0[turn]) + v2[turn] * np.sin(m.h_ratio * (p + m.phi0[turn] - m.phi12)) - m.deltaE0[turn])
    e = e + t._vself[prof, x.astype(int)] * m.q
    turn -= 1
    p = p + m.drift_coef[turn] * e
    x = pos(p, turn)
    if turn % m.dturns == 0:
        if not np.allclose(xp[prof], x) or not np.allclose(yp[prof], e / 1e4 + m.synch_part_y):
            fail(prof)
        prof -= 1
'''),
 'coordinates-cut-before-check': dict(property='C13', needs='a coordinate between minus one and zero, which is cut to bin 0',
  what_it_breaks='particles left of the image are accepted and counted in the first bin',
  edits=[('tomography/__tomography.py', '''            value = conf.cast(value)

            if value.ndim''', '''            value = conf.cast(value).astype(conf.int32)

            if value.ndim''')],
  demo=H + '''from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography import exceptions as expt
w = np.random.default_rng(0).uniform(.1, 1, (3, 5))
t = Tomography(w, np.array([[0., 1.5, 4.9]]))
for bad in (-.5, -.01, 5., -1.):
    try:
        t.xp = np.array([[1., 2., bad], [0., 0., 0.]])
        fail(bad)
    except expt.XPOutOfImageWidthError:
        pass
'''),
 'energy-axis-odd-bins': dict(property='C15', needs='an odd number of bins',
  what_it_breaks='the energy axis of the image is shifted by half a bin',
  edits=[('data/data_treatment.py', '''                                        machine.synch_part_y, machine.dtbin,''', '''                                        machine.nbins // 2, machine.dtbin,''')],
  demo=H + '''from types import SimpleNamespace as O
from longitudinal_tomography.data import data_treatment as d
for nb in (4, 5, 7):
    i = np.array([[0, 1], [2, 3]], dtype=np.int32)
    m = O(nbins=nb, synch_part_x=1.5, synch_part_y=nb / 2, dtbin=2., dEbin=3.)
    t, e, p = d.phase_space(O(xp=i, yp=i, weight=np.array([1., 2.])), m, 1)
    if not np.allclose(e, (np.arange(nb) - nb / 2) * 3) or not np.allclose(t, (np.arange(nb) - 1.5) * 2):
        fail(nb)
'''),
 'lost-within-first-bin': dict(property='C18', needs='a particle less than one bin left of the image at some frame',
  what_it_breaks='particles that leave the image on the left by less than a bin are kept',
  edits=[('tracking/particles.py', 'conf.logical_or(xp >= img_width, xp < 0)', 'conf.logical_or(xp >= img_width, xp <= -1)')],
  demo=M + '''xp = np.array([[1., 2., 3., 0.], [1., -.25, 3., 0.], [1., 2., 4., 0.]])
a, b, n = pts.filter_lost(xp, xp + 1, 4)
if n != 2 or not np.array_equal(a, xp[:, [0, 3]]) or not np.array_equal(b, xp[:, [0, 3]] + 1):
    fail((a, n))
'''),
 'synch-zero-dropped': dict(property='C20', needs='a synchronous point at exactly zero',
  what_it_breaks='the rescaled synchronous point is not returned',
  edits=[('data/pre_process.py', '    if synch_part_x is not None:\n', '    if synch_part_x:\n')],
  demo=H + '''from longitudinal_tomography.data import pre_process as p
w = np.arange(24.).reshape(2, 12)
for x in (3., 0., 0):
    r = p.rebin(w, 3, 2., x)
    if len(r) != 3 or r[2] != x / 3 or r[1] != 6:
        fail((x, len(r)))
'''),
 'baseline-machine-frame': dict(property='C21', needs='different reference frames for the machine and the beam',
  what_it_breaks='the baseline is taken from the wrong profile',
  edits=[('utils/tomo_input.py', 'fortran.calc_baseline(waterfall, machine.beam_ref_frame)', 'fortran.calc_baseline(waterfall, machine.machine_ref_frame)')],
  demo=M + '''from longitudinal_tomography.utils import tomo_input as ti
m = machine(nbins=40, beam_ref_frame=2, machine_ref_frame=0)
w = np.random.default_rng(0).uniform(5, 9, (4, 40)) + np.arange(4)[:, None]
p = ti.raw_data_to_profiles(w, m, 1, 1e-9)
if not np.allclose(p.waterfall, (w - w[2, :2].mean()).clip(0)):
    fail('baseline')
'''),
 'backward-time-step': dict(property='C23', needs='a machine reference frame behind the first frame and an accelerated beam',
  what_it_breaks='the time of the turns before the reference frame is calculated with the velocity of the following turn',
  edits=[('tracking/machine.py', '''                                    / (self.beta0[i] * constants.c))''', '''                                    / (self.beta0[i + 1] * constants.c))''')],
  demo=M + '''from scipy import constants
for ref in (0, 2, 3):
    m = machine(dturns=20, bdot=5., vrf1=2e4, machine_ref_frame=ref)
    d = np.diff(m.time_at_turn)
    if not np.allclose(d, 2 * np.pi * m.mean_orbit_rad / (m.beta0[:-1] * constants.c), rtol=1e-11, atol=0):
        fail(ref)
'''),
 'fit-frequency-of-frame': dict(property='C24', needs='a reference frame behind the first one, several turns between the frames and an accelerated beam',
  what_it_breaks='the length of the bunch in the fit of the synchronous point uses the revolution frequency of the wrong turn',
  edits=[('data/pre_process.py', '''    bunch_phaselength = (machine.h_num * bunch_duration
                         * machine.omega_rev0[ref_turn])''', '''    bunch_phaselength = (machine.h_num * bunch_duration
                         * machine.omega_rev0[ref_idx])''')],
  demo=M + '''from longitudinal_tomography.data import pre_process as p
from longitudinal_tomography.utils import physics
m = machine(dturns=400, bdot=5., vrf1=3e4, nbins=60, beam_ref_frame=3, dtbin=1e-8)
w = np.exp(-((np.arange(60) - 28.3) / 7) ** 2)[None].repeat(4, 0)
x, lo, up = p.fit_synch_part_x(w, m)
i = 3 * 400
k = m.h_num * m.omega_rev0[i] * m.dtbin
phil = m.phi0[i] - (x - lo) * k
pot = lambda q: m.vrf1_at_turn[i] * np.cos(q) + q * m.vrf1_at_turn[i] * np.sin(m.phi0[i])
if abs(pot(phil) - pot(phil + (up - lo) * k)) > 1e-3 * m.vrf1_at_turn[i] * .01:
    fail(abs(pot(phil) - pot(phil + (up - lo) * k)))
'''),
 'image-appended': dict(property='C27', needs='a second image written for the same frame into the same folder',
  what_it_breaks='the file of the earlier image is extended instead of replaced',
  edits=[('compat/fortran.py', '''    image = image.flatten()
    file_path = os.path.join(output_path, f'image{recprof + 1:03d}.data')
    with open(file_path, 'w') as f:''', '''    image = image.flatten()
    file_path = os.path.join(output_path, f'image{recprof + 1:03d}.data')
    with open(file_path, 'a') as f:''')],
  demo=H + '''import tempfile
from longitudinal_tomography.compat import fortran
with tempfile.TemporaryDirectory() as d:
    for k in (1., 2.):
        fortran.save_phase_space(np.full((3, 3), k), 4, d)
    v = np.loadtxt(d + '/image005.data')
if v.shape != (9,) or not np.allclose(v, 2):
    fail(v)
'''),
 'time-limit-truncated': dict(property='C28', needs='an upper time limit that is not a whole number of bins',
  what_it_breaks='the last, partly covered bin is excluded from the reconstruction area',
  edits=[('tracking/phase_space_info.py', 'max_dtbin = int(np.ceil(self.machine.max_dt / self.machine.dtbin))', 'max_dtbin = int(self.machine.max_dt / self.machine.dtbin)')],
  demo=M + '''from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
for k, n in ((20.5, 20), (12.25, 12)):
    m = machine(max_dt=k * 2e-8)
    p = PhaseSpaceInfo(m)
    p.find_binned_phase_energy_limits()
    if p.imax != n or p.jmax[n] != m.nbins or p.jmax[n + 1] == m.nbins:
        fail((k, p.imax))
'''),
 'sorted-in-place': dict(property='C29', needs='a phase space that is already normalised',
  what_it_breaks='the phase space of the caller is sorted in place',
  edits=[('data/post_process.py', '    histogram = histogram / histogram.sum()\n', '    if histogram.sum() != 1:\n        histogram = histogram / histogram.sum()\n')],
  demo=H + '''from longitudinal_tomography.data import post_process as p
for k in (1., 3.):
    h = np.array([[.125, .25], [.5, .125]]) * k
    g = h.copy()
    p.emittance_fractional(h, np.arange(2.), np.arange(2.), fraction=50)
    if not np.array_equal(h, g):
        fail(h)
'''),
 'second-phase-times': dict(property='C31', needs='a phase program whose times differ from those of the voltage program',
  what_it_breaks='the phase of the second harmonic is interpolated at the times of the voltage program',
  edits=[('tracking/programs_machine.py', '''                phase2 = np.interp(momentum_time,
                                   self.phase_raw[0, :],''', '''                phase2 = np.interp(momentum_time,
                                   self.voltage_raw[0, :],''')],
  demo=H + '''from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
t = np.linspace(0, 1e-3, 50)
mom = np.array([t, 6e8 + 1e9 * t])
volt = np.array([[0, 1e-3], [2e4, 2e4], [1e3, 1e3]])
def make(ph):
    return ProgramsMachine(dturns=4, voltage_function=volt, momentum_function=mom, phase_function=ph, harmonics=[1, 2], mean_orbit_rad=25., bending_rad=8.239,
                           trans_gamma=4.1, rest_energy=.938e9, nprofiles=5, nbins=40, dtbin=1e-8, t_ref=3e-4)
a = make(np.array([[0, 1e-3], [0, .2], [0, .6]]))
b = make(np.array([[0, 2e-3], [0, .4], [0, 1.2]]))
if not np.allclose(a.phi12, b.phi12):
    fail((a.phi12[:3], b.phi12[:3]))
'''),
 'image-of-first-film': dict(property='C32', needs='a reconstructed profile other than the first film',
  what_it_breaks='the image returned is that of the first film',
  edits=[('utils/tomo_run.py', 'dtreat.phase_space(tomo, machine, reconstr_idx)', 'dtreat.phase_space(tomo, machine, machine.filmstart)')],
  demo=H + '''import contextlib
import io
import tempfile
from longitudinal_tomography.utils.tomo_run import run
from longitudinal_tomography import shortcuts as sc
v = {12: 'pipe', 14: 'out', 16: 3, 18: 0, 20: 40, 22: 2e-9, 24: 40, 26: 0, 28: 0, 31: 0, 34: 0, 36: 1, 39: 20.2, 41: 5e6, 43: 1, 45: 1, 47: 1, 49: 3, 51: 1, 53: 1, 55: 1,
     57: 1, 61: 2e6, 63: 0., 65: 0., 67: 0., 69: 16., 71: 2., 73: .4, 75: .5, 77: 0., 79: 25., 81: 8.2, 83: 4.1, 85: 938272046., 87: 1., 91: 0, 93: 0., 95: 0., 97: .36}
w = [3 + 6 * np.exp(-((np.arange(40) - 15 - 4 * i) / 5) ** 2) for i in range(3)]
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    with open(d + '/in.dat', 'w') as f:
        f.writelines(f'{v.get(i, "!")}\\n' for i in range(98))
        f.writelines(f'{x}\\n' for r in w for x in r)
    a = run(d + '/in.dat', reconstruct_profile=2)[2]
    m, q = sc.read_input_file(d + '/in.dat')
    xp, yp = sc.track(m, 2)
    t = sc.tomogram(q, xp, yp, 3)
im = np.zeros((40, 40))
np.add.at(im, (xp[:, 2], yp[:, 2]), t.weight)
if not np.allclose(a, im / im.sum(), atol=1e-9):
    fail(np.abs(a - im / im.sum()).max())
'''),
}
