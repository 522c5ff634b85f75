import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))
H, M = _b['H'], _b['M']
SINE = H + '''from longitudinal_tomography.cpp_routines import libtomo
for x in np.linspace(%s, %s, 4001):
    p, e = np.array([x]), np.zeros(1)
    libtomo.kick_up(p, e, 1., 0., 0., 0., 1., 1, 0.)
    if abs(e[0] - np.sin(x)) > 1e-9:
        fail((x, e[0], np.sin(x)))
'''
SEEDS = {
 'octant-modulo': dict(property='C07', needs='a phase more than four RF periods from the origin', what_it_breaks='the octant wraps around before the phase is reduced',
  edits=[('cpp_routines/sincos.h', '    quad = (quad+1) & (~1);    \n', '    quad = (quad+1) & 30;\n')], demo=SINE % (-40, 40)),
 'single-sign': dict(property='C07', needs='single precision tracking and a negative phase beyond half a period', what_it_breaks='the sign of negative phases is lost where the cosine polynomial is used',
  edits=[('cpp_routines/sincos.h', '    if (xx<0)  ls = -ls;', '    if (xx<0 && poly != 0)  ls = -ls;')],
  demo=H + '''from longitudinal_tomography.cpp_routines import libtomo
F = lambda *a: np.array(a, dtype=np.float32)
for x in np.linspace(-9, 9, 1001):
    p, e = F(x), F(0)
    xp, yp = np.zeros((2, 1), dtype=np.float32), np.zeros((2, 1), dtype=np.float32)
    xp, yp = libtomo.kick_and_drift(xp, yp, e, p, F(1, 1), F(0, 0), F(0, 0), F(0, 0), F(0, 0), 0., 1., 1, 0, 0, 1, 1, False, None)
    if abs(yp[1][0] - np.sin(x)) > 1e-4:
        fail((x, yp, np.sin(x)))
'''),
 'wrap-of-first-call': dict(property='C25', needs='self-fields calculated twice with a changed bin width', what_it_breaks='the wrap length of the first calculation is kept',
  edits=[('data/profiles.py', '''        (self.phiwrap,
         self.wrap_length) = self._find_wrap_length()
''', '''        if self.phiwrap is None:
            (self.phiwrap,
             self.wrap_length) = self._find_wrap_length()
''')],
  demo=M + '''from longitudinal_tomography.data.profiles import Profiles
w = np.exp(-((np.arange(31) - 15) / 5) ** 2) * np.ones((4, 1))
def fields(first):
    m = machine()
    p = Profiles(m, 2e-8, w)
    p.calc_profilecharge()
    if first:
        m.dtbin = 1e-9
        p.calc_self_fields()
        m.dtbin = 2e-8
    p.calc_self_fields()
    return p.vself
a, b = fields(False), fields(True)
if a.shape != b.shape or not np.allclose(a, b):
    fail((a.shape, b.shape))
'''),
 'distribution-keeps-scale': dict(property='C16', needs='a particles object that is filled for a second machine', what_it_breaks='the energy bin of the first distribution is kept',
  edits=[('tracking/particles.py', '        self.dEbin = psinfo.dEbin\n', '        if self.dEbin is None:\n            self.dEbin = psinfo.dEbin\n')],
  demo=M + '''a = pts.Particles()
a.homogeneous_distribution(machine(demax=4e6), 0)
a.homogeneous_distribution(machine(demax=8e6), 0)
b = pts.Particles()
b.homogeneous_distribution(machine(demax=8e6), 0)
if not np.allclose(a.coordinates_dphi_denergy, b.coordinates_dphi_denergy):
    fail('energies')
'''),
 'rebin-remainder-integer': dict(property='C20', needs='integer samples and a factor that does not divide the number of bins', what_it_breaks='the incomplete last bin is cut to an integer',
  edits=[('data/pre_process.py', '    ans = np.zeros((nprofs, int(nbins / rbn) + 1))\n', '    ans = np.zeros((nprofs, int(nbins / rbn) + 1), dtype=data.dtype)\n')],
  demo=H + '''from longitudinal_tomography.data import pre_process as p
w = np.array([[3, 4, 8, 9, 2], [1, 1, 4, 2, 6]])
a, b = p.rebin(w, 2)[0], p.rebin(w.astype(float), 2)[0]
if not np.allclose(a, b):
    fail((a, b))
'''),
 'falling-flank-window': dict(property='C33', needs='a falling flank that is not straight', what_it_breaks='the line of the falling flank is fitted to four samples above the threshold and two below',
  edits=[('utils/tomographics.py', '''np.polyfit(x[right_index-2:right_index+4],
                               y[right_index-2:right_index+4], 1)''', '''np.polyfit(x[right_index-3:right_index+3],
                               y[right_index-3:right_index+3], 1)''')],
  demo=H + '''from longitudinal_tomography.utils.tomographics import foot_tangent_fit_dq as fit
y = np.array([0, 0.01, 0.03, 0.1, 0.3, 0.6, 0.9, 1, 0.9, 0.6, 0.3, 0.1, 0.03, 0.01, 0])
x = np.arange(15.) - 7
a, b = fit(x, y, 100., False)
if abs(a + b) > 1e-9:
    fail((a, b))
'''),
 'clipped-weights-lost': dict(property='C33', needs='particles of different weights, one of them outside the contour', what_it_breaks='the remaining weights are scaled by the number of particles',
  edits=[('utils/tomographics.py', '''                       / np.sum(new_weight_tomo)
                       * np.sum(weight_tomo))''', '''                       * len(new_weight_tomo)
                       / np.count_nonzero(new_weight_tomo))''')],
  demo=H + '''from longitudinal_tomography.utils import tomographics as t
class M: pass
m = M()
m.machine_ref_frame, m.dturns, m.h_num, m.q = 0, 1, 1, 1
m.phi0, m.e0, m.eta0, m.omega_rev0 = [np.array([a]) for a in (np.pi - 0.1, 2.0e9, -0.1, 3e6)]
m.e_rest, m.vrf1, m.synch_part_x = 0.938e9, 1e4, 2.5
w, h, i = t.tomo_weight_clipping(m, np.linspace(0, 1.4 * np.pi / 3e6, 6), np.linspace(-3e6, 3e6, 5), np.array([[2.5], [2.4], [2.6]]), np.array([[2.], [2.01], [7.]]),
                                 np.array([1., 2., 5.]), 3.0, 8)
if abs(w.sum() - 8) > 1e-9 or w[2] != 0:
    fail(w)
'''),
 'correlation-wrong-mean': dict(property='C33', needs='an image of unequal sides or with a tilted distribution away from its corner', what_it_breaks='the correlation of time and energy is taken about the wrong mean',
  edits=[('utils/tomographics.py', '(xybar - xbar*ybar)**2.', '(xybar - xbar*xbar)**2.')],
  demo=H + '''from longitudinal_tomography.utils.tomographics import rms_params
im = np.zeros((5, 5))
for k in range(5):
    im[k, k] = 0.16
im[1, 3] = 0.2
a, b = rms_params(im, 1., 1.)[0], rms_params(im[::-1], 1., 1.)[0]
if not abs(a - b) <= 1e-9:
    fail((a, b))
'''),
}
