"""a Fortran-style parameter file in which every number is a symbolic value is read by the real parser (file, standard input or list of lines) and
each resulting parameter is compared with the value of its own line"""
import contextlib
import io
import sys
import tempfile
from .common import *

UNITS = ['utils.tomo_input.txt_input_to_machine', 'utils.tomo_input._min_max_dt', 'utils.tomo_input.get_user_input', 'utils.tomo_input._get_input_args',
         'utils.tomo_input._get_input_stdin', 'utils.tomo_input._split_input', 'Machine.__init__', 'MachineABC.__init__', 'MachineABC._process_kwargs',
         'MachineABC.nbins', 'Frames.__init__']
BOUNDS = ('all 37 numeric parameters symbolic (integers up to 10^6 in magnitude); raw data of up to 2 frames x 3 bins inside the file, on standard input or in '
          'a second file, also too short and too long; parameter lists of 96-100 lines; line ends \\n, \\r\\n and none')
OUTSIDE = 'malformed numbers; the calculation of the machine values at each turn (property C23), switched off here'
ASSUMPTIONS = ['a number written in decimal is read as that number (the text conversion of Python itself is not encoded)']
BIG = 10 ** 6

INTS = {16: 'nframes', 18: 'skipf', 20: 'flen', 24: 'dturns', 26: 'skips', 28: 'skipe', 31: 'minbin', 34: 'maxbin', 36: 'rebin', 43: 'fstart', 45: 'fstop',
        47: 'fstep', 49: 'niter', 51: 'snpt', 53: 'fullpp', 55: 'beamref', 57: 'machref', 91: 'selff'}
REALS = {22: 'dtbin', 39: 'synchx', 41: 'demax', 61: 'vrf1', 63: 'vrf1dot', 65: 'vrf2', 67: 'vrf2dot', 69: 'h', 71: 'hratio', 73: 'phi12', 75: 'b0',
         77: 'bdot', 79: 'R', 81: 'rho', 83: 'gammat', 85: 'erest', 87: 'q', 93: 'g', 95: 'zwall', 97: 'pickup'}


def lines(ctx, path, out, dims=None, eol='\n'):
    v = {}
    t = [f'! comment {i}' for i in range(98)]
    for i, n in INTS.items():
        v[n] = ctx.int(n, -BIG, BIG) if not (dims and n in dims) else dims[n]
        t[i] = ctx.text(v[n])
    for i, n in REALS.items():
        v[n] = ctx.real(n)
        t[i] = ctx.text(v[n])
    t[12], t[14] = path, out
    return [x + eol for x in t], v


@contextlib.contextmanager
def no_turns(T):
    m = T.mod('tracking.machine').Machine
    old = m.values_at_turns
    m.values_at_turns = lambda self: None
    try:
        yield
    finally:
        m.values_at_turns = old


def compare(ctx, m, f, v, path, out):
    eq = ctx.check_eq
    eq(f.nframes, v['nframes'], 'number of frames')
    eq(f.skip_frames, v['skipf'], 'frames skipped')
    eq(f.nbins_frame, v['flen'], 'bins per frame')
    eq(f.skip_bins_start, v['skips'], 'bins skipped at the start')
    eq(f.skip_bins_end, v['skipe'], 'bins skipped at the end')
    eq(f.rebin, v['rebin'], 'rebinning factor')
    eq(f.sampling_time, v['dtbin'], 'sampling time')
    ctx.check(f.raw_data_path == path, 'path of the raw data')
    ctx.check(m.output_dir == out, 'output directory')
    nb = v['flen'] - v['skips'] - v['skipe']
    eq(m.nprofiles, v['nframes'] - v['skipf'], 'number of profiles')
    eq(m.nbins, nb, 'number of bins')
    eq(m.synch_part_y, nb / 2 if is_sym(ctx) else nb / 2.0, 'energy of the synchronous particle in bins')
    eq(m.min_dt, v['minbin'] * v['dtbin'], 'start of the reconstruction area')
    eq(m.max_dt, (nb - v['maxbin']) * v['dtbin'], 'end of the reconstruction area')
    for a, n in [('dtbin', 'dtbin'), ('dturns', 'dturns'), ('synch_part_x', 'synchx'), ('demax', 'demax'), ('filmstep', 'fstep'), ('niter', 'niter'),
                 ('snpt', 'snpt'), ('vrf1', 'vrf1'), ('vrf1dot', 'vrf1dot'), ('vrf2', 'vrf2'), ('vrf2dot', 'vrf2dot'), ('h_num', 'h'),
                 ('h_ratio', 'hratio'), ('phi12', 'phi12'), ('b0', 'b0'), ('bdot', 'bdot'), ('mean_orbit_rad', 'R'), ('bending_rad', 'rho'),
                 ('trans_gamma', 'gammat'), ('e_rest', 'erest'), ('q', 'q'), ('g_coupling', 'g'), ('zwall_over_n', 'zwall'),
                 ('pickup_sensitivity', 'pickup')]:
        eq(getattr(m, a), v[n], f'machine parameter {a}')
    for a, n in [('filmstart', 'fstart'), ('filmstop', 'fstop'), ('beam_ref_frame', 'beamref'), ('machine_ref_frame', 'machref')]:
        eq(getattr(m, a), v[n] - 1, f'machine parameter {a} (counted from zero)')
    for a, n in [('full_pp_flag', 'fullpp'), ('self_field_flag', 'selff')]:
        x = getattr(m, a)
        ctx.check(bool(x) == bool(v[n] != 0), f'machine flag {a}')


def machine(ctx, T, eol, kind):
    t, v = lines(ctx, 'some/raw.dat', 'out dir', eol=eol)
    arg = t if kind == 'list' else np.array(t)
    with no_turns(T):
        m, f = T.mod('utils.tomo_input').txt_input_to_machine(arg)
    compare(ctx, m, f, v, 'some/raw.dat', 'out dir')
    ctx.reach('done')


def wrong(ctx, T):
    """anything but the 98 parameter lines is refused"""
    exc = T.mod('exceptions')
    n = ctx.concrete(ctx.int('n', 96, 100))
    t, v = lines(ctx, 'raw', 'out')
    t = (t + ['1\n', '2\n'])[:n]
    with no_turns(T):
        r, e = ctx.raises(lambda: T.mod('utils.tomo_input').txt_input_to_machine(t), exc.InputError)
        ctx.check((e is None) == (n == 98), 'wrong number of parameter lines accepted' if e is None else 'complete parameters rejected')
        for bad in (3, None):
            r, e = ctx.raises(lambda: T.mod('utils.tomo_input').txt_input_to_machine(bad), exc.InputError)
            ctx.check(e is not None, 'parameters that are no sequence accepted')
    ctx.reach('done')


def read(ctx, T, via, nf, nl, eol='\n'):
    """parameters and measurement reach the program together"""
    exc = T.mod('exceptions')
    ti = T.mod('utils.tomo_input')
    extra = ctx.concrete(ctx.int('extra', -1, 0 if via == 'stdin' else 1))
    n = nf * nl + extra
    d = [ctx.real(f'd{i}') for i in range(n)]
    with tempfile.TemporaryDirectory() as tmp:
        raw = f'{tmp}/raw.dat'
        path = raw if via == 'file2' else 'pipe'
        t, v = lines(ctx, path, 'out', dims={'nframes': nf, 'flen': nl}, eol=eol)
        dl = [ctx.text(x) + eol for x in d]
        if via == 'file2':
            with open(raw, 'w') as f:
                f.writelines(dl)
        else:
            t = t + dl
        if via == 'stdin':
            old = sys.stdin
            sys.stdin = io.StringIO(''.join(t))
            try:
                if extra < 0:
                    # an incomplete measurement ends with an empty line
                    r, e = ctx.raises(lambda: ti.get_user_input(), exc.InputError, ValueError)
                else:
                    r, e = ctx.raises(lambda: ti.get_user_input(), exc.InputError)
            finally:
                sys.stdin = old
        else:
            p = f'{tmp}/in.dat'
            with open(p, 'w', newline='') as f:
                f.writelines(t)
            r, e = ctx.raises(lambda: ti.get_user_input(p), exc.InputError)
            _, e2 = ctx.raises(lambda: ti.get_user_input(p + '.missing'), exc.InputError)
            ctx.check(e2 is not None, 'a missing input file is not reported')
        ctx.check((e is None) == (extra == 0), 'wrong amount of measured data accepted' if e is None else 'complete input rejected')
        if e is not None:
            ctx.reach('rejected')
            return
        par, data = r
        ctx.check(len(par) == 98 and len(data) == n, 'number of parameters and samples')
        for i in range(n):
            ctx.check_eq(data[i], d[i], 'measured sample')
        with no_turns(T):
            m, f = ti.txt_input_to_machine(par)
        compare(ctx, m, f, v, path, 'out')
        ctx.reach('done')


def instances(tier):
    out = [Instance('wrong', wrong, {}, budget=60, reach=['done'])]
    for e, n in (('\n', 'lf'), ('\r\n', 'crlf'), ('', 'none')):
        out.append(Instance(f'machine-{n}', machine, dict(eol=e, kind='list'), budget=60, reach=['done'], weight=4))
    out.append(Instance('machine-array', machine, dict(eol='\n', kind='array'), budget=60, reach=['done'], weight=4))
    for via in ('pipe', 'stdin', 'file2'):
        for nf, nl in [(2, 3), (1, 3)] + ([(4, 4)] if tier == 'thorough' else []):
            out.append(Instance(f'read-{via}-{nf}x{nl}', read, dict(via=via, nf=nf, nl=nl), budget=60, reach=['done', 'rejected'], weight=5))
    out.append(Instance('read-pipe-crlf', read, dict(via='pipe', nf=1, nl=2, eol='\r\n'), budget=60, reach=['done', 'rejected'], weight=5))
    return out
