TP = ['tomography/__tomography.py', 'tomography/tomography.py', 'tomography/tomography_multibunch.py']
prop('C13', 'Reconstruction accepts only tracked points that lie in the image',
     'The tracked coordinates given to a tomography object, at construction or by assignment, are accepted exactly when they form one row per '
     'particle with one column per measured profile and every coordinate is a bin of the image. Accepted coordinates are kept as the '
     'same integer bins and the particle count follows them; a rejected assignment raises the documented error and leaves the object as it was.',
     ['inputs', 'histories', 'configurations'],
     'all coordinate values (also fractional, negative, beyond the image and not-a-number), array shapes, and construction or assignment',
     'a bin one beyond the image or a not-a-number is sampled by no test, and makes the native code read outside its arrays', TP,
     [('xp setter', 'tomography/__tomography.py')], ['the tomography object after construction or assignment'])
prop('C14', 'Profiles are clipped at zero and normalised to one, or rejected',
     'The waterfall held by a tomography object is the measured one with negative values replaced by zero and every profile divided by its sum, so '
     'that every profile sums to one. A measurement that leaves a profile without any signal is reported as reduced to zero instead of yielding '
     'meaningless numbers, and the array of the caller is never modified.',
     ['inputs', 'configurations'],
     'all measured values of any sign, all numbers of profiles and bins within the bounds',
     'the tests normalise one waterfall; profiles that are empty after clipping or partly negative are not sampled',
     TP + ['data/profiles.py'],
     [('_normalize_profiles', 'tomography/__tomography.py'), ('waterfall setter', 'data/profiles.py')])
prop('C15', 'The phase-space image holds exactly the weight of its particles',
     'The phase-space density computed from tracked bins and weights holds in every cell the sum of the weights of the particles in that cell, so '
     'that nothing is lost or counted twice, and is normalised by its sum where a normalised image is promised. The axes that come with it are '
     'those of the bins, a particle outside the image is rejected with an error, and coordinates and weights stay unmodified.',
     ['inputs', 'configurations'],
     'all placements of the particles inside and outside the image, all weights, the native and the array-module version, both precisions',
     'the tests fill one image; cells shared by particles, border cells and particles outside are not sampled',
     ['cpp_routines/data_treatment.cpp', 'cpp_routines/libtomo.cpp', 'python_routines/data_treatment.py', 'data/data_treatment.py', 'utils/tomo_config.py'],
     [('make_phase_space', 'cpp_routines/data_treatment.cpp'), ('phase_space', 'data/data_treatment.py')])
prop('C16', 'The test-particle grid fills the reconstruction area uniformly',
     'The homogeneous start distribution puts the requested number of particles, on a regular grid, into every cell of the reconstruction area and '
     'none outside it, each exactly once. The physical coordinates it returns are those of the grid points in the frame where tracking starts.',
     ['inputs', 'configurations'],
     'all phase and energy limits of the area, all numbers of particles per cell, start frames and machine parameters within the bounds',
     'the tests compare one stored distribution; an area with empty columns or a start frame other than the first is not sampled',
     ['tracking/particles.py'],
     [('homogeneous_distribution', 'tracking/particles.py')])
prop('C17', 'Bins and physical coordinates convert into each other and back',
     'Converting tracked phases and energies to bins applies, frame by frame, the phase and revolution frequency of the turn at which that frame was '
     'taken, the origin of the image and its bin sizes. Converting bins to physical coordinates is the exact inverse at the chosen frame, and '
     'neither conversion modifies its input.',
     ['inputs', 'configurations'],
     'all coordinates and machine parameters, frames, turns per frame within the bounds',
     'the tests hold stored numbers of one machine; a value taken at a neighbouring turn is invisible where the parameters are constant',
     ['tracking/particles.py', 'tracking/phase_space_info.py'],
     [('physical_to_coords', 'tracking/particles.py'), ('_bin_nr_to_physical_coords', 'tracking/particles.py'),
      ('calc_xorigin', 'tracking/phase_space_info.py')])
prop('C18', 'Only particles that stay in the image at all frames are kept',
     'Filtering tracked particles keeps exactly those whose phase bin lies inside the image at every frame, in their order and with their own '
     'energies, and reports how many were lost. Losing all of them is an error; preparing for tomography additionally transposes to one row per '
     'particle and cuts the coordinates to whole bins.',
     ['inputs', 'configurations'],
     'all coordinates (inside, on the edge and outside of the image), all numbers of particles and frames within the bounds',
     'which side of the edge counts, at the first and at the last frame, is not sampled by the tests',
     ['tracking/particles.py'],
     [('filter_lost and ready_for_tomography', 'tracking/particles.py')])
prop('C19', 'Raw data become the waterfall exactly as the frame settings say',
     'Frame settings are accepted exactly when they describe a non-empty image within the recording, and raw data exactly when their length fits the '
     'settings. The waterfall is then the recording cut into frames, without the skipped leading frames and the skipped bins at either end, every '
     'sample at its place, and the raw data of the caller stay unmodified.',
     ['inputs', 'configurations'],
     'all frame settings, recordings of right and wrong length, all samples',
     'the tests shape two recordings; skipping all bins, wrong lengths and off-by-one cuts are not sampled',
     ['utils/tomo_input.py', 'assertions.py'],
     [('Frames', 'utils/tomo_input.py'), ('assert_frame_inputs', 'assertions.py')])
prop('C20', 'Rebinning conserves the signal of every bin it merges',
     'Rebinning sums consecutive groups of bins, so that each full new bin holds the signal of the old ones and nothing is lost when the factor divides '
     'the number of bins; an incomplete last bin holds the extrapolated density. Bin size and synchronous point are rescaled so that they '
     'keep their meaning in time, and the waterfall of the caller stays unmodified.',
     ['inputs', 'configurations'],
     'all samples, bin sizes and synchronous points, all combinations of length and factor within the bounds',
     'the tests rebin two waterfalls; factors that leave one bin over or exceed the length are not sampled',
     ['data/pre_process.py', 'data/data_treatment.py'],
     [('rebin', 'data/pre_process.py')])
prop('C21', 'Baseline, cuts and noise-frame removal treat the measurement as defined',
     'The baseline is the mean of the leading share of the reference profile and is rejected when that share is impossible or covers no bin; cutting '
     'returns exactly the bins between the cuts, and removing noise frames drops exactly the noisy ones and keeps the reference profile. The complete '
     'treatment subtracts the baseline, rebins, clips at zero and leaves the machine in step with the result.',
     ['inputs', 'configurations'],
     'all samples, percentages, cuts, reference frames and rebinning factors within the bounds',
     'a removed frame behind the reference profile, a percentage of zero or a cut at the border is not sampled',
     ['compat/fortran.py', 'data/data_treatment.py', 'data/pre_process.py', 'utils/tomo_input.py', 'data/profiles.py'],
     [('calc_baseline', 'compat/fortran.py'), ('raw_data_to_profiles', 'utils/tomo_input.py'),
      ('cut_waterfall, get_cuts, filter_profiles', 'data/pre_process.py')])
prop('C22', 'A parameter file sets every parameter from its own line',
     'Reading a Fortran-style parameter file gives each machine and frame parameter the value of its own line, with the documented conversions of units, '
     'signs and limits, whatever the other lines hold. The raw data follow from the file itself, from standard input or from the data file it '
     'names, and input that is too short is reported.',
     ['inputs', 'configurations'],
     'all values of all numeric parameters, the three sources of raw data, line endings',
     'the tests read a few files in which many parameters are zero, one or equal, so that exchanged lines are invisible',
     ['utils/tomo_input.py', 'tracking/machine.py', 'tracking/machine_base.py'],
     [('txt_input_to_machine', 'utils/tomo_input.py'), ('get_user_input', 'utils/tomo_input.py')])
prop('C23', 'Machine values at every turn follow from the reference frame',
     'The turn-by-turn values of a machine start from the dipole field and zero time at the machine reference frame and follow, forwards and backwards, '
     'the documented recurrences: time advances by one revolution, energy by the charge times the voltage at the synchronous phase, which balances the '
     'change of the field. Velocity, slip factor, drift coefficient, revolution frequency and voltages are those of the same turn, and with one harmonic '
     'the synchronous phase lies on the stable side of the wave.',
     ['inputs', 'configurations'],
     'all machine parameters (fields, voltages and their slopes, harmonics, radii, charge of either sign), reference frames and turns within the bounds',
     'the tests compare stored numbers of one machine whose reference frame is the first and whose voltages are constant',
     ['tracking/machine.py', 'tracking/machine_base.py', 'utils/physics.py'],
     [('values_at_turns', 'tracking/machine.py'), ('physics', 'utils/physics.py')])
prop('C24', 'The fitted synchronous point balances the potential at the bunch edges',
     'Fitting the synchronous point takes the feet of the bunch from straight lines through the flanks of the reference profile and places the point so that the '
     'RF potential is equal at both feet, with the machine values of the reference turn. Both call signatures agree, the machine stores point and feet, and '
     'the functions handed to the root finders are the documented voltages and potentials with their true derivatives.',
     ['inputs', 'configurations'],
     'all profiles of a bunch inside the measurement, all machine values, reference frames of beam and machine',
     'the tests fit two profiles with constant voltages; a value of another turn or frame, or a wrong derivative that only slows convergence, stays invisible',
     ['data/pre_process.py', 'data/data_treatment.py', 'utils/physics.py', 'tracking/machine_base.py'],
     [('fit_synch_part_x', 'data/pre_process.py'), ('phase_low, dphase_low and voltages', 'utils/physics.py')])
prop('C25', 'Bunch charge and self-fields follow from the measured profiles',
     'The charge is that of the reference profile in elementary charges, and self-fields between two frames are the charge times the mean of the '
     'filtered profiles weighted with the coupling of their turns, zero beyond the profile, on an image that is rounded up to whole RF periods. A filter '
     'or filtered profiles of the user replace the default, the waterfall stays unmodified, and missing charge, wrong shapes or empty waterfalls are reported.',
     ['inputs', 'configurations'],
     'all samples, filtered profiles, charges, couplings, turns per frame and directions of the field ramp within the bounds',
     'the tests compare stored self-fields of one machine with constant parameters',
     ['data/profiles.py', 'utils/physics.py'],
     [('calc_self_fields, calc_profilecharge', 'data/profiles.py'), ('calc_self_field_coeffs', 'utils/physics.py')])
prop('C26', 'Validation accepts exactly the values it documents',
     'Every validation function accepts a value exactly when the documented relation holds, raises the error it was given otherwise, and names the parameter '
     'or the offending indices. Machine parameters are accepted exactly when all of them are physically possible, particles exactly when all lie inside '
     'the image, and indices exactly when they exist.',
     ['inputs', 'configurations'],
     'all values, limits, indices and combinations of machine parameters',
     'limits that are included or excluded by mistake, or one element of an array, are not sampled by the tests',
     ['assertions.py', 'tracking/machine.py', 'tracking/machine_base.py'],
     [('assert_*', 'assertions.py')])
prop('C27', 'Output files hold every value at the place the reader expects',
     'Profiles, images, discrepancies and self-fields are written one value per line in the order of the array, with seven digits, into files numbered from one, '
     'replacing earlier output. The plot info gives each label its own value, with the synchronous phase of the reconstructed turn and zeros where no fit '
     'was made, and is refused when energy bin or phase limits are missing.',
     ['inputs', 'configurations'],
     'all written values, frame numbers, fitted and unfitted machines within the bounds',
     'the tests compare files of one example in which frame and turn coincide',
     ['compat/fortran.py', 'compat/tomoscope.py', 'utils/tomo_output.py'],
     [('save_* and write_plotinfo', 'compat/fortran.py'), ('save_*', 'compat/tomoscope.py'), ('create_phase_space_image', 'utils/tomo_output.py')])
prop('C28', 'The reconstruction area is bounded by trajectories through the image edges',
     'The height of an energy bin is the given maximum energy divided by the bins above the synchronous energy, or follows from the matched bunch or the '
     'trajectories through the image edges, at the reference turn. In each phase bin the area reaches up to the lowest of the '
     'trajectories through either edge of the image at the film start, inside the image and mirrored at the synchronous energy, within the time limits of the user; '
     'an empty or impossible area is reported.',
     ['inputs', 'configurations'],
     'all voltages, synchronous phases, drifts, time limits and frames within the bounds',
     'the tests compare stored limits of one machine; another edge, turn or rounding is invisible there',
     ['tracking/phase_space_info.py', 'utils/physics.py'],
     [('find_binned_phase_energy_limits', 'tracking/phase_space_info.py'), ('find_dEbin', 'tracking/phase_space_info.py')])
prop('C29', 'Beam quality measures follow from the phase space they are given',
     'The RMS emittance is pi times the standard deviations of both projections, dp/p obeys the energy-momentum relation, and neither depends on the number of '
     'charges. The fractional emittance is a whole number of cells, the largest number of densest cells that hold less than the fraction; the summary gives '
     'the values of the single functions, and the phase space stays unmodified.',
     ['inputs'],
     'all phase spaces, bins, energies, masses and fractions within the bounds',
     'the tests compare three stored numbers of one symmetric Gaussian, for which exchanged axes are invisible',
     ['data/post_process.py'],
     [('post_process, emittance_*, rms_dpp', 'data/post_process.py')])
prop('C08', 'Self-field tracking follows the equations of motion with self-fields',
     'Tracking with self-fields enabled applies, at every turn, the kick of both RF systems and the self-field voltage of the frame and bin the particle is in, '
     'then the drift, forwards and backwards from the chosen frame, and returns every frame in the order measured. '
     'Vanishing self-fields give the same trajectories as tracking without them.',
     ['inputs', 'configurations'],
     'all initial coordinates, self-field voltages, start frames and machine values within the bounds',
     'the tests compare one stored run with tiny self-fields, for which a wrong bin, frame or sign is invisible',
     ['tracking/tracking.py', 'tracking/__tracking.py'],
     [('kick_and_drift_self', 'tracking/tracking.py')])
prop('C30', 'Macroparticles and plots follow the density they are made from',
     'Macroparticles are drawn only from cells at or above the threshold, with the probability of the density, uniformly inside the cell they belong to in both axes. '
     'Plotting a reconstruction shows the image, both projections normalised to their own sums and the measured profile. Neither changes the arrays of the caller.',
     ['inputs', 'schedules'],
     'all densities, axes, thresholds and random outcomes within the bounds',
     'the tests cannot enumerate random outcomes, and no test inspects the arguments afterwards',
     ['data/data_treatment.py', 'utils/tomo_output.py'],
     [('density_to_macro', 'data/data_treatment.py'), ('show', 'utils/tomo_output.py')])
prop('C31', 'Machines from programs take every value at the time of its turn',
     'A machine made from momentum, voltage and phase programs has one value per turn, the programs interpolated at the times of the turns around the reference time, '
     'with energies, velocities, slip factors, drifts and frequencies that follow from the momentum, and synchronous phases that balance the RF voltage '
     'against the field. The phase between the harmonics may be a constant, a program or an array; programs that do not cover every turn are refused.',
     ['inputs', 'configurations'],
     'all programs, reference times and frames within the bounds',
     'the tests compare one example, whose programs cover the turns by far and whose phase comes from one source',
     ['tracking/programs_machine.py', 'utils/physics.py', 'tracking/machine_base.py'],
     [('values_at_turns, _interpolate_momentum', 'tracking/programs_machine.py'), ('*_pmch', 'utils/physics.py')])
prop('C32', 'A run from an input file performs the documented reconstruction',
     'The program run on an input file reconstructs the requested frame, or the first film, exactly as the documented steps do on the same measurement: waterfall, '
     'synchronous point (fitted when none is given), tracking (with self-fields when asked for), tomography and a non-negative image of unit sum on its axes. '
     'The shortcuts give the same results step by step, and tomoscope files and picture show what is returned.',
     ['inputs', 'configurations'],
     'all measurements and frames within the bounds',
     'the tests run stored measurements through single steps; a step left out or fed with another frame, or a flag without effect, is invisible there',
     ['utils/tomo_run.py', 'shortcuts.py', 'utils/tomo_input.py', 'tracking/tracking.py', 'data/data_treatment.py'],
     [('run', 'utils/tomo_run.py'), ('read_input_file, track, tomogram', 'shortcuts.py')])

prop('C33', 'Figures drawn from profiles and images follow their definitions',
     'The bunch limits are the zero crossings of the lines fitted to the flanks around 15% of the peak, alike for both flanks, and a bunch too long for the fit or for an RF period '
     'is reported. The means, spreads and emittance of an image are its moments, of any shape; the area of a fraction is, to within one cell, that of the fewest cells that hold it. '
     'Clipping to a contour of constant energy keeps the total weight, gives the particles outside no weight and names the extreme particles of each time bin.',
     ['inputs'],
     'all profiles and images within the bounds',
     'the tests compare single square images and bell-shaped profiles with stored figures; a swapped axis or a wrong factor for one flank is stored with them',
     ['utils/tomographics.py'],
     [('foot_tangent_fit_dq, foot_tangent_fit, foot_tangent_fit_density', 'utils/tomographics.py'), ('rms_params, emittance_density_calc, tomo_weight_clipping', 'utils/tomographics.py')])
