"""Writes /verif/properties.jsonl (kept as code so that anchors and wording stay easy to edit)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        anchors['observe_at'] = observe
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=anchors))


SCF = 'pySC/core/simulated_commissioning.py'
CLF = 'pySC/utils/classdef_tools.py'
TOOL = 'pySC/utils/sc_tools.py'
BEAM = 'pySC/core/beam.py'

prop('C01', 'Actual magnet fields follow from setpoints and errors after any history',
     'After any sequence of registration, error application, multipole-error assignment and setpoint changes, the multipole '
     'coefficients the tracking uses in every registered magnet equal setpoint times (1 + calibration error), plus the additive '
     'multipole offsets, plus each systematic multipole table scaled by the actual strength of the excitation it belongs to, plus the '
     'dipole terms from a bending-angle error and from the quadrupole scaling of a combined-function bend; tables longer than the '
     'setpoints extend the coefficient arrays and the maximum field order. Magnets listed as parts of a split magnet take setpoints and '
     'errors from their main magnet but use their own length, angle and multipole tables, and thin correctors kick by exactly their '
     'dipole coefficients. Updating the fields again without a change is a no-op.',
     ['histories', 'configurations', 'inputs'],
     'All sequences of setpoint/error operations over all magnet kinds (normal, skew, combined function, split, thin corrector).',
     'Tests check a handful of fixed magnets once; the law must hold for every combination of errors and after arbitrary histories.',
     [SCF, CLF],
     [('field update', SCF + ':_update_magnets'), ('update dispatch to split magnets', SCF + ':update_magnets'),
      ('padded addition', CLF + ':add_padded')])

prop('C02', 'Setpoint changes do exactly what was asked, only where it was asked',
     'Setting magnet, corrector or cavity setpoints in absolute, relative or additive mode leaves exactly the requested value in the '
     'addressed component of the addressed elements (relative means times the design value for magnets and times the present value for '
     'correctors and cavities), reading it back returns it, and no other element or component changes. This holds for '
     'one or many elements in any order, for scalar, list and array values of integer or floating type, does not modify the caller\'s '
     'arguments, and malformed requests are rejected without changing anything.',
     ['histories', 'inputs'],
     'All operation sequences of set calls over element subsets, modes, components, value types and shapes.',
     'Tests exercise single calls with one mode; aliasing and cross-component effects need histories of mixed operations.',
     [SCF, CLF],
     [('magnet setpoints', SCF + ':set_magnet_setpoints'), ('corrector setpoints', SCF + ':set_cm_setpoints'),
      ('cavity setpoints', SCF + ':set_cavity_setpoints'), ('input normalisation', CLF + ':check_input_and_setpoints')])

prop('C03', 'Correctors kick the beam by their setpoint, up to their limits',
     'A corrector setpoint is the deflection angle in radians: tracking through an error-free corrector changes the horizontal or '
     'vertical angle of the beam by the setpoint, with the same positive sign, both for thin correctors and (to first order for thick focusing magnets) for correctors built into '
     'magnets of finite length. A requested corrector or skew-quadrupole value beyond the limit of that plane is '
     'clipped to the limit with the sign of the request, and values within the limit are applied unclipped.',
     ['inputs', 'histories'],
     'All corrector kinds, planes, limits and requested values, repeated and in all setting modes.',
     'Tests look at stored numbers, not at the deflection of a tracked particle, and at one limit.',
     [SCF],
     [('corrector setpoints', SCF + ':set_cm_setpoints'), ('corrector readback', SCF + ':get_cm_setpoints'),
      ('skew quadrupole clipping', SCF + ':set_magnet_setpoints'), ('limits', SCF + ':_optional_magnet_fields')])

prop('C04', 'Cavity parameters follow from setpoints and errors',
     'After registration, error application and any sequence of setpoint changes, the voltage, frequency and time lag that every '
     'registered cavity uses in tracking equal the respective setpoint times (1 + its calibration error) plus its offset. The three '
     'parameters and the individual cavities are independent, registration starts from the design values, and unregistered cavities '
     'keep theirs.',
     ['histories', 'inputs'],
     'All sequences of cavity registration, error application and setpoint operations on several cavities.',
     'Tests use one cavity and one call per parameter.',
     [SCF], [('cavity update', SCF + ':update_cavities'), ('cavity setpoints', SCF + ':set_cavity_setpoints'),
             ('registration', SCF + ':register_cavities')])

prop('C05', 'Dipole compensation keeps the beam on its path when a gradient changes',
     'When the quadrupole strength of a bending magnet that is also a horizontal corrector is changed with dipole compensation, its '
     'horizontal corrector setpoint moves by the relative gradient change (with respect to the design gradient) times the bending '
     'angle, subject to the corrector limit. Without compensation, for magnets without bending angle, corrector or design gradient, and for skew components and other '
     'multipole orders, nothing but the addressed component changes.',
     ['inputs', 'histories'],
     'All magnets with any subset of the preconditions, setting modes and repeated changes.',
     'Tests do not exercise compensation on bends at all beyond one case.',
     [SCF], [('dipole compensation', SCF + ':_dipole_compensation'), ('caller', SCF + ':set_magnet_setpoints')])

prop('C06', 'Registration records exactly the given elements, limits and uncertainties',
     'After any sequence of registrations the element lists (monitors, magnets, correctors per plane, skew quadrupoles, cavities, start/end pairs of each '
     'support type) are sorted, free of duplicates and contain exactly what was registered; every registered element owns its set of '
     'error fields at neutral values, its limits and design values, and the uncertainties are exactly the last ones '
     'given per element and field. Unknown options and malformed support ordinates are rejected; unregistered elements stay identical to the design lattice.',
     ['histories', 'inputs'],
     'All sequences of (repeated, overlapping, reordered) registrations of all five kinds.',
     'Tests register once in order; overlap, repetition and interleaving of kinds is where bookkeeping breaks.',
     [SCF, CLF, 'pySC/core/classes.py'],
     [('registration', SCF + ':register_bpms/register_cavities/register_magnets/register_supports'),
      ('ordinate merge', CLF + ':update_double_ordinates'), ('containers', 'pySC/core/classes.py:Indices,Sigmas')])

prop('C07', 'Random errors have the registered width and cutoff, in exactly those fields',
     'Applying errors draws, for every registered element and field with an uncertainty, an independent zero-centred normal value with that standard '
     'deviation truncated at the requested number of sigmas (or the cutoff given with the uncertainty of that element and field), also for support start and end '
     'points, static injection error and circumference (relative to the present one), and leaves all fields without uncertainty unchanged. A new application replaces '
     'the previous errors instead of adding to them, zero uncertainties give exactly zero errors, and derived quantities are '
     'consistent afterwards. The truncated generator respects its cutoff and shape for every request.',
     ['inputs', 'histories', 'configurations'],
     'All registrations, uncertainty formats, cutoffs and repeated applications; all seeds.',
     'A seeded test fixes one draw; distribution, bounds, independence and repetition are properties of all draws.',
     [SCF, CLF, TOOL],
     [('error application', SCF + ':apply_errors'), ('support draws', SCF + ':_apply_support_alignment_error'),
      ('truncated normal', TOOL + ':randnc'), ('per-field cutoff', CLF + ':randn_cutoff')])

prop('C08', 'Support misalignments propagate rigidly to everything on the support',
     'For any stack of sections, plinths and girders, each support is a straight beam whose end points move with the supports below plus their own offsets, and the offset at each location is the linear '
     'interpolation along the beam path between the displaced end points of the innermost support covering it, the roll about the beam axis is the sum of the supports\' rolls, '
     'pitch is minus the vertical slope and yaw the horizontal slope of the innermost support, including supports which cross the end of the lattice; locations without support are not displaced. '
     'Updating the supports hands these values to every registered magnet and monitor (and nothing '
     'else), optionally only to one of the two groups.',
     ['configurations', 'inputs'],
     'All placements (nested, adjacent, wrapping) and values of start/end offsets and rolls of the three support types.',
     'Tests cover one non-wrapping layout with one draw.',
     [SCF, CLF],
     [('geometry', SCF + ':support_offset_and_roll'), ('interpolation', CLF + ':s_interpolation'),
      ('distribution', SCF + ':update_supports')])

prop('C09', 'Magnet misalignments become exact rigid-body transformations in tracking',
     'For every offset and rotation (own plus support) of a straight or bent magnet, the entrance and exit transformations the tracking '
     'uses describe the rigid displacement of that magnet: a particle tracked through the misaligned magnet ends up where a '
     'calculation in the displaced frame puts it, exactly for transverse translations of straight magnets and to first order in the misalignment otherwise. Zero misalignment gives '
     'identity transformations, split parts share the transformation of their main magnet, and the transformation depends only on the '
     'current misalignment, not on earlier ones.',
     ['inputs', 'histories'],
     'All offsets, rolls, pitches, yaws, lengths and bending angles; repeated misalignments.',
     'Tests compare with one stored matrix set.',
     [TOOL, SCF],
     [('transformation', TOOL + ':update_transformation'), ('rotation', TOOL + ':rotation'), ('support update', SCF + ':update_supports')])

prop('C10', 'Monitor readings follow the monitor error model',
     'In every tracking mode the monitor reading equals the true beam centroid at the monitor rotated by own and support roll, minus own and support offset, times '
     '(1 + calibration error), plus noise bounded by two sigmas and growing with inverse transmission; monitors past the beam-loss point read '
     'NaN. Readings are ordered by turn and then by position, are averaged over shots (and turns for the averaged mode) weighted by '
     'the sum signal, the sum signal is the transmitted fraction with its own error, and a request for some monitors returns exactly those in lattice order.',
     ['configurations', 'inputs', 'histories'],
     'All error settings, particle/turn/shot numbers, injection conditions, loss patterns and monitor subsets.',
     'Tests check shapes and a few values on an ideal machine.',
     [BEAM, 'pySC/core/classes.py'],
     [('reading', BEAM + ':bpm_reading'), ('error model', BEAM + ':_real_bpm_reading'), ('tracking', BEAM + ':_tracking'),
      ('all element reading', BEAM + ':all_elements_reading')])

prop('C11', 'Injected bunches have the requested centroid and covariance',
     'A generated bunch has one 6D column per requested particle; a single particle sits at the injected trajectory plus a shot-to-shot '
     'error which is common to the whole bunch and bounded by two sigmas, and several particles are spread around that point with the '
     'covariance of the given beam-size matrix (also with correlated planes), up to a truncation at three sigmas in the '
     'principal axes. The user hook post-processes the result, each shot draws anew, and the injection settings are not modified.',
     ['inputs', 'configurations'],
     'All beam-size matrices (diagonal and correlated), injection offsets, jitters, particle numbers and seeds.',
     'Covariance and bounds are statistical statements over all draws; tests check shapes.',
     [BEAM], [('bunch generation', BEAM + ':generate_bunches')])

prop('C12', 'Transmission counts are consistent with tracked particle survival',
     'The reported transmission is, turn by turn, the fraction of tracked particles that survive on the actual machine, has one value in [0, 1] '
     'per requested turn, never increases, and the reported turn number counts exactly the turns in which more than one minus the allowed loss fraction '
     'survived. The numbers of particles and turns default to the injection settings and can be overridden without changing them; the result '
     'does not depend on parallel execution.',
     ['inputs', 'configurations', 'schedules'],
     'All apertures, injection conditions, particle and turn numbers and loss thresholds; parallel and serial tracking.',
     'Tests use one particle without losses.',
     [BEAM, 'pySC/utils/at_wrapper.py'],
     [('transmission', BEAM + ':beam_transmission'), ('tracking', 'pySC/utils/at_wrapper.py:lattice_track')])

prop('C13', 'Machines, design lattices, copies and caller data never share state',
     'Creating a machine from a lattice, copying it deeply, registering, applying errors, correcting and measuring never modify the '
     'lattice it was created from, its own design lattice, the arrays the caller passed in, or any other copy; and '
     'later modification of a passed-in array, returned array or another element does not change the machine. Elements of one machine do not share mutable '
     'data with each other (parts of a split magnet may share the transformation of their main magnet), even if they were one shared object in the input lattice.',
     ['histories'],
     'All sequences of operations on a machine, its copies and the arguments used to build it.',
     'Aliasing only shows when a second object is inspected after a history of operations on the first.',
     [SCF, 'pySC/core/classes.py', BEAM],
     [('construction', SCF + ':__init__'), ('deep copy', SCF + ':very_deep_copy'), ('registration', SCF + ':register_*')])

prop('C14', 'Observing the machine does not change it',
     'Reading monitors, reading all elements, generating bunches, computing transmission, verification, model '
     'calculations, support geometry queries and all plotting functions leave every element of the machine and of the design lattice, the injection '
     'settings, registrations and uncertainties exactly as they were, whether they succeed, find no beam or raise an error, and valid requests succeed.',
     ['histories', 'configurations'],
     'All observers called in any order on machines in any error state and tracking mode.',
     'Tests assert on return values; purity needs comparing the whole state.',
     [BEAM, 'pySC/plotting', 'pySC/lattice_properties'],
     [('observers', BEAM + ':bpm_reading/all_elements_reading/beam_transmission'), ('plots', 'pySC/plotting/*.py'),
      ('model', 'pySC/lattice_properties/response_model.py')])

prop('C15', 'Measurements report the machine\'s real response and put the machine back',
     'Measuring response matrices (trajectory or orbit, any kick sizes, step numbers and initial corrector settings) and dispersion '
     'changes monitor readings of the real machine by the real corrector kick or frequency step and divides by exactly the change that was applied, and leaves all setpoints '
     'as before, including correctors at their limits; a step that would lose the beam is shortened rather than producing a wrong column. On a noise-free machine the result agrees with the derivative of the readings.',
     ['histories', 'configurations', 'inputs'],
     'All machines, amplitudes, step counts, corrector/monitor subsets and initial setpoints including clipping.',
     'No test runs the measurement with clipping or checks that the machine is restored.',
     ['pySC/lattice_properties/response_measurement.py', 'pySC/correction/loco.py'],
     [('response', 'pySC/lattice_properties/response_measurement.py:response_matrix'),
      ('dispersion', 'pySC/lattice_properties/response_measurement.py:dispersion'),
      ('closed-orbit response', 'pySC/correction/loco.py:measure_closed_orbit_response_matrix')])

prop('C16', 'Model responses, dispersion and model rings describe the lattice they claim to',
     'Model response matrices and dispersion equal finite differences of tracked trajectories or closed orbits of the chosen lattice (design or '
     'actual-setpoint model) for a kick in each corrector or a frequency step, ordered by monitor, turn, plane and corrector, and the working lattice '
     'is restored. The model ring carries the setpoints of the registered magnets (also in all parts of split magnets) and cavities but no errors, optionally with supports, apertures and so on as documented, and the orbit deviation at magnets is '
     'the closed orbit minus the magnet displacement.',
     ['configurations', 'inputs'],
     'All lattices, tracking modes, turns, kick sizes, injection vectors and corrector/monitor subsets.',
     'Tests check one lattice and shapes.',
     ['pySC/lattice_properties/response_model.py', 'pySC/lattice_properties/magnet_orbit.py'],
     [('model response', 'pySC/lattice_properties/response_model.py:SCgetModelRM'),
      ('model dispersion', 'pySC/lattice_properties/response_model.py:SCgetModelDispersion'),
      ('model ring', 'pySC/lattice_properties/response_model.py:SCgetModelRING'),
      ('orbit at magnets', 'pySC/lattice_properties/magnet_orbit.py:SCgetCOD')])

prop('C17', 'Trajectory and orbit feedback only moves correctors and ends at its target',
     'First-turn threading, stitching, balancing and orbit feedback change nothing but setpoints of the given correctors (and the RF frequency when the '
     'dispersion column is used), within their limits; on success the documented target is met by the machine that is handed back, '
     'and each correction step applies minus the pseudo-inverse response times the deviation of the readings from the reference. When the beam '
     'is lost or the target cannot be met the outcome is reported by an exception or warning as documented, and '
     'monitors without beam do not contribute. Only when the transmission has not improved for many iterations may a search step kick the last few correctors before the loss point.',
     ['histories', 'configurations', 'inputs'],
     'All machines, responses, references, subsets, regularisations and reachable/unreachable targets.',
     'Tests run one seed that converges.',
     ['pySC/correction/orbit_trajectory.py'],
     [('first turn', 'pySC/correction/orbit_trajectory.py:first_turn'), ('stitch', 'pySC/correction/orbit_trajectory.py:stitch'),
      ('balance', 'pySC/correction/orbit_trajectory.py:balance'), ('feedback', 'pySC/correction/orbit_trajectory.py:correct')])

prop('C18', 'Beam-based alignment finds magnetic centres and restores the machine',
     'Trajectory beam-based alignment moves each selected monitor\'s offset, plane by plane, so that the monitor reads zero where the beam passes the magnetic '
     'centre of its magnet, within the measurement precision, and afterwards magnet setpoints, injection and all unselected monitors are as before; '
     'failed or implausible measurements leave the offset alone and are flagged. The simplified variant assigns to the selected monitors exactly '
     'the displacement of their magnet plus a bounded random error in the same frame, leaving others alone. The closed-orbit variant finds the reading at which the '
     'closed orbit, moved by a corrector bump, passes the magnetic centre, and restores magnets and correctors.',
     ['configurations', 'inputs'],
     'All magnet/monitor pairings, misalignments, offsets, planes and noise levels.',
     'The test compares a single seed with loose statistics.',
     ['pySC/correction/bba.py'],
     [('trajectory BBA', 'pySC/correction/bba.py:trajectory_bba'), ('orbit BBA', 'pySC/correction/bba.py:orbit_bba'), ('offset assignment', 'pySC/correction/bba.py:fake_bba')])

prop('C19', 'RF phase and frequency corrections reduce the energy and phase error of the beam',
     'The phase correction changes only the time-lag setpoints of the given cavities, and the frequency correction only their frequency '
     'setpoints; a statistically significant correction moves the cavities towards the setting where the measured horizontal turn-by-turn '
     'shift vanishes, and an insignificant one (fitted phase amplitude, or slope and present shift of the frequency scan, below two standard errors) leaves them as they were. A beam that cannot be synchronised raises an error. The static phase and energy errors '
     'reported for a machine are those of its closed orbit with the phase folded to half a period.',
     ['configurations', 'inputs'],
     'All initial phase and frequency errors, ring configurations and scan settings.',
     'Tests use one machine with a fixed error.',
     ['pySC/correction/rf.py'],
     [('phase', 'pySC/correction/rf.py:correct_rf_phase'), ('frequency', 'pySC/correction/rf.py:correct_rf_frequency'),
      ('static error', 'pySC/correction/rf.py:phase_and_energy_error')])

prop('C20', 'Tune scans and optics fits leave the best setting they found in the machine',
     'A tune scan only changes the given quadrupole families relative to design, reports for every visited pair the transmission of the machine with that setting, stops at the first pair that '
     'reaches the target (unless a full scan is requested) and otherwise chooses the visited pair with the best transmission; the returned relative setpoints are the ones left in the machine; without any transmission it raises and restores the quadrupoles. '
     'Fitting tunes or chromaticities leaves the machine at the returned solution, closer to the target than before, changing each family by one common amount and nothing else.',
     ['configurations', 'inputs'],
     'All ring configurations, family pairs, scan vectors, targets and optics errors.',
     'Tests check one scan and one fit.',
     ['pySC/correction/tune.py', 'pySC/correction/chroma.py'],
     [('scan', 'pySC/correction/tune.py:tune_scan'), ('tune fit', 'pySC/correction/tune.py:fit_tune'),
      ('chromaticity fit', 'pySC/correction/chroma.py:fit_chroma')])

prop('C21', 'Pseudo-inverses are regularised exactly as requested',
     'Without options the pseudo-inverse satisfies the Moore-Penrose conditions for any matrix, including rank-deficient and rectangular ones (singular values vanishing within rounding are treated as zero). '
     'Removing n singular values drops exactly the n smallest, Tikhonov regularisation replaces each inverse singular value s by s/(s^2+alpha^2), '
     'and damping multiplies the result; options combine and the input is not modified.',
     ['inputs'], 'All real matrices, numbers of removed values, regularisations and damping factors.',
     'Tests check a few small matrices.',
     [TOOL], [('pseudo-inverse', TOOL + ':pinv')])

prop('C22', 'Circumference scaling only stretches drifts and hits the requested length',
     'Scaling the circumference to an absolute length or by a factor of the present length gives a ring of exactly that length by multiplying '
     'all drift lengths by one common factor and leaving every other element as it was; unknown modes are rejected. The circumference error of '
     'an error application scales the machine in the same way and never the design lattice.',
     ['inputs'], 'All rings and scaling values, both modes, also repeated and inverted.',
     'Tests check the total length of one ring.',
     [TOOL, SCF], [('scaling', TOOL + ':scale_circumference'), ('circumference error', SCF + ':apply_errors')])

prop('C23', 'Switching cavities and radiation affects exactly those elements, reversibly',
     'Switching RF or radiation on or off changes the tracking method of exactly the cavities and of exactly the magnets that have a '
     'radiating counterpart, nothing else; off-on and on-off sequences return the ring to its previous state, repeating a switch is a no-op, off wins when both are requested '
     'and unknown requests are rejected without effect.',
     ['histories', 'inputs'], 'All sequences of switch requests on rings with all tracking methods.',
     'Tests apply each switch once.',
     ['pySC/core/lattice_setting.py'],
     [('switch', 'pySC/core/lattice_setting.py:switch_cavity_and_radiation'), ('rf', 'pySC/core/lattice_setting.py:switch_rf')])

prop('C24', 'Statistical helpers agree with their weighted definitions',
     'Weighted means, errors, rms, rms errors and the corresponding circular versions equal their textbook definitions for any data, weights or '
     'errors, axes and masks, do not modify their input, and circular results are invariant under shifts by full periods. Reduced cases '
     '(no weights, equal weights, single values) coincide with the unweighted formulae.',
     ['inputs'], 'All arrays, axes, weights, errors, periods and correction options.',
     'Tests evaluate fixed small arrays.',
     ['pySC/utils/stats.py'], [('statistics', 'pySC/utils/stats.py')])

prop('C25', 'The MATLAB-style interface is equivalent to the Python interface',
     'Every function of the MATLAB-style interface that is documented as available has the same effect on the machine and the same result as the corresponding Python '
     'call with converted conventions (plane numbers, one-based field orders, column order of multipole tables, setting methods, pseudo-inverse instead of response), for the same random seed. '
     'Functions without counterpart report so explicitly.',
     ['inputs', 'configurations'], 'All functions and argument combinations of the interface.',
     'Tests import the module but barely call it.',
     ['pySC/matlab_index.py'], [('wrappers', 'pySC/matlab_index.py')])

prop('C26', 'Optics correction from response matrices recovers and corrects gradient errors',
     'The Jacobian of the closed-orbit response (about the given or the present model) is its finite difference with respect to each quadrupole '
     'plus the linear corrector and monitor calibration columns, and does not depend on parallel execution. Both fit methods return the parameters that minimise '
     'the weighted residual for the selected parameter groups, so that (without truncation and damping) data generated from known linear parameters give these parameters back, and applying a '
     'correction subtracts exactly the given values. The beta-beat reported is the rms relative difference of the beta functions.',
     ['inputs', 'configurations', 'schedules'], 'All parameter selections, weights, truncations, parameter values and rings.',
     'The test runs one seed and checks that beta beat decreases.',
     ['pySC/correction/loco.py', 'pySC/correction/loco_wrapper.py'],
     [('jacobian', 'pySC/correction/loco.py:calculate_jacobian'), ('fits', 'pySC/correction/loco.py:loco_correction_lm/loco_correction_ng'),
      ('application', 'pySC/correction/loco.py:set_correction'), ('wrapper', 'pySC/correction/loco_wrapper.py')])

prop('C27', 'The tracking wrapper is faithful to the tracking code and has no memory',
     'Wrapped tracking, closed-orbit search, position and field queries return what the underlying tracking code returns for '
     'the current state of the given lattice and reference points, do not modify lattice or initial coordinates, and two calls with the same input give the '
     'same result no matter what happened in between.',
     ['histories', 'inputs', 'schedules'], 'All lattices, initial conditions, reference points and call histories, with and without parallel tracking.',
     'Caching effects (stale lattices, reused buffers) need modify-and-repeat histories.',
     ['pySC/utils/at_wrapper.py'], [('wrapper', 'pySC/utils/at_wrapper.py')])

prop('C28', 'The injection fit recovers the injected trajectory from monitor readings',
     'Fitting the injection trajectory on a noise-free machine returns the actual injection coordinates relative to the reference '
     'within the fit tolerance, using only monitors that see beam, and does not change the machine apart from what it documents; the drift '
     'variant does so for a drift between the last monitor and the first monitor of the next turn. When fewer than two monitors see beam it raises and leaves the machine unchanged.',
     ['inputs', 'configurations'], 'All injection offsets and angles within the linear range, rings and monitor subsets.',
     'No test.',
     ['pySC/correction/injection_fit.py'], [('fit', 'pySC/correction/injection_fit.py')])

prop('C29', 'Everything random is reproducible from the seed',
     'With the global random seed set, every sequence of registrations, error applications, readings, '
     'bunch generations and corrections produces identical machines and results when repeated, and different seeds give different errors; nothing else (hash order, time, '
     'parallel execution, earlier runs in the process) enters.',
     ['histories', 'schedules'], 'All programs of operations and seeds, in the same and in fresh processes.',
     'A test with a fixed seed pins one number but not that nothing else enters.',
     [SCF, BEAM, TOOL], [('generator', TOOL + ':randnc')])

prop('C30', 'Structure verification accepts every valid machine and reports every defect',
     'Verification of a machine built by the registration interface passes without exception, warns about every missing registration, '
     'zero corrector limit, missing apertures and other documented shortcoming, raises for every documented inconsistency (unequal field-array '
     'lengths, malformed beam size or injection uncertainties, missing girders under other supports, incomplete combined-function bends) and changes nothing.',
     ['configurations'], 'All valid machines and all single-defect mutations of them.',
     'Tests only call it on one valid machine.',
     [SCF], [('verification', SCF + ':verify_structure')])

prop('C31', 'Multipole errors go where the table says',
     'Systematic multipole tables are stored per excited order and type with the nominal component removed and reach both planes of the '
     'right magnets; random multipole tables give independent truncated normal offsets with the tabulated widths; assignment does not modify the table, works per element, and '
     'malformed tables are rejected. Reading a multipole file returns the table, nominal order and type written in the file.',
     ['inputs', 'histories'], 'All tables, orders, types, element subsets and repeated assignments.',
     'Tests check one table.',
     [SCF, TOOL], [('systematic', SCF + ':set_systematic_multipole_errors'), ('random', SCF + ':set_random_multipole_errors'),
                   ('file', TOOL + ':read_multipoles')])

prop('C32', 'Reported dynamic and momentum apertures separate surviving from lost particles',
     'For every direction, the dynamic aperture radius lies, within the requested accuracy, between a start amplitude from which the particle with the given energy offset survives '
     'the requested turns and one from which it is lost (launched on axis or on the closed orbit, radii counted from the axis or from the closed orbit as requested), and the reported area is the area enclosed by '
     'these points. At every requested position the particle on the closed orbit plus the inner momentum bound survives and with the outer bound is lost, the two being closer than the accuracy; '
     'both are zero where there is no closed orbit or it is itself lost. Lattice and arguments are not changed.',
     ['inputs', 'configurations'], 'All stable rings with apertures, directions, start intervals, accuracies, turns, offsets and positions.',
     'No test; the border is a different one in every lattice and direction.',
     ['pySC/lattice_properties/apertures.py'],
     [('dynamic aperture', 'pySC/lattice_properties/apertures.py:SCdynamicAperture'), ('momentum aperture', 'pySC/lattice_properties/apertures.py:SCmomentumAperture')])

prop('C33', 'Errors are ramped up in equal steps and end exactly at their full values',
     'Ramping brings every error of the machine (magnets, monitors, cavities, supports, injection, circumference) together to k/n of its full value for k = 1..n, runs the orbit feedback at every step, '
     'and ends with exactly the errors it started with, only correctors being changed. If a feedback fails, ramping starts again from the initial machine with twice as many steps; when that '
     'would exceed one hundred steps it raises and leaves the machine as it was.',
     ['histories', 'configurations'], 'All machines, error sets, step numbers, tracking modes, and places where the beam is lost.',
     'No test; what is applied at the intermediate steps is only visible while the procedure runs.',
     ['pySC/correction/ramp_errors.py'],
     [('ramping', 'pySC/correction/ramp_errors.py:SCrampUpErrors'), ('restart', 'pySC/correction/ramp_errors.py:SCrampUpErrors')])

prop('C34', 'Figures show the data they are about, at the right place and scale',
     'Every curve, bar, image, step line, marker and shape drawn from the machine or from a measurement consists of the values of exactly those elements, planes, turns, shots or settings '
     'it stands for, at their longitudinal position or setting, in the announced unit and plane: monitor readings and particle trajectories with apertures, transmission, phase space with injection point and closed orbit, corrector '
     'settings, supports and misalignments, optics with synoptic, alignment results, RF and tune scans, injection fits, singular values, orbits in magnets, beta beating and dynamic aperture. Drawing works '
     'whenever the underlying call does, and gives the same results as without.',
     ['inputs', 'configurations'], 'All machines, subsets in any order, ranges, tracking modes, turns, shots, lost beams and scan sizes.',
     'Tests only draw some of the figures and do not look at them.',
     ['pySC/plotting', 'pySC/core/beam.py', 'pySC/correction'],
     [('support plot', 'pySC/plotting/plot_support.py:plot_support'), ('phase space', 'pySC/plotting/plot_phase_space.py:plot_phase_space'), ('lattice', 'pySC/plotting/plot_lattice.py:plot_lattice'),
      ('readings', 'pySC/core/beam.py:_plot_bpm_reading'), ('tune scan', 'pySC/correction/tune.py:plot_scan')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    print(len(P))
