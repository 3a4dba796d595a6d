"""The properties: one entry each, rendered to properties.jsonl and MANIFEST.json by make_meta.py."""
S = "agnpy/spectra/spectra.py"
B = "agnpy/emission_regions/blob.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], tech=tech, note=note))


VG = "whole-program value-flow analysis (abstract interpretation of the source to a gated value graph with phi joins; congruence of normal forms)"
NOTE = ("Decides the stated relation for all values of the symbolic inputs, on every path of the analysed functions, in exact real "
        "arithmetic; trusts the models of numpy/astropy/scipy in vsa/models.py and the independent definitions in specs/; rounding, "
        "quadrature accuracy and branches guarded by a rounding tolerance (<= 1e-9) are outside. ")

prop("C01", "Every normalisation of a particle distribution reproduces the quantity requested",
     "A distribution created from a total number density, a total energy density, a total energy content or its value at unit Lorentz factor has exactly that quantity when it is computed back from the distribution, for every spectral shape and particle mass. Scaling the requested quantity scales the distribution linearly and leaves its shape untouched.",
     ["inputs", "configurations"], "all shape parameters, requested totals, volumes, masses and supports, all distribution classes and the interpolated one",
     "Tests use a handful of parameter sets and two or three shapes; the relation must hold for every parameter value and for every combination of class and constructor.",
     [S], [("from_total_density, from_total_energy_density, from_total_energy, from_density_at_gamma_1", S), ("integral", S)],
     VG, NOTE)
prop("C02", "Distributions follow their documented shape inside, and vanish outside, support",
     "Evaluating a distribution gives its documented analytic shape for every Lorentz factor between the minimum and the maximum, both included, and exactly zero outside, continuously across breaks. The answer depends on the current parameters only, is the same for integer and floating point input, and never changes the caller's array.",
     ["inputs", "configurations"], "all Lorentz factors and all parameter values, all distribution classes, parameters changed after construction",
     "Tests evaluate a few parameter sets on a few grids; equality at the edges, for integer arrays and after parameter changes is not sampled.",
     [S], [("evaluate, __call__", S), ("boundary handling", S)], VG, NOTE)
prop("C03", "The self-absorption integrand is the derivative of the evaluated distribution",
     "For every distribution class the integrand used for synchrotron self-absorption is gamma^2 times the derivative with respect to gamma of n(gamma)/gamma^2, for the same parameters and on the same support as the distribution itself.",
     ["inputs", "configurations"], "all Lorentz factors, parameter values and distribution classes",
     "Tests compare each hand-derived derivative numerically with one parameter set; a wrong branch, sign or support shows only for particular parameters.",
     [S], [("evaluate_SSA_integrand, SSA_integrand", S)], VG, NOTE + "The derivative is taken on the normal form of the analysed evaluation function.")
prop("C04", "A distribution and its vector of parameters always agree in order and content",
     "The ordered parameters reported by a distribution, given back positionally to its static evaluation functions, produce the same values as the distribution itself. This holds for every class, for the evaluation and the self-absorption integrand, and after any parameter has been changed.",
     ["inputs", "configurations"], "all distribution classes, parameter values and orders of updates",
     "A permuted vector passes any test in which the swapped parameters have equal or inert values; classes without a process test are not covered at all.",
     [S], [("parameters property of each class", S)], VG, NOTE)
prop("C05", "Derived quantities of the emission region follow from its current attributes",
     "Volume, variability time, velocity, viewing angle, distance, magnetic and particle energy densities, totals, equipartition and jet powers equal their documented definitions in terms of the attributes the region has at that moment. Changing any attribute, or the particle distribution in place, changes exactly what depends on it; protons and electrons keep their own grids and masses; invalid Doppler factors and missing protons are reported as errors.",
     ["inputs", "configurations", "histories"], "all attribute values and units, all distribution classes, with and without protons, any sequence of attribute updates",
     "Tests compute a few of the quantities once for one region right after construction.",
     [B, "agnpy/utils/conversion.py"], [("properties of the emission region", B), ("nu_to_epsilon_prime", "agnpy/utils/conversion.py")], VG, NOTE)

SY = "agnpy/synchrotron/synchrotron.py"
PSY = "agnpy/synchrotron/proton_synchrotron.py"
CO = "agnpy/compton/synchrotron_self_compton.py"
EX = "agnpy/compton/external_compton.py"
KE = "agnpy/compton/kernels.py"
AB = "agnpy/absorption/targets_absorption.py"
GE = "agnpy/utils/geometry.py"
prop("C06", "Synchrotron emission and self-absorption follow the documented equations",
     "The synchrotron SED of electrons and of protons, the self-absorption optical depth and the resulting escape fraction, the delta-function approximation and the peak frequency equal the documented equations for every distribution, grid and quadrature function, in flux units and with one value per frequency. The static evaluation and the object give the same values; every quadrature runs along the Lorentz factor on the grid supplied.",
     ["inputs", "configurations"], "all frequencies, redshifts, distances, Doppler factors, fields, radii, shapes, grids, integrators and both particle species",
     "Reference tests compare two published curves to tens of per cent; constants, exponents and species-dependent terms can change unnoticed elsewhere in parameter space.",
     [SY, PSY], [("R, calc_x, single_particle_synch_power, tau_to_attenuation", SY), ("evaluate_sed_flux, evaluate_tau_ssa, evaluate_sed_flux_delta_approx", SY), ("proton SED", PSY)], VG, NOTE)
prop("C07", "Self-Compton emission follows the documented double integral over seed photons",
     "The synchrotron self-Compton SED equals the documented double integral of the isotropic Compton kernel over the electrons and over the region's own synchrotron photons, averaged over the sphere, for every distribution, with the seed attenuated exactly when self-absorption is enabled, and on whatever grid and quadrature are supplied. The kernel is the documented function inside its kinematic limits and zero outside.",
     ["inputs", "configurations"], "all inputs of the static evaluation and the object, every distribution class, with and without self-absorption",
     "Reference tests compare two published curves loosely and never with self-absorption or other distributions.",
     [CO, KE], [("evaluate_sed_flux", CO), ("isotropic_kernel, F_c", KE)], VG, NOTE)
prop("C08", "External Compton emission follows the documented equation for every target",
     "For each photon target (CMB, point source behind the jet, disk, BLR shell, dust torus) the external Compton SED equals the documented multi-dimensional integral with the angle-dependent kernel, the target's own photon density and direction at the distance of the region, and the Doppler boosting of the electrons. It holds on the default and on user-supplied angular and energy grids, for the static evaluation and the object, also after its grids are changed.",
     ["inputs", "configurations", "histories"], "all inputs, all targets and distribution classes, default and changed grids, any quadrature",
     "Reference tests compare one published curve per target at 10-40 per cent; they cannot see a wrong axis, factor or limit that matters elsewhere.",
     [EX, KE, GE], [("evaluate_sed_flux_*", EX), ("compton_kernel, get_gamma_min", KE), ("cos_psi, x_re_shell, mu_star_shell", GE)], VG, NOTE)
prop("C16", "Gamma-gamma optical depths follow the documented equations for every target",
     "The pair-production cross section is the documented one above threshold and zero below, and the optical depth on each target (point source, disk, BLR, torus on and off the jet axis, and the region's own synchrotron photons) equals the documented integral along the path, with photon distances and directions given by the geometry of the target. The object uses its own current grids, position and direction, and dispatches to the equation of its target.",
     ["inputs", "configurations", "histories"], "all frequencies, target parameters, positions, directions and integration grids",
     "Tests compare one reference curve per target loosely and a few geometric cases; signs, limits and grids for other positions and directions are unsampled.",
     [AB, GE], [("evaluate_tau_*, tau, tau_on_synchrotron", AB), ("sigma", AB), ("off-axis geometry", GE)], VG, NOTE)

TA = "agnpy/targets/targets.py"
EB = "agnpy/absorption/ebl_absorption.py"
CN = "agnpy/constraints/spectral_constraints.py"
prop("C17", "Attenuation follows from the optical depth, and is one without absorption",
     "The attenuation of emission behind the absorbing photons is the exponential of minus the object's own optical depth, and that of emission mixed with them is the slab formula with its limit one where the optical depth vanishes, for every target, position and direction. The EBL attenuation is the linear interpolation, at the photon energy and the redshift given, of the table belonging to the model requested; unknown models and missing distances are refused.",
     ["inputs", "configurations"], "all frequencies, targets, positions, directions, EBL models and redshifts, energies given as frequencies or energies",
     "No test evaluates the mixed attenuation below the pair-production threshold, where it was undefined, nor an EBL model away from its reference curve.",
     [AB, EB], [("absorption, absorption_homogeneous", AB), ("load_absorption_table, interpolate_absorption_table, absorption", EB)], VG, NOTE)
prop("C20", "Energy densities of the photon targets are right in both frames, at any distance",
     "For each photon target the energy density at any distance equals the documented integral over the directions of its photons, and in the frame of an emission region it is the same integral with the relativistic transformation for the region's current motion and for the direction each photon comes from.",
     ["inputs", "configurations", "histories"], "all target parameters, distances, units and region motions",
     "Tests list values on one grid of distances for one region; one of them pins a wrong sign of the photon direction inside the BLR.",
     [TA], [("u", TA)], VG, NOTE + "Known finding: SphericalShellBLR.u(r, blob) inside the shell.")
prop("C21", "Thermal SEDs of disk and torus are black bodies of the target's luminosity",
     "The SED of the disk is the documented multi-temperature black body and that of the torus a black body of its temperature, seen at the luminosity distance of the redshift given: the value at an observed frequency is the emission at that frequency times one plus the redshift. Normalised SEDs carry the luminosity of the target whatever its radii, temperature, inclination and redshift.",
     ["inputs", "configurations"], "all frequencies, redshifts, masses, luminosities, radii, temperatures, distances and inclinations",
     "Tests integrate the SED for one redshift with a tolerance of 10 per cent, or only check that it is below the luminosity.",
     [TA], [("evaluate_multi_T_bb_sed, evaluate_multi_T_bb_norm_sed, evaluate_bb_sed, evaluate_bb_norm_sed, sed_flux", TA)], VG, NOTE + "Known finding: the redshifted SED of the torus.")
prop("C22", "Photon targets derive their quantities from the inputs as documented",
     "Eddington luminosity and ratio, accretion rate, gravitational radius, radii in either unit, temperature and photon-energy profiles, angles subtended, line wavelengths and energies, torus temperature and sublimation radius equal their documented definitions for every input and unit and for every emission line. Inputs of the wrong kind (lengths where numbers are expected and conversely, unknown lines) are refused.",
     ["inputs", "configurations"], "all target parameters in any unit, all emission lines, both ways of giving the disk radii",
     "Tests cover one disk, one torus and two lines.",
     [TA, "agnpy/utils/conversion.py"], [("constructors and profile functions of the targets", TA), ("lines_dictionary", TA)], VG, NOTE)
prop("C23", "Characteristic Lorentz factors balance the time scales they are defined by",
     "Each maximum Lorentz factor makes the acceleration time (or the gyroradius) equal to the time (or size) limiting it, and each break makes the cooling time equal to the crossing time, for synchrotron, self-Compton and external Compton cooling, with the attributes the region and the torus have at that moment.",
     ["inputs", "configurations", "histories"], "all region attributes, distributions, tori and distances, before and after attribute changes",
     "Tests compare one number per quantity for one region.",
     [CN], [("gamma_max_*, gamma_break_*", CN)], VG, NOTE)

TE = "agnpy/time_evolution/_time_evolution_utils.py"
RP = "agnpy/radiative_process/core.py"
prop("C09", "Redshift and Doppler boosting enter spectra and optical depths as documented",
     "The SED of a source at redshift z with Doppler factor delta equals the SED of the same region at rest, at the frequency nu (1+z)/delta, multiplied by the documented power of delta and by the ratio of squared distances; for an external target the redshift alone does so. Optical depths on a target depend on frequency and redshift only through nu (1+z).",
     ["inputs", "configurations"], "all frequencies, redshifts, Doppler factors and distances, every process, distribution and photon target",
     "Tests compare with published curves of one source each; a redshift factor applied twice or to the wrong quantity is invisible at z near zero or in one normalisation.",
     [SY, PSY, CO, EX, AB], [("evaluate_sed_flux*", SY), ("evaluate_sed_flux*", EX), ("evaluate_tau*", AB), ("nu_to_epsilon_prime", "agnpy/utils/conversion.py")], VG, NOTE)
prop("C10", "SEDs and optical depths scale with particles, size, distance and luminosity",
     "Multiplying the normalisation of the particles multiplies the optically thin synchrotron and external Compton SEDs by that factor and the self-Compton SED by its square; the radius of the region, the luminosity distance and the luminosity or covering factor of the target enter as their documented powers, in SEDs and optical depths.",
     ["inputs", "configurations"], "all factors and inputs, every process, distribution and photon target",
     "Tests never vary the normalisation and compare; a term that escapes the common factor changes nothing in the one case sampled.",
     [SY, PSY, CO, EX, AB], [("evaluate_sed_flux*", SY), ("evaluate_sed_flux*", EX), ("evaluate_tau*", AB)], VG, NOTE)
prop("C11", "Fluxes, integral fluxes and luminosities are those of the process's own SED",
     "The differential photon flux, the photon and energy flux integrated between two limits (given as frequencies or energies), the luminosity, and the peak and its frequency equal their definition in terms of the SED the same object returns, with 4 pi d_L^2 for luminosities, on the requested number of logarithmically spaced points.",
     ["inputs", "configurations"], "all limits, numbers of points, units of the limits and frequencies, every process",
     "Tests check one process with a power law and its known integral.",
     [RP], [("diff_energy_flux, energy_flux_integral, flux_integral", RP), ("sed_luminosity, sed_peak_flux, sed_peak_nu", SY)], VG, NOTE)
prop("C12", "Results depend on current attributes only, not on the history of an object",
     "After any attribute of a process, its emission region, its particles or its photon target has been changed, evaluating gives what a fresh object created with the final attributes gives. Evaluating, any number of times and interleaved with other objects, changes neither the object nor later results.",
     ["inputs", "histories"], "all values before and after, every mutable attribute read by the evaluation, every process and target, repeated and interleaved evaluations",
     "Tests build an object, evaluate once and throw it away.",
     [SY, PSY, CO, EX, AB, B], [("sed_flux and tau of the objects", SY), ("properties of the emission region", B)], VG, NOTE)
prop("C13", "Energy losses of the electrons are those of the fields they move in",
     "The synchrotron loss rate, the self-Compton rate with its Klein-Nishina reduction and its Thomson limit equal the documented expressions in the energy density of the current field or photons; the energy change functions used by the time evolution are minus these rates (plus gamma m c^2/t for acceleration), and follow later changes of the region.",
     ["inputs", "configurations", "histories"], "all Lorentz factors, fields, sizes and distributions, before and after changes of the region",
     "Tests evaluate one Lorentz factor for one region.",
     [SY, CO, TE], [("electron_energy_loss_rate", SY), ("electron_energy_loss_rate, electron_energy_loss_rate_thomson", CO), ("synchrotron_loss, ssc_loss, ssc_thomson_limit_loss, fermi_acceleration", "agnpy/time_evolution/time_evolution.py")], VG, NOTE)
MA = "agnpy/utils/math.py"
prop("C14", "The log-log quadrature integrates the power laws between its points",
     "On any grid and along any axis of an array of any rank, with or without units, the quadrature returns the sum over the intervals of the exact integral of the power law through the two points, taking the logarithmic form for an index of minus one; it is thus exact for every power law. Intervals of no width or with a vanishing end contribute nothing, and the arrays passed in are not changed. Arrays are reshaped to the axis of their position only.",
     ["inputs", "configurations"], "all abscissae and positive ordinates, with zeros anywhere, all ranks up to three and axes counted from either end, with and without units",
     "Tests integrate one power law on one grid along the first axis.",
     [MA], [("trapz_loglog, log, axes_reshaper, power_law_integral", MA)], VG, NOTE)
prop("C18", "Unsupported inputs end in the documented error, supported subclasses in a value",
     "Photon targets, directions, particle masses and units that are not implemented end in the documented exception on every path, never in a silent or partial result: external Compton and absorption on an unknown target, absorption on the disk off the axis, absorption without a distance, distributions of other particles, protons that were never given. A user-defined subclass of a supported target or region is evaluated exactly as its parent.",
     ["inputs", "configurations"], "all such inputs, every evaluation method of the processes, every distribution class",
     "Tests check a few of the exceptions and no subclass.",
     [EX, AB, S, B], [("ExternalCompton.sed_flux", EX), ("Absorption.tau, Absorption.__init__", AB), ("ParticleDistribution.__init__", S), ("proton properties", B)], VG, NOTE)
prop("C19", "Distances and directions of target photons follow from the geometry",
     "Distances and angles between the photons emitted at a point of a ring or shell and the region (or a gamma ray on its way) equal those of the two points in cartesian coordinates, with the sign of the cosine for shell elements ahead and behind, at any distance and direction; functions for a gamma ray off the axis reduce to the on-axis ones along it.",
     ["inputs"], "all radii, distances, path lengths, azimuths and directions, scalar and broadcast arrays, any length unit",
     "Tests evaluate a few positions.",
     [GE], [("cos_psi, x_re_*, mu_star_shell, phi_mu_re_*", GE)], VG, NOTE)
prop("C15", "Conversions of frequencies, fields and distances are the documented ones",
     "A frequency, a magnetic field or a distance converted to the energy in units of a particle's rest mass (in any frame), to Gaussian units or to gravitational radii equals the documented expression for any input unit and shape, for electrons and protons, and converting back gives the value converted.",
     ["inputs"], "all values, input units, redshifts and Doppler factors, both particles, scalars and arrays",
     "Tests convert a few values.",
     [CN], [("epsilon_equivalency, nu_to_epsilon_prime, B_to_cgs, to_R_g_units", CN)], VG, NOTE)
FC, FG, FS, FM, FD = (f"agnpy/fit/{n}.py" for n in ("core", "gammapy_wrapper", "sherpa_wrapper", "models", "data"))
prop("C24", "A fit model is the sum of the package's emission processes at its parameters",
     "For every particle distribution, with and without self-absorption, with broad-line region, dust torus or both in any order, the value of a fit model at the current values of its parameters equals the sum of synchrotron, self-Compton, external Compton (on the wrapper's 300 logarithmically spaced Lorentz factors from 10 to 1e9), disk and torus SEDs of the package at the physical values these parameters stand for, in both backends, whatever was evaluated before and in whatever unit and shape the energies come; the gammapy model returns it divided by the energy squared and multiplied by its norm.",
     ["inputs", "configurations", "histories"], "all parameter values, distributions, targets, backends, units and shapes of the energies, repeated evaluations",
     "The fit tests evaluate a few fixed models, and need gammapy and sherpa.",
     [FG, FS, FM], [("SpectralModel.evaluate and its helpers", FG), ("calc and its helpers", FS)], VG, NOTE)
prop("C25", "Fit models take their parameters from distribution, region and targets unchanged",
     "A fit model created from a distribution carries that distribution's parameters (dimensional and break Lorentz factors as logarithms) and leaves the distribution as it was; setting it from a region and from targets, in whatever units they were given, reproduces their redshift, Doppler factor, field, size, distance, luminosities, radii, temperatures and line, and leaves the parameters of targets not given alone, so that its SED is that of these objects; both backends declare the same parameters with equal values, units, limits and frozen state, defaults within limits; backend and self-absorption are those chosen, and an unknown backend or, for sherpa, a list without a supported target, ends in ValueError.",
     ["inputs", "configurations"], "all parameter values and units, distributions, targets and backends",
     "The fit tests compare one parameter set per model.",
     [FC, FG, FS, FM], [("get_spectral_parameters_from_n_e, make_*_parameters_dict, Parameter", FC), ("set_*_from_blob, set_*_from_targets", FG), ("set_*_from_blob, set_*_from_targets, calc", FS), ("backend choice", FM)], VG, NOTE)
prop("C26", "Loaded flux points are those of the file, with the errors of their instrument",
     "Both loaders hand over every point of the file exactly once with its own energy, flux and errors (the sherpa one with the mean of the two statistical errors), add the relative systematic error of an instrument to the points of that instrument only (separately in sherpa, in quadrature to each error in gammapy), none for instruments without an entry, and restrict the fit to the energy range given in any unit.",
     ["inputs", "configurations"], "all fluxes, errors, energies and systematic errors, dictionaries naming any, all or no instruments, any order of the rows, limits in any unit",
     "Tests load one file with systematic errors for all its instruments.",
     [FD], [("load_sherpa_flux_points, load_gammapy_flux_points, add_systematic_errors_gammapy_flux_points", FD)], VG, NOTE)
TEV = "agnpy/time_evolution/time_evolution.py"
TEU = "agnpy/time_evolution/_time_evolution_utils.py"
prop("C27", "Time evolution advances the electrons by the documented step, and says so",
     "In each step of the time evolution the Lorentz factors move with the sum of the energy change functions at the state before the step, the particles of a bin stay in it (density times width is conserved), relative injection acts on the density before the step and absolute injection is added; Heun's method repeats the step from the same state with the mean of the rates before and after. Groups of particles see only their own functions and share the bins of the first group; bins beyond the bounds are removed and, where the electrons move inwards, one is added at the bound. The steps add up to the total time (the last one is shortened), the result and the records of the callback hold the time, the Lorentz factors, the densities, the shares of the groups and the rates at that state (and do not change afterwards), the emission region carries exactly that distribution, and an empty region stays empty.",
     ["inputs", "histories", "configurations"], "all initial distributions, energy change and injection functions (also depending on the state of the region), arrays of Lorentz factors, durations in any unit, groups and initial shares, both methods, up to three steps, all orders of the Lorentz factors after a step", "Tests follow a few distributions with the default functions through a few fixed steps.",
     [TEV, TEU], [("TimeEvolution.evaluate, _apply_time_changes, _apply_time_eval, _add_boundary_bins, _remove_gamma_beyond_bounds", TEV), ("recalc_gamma_bins_and_density, update_distribution, recalc_new_rates, remap, sum_change_rates", TEU)], VG, NOTE)
prop("C28", "An automatic time step is the longest one within the user's limits",
     "With automatic steps, the step taken from a state is the longest one for which no bin of any group of particles changes its energy by more than the given fraction (at both ends of its narrow interval), no bin changes its density by more than the given factor through the change of its width, at most half of the particles of a bin escape and at most the given density is injected or extracted, and it never goes past the total time; the limits are 1 %, 10 % and 1 cm-3 by default. With separate recalculation of slow bins, bins keep their rates until their own longest step has passed, and the steps are those of the fastest bin.",
     ["inputs", "configurations"], "all initial distributions, arrays of Lorentz factors, energy change and injection functions (gains, losses and functions of unknown sign), limits, groups and initial shares, both methods, with and without separate recalculation; one or two steps", "Tests check the number of steps or the result of two simulations; a step which is too long in one bin of one group goes unnoticed.",
     [TEV, TEU], [("TimeEvolution._calc_max_time_per_bin, evaluate, _group_change_rates", TEV), ("to_densities_grouped, to_erg, recalc_new_rates, update_bin_ub", TEU)], VG, NOTE)
prop("C29", "The time evolution refuses invalid settings and impossible states",
     "Lorentz factors outside of the bounds or not strictly increasing, an unknown method, a step duration which is neither a time nor \"auto\", separate recalculation together with fixed steps or Heun's method, two functions of the same name, groups naming unknown functions, and initial shares which do not add up to one, have the wrong shape or come without groups or Lorentz factors are refused with a ValueError before anything is computed; durations which are not times are refused as well. A step in which an electron loses all of its energy, the ends of a narrow interval change places, more particles escape than there are, or particles are taken from an empty bin raises a ValueError instead of returning a distribution. What lies inside or at the edge of the allowed (Lorentz factors equal to the bounds, groups of some of the functions, every valid combination of method, steps and recalculation in any capitalisation) is accepted.",
     ["inputs", "configurations"], "representatives of every way to break each rule and of every valid combination; Lorentz factors, rates, densities and distributions unknown numbers on the given side of the limit", "Tests sample two or three of the refusals, none at the edge.",
     [TEV, TEU], [("TimeEvolution.__init__, _calc_max_time_per_bin, _apply_time_eval", TEV), ("recalc_gamma_bins_and_density, recalc_new_rates, update_distribution", TEU)], VG, NOTE)
prop("C30", "Calls change neither inputs nor package state; objects are independent",
     "No evaluation, constructor or setter changes the arrays, lists, dictionaries or objects handed to it, nor the attributes of the object it is called on (a method made for setting and the evolution of a region's distribution apart), nor the constants and default arguments of the package. Two objects created independently, with or without their optional arguments, share nothing that can be changed through one of them.",
     ["inputs", "histories", "configurations"], "every public function, method and property of distributions, regions, targets, processes, absorption, constraints, fit models and time evolution; all array lengths and values",
     "A test never looks at its inputs again; an array scaled in place, a default shared by all objects or a constant overwritten shows only in the next use of the same object.",
     [S, B, SY, CO, EX, AB, TA], [("evaluate and its callers", S), ("default distribution of the region", B), ("axes_reshaper, trapz_loglog", MA), ("default grids of the processes", EX)], "effect analysis on the abstract heap of the whole-program value-flow analysis: contents of all buffers and containers reachable from the inputs and from the modules before and after each call, and disjointness of what is reachable from two objects", NOTE)
prop("C31", "Bins of the time evolution merge, leave and join as documented",
     "After a step, bins at the same Lorentz factor become one bin of their mean density, and neighbouring bins closer than the given distance in log10 (1.5e-3 by default, never when None) become one at their geometric mean with the density of the new distribution there; the first and the last bin are never merged for being close. Bins beyond the bounds are removed, and an empty bin is added at a bound when the bin next to it is further away than the given distance (0.1 by default) and moves inwards. All the other bins keep their Lorentz factors and densities in ascending order, every bin keeps the shares of its groups (a merged one those of its first bin, an added one belongs to the first group), and the rates are those at its new place.",
     ["inputs", "configurations"], "unknown densities, shares and rates; six bins moved by one step to representatives of every arrangement (coinciding, close, in chains, changing places, at, near and beyond the bounds)", "Tests follow a few simulations in which merging happens by chance and compare them loosely.",
     [TEV, TEU], [("_sort_and_merge_bins, _remove_too_close_bins, _remove_gamma_beyond_bounds, _add_boundary_bins", TEV), ("sort_and_merge_duplicates, group_duplicates, merge_points, remap, remap_subgroups_density", TEU)], VG + "; the places of the bins are constants, so that order and shape are known", NOTE)
NUM = "no static argument: the statement is about rounding and truncation errors of sums on a finite grid"
prop("N01", "Default grids are fine enough: SEDs converge to the published accuracy",
     "With the default integration grids the SEDs of all processes agree with the exact integrals (and with the reference implementations) within the accuracy stated in the documentation, for every region a user may define.",
     ["inputs"], "all parameters of the regions", "Tests sample a few regions.", [SY, CO, EX], [("default grids", EX)], "none", NOTE)
prop("N02", "Limiting regimes are reproduced (Thomson, delta, monochromatic limits)",
     "The Klein-Nishina kernels approach the Thomson limit at low energy, the delta approximations approach the full integrals for broad distributions, and external Compton on the torus seen from far away approaches the one on a monochromatic point source behind the jet.",
     ["inputs"], "all parameters in the limits", "Tests sample a few points of a limit.", [CO, EX, SY], [("ec, ssc kernels", CO)], "none", NOTE)
prop("N03", "Stepping accuracy of the time evolution and its stationary states",
     "Shorter steps converge to the solution of the continuity equation (first order for Euler, second for Heun), the total number of particles of a closed region is conserved to rounding errors through creation, merging and removal of bins, and the stationary state balances gains and losses.",
     ["inputs", "histories"], "all evolutions of any length", "Tests sample a few evolutions.", [TEV, TEU], [("TimeEvolution.evaluate", TEV)], "none", NOTE)
prop("N04", "Attenuations lie between zero and one for every tabulated EBL model",
     "The attenuation of each EBL model falls with redshift and energy, equals one at low energy, and lies between zero and one inside of the tabulated range.",
     ["inputs"], "all redshifts and energies of the tables", "Tests compare a few points.", [EB], [("EBL.absorption", EB)], "none", NOTE)
prop("N05", "Fits started near the solution converge to it and its errors cover the truth",
     "A fit of data simulated from a model recovers the parameters of the model within the reported errors with both backends.",
     ["inputs", "histories"], "all models, starting points and noise", "One fit per backend is tested.", [FG, FS], [("wrappers", FG)], "none", NOTE)
NA = [
    dict(property="N01", reason=NUM + "; the checks decide that the right integrand is integrated over the right grid by the right rule (C06-C08, C14), not that the grid is fine enough"),
    dict(property="N02", reason="an asymptotic statement: the difference to the limit is not zero but small, which congruence of exact expressions cannot decide, and bounding it needs interval arithmetic over quadratures of unknown grids; the kernels themselves are decided exactly (C07, C08)"),
    dict(property="N03", reason=NUM + ", over loops of unknown length with data-dependent merging of bins; single steps are decided exactly (C27-C29, C31)"),
    dict(property="N04", reason="a statement about the values in the tables shipped as data, and about cubic splines through them; the code which reads, masks and interpolates them is decided (C17)"),
    dict(property="N05", reason="convergence is a property of external optimisers on data; that the models they fit are the documented ones is decided (C24-C26)"),
]
