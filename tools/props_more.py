prop('C02', 'Line-of-sight and subhalo populations have the advertised content',
     'Every rendered line-of-sight halo sits on one of the lens planes, between observer and source, with a mass in the '
     'requested range and a position inside the light cone, and the mean number per plane is the field mass function '
     'times the plane\'s comoving volume (enhanced only by the two-halo term near the main deflector). Subhalos sit at '
     'the lens redshift, inside the rendering aperture, flagged as subhalos, with a mean number equal to the projected '
     'amplitude times the rendered area with the documented host-mass and redshift scaling; zero amplitude renders none.',
     ['inputs', 'configurations'], 'every geometry, redshift pair, amplitude, mass range and random state',
     TESTS + 'the rendering tests cannot even be imported here, and they sample one configuration.',
     ['pyHalo/Rendering/line_of_sight.py', 'pyHalo/Rendering/two_halo.py', 'pyHalo/Rendering/subhalos.py',
      'pyHalo/Rendering/halo_population.py', 'pyHalo/Rendering/rendering_class_base.py', 'pyHalo/pyhalo.py'],
     [('per-plane rendering loop', 'line_of_sight.py'), ('mean numbers from mass functions', 'subhalos.py')],
     ['HaloPopulation.render()', 'LineOfSight.render()', 'Subhalos.render()', 'preset models'],
     'event monitor on rendered populations with exact Poisson and spatial statistics against an independent model',
     'Statistical; distinguishes deviations larger than about 3 % in counts on the explored configurations.')

prop('C03', 'Mean mass added in halos is compensated plane by plane',
     'When the mass-sheet correction is requested, the line-of-sight population contributes one uniform sheet to each lens '
     'plane and the subhalo population one at the lens, whose negative convergence equals minus the mean mass of that '
     'population on the plane within the sheet\'s mass range, divided by the plane area and critical density and scaled '
     'by the requested factor, so the average convergence added by halos plus sheets vanishes. Sheets lie on the centre of '
     'the (possibly shifted) volume, in front of the source and inside the requested redshift limits; with exact '
     'subtraction they cancel the mass actually present, on the planes that have halos. Turning the correction off changes '
     'nothing else in the exported lens model.',
     ['inputs', 'configurations'], 'every geometry, mass range, amplitude and mass-function model',
     TESTS + 'a balance must hold on every plane of every configuration.',
     ['pyHalo/Rendering/line_of_sight.py', 'pyHalo/Rendering/subhalos.py', 'pyHalo/Rendering/halo_population.py',
      'pyHalo/single_realization.py'],
     [('convergence_sheet_correction', 'Rendering/*.py'), ('mass_sheet_correction', 'single_realization.py')],
     ['convergence_sheet_correction()', 'lensing_quantities()'],
     'conservation monitor: sheet convergence recomputed from first moments, areas and critical densities',
     'Deterministic balance at 1e-3 level plus a statistical balance of rendered mass against sheets.')

prop('C04', 'Rendering volume: areas, volumes and containment agree',
     'For every supported rendering geometry, the physical and comoving areas follow from the opening angle and the '
     'shape\'s scaling with redshift, plane volumes are the integral of comoving area over comoving depth, the planes '
     'tile the line of sight between observer and source without gaps or overlaps, and objects drawn uniformly fill '
     'exactly the circular aperture of the volume at their redshift.',
     ['inputs', 'configurations'], 'every geometry type, opening angle, redshift pair, plane spacing and cosmology',
     TESTS + 'containment and tiling are universal statements over redshift.',
     ['pyHalo/Cosmology/geometry.py', 'pyHalo/Rendering/SpatialDistributions/uniform.py', 'pyHalo/pyhalo.py',
      'pyHalo/utilities.py'],
     [('rendering_scale of each geometry', 'geometry.py'), ('uniform disk sampling', 'uniform.py')],
     ['Geometry methods', 'Uniform.draw()', 'generate_lens_plane_redshifts()'],
     'differential monitor against astropy distances and quadrature, containment monitor on drawn positions',
     'Numerical agreement at the accuracy of the distance tables.')

prop('C05', 'Cosmology and lens units agree with the underlying cosmology',
     'Distances, ages, critical densities, critical surface densities and angle-length conversions agree with the '
     'configured astropy cosmology at every redshift and for scalar and array input alike, inverse conversions undo '
     'each other, and the NFW parameters returned for a mass and concentration enclose that mass at the virial radius '
     'with mean density 200 times critical at the requested redshift. Each cosmology object keeps answering for its own '
     'parameters no matter which other cosmologies exist or were used in between.',
     ['inputs', 'histories'], 'every redshift, mass, concentration, cosmology and interleaving of cosmologies',
     TESTS + 'interleavings of cosmology objects and array/scalar equivalence are never exercised.',
     ['pyHalo/Cosmology/cosmology.py', 'pyHalo/Halos/lens_cosmo.py', 'pyHalo/Halos/tnfw_halo_util.py'],
     [('interpolation tables and caches', 'cosmology.py'), ('sigma_crit/NFW conversions', 'lens_cosmo.py')],
     ['Cosmology methods', 'LensCosmo methods'],
     'differential monitor against astropy/colossus with interleaved histories of several cosmologies',
     'Numerical agreement at table accuracy.')

prop('C06', 'Realization algebra: selecting and combining loses and invents nothing',
     'Filtering, splitting at a redshift, selecting a plane, and joining keep exactly the '
     'objects that satisfy the documented condition, each of them unchanged and present once, never modify the '
     'operands, and leave geometry, mass-sheet rules and the record of a background shift intact. Equality of '
     'realizations is reflexive and symmetric and holds exactly when they contain the same objects.',
     ['inputs', 'histories', 'programs'], 'every realization and every sequence of such operations',
     TESTS + 'sequences of operations are unbounded.',
     ['pyHalo/single_realization.py'],
     [('constructor from existing halos', 'single_realization.py'), ('tag based deduplication', 'single_realization.py')],
     ['Realization.filter*/join/split_at_z/halos_at_z/add_halo/__eq__'],
     'model-based history monitor: random operation sequences mirrored on a set-of-objects reference model',
     'Explores random histories of operations over diverse halo content.')

prop('C07', 'The exported lens model describes exactly the realization, also after shifting',
     'The exported profile names, redshifts and parameters have one entry per profile component, in order, with finite '
     'values, positions and redshifts equal to those of the objects, and selecting a subset by redshift or through '
     'filtering gives exactly the corresponding sub-list. Shifting the realization along a light path moves each object '
     'by the path\'s offset at its redshift exactly once, however often and through whatever derived realization the '
     'shift is requested, and the export reflects the moved positions even if it had been computed before.',
     ['inputs', 'histories'], 'every realization, every order of exporting, filtering, joining and shifting',
     TESTS + 'the order of exports and shifts is a history property.',
     ['pyHalo/single_realization.py', 'pyHalo/utilities.py', 'pyHalo/Halos/HaloModels'],
     [('shift_background_to_source', 'single_realization.py'), ('lensing_quantities', 'single_realization.py')],
     ['lensing_quantities()', 'shift_background_to_source()'],
     'trace monitor over export/shift/filter histories against an independent position ledger',
     'Random histories over all halo types.')

prop('C08', 'Halo properties do not depend on the order or time they are read',
     'For every halo type, derived properties (concentration, profile parameters, lensing parameters, infall redshift, '
     'truncation, bound mass) have one value per halo: reading them repeatedly, in any order, before or after others, '
     'gives the same numbers (values already read are also those of a copy), halos sharing arguments or made from one another do '
     'not influence each other, and rescaling the normalization of a halo is reflected consistently in all of its properties whatever '
     'was read before.',
     ['histories', 'inputs'], 'every halo type and every interleaving of reads and updates',
     TESTS + 'lazy evaluation makes results depend on read order; tests read each property once.',
     ['pyHalo/Halos/halo_base.py', 'pyHalo/Halos/HaloModels'],
     [('lazy attributes cached on the halo', 'halo_base.py and HaloModels')],
     ['Halo properties'],
     'metamorphic history monitor: permuted read orders on identical halos must give identical traces',
     'All halo classes, random interleavings.')

prop('C09', 'Infall and tidal truncation are physical and solve their own equations',
     'A subhalo\'s infall redshift is never below the redshift it is observed at, lies in the supported range and follows the '
     'distribution of its model; its bound mass is positive and at most the infall mass, and its truncation radius is positive; for '
     'models that prescribe a bound mass, density or radius, the profile actually built has that bound mass, mean density or radius '
     '(and the tidal-track normalization, at most one), and the tabulated mass-loss models follow their tables in elapsed time, '
     'concentration and host, with the edge values outside of the tabulated range. More tidal stripping gives a smaller profile.',
     ['inputs', 'configurations'], 'every mass, concentration, infall redshift, host and truncation model',
     TESTS + 'equations must hold for all masses and hosts.',
     ['pyHalo/Halos/tidal_truncation.py', 'pyHalo/Halos/accretion.py',
      'pyHalo/Halos/galacticus_truncation/interp_mass_loss.py', 'pyHalo/truncation_models.py'],
     [('root finding / interpolation of bound mass', 'tidal_truncation.py'), ('infall samplers', 'accretion.py')],
     ['truncation_radius()', 'bound_mass', 'z_infall'],
     'online invariant monitor with independent re-solution of the truncation equations',
     'Random halos and hosts for all registered models.')

prop('C10', 'Batch (vectorized) evaluation equals halo-by-halo evaluation',
     'Precomputing properties of many halos at once yields, for every halo, the same concentration, density-profile, '
     'truncation, bound-mass and lensing parameters (to numerical precision) as evaluating that halo on its own, '
     'whatever the mixture of halo types, order and batch composition, and leaves halos it cannot handle to the '
     'ordinary path.',
     ['inputs', 'histories'], 'every set of halos and every batch composition',
     TESTS + 'equivalence must hold for every batch.',
     ['pyHalo/Halos/batch_halo_util.py', 'pyHalo/single_realization.py'],
     [('vectorised reimplementation of per-halo formulas', 'batch_halo_util.py')],
     ['precompute functions', 'halo properties'],
     'differential monitor: twin halos, one evaluated in batch and one alone',
     'Random batches over all supported models.')

prop('C11', 'Concentration-mass relations are consistent and suppressed only as documented',
     'Every concentration model returns positive finite values, gives the same answer for a mass whether asked alone or '
     'in an array, is deterministic without scatter, scatters log-symmetrically about its median with the requested '
     'width, and does not change with how many other models exist or were evaluated before. Warm-dark-matter models '
     'never exceed their cold counterpart (beyond the documented Bose et al. redshift factor), approach it far above '
     'the cutoff and follow the documented suppression.',
     ['inputs', 'histories'], 'every mass, redshift, model and parameter set',
     TESTS + 'three of the working tests only look up class names.',
     ['pyHalo/Halos/concentration.py', 'pyHalo/concentration_models.py'],
     [('suppression factors and interpolation tables', 'concentration.py')],
     ['nfw_concentration()', 'preset_concentration_models()'],
     'differential/metamorphic monitor against colossus and closed forms',
     'Random masses/redshifts over all registered models.')

prop('C12', 'Self-interacting dark matter: only selected halos change, conserving mass',
     'Converting halos to core-collapsed or self-interacting profiles changes exactly the selected halos and keeps every '
     'other object, positions, redshifts, masses and infall histories; selection follows the given probabilities, mass '
     'bins, redshift ranges and timescales. A transformed halo encloses at the matching radius the mass its collisionless '
     'counterpart encloses, and the core and scale radius of an evolving halo follow the documented function of its '
     'age in units of its collapse time.',
     ['inputs', 'histories'], 'every realization, collapse probability, timescale and profile setting',
     TESTS + 'selection and conservation must hold for every halo of every realization.',
     ['pyHalo/realization_extensions.py', 'pyHalo/PresetModels/sidm.py', 'pyHalo/Halos/HaloModels/core_collapsed_halo.py',
      'pyHalo/Halos/HaloModels/NFW_core_trunc.py', 'pyHalo/Halos/HaloModels/powerlaw.py',
      'pyHalo/Halos/HaloModels/generalized_nfw.py'],
     [('RealizationExtensions', 'realization_extensions.py')],
     ['RealizationExtensions methods', 'density profiles'],
     'before/after differential monitor with independent mass integrals',
     'Random realizations, probabilities and timescales.')

prop('C13', 'Added populations honour their documented budget, range and place',
     'Primordial black holes, black holes in halos, globular clusters, wave-interference fluctuations and correlated '
     'structure are added with the documented mass budget, mass range, mass-halo relation and number, within the stated '
     'radius of the stated image positions (or of their host), and never alter or drop the halos that were already '
     'there.',
     ['inputs', 'configurations'], 'every realization, budget, mass range and set of image positions',
     TESTS + 'budgets are statements about all draws.',
     ['pyHalo/realization_extensions.py', 'pyHalo/Rendering/correlated_structure.py', 'pyHalo/PresetModels/uldm.py',
      'pyHalo/PresetModels/mbh.py', 'pyHalo/Halos/HaloModels/globular_cluster.py', 'pyHalo/Halos/HaloModels/blackhole.py'],
     [('RealizationExtensions.add_*', 'realization_extensions.py')],
     ['add_* methods'],
     'event monitor on added objects: budgets, containment and preservation ledger',
     'Statistical budgets plus exact preservation.')

prop('C14', 'Realizations are reproducible and independent of earlier use',
     'With a fixed random seed every preset model produces the identical realization whether it is the first call in the '
     'process or follows any other calls with other parameters or cosmologies, and no call modifies dictionaries or '
     'objects the caller passed in or the defaults of later calls.',
     ['histories', 'inputs'], 'every sequence of preset calls and arguments',
     TESTS + 'state leaking between calls is invisible to a single call.',
     ['pyHalo/PresetModels', 'pyHalo/Halos/lens_cosmo.py', 'pyHalo/Halos/concentration.py', 'pyHalo/Cosmology/cosmology.py',
      'pyHalo/Rendering/rendering_class_base.py'],
     [('mutable default dictionaries, module-level caches', 'PresetModels/*.py')],
     ['preset model functions'],
     'trace-equality monitor across call histories, argument snapshot monitor',
     'Random histories of preset calls in one process vs fresh processes.')

prop('C15', 'Preset models build what their parameters say',
     'Looking up a preset, truncation or concentration model by name gives the documented model and rejects unknown '
     'names, and the parameters of a preset reach the realization: subhalos and field halos get the mass definitions and '
     'truncation models requested for each, amplitudes scale the populations, mass limits bound them, cutoff parameters '
     'suppress them, the host mass, opening angle, geometry and cosmology are the ones given.',
     ['configurations', 'inputs'], 'every preset and parameter combination',
     TESTS + 'presets cannot be imported by the tests here; combinations are unbounded.',
     ['pyHalo/preset_models.py', 'pyHalo/PresetModels', 'pyHalo/truncation_models.py', 'pyHalo/pyhalo.py',
      'pyHalo/single_realization.py'],
     [('preset functions', 'PresetModels/*.py')],
     ['preset model functions', 'Realization content'],
     'end-to-end monitor on preset realizations against the requested parameters',
     'Random parameter sets for every preset.')

prop('C16', 'Sampling utilities reproduce the distribution they are given',
     'Inverse-transform samplers, two-dimensional correlated sampling, projected-NFW and uniform spatial samplers return '
     'exactly the requested number of points, inside the stated domain, distributed as the given density, '
     'isotropically, for any size including zero and one.',
     ['inputs'], 'every density, domain, size and random state',
     TESTS + 'the one working sampler test checks a single isotropic Gaussian at 5 %.',
     ['pyHalo/utilities.py', 'pyHalo/Rendering/SpatialDistributions/nfw.py',
      'pyHalo/Rendering/SpatialDistributions/correlated.py', 'pyHalo/Rendering/SpatialDistributions/uniform.py'],
     [('inverse CDF tables', 'utilities.py'), ('pixel sampling', 'correlated.py')],
     ['inverse_transform_sampling()', 'ITSampling', 'Correlated2D.draw()', 'ProjectedNFW.draw()', 'Uniform.draw()'],
     'statistical trace monitor (KS / chi-square) over recorded draws',
     'False-alarm probability per statistic < 1e-7.')

prop('C17', 'Every density profile carries the mass its halo is labelled with',
     'For each halo type the exported lensing parameters, the three-dimensional density and the reported masses describe '
     'one and the same mass distribution: integrating the density reproduces the nominal mass (or the collisionless '
     'halo\'s mass at the matching radius), the lensing normalization corresponds to the same density, and the profile '
     'scales linearly with mass where the model says so.',
     ['inputs', 'configurations'], 'every halo type, mass, concentration, redshift and shape parameter',
     TESTS + 'must hold for every parameter combination of every profile.',
     ['pyHalo/Halos/HaloModels'],
     [('lenstronomy_params / density normalisations', 'HaloModels/*.py')],
     ['lenstronomy_params', 'density_profile_3d*', 'params_physical', 'bound_mass', 'mass_3d'],
     'numerical-integration oracle on observed profiles',
     'Numerical agreement ~1 % or better, per profile.')

prop('C18', 'Semi-analytic tree reading and selection return what is in the file',
     'Reading merger-tree output returns for every requested quantity the stored values of the requested trees and '
     'output, aligned node by node across quantities; filters combine as set intersections, are order independent and '
     'keep exactly the nodes that meet their condition; subhalos injected from such catalogues or emulators keep their '
     'tabulated masses, positions and profile parameters.',
     ['inputs', 'configurations'], 'every file layout, tree selection, filter combination and projection',
     TESTS + 'no working test touches these readers.',
     ['pyHalo/Halos/galacticus_util/galacticus_util.py', 'pyHalo/Halos/galacticus_util/galacticus_filter.py',
      'pyHalo/PresetModels/external.py', 'pyHalo/Halos/HaloModels/TNFWFromParams.py',
      'pyHalo/Halos/HaloModels/TNFWemulator.py'],
     [('hdf5 slicing and masks', 'galacticus_util.py')],
     ['GalacticusUtil methods', 'filters', 'emulator presets'],
     'differential monitor on generated hdf5 files against h5py/numpy reference reads',
     'Random synthetic files.')

prop('C19', 'Light-path interpolation follows the lens model\'s rays',
     'Interpolated light paths pass through the image positions at the lens plane and behind it through the ray-traced '
     'positions, return exactly the ray-shooting result at the tabulated redshifts, interpolate between them, and with '
     'no deflector or in front of it are straight; convergence maps subtract and add exactly what they document.',
     ['inputs'], 'every image position, source position, macromodel and redshift',
     TESTS + 'a path is a function of redshift.',
     ['pyHalo/utilities.py'], [('interpolate_ray_paths', 'utilities.py')],
     ['interpolate_ray_paths()', 'compute_comoving_ray_path()', 'multiplane_convergence()', 'mask_annular()'],
     'differential monitor against independent multi-plane ray tracing',
     'Random lens systems.')

prop('C20', 'Tidal evolution tables interpolate faithfully and do not drift with use',
     'Profile evolution driven by tabulated transfer functions returns the same parameters for the same inputs whatever '
     'was evaluated earlier, agrees with the tabulated values at the table nodes, is monotone where the physics '
     'requires it (more mass loss, smaller bound mass and truncation), and reproduces the requested bound mass.',
     ['inputs', 'histories'], 'every bound fraction, concentration, slope and evaluation history',
     TESTS + 'no working test imports it.',
     ['pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py',
      'pyHalo/Halos/galacticus_truncation/interp_mass_loss.py'],
     [('interpolators and module-level caches', 'transfer_function_density_profile.py')],
     ['compute_r_te_and_f_t()', 'compute_r_te_and_f_t_vectorized()', 'InterpGalacticus*', 'galacticus_mass_loss_vectorized()'],
     'differential and history monitor over tabulated interpolators',
     'Random nodes and off-node points.')

prop('C21', 'Correlation functions, multipoles and power spectra of convergence maps',
     'The two-point correlation of a convergence map is the covariance of the map at the two ends of a separation of the '
     'requested length and angle to the radial direction of its midpoint, over the part of the map that is not masked '
     'and that contains every separation: independent of a constant added to the map, quadratic in its amplitude, '
     'bounded by one and equal to one at zero separation when normalized, and independent of which other separations '
     'and angles are requested in which order. The multipoles are the Chebyshev coefficients of the correlation in the '
     'angle, the power spectrum of a multipole is 2 pi (-i)^l times its Hankel transform of the same order, and a power-law fit '
     'returns amplitude (at the middle of the range) and slope using only the separations inside the requested range. '
     'The arguments are not changed.',
     ['inputs'], 'every smooth map, window, mask, separation, angle and multipole',
     TESTS + 'the upstream tests of these functions are commented out.',
     ['pyHalo/realization_extensions.py', 'pyHalo/utilities.py'],
     [('spline evaluation at both ends of a separation, masked Simpson integrals', 'realization_extensions.py')],
     ['corr_kappa_with_mask()', 'xi_l()', 'xi_l_to_Pk_l()', 'fit_correlation_multipole()'],
     'differential monitor of the returned statistics against integrals of the closed form of the map, and metamorphic monitors',
     'Random smooth maps; masked statistics are judged to about one pixel of the mask.')
