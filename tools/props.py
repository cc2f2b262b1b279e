NOTE = ('Every execution inside the stated bounds is run on the real code and compared step by step with an independent reference model; '
        'complete inside the bounds, silent outside them. Trusts the reference model, numpy and h5py.')

prop('C01', 'Registered data locations are durable and exact',
     'After any sequence of choosing a data root, registering simulations, light cones or property files, answering the prompts, and re-opening in a new process, every accepted registration is found again under its name with exactly the path that was registered (whatever characters the path contains), nothing else is registered, and a declined or failed registration changes nothing. Registrations of one kind never affect another kind, and changing the data root never mixes the registries of two roots.',
     ['histories', 'inputs'], 'all operation histories up to depth 3 (quick) / 4 (thorough) over names, paths with spaces and dots, prompt answers, two roots, all three registries',
     'The tests register one hard-coded path per registry in one order and never re-read it from a new instance with spaces, overwrites or several roots.',
     ['simim/_paths.py'], [('path list read/write', 'simim/_paths.py:_SimIMPaths')], [('path registry', 'name -> directory text files below the root', 'simim/_paths.py')], ['simim._paths._SimIMPaths'], note=NOTE)

prop('C02', "Formatting a raw snapshot keeps exactly the simulation's halos",
     'Converting a raw snapshot to the SimIM format stores exactly the halos of the raw file that lie in the mass range the catalogue declares, each once, with every field value unchanged apart from the declared unit transformation, sorted by decreasing mass, and with the same halo at the same place in every field. Snapshot attributes (redshift, box, cosmology, units, h dependence) are those of the metadata.',
     ['inputs'], 'all halo-mass lists up to length 3 (quick) / 4 (thorough) from an alphabet with equal masses, masses on both cuts and next to them; all orderings of longer lists with ties; both mass-function transfer modes; two h values; empty snapshots',
     'The only formatted data the tests see is one pre-built test box; format itself is never run with ties, masses on the cut, or empty snapshots.',
     ['simim/siminterface/_rawsiminterface.py'], [('format', 'simim/siminterface/_rawsiminterface.py:SimCatalogs.format')], [], ['data.hdf5'], note=NOTE)

prop('C03', 'Any sequence of format calls leaves a correct catalogue',
     'Whatever sequence of format calls is made (subsets of snapshots, remake, overwrite, basic, cleaning raw files as it goes, declined confirmations) the formatted file always holds, for each snapshot ever formatted, exactly what the last effective call on it should have stored: appending never touches fields or snapshots it was not asked to replace, overwriting replaces precisely the requested fields, and remaking starts over.',
     ['histories'], 'all histories of raw-data updates and format calls up to depth 3 / 4 over every flag combination and representative snapshot subsets',
     'A single format call is a test at most; the flag interactions across several calls on the same file need histories.',
     ['simim/siminterface/_rawsiminterface.py'], [('format append/overwrite', 'simim/siminterface/_rawsiminterface.py:SimCatalogs.format')], [('data.hdf5', 'formatted catalogue', 'simim/siminterface/_rawsiminterface.py')], ['data.hdf5', 'raw/'], note=NOTE)

prop('C04', 'Interrupted formatting never corrupts the catalogue or loses raw data',
     'If formatting is interrupted at any storage operation (an I/O error or Ctrl-C), the catalogue never contains a snapshot that is only partly written, snapshots not being written are unchanged, no raw file is removed before its data is safely stored, and re-running the call completes the job with the same data as an uninterrupted run (if the interruption left the catalogue empty, the set of fields is the one a new catalogue would get).',
     ['crash_points', 'fault_sequences'], 'every storage/read/remove operation of a format call, failing before or after taking effect, as an error or as an interrupt, for every starting file and flag combination in the bounds',
     'No test injects a failure; the property quantifies over all failure points.',
     ['simim/siminterface/_rawsiminterface.py'], [('format write loop', 'simim/siminterface/_rawsiminterface.py:SimCatalogs.format')], [], ['data.hdf5', 'raw/'], level='fault_enumeration',
     note='All fault points at which Python regains control are enumerated; a power cut or SIGKILL inside libhdf5 is not modelled.')

prop('C05', 'Raw-data deletion is confined; downloads fetch exactly what is missing',
     "Deleting raw data removes the raw files of the requested snapshots of this simulation and nothing else, only after the confirmation the user is asked for, for every name the data directory may have. Downloading fetches exactly the requested files that are missing or asked to be redone, and a failed download is never later mistaken for a complete file.",
     ['inputs', 'fault_sequences', 'histories'], 'all data-directory names with shell-special characters x confirmation dialogues x deletion requests; all sets of files present x requests x download failures for the three simulation families',
     'The tests delete nothing with special names and cannot reach the network.',
     ['simim/siminterface/_rawsiminterface.py', 'simim/siminterface/illustris.py', 'simim/siminterface/universemachine.py', 'simim/siminterface/uchuu.py'],
     [('delete_raw', 'simim/siminterface/_rawsiminterface.py:SimCatalogs.delete_raw'), ('download', 'simim/siminterface/*.py:download')], [], ['raw/ directory', 'subprocess, os and network calls'], note=NOTE)

prop('C06', 'Snapshots tile cosmic time and every redshift maps to the covering snapshot',
     'The snapshots of a simulation cover cosmic time without gaps or overlaps (each one ends where the next begins, with consistent redshifts, times and distances, and each lies inside its own span) for whatever order the source lists them in, and looking up any redshift inside the range returns the snapshot covering it. Snapshot numbering in metadata, raw files and formatted data is the same.',
     ['inputs', 'configurations'], 'all bounded snapshot-redshift sets x listing orders x requested subsets for the three families; all redshifts on, just inside, between and beyond every edge',
     'The tests use a single fixed snapshot table and no lookups at edges.',
     ['simim/siminterface/_rawsiminterface.py', 'simim/siminterface/simhandler.py', 'simim/siminterface/universemachine.py', 'simim/siminterface/uchuu.py', 'simim/siminterface/illustris.py'],
     [('metadata construction', 'simim/siminterface/_rawsiminterface.py'), ('z_to_snap', 'simim/siminterface/simhandler.py')], [], ['SimHandler.metadata', 'SimHandler.z_to_snap'], note=NOTE)

prop('C07', 'Handler properties: memory, disk, units and names stay consistent',
     'After any sequence of loading, unloading, making, overwriting, renaming, writing, deleting, selecting and re-opening, what a catalogue handler returns for a property is what was last made or stored, with its own unit and h dependence, the list of available properties is exactly what can be read, the file holds exactly what was written, and an operation that is refused changes nothing.',
     ['histories'], 'all operation histories up to depth 3 (quick) / 4 (thorough) over ~26 operations including multi-valued properties, write dtypes and selections',
     'The tests perform a handful of straight-line sequences; the state space is the product of memory, disk, selection and name lists.',
     ['simim/_handlers.py', 'simim/galprops/galprops.py'], [('property bookkeeping', 'simim/_handlers.py:Handler')], [('in-memory properties', 'loaded/made arrays and their units', 'simim/_handlers.py')], ['Handler.return_property', 'Handler.get_unit', 'data.hdf5'], note=NOTE)

prop('C08', 'Little-h unit conversions agree across every interface',
     'However a user selects the unit system (at construction, by switching it any number of times, or per call), every interface that takes or returns dimensional quantities, i.e. property values, selections, statistics, mass indices, box edges, gridded maps and user property functions, uses that same system, the two systems differ exactly by the declared power of h, and stored data never change by being viewed in one or the other.',
     ['histories', 'configurations'], 'all sequences of unit settings up to length 2 / 3 x initial settings x per-call overrides x every interface x h in {0.5, 0.7, 1}',
     'Tests look at one interface at a time with the default setting.',
     ['simim/_handlers.py', 'simim/siminterface/simhandler.py', 'simim/galprops/galprops.py'], [('h conversion', 'simim/_handlers.py'), ('get_mass_index', 'simim/siminterface/simhandler.py')], [], ['SimHandler', 'SnapHandler', 'Prop'], note=NOTE)

prop('C09', 'Selections are exact and statistics have no side effects',
     'After any sequence of range selections (resetting or narrowing) the active objects are exactly those whose values satisfy all requested closed ranges, every property read afterwards is restricted to them in catalogue order, and evaluating a statistic gives the value of the function on exactly the selected data while leaving selection and loaded data as they were.',
     ['histories', 'inputs'], 'all selection histories up to the depth bound over properties with ties, NaN and infinities and ranges with equal, reversed and open bounds',
     'Tests use one range on one property.',
     ['simim/_handlers.py'], [('set_property_range / eval_stat', 'simim/_handlers.py')], [('active indices', 'current selection', 'simim/_handlers.py')], ['Handler.return_property', 'Handler.eval_stat'], note=NOTE)

prop('C10', 'Simulation-wide operations treat every snapshot alike and protect source data',
     'Making, writing, deleting, selecting or summarising a property for a whole simulation gives in every snapshot exactly what doing it in that snapshot alone would give, whether or not snapshots are held in memory; properties that came with the simulation are never deleted or overwritten by accident, and a refused request changes no snapshot.',
     ['histories'], 'all histories of simulation-wide operations up to depth 3 / 4 on a simulation with non-contiguous numbering, an empty snapshot and resident or non-resident snapshots',
     'The tests apply one property to the two-snapshot test box.',
     ['simim/siminterface/simhandler.py', 'simim/_handlers.py'], [('make_property / delete_property / snap_stat', 'simim/siminterface/simhandler.py')], [], ['SimHandler', 'data.hdf5'], note=NOTE)

prop('C11', 'Raw catalogue loaders put every value under its documented name and unit',
     'For each supported raw format, after loading and formatting, each catalogue property holds the value of its documented raw column for the same halo, converted to the unit and h dependence it is labelled with; positions lie inside the periodic box.',
     ['inputs'], 'all bounded combinations of record kinds, record counts and file chunkings for UniverseMachine (ascii and binary), Uchuu and Illustris/TNG, every field given distinct values',
     'No test has raw files of any supported simulation.',
     ['simim/siminterface/universemachine.py', 'simim/siminterface/uchuu.py', 'simim/siminterface/illustris.py', 'simim/siminterface/_illustris_datahandling.py'],
     [('loaders', 'simim/siminterface/{universemachine,uchuu,illustris}.py')], [], ['formatted catalogue'], note=NOTE)

prop('C12', 'Grid geometry stays consistent through any sequence of operations',
     'After any sequence of padding, cropping, scaling, down-sampling, collapsing, transforming, copying, adding and summing, saving and loading, a grid equals what the operations mean: each cell keeps its value, centre, edges, pixel size, side length, unit and Fourier flag consistent with one another; added cells are empty; operations not done in place leave their source untouched, and refused operations change nothing.',
     ['histories'], 'all histories of ~45 operations up to depth 2 (quick) / 3 (thorough) from four start grids, merged on the observable state',
     'Tests apply one operation to one grid; wrong geometry shows up only after combinations.',
     ['simim/map/gridder.py'], [('grid geometry', 'simim/map/gridder.py:Grid')], [('axes and data', 'cell centres, edges, units, values', 'simim/map/gridder.py')], ['Grid attributes', 'Grid.grid'], note=NOTE)

prop('C13', 'Every object lands in exactly the cell that contains it',
     'Adding objects to a grid puts each object value in the one cell (closed below, open above) that contains it, in exactly the properties asked for, and nothing else changes; objects outside or at undefined positions are ignored; a grid made from a catalogue covers it; sampling returns the value of the cell containing each point. The result does not depend on object order, on splitting the catalogue, or on number types.',
     ['inputs', 'histories'], 'all lists of objects up to length 2/3 on, next to and away from every cell edge, in 1 to 3 dimensions, x every option, and all pairs of add calls',
     'Tests place a few objects at cell centres.',
     ['simim/map/gridder.py'], [('add_from_cat / sample / Gridder', 'simim/map/gridder.py')], [], ['Grid.grid', 'Grid.sample'], note=NOTE)

prop('C14', 'Fourier transforms and power spectra have the documented values',
     'Transforming a grid along any axes gives the discrete Fourier transform in the documented convention with correct Fourier axes; transforming back restores grid and axes; transforms of different axes commute; auto and cross power spectra equal the normalised product of the transforms for every starting state of the two grids, and leave them as they were unless done in place; invalid combinations are refused without change.',
     ['configurations', 'histories'], 'all grid shapes up to 3-d in the alphabet x Fourier states of both grids x requested axes x options, and all transform sequences to depth 3/4',
     'Tests check white noise levels on one grid.',
     ['simim/map/gridder.py'], [('fourier_transform / power_spectrum', 'simim/map/gridder.py')], [], ['Grid.grid', 'Grid.fourier_axes'], note=NOTE)

prop('C15', 'Spherical averages count every cell once, in its shell, with its weight',
     'Averaging over shells in any subset of axes assigns each cell to the one shell containing its distance from the centre (innermost and outermost included), and returns per shell the weighted mean, spread and number of cells, for any weights, shell definition and linear or logarithmic spacing.',
     ['inputs', 'configurations'], 'all grid shapes in the alphabet x space x averaged axes x centre x shell definitions x weights x number of properties',
     'Tests average a constant grid.',
     ['simim/map/gridder.py'], [('spherical_average', 'simim/map/gridder.py')], [], ['Grid.spherical_average'], note=NOTE)

prop('C16', 'Convolution is a linear centred convolution with a normalised beam',
     'Convolving a grid with any kernel along any axes and with any padding equals the direct (zero-padded) convolution centred on the kernel, without wrapping or moving the map, with units and axes kept and sources untouched; point-spread functions have the analytic shape for their width, unit normalisation where declared, and, for frequency-dependent beams, the width of their own plane.',
     ['inputs', 'configurations'], 'all grid x kernel shapes in the alphabet x axes x padding x in-place, all PSF widths x frequencies x axes',
     'Tests convolve with a one-cell source.',
     ['simim/map/gridder.py'], [('convolve / PSF / SpectralPSF', 'simim/map/gridder.py')], [], ['Grid.convolve', 'PSF'], note=NOTE)

prop('C17', 'Saved grids reload identically and files are replaced only when asked',
     'A grid saved at any point of its history and loaded again is the same grid in every respect (data, axes, units, Fourier state) and behaves the same afterwards; saving never replaces an existing file unless overwriting is requested, however the path is spelled, and a refused save leaves the file as it was.',
     ['histories'], 'all histories of save (4 path spellings x overwrite x compression), load and grid modifications up to depth 3 / 4',
     'Tests save once and compare the data array.',
     ['simim/map/gridder.py'], [('save / LoadGrid', 'simim/map/gridder.py')], [('npz file', 'saved grid', 'simim/map/gridder.py')], ['files', 'LoadGrid'], note=NOTE)

prop('C18', 'Light cones hold every halo image in their field exactly once',
     'A light cone built from a simulation contains exactly the periodic images of the halos above the mass cut that lie in its field (open angle, shape, aspect ratio) and redshift range, each once, taken from the snapshot whose range covers its distance, for every line of sight, flip, starting point and number of cones; its positions, angles, redshifts, masses, parent indices, redshift index and metadata agree with one another and with the parent simulation, and the same random numbers give the same cones.',
     ['inputs', 'configurations'], 'all lines of sight of a lattice x open angles x shapes x redshift ranges x flips x starting points x mass cuts on a synthetic simulation with three snapshots, with a scripted random generator',
     'Tests build one cone through one box and look at its outline; missing halos are invisible without an independent tiling.',
     ['simim/lightcone/lcmaker.py'], [('LCMaker.build_lightcones', 'simim/lightcone/lcmaker.py')], [('lc_*.hdf5', 'light cone', 'simim/lightcone/lcmaker.py')], ['LCMaker', 'lc_*.hdf5'], note=NOTE)

prop('C19', 'Light spheres hold every halo of their shell and sector exactly once',
     'A light sphere (full, hemisphere, quarter or eighth) contains exactly the images of the halos above the mass cut in its shell and sector around its starting point, each once and from the snapshot covering its distance, with consistent positions, angles, redshifts, masses and metadata; a shell that does not fit into the box is refused.',
     ['inputs', 'configurations'], 'all sectors x flips x starting points x shells (ending on, inside and beyond snapshot edges and the box) x mass cuts on a synthetic simulation with empty snapshots',
     'Tests build one small sphere and check that angles are in range.',
     ['simim/lightcone/lcmaker.py'], [('SphereMaker.build_lightcones', 'simim/lightcone/lcmaker.py')], [('lc_*.hdf5', 'light sphere', 'simim/lightcone/lcmaker.py')], ['SphereMaker', 'lc_*.hdf5'], note=NOTE)

prop('C20', 'Properties added to light cones are those of the parent halo',
     'Whatever properties, and in whatever order and number of calls, are added to the light cones of a set, each light cone halo gets the value, unit, h dependence and number type of its own parent halo in the right snapshot, vector components follow the box flips and the rotation into the frame of the cone, positions of other objects are placed relative to their halo, existing properties and other cones stay as they were, and a refused request changes nothing.',
     ['histories', 'configurations'], 'all sequences of additions up to the depth bound x geometry x flips x cones with and without halos',
     'Tests never add a property to a cone.',
     ['simim/lightcone/lcmaker.py'], [('add_properties / add_pos_properties', 'simim/lightcone/lcmaker.py')], [('lc_*.hdf5', 'light cone', 'simim/lightcone/lcmaker.py')], ['LCMaker.add_properties', 'LCHandler'], note=NOTE)

prop('C21', 'Light cone volumes, evolving statistics, maps and iteration are exact',
     'For any light cone or sphere, the comoving volume between two redshifts is the geometric volume of its field, statistics evaluated in redshift bins see each halo in exactly one bin with its own volume and leave selection and inputs as they were (also when they fail), gridding a cone puts each halo at its own sky position and redshift, and iterating over a set of cones gives for each one what handling it alone would give.',
     ['inputs', 'histories'], 'all shapes x redshift bins (edges on halos) x statistics x selections x cone subsets on synthetic light cones',
     'Tests never evaluate a light cone statistic.',
     ['simim/lightcone/lchandler.py', 'simim/_handlers.py'], [('LCHandler / LCIterator', 'simim/lightcone/lchandler.py')], [('active indices', 'current selection', 'simim/_handlers.py')], ['LCHandler.volume', 'LCHandler.eval_stat_evo', 'LCHandler.grid', 'LCIterator'], note=NOTE)

prop('C22', 'Instrument maps are never used after the instrument changed',
     'After any sequence of adding, removing and changing detectors, defaults and fields, mapping and sampling, an instrument has exactly the detectors, responses, defaults and fields it was last given; sampling a field either gives for each detector, in order, the value of a map made with its current responses and pointing, or is refused because mapping is due; later changes by the caller to arguments or to grids added as copies have no effect, and refused requests change nothing.',
     ['histories'], 'all histories of 36 operations up to depth 4 / 5 from an empty and 3 / 5 from two prepared instruments',
     'Tests check the consistency flags after one straight-line sequence.',
     ['simim/instrument/instrument.py', 'simim/instrument/_helpers.py'], [('maps_consistent', 'simim/instrument/instrument.py')], [('maps', 'cached maps per field', 'simim/instrument/instrument.py')], ['Instrument.sample_fields', 'Instrument.detectors', 'Instrument.fields'], note=NOTE)

prop('C23', 'Instrument maps, samples, noise and responses have their documented values',
     'For every combination of detector responses, normalisation, kernel size, padding, field shape and pixel size, the map a detector makes of a field equals the direct sum over frequencies and cells of its spectral and spatial response with the documented normalisation; sampling gives for each detector and field the map value in the cell it points at (own pointing offset included) plus its noise exactly once, scaled to the integration time; fields with units or axes that do not fit the instrument are refused, and quantities given in other supported units give the same result.',
     ['inputs', 'configurations'], 'all response pairs x normalisation x kernel x padding x field shapes, properties, detector orders, offsets, noise settings, and units in the alphabet',
     'Tests use one Gaussian detector on one field and check array shapes.',
     ['simim/instrument/instrument.py', 'simim/instrument/spatial_response.py', 'simim/instrument/spectral_response.py', 'simim/instrument/noise_functions.py', 'simim/instrument/_helpers.py'],
     [('map_fields / sample_fields', 'simim/instrument/instrument.py'), ('responses', 'simim/instrument/spatial_response.py')], [], ['Instrument.maps', 'Instrument.sample_fields'], note=NOTE)

prop('C24', 'Galaxy property models follow their published relations halo by halo',
     'Every galaxy model (CO, dense gas and far-infrared line luminosities, star formation rates, stellar masses, duty cycles) assigns to each halo the value of its published relation at that halo\'s own mass, star formation rate and redshift with the parameters given, independent of the order and number of halos passed together and of the form of the arguments (numbers, lists, integer or float arrays, one common redshift); scatter uses the given random generator, has the requested width and preserves the documented mean or median; unknown lines are refused; and the built-in properties evaluated through a handler equal the model applied to the stored halo properties in the units the model documents, whatever unit system the handler uses.',
     ['inputs', 'configurations'], 'all halo lists up to length 2 (quick) / 3 (thorough) over an alphabet of masses, rates and redshifts on both sides of every break x all documented settings x argument forms x scripted random streams',
     'The tests call no galaxy model; breaks, array forms and generators need enumeration.',
     ['simim/galprops/line_co.py', 'simim/galprops/line_co_dutycycle.py', 'simim/galprops/line_densegas.py', 'simim/galprops/line_fir.py', 'simim/galprops/line_fir_yang.py', 'simim/galprops/sfr_behroozi13.py', 'simim/galprops/sfr_bethermin17.py', 'simim/galprops/galprops_builtin.py', 'simim/galprops/log10normal.py'],
     [('models', 'simim/galprops/line_co.py'), ('built-in properties', 'simim/galprops/galprops_builtin.py')], [], ['simim.galprops'], note=NOTE)

prop('C25', 'Abundance matching pairs values of equal cumulative abundance',
     'The two functions returned by abundance matching a catalogue, or a distribution, with a distribution map each value inside the matched range to the value of the other property with the same cumulative abundance (counted from the top when the order is reversed), with the missing mass and the limits that were given; values with no counterpart get the extrapolation value requested for the property that is returned; the map is order preserving (or reversing), the same for numbers and arrays, independent of the order of the catalogue; missing masses outside 0 to 1 and unknown extrapolation modes are refused.',
     ['inputs', 'configurations'], 'all catalogues up to length 3 (quick) / 4 (thorough) over four values with ties x six distributions x all missing-mass combinations over {0, 1/4(, 1/2)} x both orders x four extrapolation settings x query points in, between, on and beyond all of them',
     'The tests do not call the matching functions; the combinations of limits, missing mass, order and extrapolation are untested by the authors\' own remark.',
     ['simim/galprops/galprops_am.py'], [('am_dfcat / am_dfdf', 'simim/galprops/galprops_am.py')], [], ['am_dfcat', 'am_dfdf'], note=NOTE)

prop('C26', 'Luminosity functions are proper, mutually consistent distributions',
     'For every Schechter, double Schechter, modified Schechter and double power law function the function value, its integral above a threshold, the normalised density, the cumulative distribution, its complement, its inverse and random draws belong to the same documented function above the same minimum: integral and cumulative distribution equal the direct integral, the density is its derivative, the inverse inverts it, nothing lies below the minimum, and numbers, arrays of any shape and repeated values give the same results.',
     ['inputs', 'configurations'], 'all functions over grids of slopes (integer, half-integer, near-integer, steep), scale/minimum ratios and amplitudes x every point list up to length 2 (quick) / 3 (thorough) over thresholds below, at and above the minimum and the knee x probabilities',
     'The tests contain no distribution; slopes below -1 use a recursion whose branches only show for particular slopes and array forms.',
     ['simim/galprops/galprops_am.py'], [('schechter_gen and others', 'simim/galprops/galprops_am.py')], [], ['schechter_gen', 'double_schechter_gen', 'modified_schechter_gen', 'double_power_law_gen'], note=NOTE)

prop('C27', 'Abundance-matched models fit their mass functions; tables survive kills',
     'The infrared luminosity and stellar mass models that are calibrated by matching a simulation relate, in every snapshot, halos and galaxies of equal abundance for the luminosity or stellar mass function at that redshift with the parameters given, using the requested halo property and mass limit, and interpolate linearly between snapshots; the published redshift evolution of the functions is followed; models that were not computed refuse to answer. The tables kept on disk are found again by later sessions unchanged, are replaced when a recomputation is requested, and a process killed at any moment while writing them leaves either the old relation, the new one, or none, never a mixture or an unusable state; the same holds for the Behroozi tables.',
     ['inputs', 'configurations', 'crash_points', 'histories'], 'all catalogue/snapshot sets x halo properties x mass limits x function parameters in the alphabet; all histories of up to 2 (quick) / 3 (thorough) constructions with the last one killed before, within and after every storage operation',
     'No test computes a relation, and none interrupts one.',
     ['simim/galprops/sfr_ir.py', 'simim/galprops/sfr_bethermin17.py', 'simim/galprops/sfr_behroozi13.py'],
     [('g13irlf_base', 'simim/galprops/sfr_ir.py'), ('bethermin17_base', 'simim/galprops/sfr_bethermin17.py')], [('relation tables', 'mass_axis.npy, redshift_axis.npy, lir.npy/stellarmass.npy', 'simim/galprops/sfr_ir.py')], ['g13irlf_base', 'bethermin17_base', 'behroozi13_base'],
     level='fault_enumeration', note='Relations are compared with quadrature of the published functions; kills keep everything earlier storage operations wrote (no reordering by the file system).')

prop('C28', 'Plots and animations show exactly the stored values and change nothing',
     'Scatter plots and histograms of catalogue properties, pictures and animations of grids and light cones, and plots of detector responses draw exactly the stored values at their documented coordinates, in the unit system and for the selection requested, for every choice of axes (in any order), slices, properties, Fourier-transformed dimensions and frames; each frame of a light cone animation shows the halos of its own distance slab and its redshift; plotting changes neither the data, the selection, the files, the keyword dictionaries of the caller nor later plots.',
     ['inputs', 'configurations'], 'all plot requests over the alphabets of properties, unit settings, selections, axis permutations, slices, frames and detectors in the bounds',
     'The tests draw nothing.',
     ['simim/_handlers.py', 'simim/map/gridder.py', 'simim/lightcone/lchandler.py', 'simim/instrument/instrument.py', 'simim/_pltsetup.py'],
     [('plot / hist', 'simim/_handlers.py'), ('visualize / animate', 'simim/map/gridder.py'), ('LCHandler.animate', 'simim/lightcone/lchandler.py'), ('plot_*_response', 'simim/instrument/instrument.py')], [], ['Handler.plot', 'Handler.hist', 'Grid.visualize', 'Grid.animate', 'LCHandler.animate', 'Instrument.plot_spectral_response'], note=NOTE)

prop('C29', "simim's objects share nothing with their caller",
     "A call never changes the arrays, lists, dictionaries or grids it is given, neither at once nor through any later call, and whatever the caller afterwards does to them, or to any value a call returned, changes neither simim's objects nor anything they later return; user functions that work in place on what they are given, or return the same buffer every time, do no harm to stored data. (Exempt: what is documented as done in place, and attributes accessed directly.)",
     ['histories'], 'all call histories up to depth 2 (quick) / 3 (thorough; 4 for matching functions) over the calls of grids and all grid constructors, handlers of snapshots, simulations and light cones, properties, matching functions and instruments x every point at which the caller overwrites an argument or a result',
     'Aliasing only shows when a buffer is reused between two calls; the tests build fresh arguments every time.',
     ['simim/map/gridder.py', 'simim/_handlers.py', 'simim/siminterface/simhandler.py', 'simim/lightcone/lchandler.py', 'simim/galprops/galprops.py', 'simim/galprops/galprops_am.py', 'simim/instrument/instrument.py'],
     [('Grid methods', 'simim/map/gridder.py'), ('Handler methods', 'simim/_handlers.py'), ('property definitions', 'simim/galprops/galprops.py')], [], ['Grid', 'SnapHandler', 'SimHandler', 'LCHandler', 'Prop', 'MultiProp', 'Instrument'], note=NOTE)

prop('C30', 'A failed or interrupted write never leaves stored data lost, mixed or half done',
     "When a call that writes - writing, making or deleting properties of snapshots, simulations and light cones, building light cones or adding properties to them, registering paths, downloading metadata, setting up the data directory, saving a grid - is refused, fails at any of its storage operations (I/O error, disk full, Ctrl-C; for text and grid files also a kill or a torn write) or because of a user function or argument, then everything stored can still be read and each stored item (property, light cone, registered path, root, grid) is either as it was before the call or as the completed call would have left it, never lost, half written or mixed; the live handler agrees with the file; and repeating the call correctly gives the same stored state as an undisturbed call. (A light cone being rebuilt may instead be reported as unfinished.)",
     ['crash_points', 'fault_sequences'], 'every storage operation of every writer outside SimCatalogs.format x {fails without effect, fails after effect, torn write, disk full from there on, Ctrl-C, kill} x stored start states, and every refused or failing request, each followed by a reading through new objects, a comparison with the live one, and a repeat',
     'Needs a fault at one particular storage operation and a look at all the rest of the stored data afterwards; the tests have no faults.',
     ['simim/_handlers.py', 'simim/siminterface/simhandler.py', 'simim/lightcone/lcmaker.py', 'simim/_paths.py', 'simim/siminterface/_rawsiminterface.py', 'simim/map/gridder.py'],
     [('write_property / delete_property / make_property', 'simim/_handlers.py'), ('SimHandler.make_property / delete_property', 'simim/siminterface/simhandler.py'), ('build_lightcones / add_properties', 'simim/lightcone/lcmaker.py'), ('_add_to_path_file / _setuppath', 'simim/_paths.py'), ('Grid.save', 'simim/map/gridder.py')], [], ['SnapHandler', 'SimHandler', 'LCHandler', 'LCMaker', 'SphereMaker', 'Grid.save'], level='fault_enumeration', note=NOTE)

prop('C31', 'Optional arguments left out mean their documented defaults; positions or names',
     'Leaving out an optional argument of a public call gives exactly what passing the default value stated in its documentation (or its signature) gives, and an argument may be given by position, in the documented order, or by name with the same outcome: the same values returned, the same data stored, the same refusals; for every call of catalogue handlers, simulation handlers, light cone makers and handlers, grids and their constructors, instruments, galaxy models, distributions, matching functions, and the setting up of data.',
     ['inputs', 'configurations'], 'every optional argument of every public call in the table of scenes (one or more scenes per call, with argument values distinguishing the default from its alternatives) x every subset up to size 2, and all, of the arguments at their default left out x every split into positional and named arguments',
     'The tests pass few optional arguments, and always in one way.',
     ['simim/_handlers.py', 'simim/map/gridder.py', 'simim/lightcone/lcmaker.py', 'simim/lightcone/lchandler.py', 'simim/siminterface/simhandler.py', 'simim/instrument/instrument.py', 'simim/galprops/galprops.py', 'simim/galprops/galprops_am.py', 'simim/galprops/line_fir.py', 'simim/galprops/line_co.py'],
     [('signatures', 'simim/map/gridder.py'), ('signatures and defaults', 'simim/_handlers.py')], [], ['Grid', 'SnapHandler', 'SimHandler', 'LCMaker', 'LCHandler', 'Instrument', 'simim.galprops'], note=NOTE)

prop('C32', 'Processes sharing a data directory do not disturb each other',
     "Processes that use the same data directory at the same time - starting sessions, registering paths, setting the data directory up, making light cone sets, writing and deleting properties, computing the tables of galaxy models, saving and loading grids, saving metadata, downloading - get the same results and leave the same stored data as if their calls had been made one after another in some order: no registration, property, file or grid is lost or mixed, nobody reads half of a file, and no call fails because another process came first; except that a call may be refused because another process has the HDF5 file open, and then each item it was to write is as before or as after. (Not covered: building the same light cone set twice at the same time, and reading what another process is deliberately replacing item by item.)",
     ['schedules'], 'every inequivalent interleaving (dynamic partial-order reduction over the file operations of real processes) of two processes with one to four calls each (thorough: also three processes) from every stored start state; for HDF5 files, which exclude each other, every schedule with up to one (thorough: two) preemptions at their operations',
     'Needs another process to act between two particular file operations; the tests run one process.',
     ['simim/_paths.py', 'simim/_handlers.py', 'simim/lightcone/lcmaker.py', 'simim/map/gridder.py', 'simim/siminterface/_rawsiminterface.py', 'simim/siminterface/universemachine.py', 'simim/siminterface/uchuu.py', 'simim/siminterface/illustris.py', 'simim/galprops/sfr_ir.py', 'simim/galprops/sfr_bethermin17.py', 'simim/galprops/sfr_behroozi13.py'],
     [('_add_to_path_file / _setuppath', 'simim/_paths.py'), ('LCMaker.__init__', 'simim/lightcone/lcmaker.py'), ('tables of galaxy models', 'simim/galprops/sfr_ir.py'), ('Grid.save', 'simim/map/gridder.py'), ('metadata and downloads', 'simim/siminterface/_rawsiminterface.py')], [], ['_SimIMPaths', 'setupsimim', 'LCMaker', 'SimHandler', 'g13irlf_base', 'bethermin17_base', 'behroozi13_base', 'Grid.save', 'SimCatalogs.download'], level='model_checking', note='The processes are real and forked from one prepared process; their operations on files in the data directory are the scheduling points. ' + NOTE)
