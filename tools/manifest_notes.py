HOLD = set()
CLAIM = {
 'C01': ('static dataflow analysis: predicate of the erased casts and selection terms of every archive variable over a value graph',
         'read_mat_argo and every way its data can reach the mapping; the removal predicate must cover every cast whose source contains the float name, in all variables alike.'),
 'C03': ('static comparison of two traversals: normal forms of the cast position in listing and retrieval for all combinations of present data sets',
         'get_region_hist_locations, get_region_data and their calls in the mapping, symbolic in regions, sizes and requested numbers.'),
 'C02': ('static dataflow analysis: selection terms of every per-cast array compared over a value graph',
         'All hand-overs of casts (readers, listing, retrieval, frontal separation, interpolation, statistics, mapping calls); equality of selection terms, symbolic in archives and indices.'),
 'C04': ('static dataflow analysis with formula normal forms: the role each scale parameter plays',
         'Every configured mapping parameter from its configuration key through the calls to its place in the correlation formulas, the finders and the saved records.'),
 'C31': ('static dataflow analysis: dominating conditions and selection masks in normal form',
         'Every path of update_salinity_mapping to a mapped value; conditions compared as predicates over profile and cast data.'),
 'C28': ('static comparison of matrix-expression normal forms (non-commutative algebra) over a value graph',
         'The four results of map_data_grid as formulas, symbolic in observations, covariances, signal and noise; signal and noise variance against their definitions. Rounding and conditioning are not analysed.'),
 'C30': ('static formula and dependence analysis: the reported error followed back to the sum over repeats, the series refitted in each, and covariance matrices in non-commutative normal form',
         'fit_cond as called with a limit and with break points given, for one, two and more columns; any number of samples. The optimiser within a refit is not analysed.'),
 'C42': ('static reading of tables filled in a loop over trials: place, formula (algebraic normal form) and origin of every entry, and of the choice among them',
         'fit_cond as called with a limit and with break points given; any number of trials. Fits with break points given and more searched for fail in the code and are left out; the optimiser is not analysed.'),
 'C44': ('static term analysis: both estimates and the stored values as polynomials over the selected reference values and the results of the two passes',
         'The mapping of one arbitrary level in update_salinity_mapping; the estimate itself (map_data_grid) is C04, selection and scales are C06 and C18.'),
 'C45': ('static dataflow: rearrangements collected along every elementwise path from the loaded arrays to the fit and back',
         'Every call of fit_cond and build_cov and every result saved; which profiles and levels are taken is C11 and C32.'),
 'C46': ('static term analysis: every depth followed to its interpolation, axes, position, sign and requested region compared as formulas',
         'update_salinity_mapping and calc_piecewisefit with the helpers they call; what the topography file holds is C24.'),
 'C47': ('static dataflow: the saved record followed back through the loops; entries, condition for adding, base and order read as formulas',
         'update_salinity_mapping with the helpers it calls; the rounding of positions is not looked at.'),
 'C43': ('static analysis of ranges and guards as linear forms, and of the search transformation as a formula with a monotone running sum',
         'fit_cond as called with a limit and with break points given, and its calls. Rounding is not looked at (points that coincide are covered).'),
 'C41': ('static entry-by-entry reading of matrices filled in loops (rows in, before and after a piece), coefficients and misfit compared as matrix formulas',
         'brk_pt_fit, sorter and fit_cond as called for limited, given and combined break points; any number of pieces and samples. Which number of break points is chosen is not looked at, nor is the optimiser.'),
 'C40': ('static entry-by-entry reading of a matrix filled in loops, entries and index formulas compared in algebraic normal form',
         'Every store on the way to the result of build_cov: place, formula, table of scales, side of the diagonal, missing values, and the lateral factor of each block. Loops are read for any number of profiles and samples.'),
 'C37': ('static dataflow analysis: entry-by-entry reading of arrays filled in loops, with recognition of extreme-entry choices',
         'find_10thetas: index, value and conditions of every store on the way to its five results. Ties and the stepping of the pressure levels are not looked at.'),
 'C38': ('static dataflow analysis: entry-by-entry reading of arrays filled in loops (points joined by each interpolation, their conditions and stand-ins)',
         'find_10thetas and sal_var_plot: every store of a value on a level, the choice of the closest sample and of its neighbour on all branches.'),
 'C39': ('static provenance analysis of every drawing call, against the literal texts of labels, titles and file names',
         'All drawing calls of all figures of plot_diagnostics; sources through interpolation, loops and copies. Colours, axis limits and legends are not looked at.'),
 'C35': ('static record tracking: which samples, in which order, each array holds, over a value graph',
         'fit_cond for the three ways it is called: every elementwise combination, the arguments of every fit, the covariance in the degrees of freedom and errors, the samples of the profile statistics.'),
 'C36': ('static type inference (units and dependence on the zero point) over a value graph, to a fixed point round loops',
         'All ten results of fit_cond for the three ways it is called, every sum, comparison, sequence and fit within; the optimiser and the scaled profile axis are taken as plain numbers.'),
 'C34': ('static comparison of formula normal forms over a value graph',
         'Covariance and correlation formulas, symbolic in coordinates and scales; every switch combination, every argument role.'),
 'C10': ('static dataflow analysis of the erasing masks of the saved salinities, compared as predicates over the real line',
         'The value saved under la_mapped_sal on every path of update_salinity_mapping.'),
 'C08': ('static producer/consumer analysis over a value graph (abstract interpretation of the syntax trees)',
         'File-name templates and guaranteed-key sets of every loadmat/savemat in the four stages, symbolic in configuration, directory and float name.'),
 'C16': ('static typestate analysis of file handles on all control paths, including exceptional ones',
         'Every open() and Reader() reached from any function of the package; each handle must be released by with or finally.'),
 'C17': ('static effect analysis of the figure state machine and of output-name templates',
         'Every savefig call: path template contains directory, float name and a part unique per plot and loop iteration; the figure saved is one made for it.'),
 'C18': ('static effect analysis (write, delete and rename sinks with path provenance)',
         'Every reachable call that can write, delete or rename: its path must be a template below a configured output directory containing the float name.'),
 'C19': ('static key-set and type comparison between the default configuration and every configuration read',
         'Keys and literal kinds of load() against all reads in the package; freshness of the returned object.'),
 'C06': ('static alias and mutation analysis over a value graph',
         'Every in-place change of a loaded array in calibration and plotting, and the contents of the arrays saved or handed to every plot; all functions inlined.'),
 'C07': ('static alias, mutation and cache-key analysis',
         'Every cached function of the package: keys cover all inputs, arguments are loop-fresh, results are never changed afterwards.'),
 'C13': ('static effect analysis of random-number use and of nondeterministic sources',
         'Every random call reached from retrieval, mapping and level selection; each must be dominated by seeding from its inputs.'),
 'C14': ('static dataflow analysis: position lists composed symbolically, membership and disjointness decided over the composition',
         'find_besthist and find_ellipse call, all paths by number of candidates; symbolic in the number of casts.'),
 'C11': ('static dataflow analysis: data of each calibration segment and the content of every calibrated output, composed symbolically',
         'calc_piecewisefit and the fit it calls: which columns of each input reach a segment, what is stored for flagged and unflagged profiles; symbolic in flags and sizes.'),
 'C12': ('static case analysis over a value graph: branch conditions decided for every pattern of inconsistent settings',
         'set_calseries/calc_piecewisefit for the patterns of lengths, flags and excesses of the break settings; the saved file must be complete and empty.'),
 'C15': ('static taint analysis of state left by earlier fits',
         'fit_cond, nlbpfun and everything they call: every read of a module-level or cached name must be dominated by a write of this call (except the random-number stream used for the error estimate).'),
 'C32': ('static comparison of formula normal forms and sample identities over a value graph',
         'calc_piecewisefit: the ratio and its errors given to the fit, conductivities and pressures used for calibrated salinity and its errors.'),
 'C33': ('static case analysis of the settings file (absent, unreadable, lacking keys, too long) over a value graph',
         'set_calseries: every saved setting, for every state of the settings file; flags decided by a truth table.'),
 'C22': ('static case analysis: one arbitrary sample followed through all masks, loops and branches of a value graph',
         'find_10thetas and the variance plot with every call of them; every combination of limits and every place of a sample relative to them.'),
 'C20': ('static taint analysis: arguments of every statistic followed back to measured data and to tests for missing values',
         'Every maximum, minimum, mean, sum, variance, median and position of an extreme reached from a stage, and the two variance functions alone.'),
 'C21': ('static case analysis: one arbitrary sample, cast and level followed through masks, loops and branches of a value graph',
         'get_region_data: every pattern of missing variables for the returned value and for the removal of casts; levels around the depth limit.'),
 'C23': ('static case analysis: one or two arbitrary positions followed through the value graphs of every longitude adjustment and lookup; constant folding of the box table',
         'wrap_longitude, both fetchers, the float longitude in selection and mapping, every topography lookup, the box search; positions represent the intervals between thresholds.'),
 'C24': ('static symbolic file positions: every seek and read as a formula in the request and loop counters, bounds by linear arithmetic over branch conditions',
         'get_topo_grid in every case of its wrapping conditions for all requests in the ranges its callers ask for.'),
 'C25': ('static case analysis: the entry written for one date as a formula in its own digits, over all conditions on month, day and length and all exceptional exits',
         'change_dates and cal2dec for every date text (month, day and length by the values around every threshold); that fetched dates pass through it.'),
 'C26': ('static term analysis: results followed back to candidates, weights, bracketing places and choice; rational-function normal form; order cases for the bracket test; effect check',
         'interp_climatology for all inputs of equal shape; temperatures represented by their order, pressures and salinities symbolic.'),
 'C27': ('static case analysis: the selection of casts as a condition on float and cast profile, decided per case; merge points of reduced and full set in the mapping run decided per option and count',
         'frontal_constraint_saf and its use in update_salinity_mapping, for every latitude, profile and option; temperatures, ranges and counts represented by the intervals between thresholds.'),
 'C09': ('static induction over the loop that adds profiles: per record and condition the effect of one round (entries added, place, places written) is computed from the value graph; loading and ordering are decided per size case',
         'update_salinity_mapping with the helpers it calls, first run and continued runs, any number of earlier and new profiles; level counts compared for more, fewer and equally many levels.'),
 'C05': ('static units inference over the value graph of whole stages (least fixed point through calls and loops)',
         'update_salinity_mapping and calc_piecewisefit with everything they call: every sum, difference, comparison, exponential, sine, interpolation, library call, store and saved record; units known from the names under which data are read. Operands of unknown unit (looked-up length scales, interpolated conductivities) give no obligation.'),
}
NA = {
 'C29': 'Whether an iterative numeric optimiser reaches the smallest misfit depends on its convergence over runtime data; what is decidable about the search (numbers tried, admissible positions, misfit, criterion, choice) is C42 and C43.',
}
