p('C11', 'Section geometry of links and superlink ends',
  'Flow area, wetted perimeter, hydraulic radius and top width of every link are those of its cross section (circular, closed and open rectangle, triangle, trapezoid, parabola, ellipse, wide channel, force main, floodplain) at the mean of the depths at its two junctions, and those of a superlink end are the section of the first or last link at the mean of its junction depth and, when the superjunction is connected, the head above the end invert. Depths below the bottom give an empty section; above the crown a closed section keeps its full area and has the width of its slot. The hydraulic radius times the perimeter is the area; nothing left over from an earlier step enters.',
  ['inputs', 'configurations'], 'every shape, size, slot, depth (negative, partly full, surcharged) and mixture of shapes in a network',
  TESTS + 'they use two or three of the ten shapes and check no area; depths at and beyond the crown, and mixtures of shapes, are not compared with an oracle.',
  [NS, NG], [('link geometry', NS + ' numba_hydraulic_geometry'), ('end geometry', NS + ' numba_boundary_geometry'), ('section formulas', NG)],
  COMMON + 'Arccos, arcsin, square roots and powers are related by their functional equations; incomplete elliptic integrals are uninterpreted. Networks of one to three superlinks per query.')
p('C12', 'Vectorised section geometry agrees with the section formulas',
  'The array versions of the cross sections (pipedream_solver.geometry) return, element by element, the same area, perimeter, hydraulic radius and top width as the sections themselves for every depth and dimension, treating each element independently of its neighbours.',
  ['inputs'], 'every shape, every pair of elements with different depths and sizes',
  TESTS + 'none calls the array versions.', [GEO], [('array geometry', GEO)],
  COMMON + 'Arrays of two elements; the elliptic perimeter is compared up to the elliptic integral.')
p('C13', 'Surveyed cross sections',
  'For a link with a surveyed section, the area, hydraulic radius and top width used by the solver are linear interpolations, at the depth of the link or end, of tables that hold the exact area, area over perimeter, and width of the surveyed polygon at evenly spaced stages from its lowest to its highest point; outside the table the nearest end is used. Each link reads its own survey, also when surveys have different numbers of stages or some links have no survey.',
  ['inputs', 'configurations'], 'every survey within the bounds, every depth, every assignment of surveys to links',
  TESTS + 'surveys are not used by the tests that pass.', [NS, SL], [('tabulating a survey', NS + ' configure_hydraulic_geometry, ' + SL), ('lookup', NS + ' numba_transect_geometry / numba_boundary_transect')],
  COMMON + 'Surveys of up to 4 points and 3 stages with arbitrary coordinates; lookups in three fixed surveys for arbitrary depths.')
p('C14', 'Storage curves: surface area and stored volume of superjunctions',
  'The surface area of a superjunction at a depth (head above invert, at least the minimum depth) is a*d^b+c for a functional storage and the linear interpolation of its table for a tabular one, and the stored volume is the integral of that area from the bottom: a/(b+1)*d^(b+1)+c*d, respectively the trapezoid volume at tabulated depths, interpolated between them and continued with the top area above the table. Each superjunction uses its own curve, whatever the order of the tables, the renumbering of superjunctions, and however many superjunctions share a table or tables nobody uses.',
  ['inputs', 'configurations'], 'every depth, coefficient, exponent, table with nondecreasing area, and assignment of tables to superjunctions',
  TESTS + 'only functional storage with one set of coefficients is run, and stored volumes are never compared with areas.',
  [NS, S + 'storage.py'], [('areas and volumes', NS + ' compute_storage_areas / compute_storage_volumes and their kernels'), ('table bookkeeping', NS + ' configure_storages'), ('curve classes', S + 'storage.py')],
  COMMON + 'Networks of up to 5 superjunctions with up to three tables of two to four rows, one of them with arbitrary entries; arbitrary coefficients and exponents (powers with symbolic exponent obey only x^(y+n) = x^y*x^n and the values at 0 and 1).')
p('C06', 'Still water stays still',
  'If all superjunctions, internal junctions and boundaries have one water level above the bottom of every link and nothing flows, a time step without inflow leaves every head at that level, every internal depth at the level above its invert, and every flow at zero - for any level, time step, cross section, slope, offset, loss coefficient, storage, solution method, matrix form, and number of iterations, with weirs and with fully submerged orifices. (End reaches of positive length are taken to be level.)',
  ['inputs', 'configurations'], 'every level in a range, time step, and network within the bounds',
  TESTS + 'none starts from rest.', [NS], [('one step', NS + ' step'), ('pressure and slope terms', NS + ' link_coeffs'), ('assembly', NS + ' sparse_matrix_equations')],
  COMMON + 'Networks of two or three superjunctions with one to three superlinks of one to three links; level in [1, 2] m with the time step arbitrary, or one of the two fixed where both arbitrary is out of reach of the solver.')
p('C07', 'Heads and depths stay within their limits',
  'Whatever the equations return, the head of a superjunction is never below its invert nor above invert plus maximum depth; internal depths are never below the minimum depth and, in the recurrence methods, depths inside a superlink never above its maximum depth. A value within the limits is not altered, an absent maximum depth limits nothing, and the flows inside a superlink are those of the depths after limiting.',
  ['inputs', 'histories'], 'every solution of the head system, every set of recurrence coefficients, every limit',
  TESTS + 'limits are never reached in the tests.', [NS],
  [('head limits', NS + ' solve_sparse_matrix / solve_banded_matrix'), ('depth limits', NS + ' solve_internals_backwards / forwards / lsq, kernels')],
  COMMON + 'Four superjunctions with an arbitrary solution vector; superlinks of one to three links with arbitrary coefficients.')
p('C08', 'Orifices',
  'After a step the flow through an orifice is C*A*sqrt(2 g dH) towards the lower head, where A is the part of the opening (scaled by the control signal u in [0, 1]) that is under water, and dH the head difference when the lower side is above the middle of the opening, the upper head above the middle of the opening when only the upper side is above its top, and the upper head above the sill otherwise. It is never more than the stored volume of the donor over the time step, a one-way orifice never flows back, and an orifice that is closed or without control signal has no flow and no effect. The head system uses the same law, linearised in the heads around the last flow. Every orifice uses its own control signal, dimensions and superjunctions.',
  ['inputs', 'configurations'], 'every head, size, discharge coefficient, signal, orientation, shape, one-way flag and numbering',
  TESTS + 'one orifice configuration is run, with no check of the flow.', [NS],
  [('flow', NS + ' solve_orifice_flows, numba_solve_orifice_flows'), ('coefficients', NS + ' orifice_flow_coefficients'), ('opening', NS + ' orifice_hydraulic_geometry')],
  COMMON + 'One or two orifices with arbitrary heads, sizes and signals; nine opening shapes; whole steps on three networks for forcing along three lines.')
p('C09', 'Weirs',
  'After a step the flow over a weir is (Cr*L*H + Ct*s*H^2)*sqrt(H) towards the lower head, where the crest is lowered from its highest position by the control signal u in [0, 1] and H is the head above the crest, or the head difference when both sides are above the crest; nothing flows when both are below. The head system uses the same law, linearised in the heads around the last flow. Every weir uses its own control signal, dimensions and superjunctions, and a weir without signal has its crest fully raised.',
  ['inputs', 'configurations'], 'every head, size, coefficient, signal and numbering',
  TESTS + 'one weir configuration is run, with no check of the flow.', [NS],
  [('flow', NS + ' solve_weir_flows'), ('coefficients', NS + ' weir_flow_coefficients')],
  COMMON + 'One weir, or two of which one is in one of four states, with arbitrary heads, sizes and signals; whole steps on two networks for forcing along three lines.')
p('C10', 'Pumps',
  'After a step the flow of a pump is (u/b*(a - dH))^(1/c) from its inlet to its outlet, with the lift dH limited to its range, whenever the inlet head is above the pump invert, and zero otherwise; it never runs backwards, and without control signal it stands still and has no effect. Inside the lift range the head system uses the same curve, linearised around the last flow. Every pump uses its own control signal, curve and superjunctions.',
  ['inputs', 'configurations'], 'every head, pump curve, signal and numbering',
  TESTS + 'one pump configuration is run, with no check of the flow.', [NS],
  [('flow', NS + ' solve_pump_flows'), ('coefficients', NS + ' pump_flow_coefficients')],
  COMMON + 'One pump, or two of which one is in one of four states, with arbitrary heads, curves (a at least the largest lift, exponent c at least 1) and signals; whole steps on two networks for forcing along three lines.')

p('C15', 'Numbering, order and matrix form do not change the result',
  'Solving the head system with the banded or the dense matrix, renumbering the superjunctions to narrow the band, and listing superlinks in another order give the same heads, depths and flows for the same network, apart from where they are stored; with renumbering, the inputs given in the new order reach the superjunctions they were meant for. The bandwidth covers every coupling in the head system.',
  ['inputs', 'configurations'], 'every network within the bounds, every coefficient or forcing',
  TESTS + 'each fixed network is run with one numbering and one matrix form.', [NS, SL],
  [('bandwidth', NS + ' / ' + SL + ' bandwidth'), ('banded solution', NS + ' solve_banded_matrix'), ('renumbering', NS + ' __init__ (auto_permute)')],
  COMMON + 'Arbitrary coefficients on 15 graphs with up to 5 superjunctions, with orifices, weirs and pumps; whole steps of three networks at warmed-up states for all forcing in a box.')
p('C16', 'Repositioning of internal junctions preserves the water surface profile',
  'When the movable junction of a superlink is repositioned, it goes to where the downstream head meets the bed, or back to the centre of the superlink when the head does not meet it; junctions stay sorted and lie on the bed line, lengths are the differences of positions, the depth of the water surface at the new position is interpolated between its neighbours there, the link that is split keeps its flow in both halves and the links that are merged get the length-weighted mean flow. Fixed junctions keep their depth, other superlinks are untouched, and only the selected superlinks are repositioned.',
  ['inputs', 'histories'], 'every profile, head, slope, spacing and position of the movable junction',
  TESTS + 'mobile junctions are not used in them.', [NS], [('repositioning', NS + ' reposition_junctions, numba_reposition_junctions')],
  COMMON + 'One or two superlinks of two to four links; the new position differs from those of the fixed junctions.')

p('C17', 'A step advances the clock by its size and repeats itself consistently',
  'A step advances the time by exactly its size (the default size if none is given) and counts as one step, however many fixed-point iterations it takes; the number of iterations never exceeds the allowance, the iteration stops early only when all heads moved by less than the tolerance, and the result is that of exactly the reported number of iterations. The saved previous state stays that of the beginning of the step. In a repeated iteration, inertia and storage refer to the beginning of the step while sections, areas and loss terms are those of the latest iterate, so that momentum, continuity, end conditions and volume balance hold between the beginning and the end of the step.',
  ['inputs', 'histories'], 'every start time, head tolerance, forcing in a box, and number of iterations within the bounds',
  TESTS + 'none iterates, and none compares the clock.', [SL, NS],
  [('iteration and clock', SL + ' step, _setup_step, _solve_step'), ('previous against current values', NS + ' link_coeffs, node_coeffs, superlink_upstream_head_coefficients, sparse_matrix_equations')],
  COMMON + 'Up to four iterations on three networks for the clock; the laws of a second iteration on 18 networks at warmed-up states for all forcing in a box.')
p('C18', 'Going back to a saved state is exact',
  'Loading the state saved at the beginning of a step (or any earlier saved state) and stepping again gives the same heads, depths, flows, control flows, positions and time as if the steps in between had not been made - also when superlink ends got connected or disconnected, or internal junctions were repositioned, in between.',
  ['histories', 'inputs'], 'every forcing in a box, one or three steps in between, 18 networks with all kinds of elements',
  TESTS + 'loading a state is not exercised.', [SL],
  [('saved states', SL + ' save_state / load_state')],
  COMMON + 'Warmed-up states of 18 networks; one step after loading.')
p('C19', 'Forcing reaches the model at the right time and place',
  'Each step of a simulation hands the model the inflow, boundary head and junction inflow at the end of the step: linearly interpolated (or of the nearest record), constant before the first and after the last record, each kind with its own times, each column for the superjunction it was given for, also after renumbering. What is passed for one step replaces the table, kinds that are not given stay absent, and the simulation starts and ends at the times asked for or those of the inputs.',
  ['inputs', 'configurations', 'schedules'], 'every time, step size, record value and spacing of records within the bounds',
  TESTS + 'forcing tables are not checked against what the model receives.', [SIM, S + 'nutils.py'],
  [('sampling', S + 'nutils.py interpolate_sample'), ('time and columns', SIM + ' __init__, _step')],
  COMMON + 'Up to four records at arbitrary times; tables of three or four records at fixed times with arbitrary values, arbitrary time and step size, with a recording stand-in for the hydraulic model.')
p('C20', 'Adaptive steps: substeps, error estimate, retries and step size',
  'With subdivisions, the step is redone from its initial state in that many equal substeps, the result and the time are those of the substeps, and the error is the chosen norm of the difference between coarse and fine heads, each relative to the size of the head. With retries, the whole is repeated from the initial state with half the step while the error exceeds the tolerance, retries are left and the step stays above the minimum, with the same tolerance, norm, forcing and controls; one size and one error are recorded per step. Proposed step sizes follow the documented controllers and stay within the minimum and maximum.',
  ['histories', 'inputs'], 'every outcome of every attempted step of the hydraulic model (heads in a box), every error history, controller setting',
  TESTS + 'adaptive stepping is not run.', [SIM],
  [('driver', SIM + ' step'), ('error', SIM + ' _scaled_error, _normed_error'), ('controllers', SIM + ' compute_step_size, filter_step_size')],
  COMMON + 'Two superjunctions; up to three substeps and four retries; the hydraulic model is replaced by one that returns arbitrary heads. The five controllers of the documentation, powers being related by functional equations only.')
p('C23', 'Data assimilation corrects the heads by the Kalman update',
  'The corrected heads are prediction plus gain times innovation, the error covariance and innovation covariance are those of the Kalman filter for the semi-implicit system of the model (in the standard and in the square root form), time and step count do not change, and the flows and depths after the correction satisfy momentum, continuity and end conditions with the corrected heads. The linear system handed out reproduces the step. Covariances may be given as number, vector, matrix or not at all.',
  ['inputs', 'configurations'], 'every observation and forcing in a box, every covariance and system matrix within the bounds',
  TESTS + 'the filter is not run.', [SIM, S + 'nutils.py', S + 'utils.py', SL],
  [('update', S + 'nutils.py _kalman_semi_implicit, ' + S + 'utils.py _square_root_kalman_semi_implicit'), ('application to the model', SIM + ' kalman_filter'), ('linear system', SL + ' _semi_implicit_system, state_space_system')],
  COMMON + 'One and two states with one or two observations and arbitrary covariances (square root form with two states: fixed covariances, arbitrary observations); whole steps on four networks.')
p('C21', 'Root finders stay in their bracket and return a root within the tolerance',
  'The bracketed Newton method, started anywhere with a sign change over its bracket, only evaluates points inside the bracket and returns a point of the bracket that is either a Newton correction smaller than the tolerance or the middle of a sign change narrower than the tolerance; it gives up (ValueError) only after the allowed number of iterations. The plain Newton method starts at the given point, returns a point where the function is zero or the Newton correction is within the absolute plus relative tolerance, and gives up only at a flat spot or after the allowed number of iterations. Both pass the extra arguments on.',
  ['inputs'], 'every function with any derivative values, start, bracket and tolerance within the bounds',
  'None of the scripts calls the root finders with an oracle; they are used by the infiltration model, which is not run.',
  [S + 'nutils.py'], [('bracketed', S + 'nutils.py bounded_newton_raphson'), ('plain', S + 'nutils.py newton_raphson')],
  COMMON + 'The function and its derivative are arbitrary values at every point visited; up to 2 (bracketed) or 3 (plain) iterations.')
p('C22', 'Green-Ampt infiltration: water is conserved and the infiltration law holds',
  'After a step, water that arrives either infiltrates or stays ponded; the rate is between zero and what is available; cumulative infiltration and the moisture deficit of the upper layer stay in their range. Weak rain infiltrates completely; once the front is saturated, cumulative infiltration follows the Green-Ampt law over the ponded part of the step, limited by the available water; in dry periods the deficit recovers at its rate, cumulative infiltration shrinks with it, and a new event starts when the recovery time has run out. Every element behaves as if it were alone, and constants and initial states follow the soil table.',
  ['inputs', 'histories'], 'every state, soil, rain and time step within the bounds, wet and dry, saturated and not',
  'The infiltration model is not run by the tests that pass.',
  [S + 'infiltration.py', S + 'ninfiltration.py'], [('step and cases', S + 'infiltration.py / ninfiltration.py step, saturated, unsaturated_case_1..3'), ('constants', S + 'infiltration.py __init__')],
  COMMON + 'One element with arbitrary state, three elements with arbitrary moisture and cumulative infiltration at fixed soils and rain. The root of the Green-Ampt equation is any root (logarithm by its monotonicity and mean value bounds); the root finder itself is C21.')
p('C24', 'Dissolved matter: transport balance in every part of the network',
  'After a water quality step on a given flow field, what every link, internal junction, end reach and superjunction stores changes by advective inflow minus outflow (taken from the upstream side), diffusion over the adjacent half lengths, lateral and external inflow at their concentration, transport through orifices, weirs and pumps, and first-order reaction. Superjunctions with prescribed concentration have it exactly; all concentrations stay within the given limits; each part uses its own section shape, area before and after the step, length, diffusion and reaction coefficient; the hydraulic model is not changed, and without a time step size the default is used.',
  ['inputs', 'configurations'], 'every concentration in the network and the inflow, 13 flow fields with all kinds of elements',
  TESTS + 'three scripts compare one concentration curve with an analytical solution and assert nothing; none has offsets, circular sections, several superlinks with different properties or controls.',
  [WQ], [('coefficients', WQ + ' link_coeffs, node_coeffs, boundary coefficients'), ('areas and flows', WQ + ' import_hydraulic_states, geometry_WQ1, geometry_WQ2'), ('system', WQ + ' sparse_matrix_equations, solve_*')],
  COMMON + 'Flow fields are concrete (one or more steps of the hydraulic model); all concentrations are arbitrary in a box. Positive diffusion.')
p('C25', 'Dissolved matter: no new extremes',
  'Without reaction, and when no water is withdrawn, concentrations after a step lie between the smallest and the largest of the concentrations before the step, in the inflow and at prescribed superjunctions, in every link, junction, end reach and superjunction; in particular a uniform concentration stays uniform.',
  ['inputs', 'configurations'], 'every concentration in the network and the inflow, eight flow fields',
  TESTS + 'no script checks the range or a uniform concentration; the flow fields with reversed flow, offsets, loops and renumbering are not run.',
  [WQ], [('consistency of flow and transport', WQ + ' import_hydraulic_states, node_coeffs, sparse_matrix_equations'), ('internal concentrations', WQ + ' numba_solve_internals')],
  COMMON + 'Flow fields are concrete; open rectangular sections without controls (elsewhere the hydraulic step itself is linearised, so volume and flow differ slightly). Known finding: networks without any diffusion.')
p('C26', 'Dissolved matter: data assimilation is the Kalman update',
  'After assimilating an observed concentration, the concentrations are prediction plus gain times innovation (negative ones set to zero), and the error covariance is the one of the Kalman filter for the linear system of the step, with prescribed concentrations known up to the process noise; the estimate and the model state agree.',
  ['inputs', 'configurations'], 'every observation and concentration in a box, six flow fields, independent and correlated process noise',
  TESTS + 'the filter is not run by the scripts that pass with a check of its result.',
  [WQ], [('update', WQ + ' Kalman_Filter_WQ2, KF_WQ2')],
  COMMON + 'Flow fields, covariances and noise levels are concrete; observation and concentrations arbitrary in a box.')
p('C27', 'Input tables become the network they describe',
  'Every entry of the superlink, superjunction, internal link, internal junction, orifice, weir and pump tables arrives at its element, in the order of the renumbered network: connectivity, inverts, offsets, end lengths, roughness, section dimensions, loss and control coefficients, storage, initial depths, flows and limits. Superlinks divided into a given number of links keep their length and bed line between their two ends; superlinks given against the slope are turned around together with everything that belongs to their ends; supplied internal links keep their direction.',
  ['inputs', 'configurations'], 'every numeric entry of the tables, for twelve networks',
  TESTS + 'each script builds one network and does not compare its parts with the tables.',
  [SL, NS], [('reading', SL + ' __init__, _configure_internals_variable'), ('numbering', SL + ' _initialize_with_permuted_columns, _compute_bandwidth')],
  COMMON + 'Topology, number of links and kinds of sections are concrete; every number is arbitrary, with superlinks falling where the network says so.')
p('C28', 'Recorded states are the states the model was in',
  'A simulation keeps, for every variable it lists, one row per recorded time with the values the model had at that time, starting with the state it starts from; later changes of the model do not reach rows already recorded, recording again at the same time replaces the row, and at the end, also after a failure, the tables have one column per element, named after superjunctions and superlinks in the order of the model. Variables of elements the model lacks are left out.',
  ['inputs', 'histories'], 'every state of the model at each of the recorded times, renumbered or not, with and without controls',
  TESTS + 'the scripts record states and assert nothing about them.',
  [SIM], [('recording', SIM + ' __init__, record_state, __enter__, __exit__')],
  COMMON + 'Networks and recorded times are concrete; all states are arbitrary.')
p('C29', 'Arguments of a step: omitted ones are neutral, given ones left alone',
  'Leaving out an argument of a step equals giving the value that stands for nothing: no inflow at superjunctions or junctions, boundary heads as they are, controls closed, the default time step, the matrix form of the model. Arrays and tables given to a step or a model are not written to, and later changes to them do not reach the model or its saved states. Two models made from the same tables share nothing: a step of one does not change the other. Spinning up is the given number of steps with a trickle of inflow, and resets clock and counter unless told otherwise.',
  ['inputs', 'histories'], 'every inflow and boundary head in a box, networks with all kinds of elements',
  TESTS + 'each script uses one model, always with the same arguments, and never looks at the arrays it passed.',
  [SL, NS], [('arguments', SL + ' step, _setup_step; ' + NS + ' sparse_matrix_equations, *_flow_coefficients'), ('spin-up', SL + ' spinup'), ('tables', SL + ' __init__')],
  COMMON + 'The state before the step is concrete (after a warm-up); forcing is symbolic in a box.')
