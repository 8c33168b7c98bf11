"""Writes /verif/properties.jsonl (the source of truth for the texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
NS="pipedream_solver/nsuperlink.py"; SL="pipedream_solver/superlink.py"; NQ="pipedream_solver/nquality.py"
SIM="pipedream_solver/simulation.py"; NG="pipedream_solver/ngeometry.py"; GE="pipedream_solver/geometry.py"
INF="pipedream_solver/infiltration.py"; NINF="pipedream_solver/ninfiltration.py"; ST="pipedream_solver/storage.py"
UT="pipedream_solver/utils.py"; NUT="pipedream_solver/nutils.py"; VIS="pipedream_solver/visualization.py"
RUNS="The existing tests only run four small circular/rectangular networks for fixed inputs and assert nothing about the numbers; "

prop("C01","Water balance at every superjunction",
 "In every time step the superjunction heads solve the implicit water balance: at each superjunction that is not a fixed-stage boundary, storage area times head change over the time step equals external inflow plus the flow leaving every superlink, orifice, weir and pump that ends there minus the flow entering every one that starts there. Water that a link or control structure takes from its upstream superjunction in the balance is exactly the water it gives to its downstream superjunction in the balance (apart from the storage a superlink's own end sections gain).",
 ["inputs","configurations","histories"],"All networks (any number and arrangement of superlinks, orifices, weirs, pumps, boundaries, including none of a kind and several sharing a superjunction), all states, inflows, time steps, dense and banded storage.",
 RUNS+"a wrong sign, index or missing term in one control's contribution needs a network containing that control and a hand-computed balance.",
 [NS,SL],[("assembly of the superjunction system",NS+": SuperLink.sparse_matrix_equations, numba_create_A_matrix, numba_create_OWP_matrix, numba_add_at, numba_clear_off_diagonals")],
 [("superjunction heads","unknowns of the balance","SuperLink.H_j")],["SuperLink.A, O, W, P, D, b after SuperLink.sparse_matrix_equations"])
prop("C02","Fixed-stage boundaries keep the imposed head",
 "At every superjunction declared a fixed-stage boundary the solved head equals the boundary head passed to the step, or the head it already had when none is passed, whatever links and control structures are attached and whichever solver is selected. No flow or control term enters the equation of a boundary superjunction.",
 ["inputs","configurations"],"All networks, all placements of boundaries (upstream or downstream end of superlinks, orifices, weirs, pumps), all boundary-head inputs, dense and banded.",
 RUNS+"none inspects the head at a boundary that also has an orifice, weir or pump attached.",
 [NS],[("boundary rows of the system",NS+": SuperLink.sparse_matrix_equations, numba_clear_off_diagonals, numba_create_A_matrix, numba_create_OWP_matrix"),("solve",NS+": SuperLink.solve_sparse_matrix, solve_banded_matrix")])
prop("C03","Reported boundary flows are those of the head balance",
 "The flows reported at both ends of every superlink after a step are exactly the linear functions of the newly solved heads that entered that step's superjunction balance, using coefficients formed in that same step. Reported orifice, weir and pump flows are evaluated at the newly solved heads with the current control inputs.",
 ["inputs","configurations","histories"],"All networks and states; every step, including repeated iterations and rolled-back steps.",
 RUNS+"a flow computed from the old heads or from the other end's coefficients still gives plausible plots.",
 [SL,NS],[("superlink end flows",SL+": SuperLink.solve_superlink_flows"),("end-flow coefficients",NS+": SuperLink.superlink_flow_coefficients, superlink_upstream_head_coefficients, superlink_downstream_head_coefficients"),("control flows",NS+": solve_orifice_flows, solve_weir_flows, solve_pump_flows"),("step order",SL+": SuperLink._setup_step, _solve_step")])
prop("C04","Superlink end-flow coefficients follow from continuity and momentum",
 "The linear relation between a superlink's end flows and the heads at its two end superjunctions is the exact elimination of the superlink's internal continuity and momentum equations and its two end conditions, for any number of internal links and either end-condition formulation. The recursion used from the upstream end and the one used from the downstream end are eliminations of the same equations.",
 ["inputs","configurations"],"All superlink lengths and internal-link counts, roughness, geometry, flow directions, time steps; both end-condition formulations.",
 RUNS+"errors in one recurrence coefficient are invisible without an independent elimination.",
 [NS],[("recurrences",NS+": forward_recurrence, backward_recurrence, U_Ik, V_Ik, W_Ik, X_Ik, Y_Ik, Z_Ik"),("end conditions",NS+": superlink_upstream_head_coefficients, superlink_downstream_head_coefficients, kappa_uk, mu_uk, lambda"),("end flows",NS+": superlink_flow_coefficients, numba_alpha_uk ... numba_D_k_star")])
prop("C05","Internal links discretise continuity and momentum",
 "Each internal link and internal junction contributes the implicit discretised momentum and continuity equation stated in the documentation: local and convective inertia, pressure, gravity, friction by the selected formula, and control losses in the momentum equation; channel and manhole storage and lateral inflow in the continuity equation, with the previous step's flow and depth in the time derivative. Half of each adjoining link's storage belongs to each of its end junctions.",
 ["inputs","configurations"],"All internal link geometries, velocities, roughness values and friction formulas, inertial damping on or off, all lateral inflows and time steps.",
 RUNS+"a dropped term or a coefficient of the wrong neighbour only shifts results quantitatively.",
 [NS],[("momentum coefficients",NS+": SuperLink.link_coeffs, numba_a_ik, numba_b_ik, numba_c_ik, numba_P_ik, friction_slope"),("continuity coefficients",NS+": SuperLink.node_coeffs, numba_node_coeffs, E_Ik, D_Ik"),("velocities",NS+": SuperLink.node_velocities, numba_u_ik, numba_u_Ik, numba_u_Ip1k")])
prop("C06","Depths and heads stay inside their physical bounds",
 "After every step each superjunction head lies between its invert and its invert plus its maximum depth, whichever matrix solver is used, and every internal junction depth is at least the configured minimum depth. The head clamp is applied after the solve and nothing exported later bypasses it.",
 ["inputs","configurations","histories"],"All networks, inflows and steps; dense and banded solvers; every method of recovering internal depths.",
 RUNS+"only inputs that drain or surcharge a superjunction reach the clamps.",
 [NS,SL],[("head clamp",NS+": solve_sparse_matrix, solve_banded_matrix"),("depth clamp",NS+": solve_internals_backwards, solve_internals_forwards, solve_internals_lsq, numba_solve_internals; "+SL+": solve_internals_nnls")])
prop("C07","Orifice law, opening, one-way and availability limits",
 "Every orifice's flow and its linearised contribution to the balance follow the documented orifice law for its orientation, opening, submergence and head difference, and a one-way orifice never contributes or reports reverse flow. A fully closed orifice carries no flow, and a reported orifice flow never exceeds the water stored in the superjunction it draws from divided by the time step.",
 ["inputs","configurations"],"All orifice shapes, orientations, openings in [0,1] and omitted, one-way or not, all upstream and downstream heads including equal heads and dry ends.",
 RUNS+"no passing test has an orifice.",
 [NS],[("orifice opening area",NS+": SuperLink.orifice_hydraulic_geometry, numba_orifice_geometry"),("linearised law",NS+": SuperLink.orifice_flow_coefficients, numba_orifice_flow_coefficients, gamma_o"),("flow and limits",NS+": SuperLink.solve_orifice_flows, numba_solve_orifice_flows")])
prop("C08","Weir law and crest setting",
 "Every weir's flow and its linearised contribution to the balance follow the documented weir law for free and submerged flow in either direction, with the crest raised by the closed fraction of its height. A weir with neither side above its crest carries no flow and contributes nothing.",
 ["inputs","configurations"],"All weir geometries, coefficients, settings in [0,1] and omitted, and all pairs of heads including equal heads and heads at the crest.",
 RUNS+"no passing test has a weir.",
 [NS],[("linearised law",NS+": SuperLink.weir_flow_coefficients, numba_weir_flow_coefficients, gamma_w"),("flow",NS+": SuperLink.solve_weir_flows, numba_solve_weir_flows")])
prop("C09","Pump curve, on/off setting and head limits",
 "Every pump moves water only from its upstream to its downstream superjunction, at the rate its pump curve gives for the head difference limited to the curve's range and scaled by its setting. A pump that is switched off, or whose upstream head is not above its intake, carries no flow and contributes nothing to the balance.",
 ["inputs","configurations"],"All pump curves, settings in [0,1] and omitted, and all pairs of heads.",
 RUNS+"no passing test has a pump.",
 [NS],[("linearised law",NS+": SuperLink.pump_flow_coefficients, numba_pump_flow_coefficients, gamma_p"),("flow",NS+": SuperLink.solve_pump_flows, numba_solve_pump_flows")])
prop("C10","Each step advances time and uses the previous step's state",
 "A step advances simulated time by exactly the time step used and the step counter by one, and differs from nothing but the current state, the stored previous state and the inputs passed. Geometry, velocities and coefficients used in a step are formed from the state at the start of that step before they are used, and the time derivatives use the state saved at the start of that step. A water-quality step given no time step covers the interval of the hydraulic model's last step.",
 ["histories","inputs"],"All call sequences of step with default or explicit time steps, with and without inputs, repeated, rolled back, or after loading a state.",
 RUNS+"a stale coefficient or wrong time level changes results only slightly and never raises an error.",
 [SL,NS],[("step pipeline",SL+": SuperLink.step, _setup_step, _solve_step, save_state"),("use of saved state",NS+": link_coeffs, node_coeffs, head coefficients, sparse_matrix_equations, solve_orifice_flows")],
 [("saved states","state at start of step","SuperLink.states")])
prop("C11","Saving and loading a state restores it exactly and independently",
 "Loading a state saved from the same model restores every saved hydraulic variable and the simulated time to the saved values, and excluded variables keep their current values. Running the model after saving never changes the saved copy, and changing the model after loading never changes the dictionary it was loaded from.",
 ["histories"],"All sequences of step, save and load, with and without exclusions and with a user-supplied state.",
 RUNS+"no passing test loads a state.",
 [SL,SIM],[("save and load",SL+": SuperLink.save_state, SuperLink.load_state; "+SIM+": Simulation.load_state")],
 [("saved states","copies keyed by variable name","SuperLink.states")])
prop("C12","Building or running a model leaves the caller's inputs unchanged",
 "Constructing and running a hydraulic model, a quality model, an infiltration model or a simulation never modifies the tables, dictionaries, arrays or series the caller passed in, and building one model never changes what another model built later does.",
 ["histories","inputs"],"All input tables and option combinations, any number of models built from the same inputs.",
 RUNS+"tests re-read or discard their inputs and build a single model each.",
 [SL,NS,NQ,INF,SIM],[("constructors",SL+": SuperLink.__init__, _configure_internals_variable, _initialize_with_permuted_columns; "+NS+": configure_hydraulic_geometry, configure_storages; "+NQ+": QualityBuilder.__init__; "+INF+": GreenAmpt.__init__; "+SIM+": Simulation.__init__")])
prop("C13","Cross-section formulas are geometrically consistent",
 "For every supported cross-section shape, at any depth between empty and full, the flow area is the area of that shape below the water surface, the top width is the rate of change of area with depth, the wetted perimeter is the length of the wetted boundary, and hydraulic radius is area over perimeter. Above full depth the section stays full apart from the documented pressure-slot width.",
 ["inputs"],"All shapes, all positive shape parameters, all depths including zero, full and above full.",
 RUNS+"only two shapes run and no value is compared; formulas are never checked against each other.",
 [NG,GE],[("shape formulas",NG+" and "+GE+": <Shape>_A_ik, _Pe_ik, _R_ik, _B_ik")])
prop("C14","Every shape uses its own geometry everywhere it can be used",
 "A conduit or orifice declared with a shape gets that shape's area, perimeter, radius and width formulas, with its own parameters and at its own depth, for interior links, upstream end, downstream end and orifices alike. Every accepted shape is handled, and irregular sections use the tabulated section of their own link.",
 ["configurations","inputs"],"All shapes, mixed networks, all depths, both ends, head below or above invert, both ways of averaging end depths.",
 RUNS+"a swapped formula or parameter for one shape only matters to networks that contain it.",
 [NS,SL,NG],[("dispatch",NS+": numba_hydraulic_geometry, numba_boundary_geometry, numba_orifice_geometry, numba_transect_geometry, numba_boundary_transect, configure_hydraulic_geometry"),("callers",NS+": link_hydraulic_geometry, upstream_hydraulic_geometry, downstream_hydraulic_geometry, orifice_hydraulic_geometry")])
prop("C15","Superjunction storage area and volume agree",
 "For functional storage the stored volume at a depth is the integral of the storage area from the invert to that depth; both are evaluated at the depth above the superjunction's own invert, and each superjunction uses its own storage definition. Tabulated areas are interpolated linearly between the given points and held at the end values beyond them; the tabulated volume is the integral of the area at every tabulated depth, is interpolated linearly between those, and grows with the held area above the table.",
 ["inputs","configurations"],"All storage parameters and tables, any mix of functional and tabular superjunctions, all heads.",
 RUNS+"volume is never compared with area and tabular storage is not run at all.",
 [NS,ST],[("kernels",NS+": compute_storage_areas, compute_storage_volumes, numba_compute_functional_storage_areas, numba_compute_functional_storage_volumes, numba_compute_tabular_storage_areas, numba_compute_tabular_storage_volumes, configure_storages"),("standalone",ST+": Functional, Tabular")])
prop("C16","Infiltration conserves rainfall",
 "In every infiltration step the rain that falls plus the water ponded at the start equals the water infiltrated plus the water left ponded, and the infiltration rate never exceeds what is available nor is negative. Cumulative infiltration never decreases while it rains, the moisture deficit and recovery time stay within their limits, and saturated, wetting and drying soil elements are treated by exactly one case each.",
 ["inputs","histories"],"All soil parameters, rain intensities, time steps and sequences of wet and dry periods, any number of soil elements in different cases.",
 "No test runs infiltration.",
 [INF,NINF],[("step",INF+": GreenAmpt.step, available_rainfall, unsaturated_case_1, unsaturated_case_2, unsaturated_case_3, saturated_case, compute_ponding_depth, compute_runoff; "+NINF+": nGreenAmpt and its kernels")],
 [("F, f, d, theta_d, T, is_saturated","infiltration state","GreenAmpt")])
prop("C17","Simulation feeds each step the inputs at its end time",
 "In a simulation run, each step receives every time-series input evaluated at the time the step ends, interpolated between records and held constant beyond them, with each column going to the element it names; inputs passed explicitly to a step take precedence over the series.",
 ["inputs","histories"],"All input series (irregular times, single record, column order), step sizes and start times, both interpolation methods, explicit overrides.",
 RUNS+"they use a single constant or linear series and do not check what the model received.",
 [SIM,NUT],[("sampling",SIM+": Simulation._step, Simulation.__init__; "+NUT+": interpolate_sample, _interpolate_sample")])
prop("C18","Recorded results are faithful labelled snapshots",
 "Each recorded result is a copy of the model's values at the moment of recording, stored under the simulated time of that moment, and is not altered by later steps. The result tables carry one row per recorded time and one column per element, labelled with the user's element names in the model's own order.",
 ["histories","inputs"],"All runs, recording patterns, element names and column permutations.",
 RUNS+"they export tables without comparing them with the model's values.",
 [SIM,SL],[("recording",SIM+": Simulation.record_state, __exit__, States")])
prop("C19","Adaptive step sizes stay within the configured limits",
 "The step size proposed by the adaptive controllers always lies between the configured minimum and maximum and changes by no more than the configured relative factors, for any error estimate. Substepping covers exactly the requested interval, and a rejected attempt leaves no trace in the model before it is retried.",
 ["inputs","histories"],"All error histories, tolerances, limits, subdivisions and retries.",
 "No test exercises the adaptive controllers beyond one default setting.",
 [SIM],[("controllers",SIM+": Simulation.compute_step_size, filter_step_size, step, _scaled_error, _normed_error")])
prop("C20","Kalman assimilation applies the standard update to the right states",
 "Data assimilation in a simulation step replaces the predicted heads by prediction plus gain times innovation, with gain, prior and posterior covariance given by the standard Kalman equations for the model's own semi-implicit system, and then re-solves the same step from the state before it so that time and counter advance once in total.",
 ["inputs","histories"],"All covariances, observation matrices and measurement vectors; square-root and ordinary form.",
 "No test runs assimilation.",
 [SIM,UT,NUT,SL],[("filter",SIM+": Simulation.kalman_filter; "+UT+"/"+NUT+": _kalman_semi_implicit, _square_root_kalman_semi_implicit"),("system matrices",SL+": SuperLink._semi_implicit_system")])
prop("C21","Contaminant balance at superjunctions and junctions",
 "The water-quality step conserves contaminant: at each superjunction and each internal junction the change of stored mass (end volume times change of concentration plus concentration times change of volume) equals mass carried in minus mass carried out, plus external load, minus decay, with the concentration carried always that of the upstream side of the flow. Mass leaving through an orifice, weir or pump at one end arrives at the other.",
 ["inputs","configurations"],"All networks, flow directions (including reversals between steps), dispersion and decay coefficients, external loads and boundaries.",
 RUNS+"concentrations are produced but never balanced.",
 [NQ],[("interior coefficients",NQ+": QualityBuilder.link_coeffs, node_coeffs, alpha_ik, beta_ik, chi_ik, gamma_ik, kappa_Ik, lambda_Ik, mu_Ik, eta_Ik"),("superjunction system",NQ+": sparse_matrix_equations, numba_create_A_matrix, numba_create_OWP_matrix")])
prop("C22","Superlink quality elimination is exact",
 "The linear relation between a superlink's end concentrations and the concentrations of its two end superjunctions is the exact elimination of its interior transport equations, and the interior concentrations recovered after the solve satisfy the same equations with the same coefficients.",
 ["inputs","configurations"],"All internal-link counts, flow directions and coefficients.",
 RUNS+"nothing compares recovered interior concentrations with the equations.",
 [NQ],[("recurrences",NQ+": forward_recurrence, backward_recurrence, U_Ik ... O_ik"),("end elimination",NQ+": boundary_coefficients, numba_boundary_coefficients, rho_uk, tau_uk, zeta_uk, rho_dk, tau_dk, zeta_dk, D_k_star"),("recovery",NQ+": solve_boundary_states, solve_internals_backwards, numba_solve_internals")])
prop("C23","Concentrations stay within the configured bounds",
 "After every quality step every concentration the model exports (superjunctions, superlink ends, internal links and internal junctions) lies within the configured minimum and maximum.",
 ["inputs","histories"],"All networks, loads, boundary concentrations and bounds; both matrix solvers and both sweep directions.",
 RUNS+"no run reaches the bounds on purpose and none checks them.",
 [NQ],[("clipping",NQ+": solve_sparse_matrix, solve_banded_matrix, solve_boundary_states, solve_internals_backwards, solve_internals_forwards, numba_solve_internals")])
prop("C24","Boundary concentrations are honoured",
 "At every superjunction declared a quality boundary the solved concentration equals the boundary concentration passed to the step, or the one it already had when none is passed, whatever is attached to it (within the configured bounds).",
 ["inputs","configurations"],"All networks and boundary placements.",
 RUNS+"none asserts it.",
 [NQ],[("boundary rows",NQ+": sparse_matrix_equations, numba_clear_off_diagonals, numba_create_A_matrix, numba_create_OWP_matrix")])
prop("C25","Water quality and plotting never disturb the hydraulics",
 "Attaching and stepping a water-quality model, and plotting a network, never change any variable of the hydraulic model: the hydraulic results are the same with or without them.",
 ["histories","configurations"],"All call sequences interleaving hydraulic steps, quality steps and plots.",
 RUNS+"no test compares a run with and without quality or plotting.",
 [NQ,VIS,SL],[("quality reads of the hydraulic model",NQ+": QualityBuilder.__init__, import_hydraulic_states, step"),("plots",VIS+": plot_network_2d, plot_network_3d, plot_profile")])
prop("C26","Interior states recovered satisfy the same equations and end states",
 "After the superjunction heads are solved, the interior depths and flows of every superlink are recovered from that step's recurrence relations, starting from that superlink's own end flows and end depths, in whichever sweep direction or least-squares variant is selected.",
 ["inputs","configurations"],"All superlink lengths, sweep directions and solution methods.",
 RUNS+"nothing relates interior states to the recurrences.",
 [NS,SL],[("sweeps",NS+": numba_solve_internals, Q_i_f, Q_i_b, h_i_b, solve_internals_backwards, solve_internals_forwards, solve_internals_lsq, superlink_flow_from_recurrence; "+SL+": solve_internals_nnls"),("end depths",SL+": SuperLink.solve_superlink_depths")])
prop("C27","Results do not depend on the order of the input tables",
 "Reordering the rows of the superjunction, superlink, orifice, weir or pump tables, or enabling automatic reordering, only reorders the results: every element keeps its own parameters, its own endpoints and its own inputs. Every per-element quantity is looked up only with an index of that kind of element.",
 ["configurations","inputs"],"All row orders, element names, automatic permutation on or off.",
 RUNS+"each network is built in one order only.",
 [SL,NS,NQ,SIM],[("index maps",SL+": SuperLink.__init__, _initialize_with_permuted_columns, _configure_internals_variable, _compute_bandwidth"),("gathers and scatters",NS+" and "+NQ+": every kernel")])
prop("C28","Hydraulic equations are dimensionally homogeneous",
 "Every term added, compared or assigned in the hydraulic, quality, storage and infiltration equations has consistent physical dimensions, so that expressing all inputs in another consistent system of units changes results only by the unit conversion.",
 ["inputs","configurations"],"All inputs; every equation on every branch (quantities measured in length, time and mass).",
 "Tests use one unit system; a missing time step or length factor that happens to be near one there is invisible.",
 [NS,SL,NQ,INF,NG],[("all numerical kernels",NS+", "+NQ+", "+NG+", "+INF)])
prop("C29","Accelerated and plain implementations compute the same thing",
 "For every model component offered both as an accelerated and as a plain implementation (cross-section formulas, infiltration, root finding and filter routines), both compute the same result for the same inputs.",
 ["configurations","inputs"],"All inputs; with and without the accelerator installed.",
 "The tests run only the accelerated variants.",
 [NG,GE,INF,NINF,UT,NUT],[("pairs",GE+" / "+NG+"; "+INF+" / "+NINF+"; "+UT+" / "+NUT)])
prop("C30","A run conserves total water volume to a stated tolerance",
 "Over a whole run, the total volume stored in superjunctions and superlinks changes by the volume added at inflows minus the volume leaving at boundaries, to within a tolerance proportional to the time step.",
 ["histories","inputs"],"All runs.",
 RUNS+"none computes a volume balance over a run.",
 [NS,SL],[("whole step",SL+": SuperLink.step")])
prop("C31","Solvers return the solution of the assembled system",
 "The dense and the banded path return the solution of the same assembled linear system to working precision, and the least-squares variants return its minimiser.",
 ["inputs"],"All non-singular systems.",
 RUNS+"the two paths are never compared.",
 [NS],[("solve",NS+": solve_sparse_matrix, solve_banded_matrix, solve_internals_lsq")])
prop("C32","The scheme is stable and converges under refinement",
 "For smooth subcritical flow the results converge to the solution of the Saint-Venant equations as the time step and link length are reduced, and stay bounded for time steps within the documented range.",
 ["inputs","configurations"],"All smooth subcritical problems.",
 RUNS+"one network and one resolution each.",
 [NS,SL],[("whole scheme",SL+": SuperLink.step")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+"\n")
print(len(P))
