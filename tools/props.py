NA = {}
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, **kw))


S = 'trunk/SUAVE/'
P('C01', 'Data trees are insertion-ordered attribute maps under any history',
  'Whatever sequence of attribute and item assignments, deletions, appends, updates and dotted-path writes built a data object (ordered or plain), attribute access, item access, get, keys, values, items, iteration, length and membership all describe the same entries in the order they were first inserted; deleting an entry removes it everywhere. '
  'Updating from another mapping overwrites the entries it names, merges nested data recursively and leaves every other entry in place; appending under an existing key is refused and changes nothing. '
  'Deep copies and pickles are equal to the original, keep its type and order, and share nothing with it.',
  ['histories', 'inputs'], 'all operation histories up to the depth bound over a three-key alphabet with scalar, array and nested values',
  'Unit scripts exercise a handful of hand-written trees; hash/ordering/merge defects need particular orders of set, delete and merge.',
  [S + 'Core/Data.py', S + 'Core/DataOrdered.py', S + 'Core/Container.py', S + 'Core/ContainerOrdered.py'],
  [('attribute/dict unification', S + 'Core/Data.py'), ('linked list order', S + 'Core/DataOrdered.py')],
  'Exhaustive within the stated depth and alphabet on the real classes; equality with a list-based reference tree after every operation.')
P('C02', 'Appending components never loses, overwrites or misplaces one',
  'After any sequence of appends (one by one or as lists) to a vehicle, wing, rotor, mission or generic container, every component accepted so far is still there, once, in order of appending, and is found under the normalised form of its own tag. '
  'A component whose tag is already used is either stored under a new unused tag or refused with an error that leaves the container unchanged; containers that rename never refuse. '
  'A vehicle stores each component in the container of its family and nowhere else.',
  ['histories'], 'all append histories up to length 5-6 over tags that collide after normalisation or renaming, 16 container kinds, all component classes',
  'Regression scripts append distinct tags; collisions after normalisation, after automatic renaming, or on repeated duplicates never occur there.',
  [S + 'Core/Container.py', S + 'Core/ContainerOrdered.py', S + 'Core/DataOrdered.py', S + 'Vehicle.py', S + 'Components/Wings/Main_Wing.py', S + 'Components/Energy/Converters/Rotor.py'],
  [('tag normalisation and renaming', S + 'Core/Container.py'), ('component routing', S + 'Vehicle.py')],
  'Exhaustive over histories within the bound; the oracle is an ordered list of (normalised tag, identity).')
P('C03', 'Packing data into a vector and unpacking it back are exact inverses',
  'Packing any data tree into a vector (or column array) and unpacking that vector into the tree reproduces every numeric entry, its shape and its place, and leaves non-numeric entries alone. '
  'Unpacking a vector and packing again reproduces the vector exactly, entry by entry in the order of the tree, whatever vector was unpacked before. '
  'Unpacking never changes the vector it is given, and the unpacked entries share no memory with each other in a way that a later edit of one changes another.',
  ['inputs', 'histories'], 'all trees up to 4-5 leaves over 10 leaf kinds and 6 nesting shapes; pack/unpack/pack/unpack with two vectors',
  'Scripts pack the two or three fixed unknown sets of their missions; shape mixes, one-element arrays and repeated unpacking never occur.',
  [S + 'Core/Data.py', S + 'Core/Arrays.py'],
  [('pack_array', S + 'Core/Data.py'), ('unpack_array', S + 'Core/Data.py')],
  'Exhaustive over tree shapes and leaf kinds in the bound on the real classes; oracle: an independent depth-first flattening.')
P('C04', 'Configurations inherit base edits and never leak their own back',
  'After any history of edits to a base vehicle and to its configurations, storing differences and pulling the base gives every configuration the current base values for every entry except those it deviates in, where it keeps its own. '
  'Editing a configuration never changes the base or another configuration, and pulling twice gives the same result as pulling once.',
  ['histories'], 'all histories up to length 3-5 of base edits, configuration edits, store and pull on plain data and vehicles',
  'Scripts build configurations once and finalize; sharing of arrays or lost deviations needs particular orders of edits, stores and pulls.',
  [S + 'Core/Diffed_Data.py', S + 'Components/Configs/Config.py'],
  [('store_diff / pull_base', S + 'Core/Diffed_Data.py')],
  'Breadth-first with merging of equal states plus unmerged histories; oracle: a reference dictionary of base values and deviations.')
P('C05', 'Unit conversions are exact for every unit, expression and history of use',
  'Multiplying by a unit converts to SI and dividing converts back, with the internationally defined factor or offset, for every named unit, every legal compound expression, scalars, lists and arrays, and the round trip is the identity. '
  'No conversion changes the operand or a unit object that is kept and used again, and a unit has the same value whatever names were looked up before it.',
  ['inputs', 'histories', 'programs'], 'all 150 names x access x operand kinds; all products/ratios up to 3 terms; all short histories over kept unit objects and lookup orders',
  'Scripts use a dozen units one at a time; offsets, caching of compound names and in-place changes need other operands or orders.',
  [S + 'Core/Units.py', S + 'Plugins/pint/unit.py'],
  [('unit registry', S + 'Plugins/pint/unit.py'), ('Units', S + 'Core/Units.py')],
  'Exhaustive over an independently written table and grammar; oracle: that table.')
P('C06', 'Archived data loads back equal, complete and independent',
  'Saving any data tree to a file and loading it gives a tree with the same entries in the same order and the same numbers, texts, lists and arrays. '
  'Saving does not change the tree that is saved, editing a loaded tree changes neither the file nor another load, and the last successful save to a file is what a load of it returns.',
  ['inputs', 'histories'], 'every pair of 42 leaf kinds in a three-level tree, 4 container classes, all key orders; all histories up to 4-5 of save/load/edit/failing save over 2 files',
  'The scripts save one result tree; numpy scalar kinds, tuples, nested lists and repeated saves are not exercised.',
  [S + 'Input_Output/SUAVE/archive.py', S + 'Input_Output/SUAVE/load.py'],
  [('archive / load', S + 'Input_Output/SUAVE')],
  'Exhaustive over kinds, positions and histories in the bound; oracle: independent canonical form of the tree.')
P('C07', 'XML, FreeMind and D3 exports carry the whole tree, in order, unaltered',
  'Writing a tree to XML and reading it back gives the same elements, attributes and texts in the same order, whatever characters they hold. '
  'Exports to FreeMind and D3 contain one node per entry of the data tree, in order, nested like the data, and exporting leaves the data unchanged.',
  ['inputs', 'histories'], 'every tree shape up to 4-5 elements with rotating text/attribute alphabets; every data tree shape x container class x value kinds',
  'No test reads back what these writers produce.',
  [S + 'Input_Output/XML/load.py', S + 'Input_Output/XML/save.py', S + 'Input_Output/FreeMind/save.py', S + 'Input_Output/D3JS/save_tree.py'],
  [('XML data', S + 'Input_Output/XML/Data.py')],
  'Exhaustive over shapes in the bound; oracle: an independent parse with the standard XML and JSON libraries.')
P('C08', 'Redirection sends output and files where told and always restores',
  'Inside a redirected folder or stream, output and files go exactly where the caller named; on every way out (normal, exception, failing file operation) the working folder and the streams are what they were. '
  'Files to be pushed are moved back, pulled inputs are not, and no file that nothing replaces is ever destroyed.',
  ['fault_sequences', 'crash_points', 'configurations'], 'all combinations of pull/link, presence, force, folder kind, body outcome, pushed names, and every single injected OS failure; all nesting programs of stream redirection to depth 3',
  'No test injects a failing file operation or leaves a redirection through an exception.',
  [S + 'Core/redirect.py'],
  [('redirect.folder / redirect.output', S + 'Core/redirect.py')],
  'Exhaustive fault injection over every OS call the operation makes; oracle: a reference model of both folders.')
P('C09', 'Processes run every step once, in order, and file results by tag',
  'Evaluating a process runs each of its current steps exactly once, in their current order, passing the caller\'s arguments unchanged, and returns the results under the step tags in the same order, nested processes included. '
  'A failing step stops the evaluation with its own error. '
  'Analysis containers pass initialise, evaluate and finalise to each member once, and a vehicle stores each analysis under its family.',
  ['histories', 'programs'], 'all histories up to length 4-5 of 13 process edits with evaluation after each; analysis containers to depth 3-4; all ordered pairs of analysis families',
  'Scripts evaluate fixed processes once.',
  [S + 'Analyses/Process.py', S + 'Analyses/Analysis.py', S + 'Analyses/Vehicle.py'],
  [('Process.evaluate', S + 'Analyses/Process.py')],
  'Exhaustive over edit histories in the bound; oracle: ordered list of steps and a call log.')
P('C10', 'A cached optimization result is never served for other inputs or fidelity',
  'Whatever was asked before, the objective, constraints and gradients an optimization problem returns are those its procedure computes at the inputs and fidelity now in force. '
  'An evaluation that failed leaves nothing behind that a later request could receive, and unchanged inputs are not evaluated again.',
  ['histories', 'fault_sequences'], 'all histories up to length 4-5 over 17 operations, failing steps included',
  'Scripts evaluate once per point; stale caches need a particular order of requests, edits and failures.',
  [S + 'Optimization/Nexus.py'], [('Nexus.evaluate cache', S + 'Optimization/Nexus.py')],
  'Exhaustive over histories in the bound; every answer compared with closed-form formulas, evaluation counts with a reference cache.')
P('C11', 'Design variables reach their aliases; constraints keep sense, scale and unit',
  'Setting the design vector writes every variable, unscaled and with its unit, to exactly the entries its aliases name (asterisks over all members) and to nothing else. '
  'Every inequality is reported satisfied exactly when the physical value is on the allowed side of the bound, for every sense, scale, unit and order, and rescaling changes neither the feasible set nor the optimum found. '
  'Logs and sweeps report the values that were evaluated.',
  ['inputs', 'configurations', 'histories'], 'all alias-shape pairs, value grids, sense triples, scales, units, solver front ends, log histories and sweep grids in the bound',
  'Test problems use one sense/scale/alias shape each.',
  [S + 'Optimization/Nexus.py', S + 'Optimization/helper_functions.py', S + 'Optimization/Package_Setups/scipy_setup.py', S + 'Optimization/write_optimization_outputs.py'],
  [('set_values / constraint scaling', S + 'Optimization/helper_functions.py')],
  'Exhaustive over the stated combinations on the real front ends; oracle: direct evaluation of the physical formulas.')
P('C12', 'All optimizer front ends pose one problem; multi-fidelity keeps its rules',
  'Every optimizer front end hands its solver the same bounded, scaled problem, so that a point is feasible or better for one exactly when it is for the others. '
  'The trust-region method keeps every iterate inside the bounds and the region, accepts, shrinks and grows by its thresholds from the values actually computed, and reports the point, objective and constraints it really reached; the additive method stays inside the bounds.',
  ['inputs', 'configurations', 'histories'], 'all sense pairs x scales x units x input scales at all points of a grid; complete trust-region runs over a family of problems replayed on a reference transition system',
  'The optional packages are not installed and their code is never executed by the tests.',
  [S + 'Optimization/Package_Setups/pyopt_setup.py', S + 'Optimization/Package_Setups/pyoptsparse_setup.py', S + 'Optimization/Package_Setups/ipopt_setup.py', S + 'Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py', S + 'Optimization/Package_Setups/additive_setup.py'],
  [('TRMM loop', S + 'Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py')],
  'Reference transition system for the trust region, bound to the code by replaying every explored run against it.')
P('C13', 'Sampling plans are Latin hypercubes; the swarm returns its best feasible',
  'For every outcome of the random source, a sampling plan has exactly one sample in each stratum of each dimension, inside its bounds. '
  'The particle swarm never leaves the bounds, evaluates what it reports, and returns the best feasible point it visited.',
  ['schedules', 'inputs'], 'all permutations and within-stratum draws up to 4x2 / 3x3; all draw sequences of small swarms',
  'Tests fix one random seed.',
  [S + 'Optimization/Package_Setups/particle_swarm_optimization.py', S + 'Methods/Utilities/latin_hypercube_sampling.py'],
  [('pso', S + 'Optimization/Package_Setups/particle_swarm_optimization.py')],
  'The random source is replaced by an explorer that enumerates its outcomes exhaustively within the bound.')
P('C14', 'Atmosphere, gravity and gas models obey the standard, row by row',
  'At every altitude the atmosphere returns the temperature, pressure and density of the 1976 standard layers (deviation included), continuous across layers, with speed of sound, viscosity and conductivity those of the gas at that state. '
  'Each row of a batch depends only on its own altitude, out-of-range altitudes give the nearest valid state, and no request changes the model or later answers.',
  ['inputs', 'histories'], 'all layer breaks and interior points, all batches up to 3-4 of 9 altitudes, deviations, all histories of up to 3 requests',
  'The tests compare ten altitudes in one call.',
  [S + 'Analyses/Atmospheric/US_Standard_1976.py', S + 'Analyses/Atmospheric/Constant_Temperature.py', S + 'Attributes/Gases/Air.py', S + 'Attributes/Planets/Earth.py'],
  [('compute_values', S + 'Analyses/Atmospheric/US_Standard_1976.py')],
  'Exhaustive over batches and histories in the bound; oracle: independent layer formulas.')

P('C15', 'Every mission segment flies what was commanded with a consistent state',
  'At every control point of a segment of any type the commanded speed law, path, distance or duration is met, and altitude, atmosphere, speed, Mach, dynamic pressure, mass, range, position, latitude and longitude are what the trajectory and each other imply (derivatives and integrals over its own time). '
  'Forces are the model forces turned through the angle of attack and pitch, and when the segment says it converged they balance mass times acceleration; a following segment starts exactly where the previous one ended.',
  ['inputs', 'states'], 'all segment types x grids of commanded values x {start altitude given or inherited} x temperature deviation x course x control points',
  'The regression scripts fly about twenty segments with one setting each and compare stored numbers.',
  [S + 'Analyses/Mission/Segments/Segment.py', S + 'Methods/Missions/Segments/Common/Frames.py', S + 'Methods/Missions/Segments/Common/Aerodynamics.py', S + 'Methods/Missions/Segments/Common/Numerics.py', S + 'Methods/Missions/Segments/Climb/Common.py', S + 'Methods/Missions/Segments/Cruise/Common.py', S + 'Methods/Missions/Segments/Ground/Common.py', S + 'Methods/Missions/Segments/converge_root.py'],
  [('update_orientations', S + 'Methods/Missions/Segments/Common/Frames.py')],
  'Exhaustive over the grid; oracle: independent kinematics, barycentric differentiation/integration, closed-form aerodynamics and thrust.')

P('C16', 'Missions fly segments in order, each from where the last one ended',
  'Whatever the sequence of segments, each starts at the time, mass, place, range, latitude and longitude the previous one ended with, keeps its commanded values, and is not changed by anything that follows it; flying the mission again or flying a deep copy gives the same flight. '
  'Solving all segments at once gives the flight of solving them one after another, the merged state is theirs end to end, and a variable-range cruise lands at its target; the mission keeps its solver settings and reports convergence truthfully.',
  ['histories', 'states'], 'all sequences of up to 3 (thorough 4) of 9 segment kinds, each flown twice, copied, as prefix, with a jump, all at once, variable range',
  'The scripts fly one mission per vehicle, once.',
  [S + 'Analyses/Mission/Mission.py', S + 'Methods/Missions/Segments/Common/Sub_Segments.py', S + 'Methods/Missions/Segments/converge_root.py', S + 'Methods/Missions/Segments/Cruise/Variable_Cruise_Distance.py', S + 'Analyses/Mission/Segments/Conditions/State.py'],
  [('expand_sub_segments', S + 'Methods/Missions/Segments/Common/Sub_Segments.py')],
  'Exhaustive over sequences; oracle: prefix missions, independent kinematics, sequential solution.')

P('C17', 'Fresh instances and copies are pristine and share nothing',
  'Two instances of any component, analysis, segment, attribute or container class built without arguments are alike and share no array, list or nested data; a deep copy is equal to its original and shares nothing with it. '
  'Editing everything in one instance changes neither another instance, nor a copy, nor what any class builds afterwards.',
  ['histories'], 'all ~258 default-constructible classes; all ordered pairs (edit an instance of one, build the other)',
  'No test builds two instances and edits one.',
  [S + 'Core/Data.py', S + 'Core/DataOrdered.py', S + 'Components/Component.py', S + 'Analyses/Analysis.py', S + 'Analyses/Mission/Segments/Segment.py', S + 'Components/Wings/Wing.py', S + 'Components/Fuselages/Fuselage.py'],
  [('__defaults__', S + 'Core/Data.py')],
  'Exhaustive over classes and ordered pairs; oracle: identity and canonical descriptions.')

P('C18', 'Numerical building blocks are exact on what they must reproduce, at every size',
  'For every number of control points the differentiation and integration operators are exact on the functions they must reproduce (polynomials for the cosine points, straight lines for the evenly spaced ones), start integrals at zero and invert each other. '
  'Rotation matrices are the ordered product of the axis rotations, orthonormal, row by row; table interpolation is bilinear with the fill value outside; blends, soft maxima, array shaping and wing chord, span-station and volume helpers return their defining formula for every input without touching it.',
  ['inputs'], 'control points 2..40 (64) x all degrees; all axis sequences x angle grid; all table cells; all pairs of blend and soft-max grids; wing grid',
  'Tests use 16 points and one function.',
  [S + 'Methods/Utilities/Chebyshev/chebyshev_data.py', S + 'Methods/Utilities/Chebyshev/linear_data.py', S + 'Methods/Geometry/Three_Dimensional/angles_to_dcms.py', S + 'Core/Utilities.py', S + 'Methods/Utilities/Cubic_Spline_Blender.py', S + 'Core/Arrays.py'],
  [('chebyshev_data', S + 'Methods/Utilities/Chebyshev/chebyshev_data.py')],
  'Exhaustive over sizes, degrees, sequences and grids; oracle: exact polynomials, explicit rotation matrices, bilinear formula.')

P('C19', 'Engine component relations hold at every operating point and for any batch',
  'Compressors, fans, turbines, combustors, inlets, nozzles, off-takes, ram and rocket components return what their thermodynamic relations say (isentropic or polytropic temperature ratio, shaft work balance, combustor energy balance, choking and expansion regime, conservation of mass flow and stagnation enthalpy) for every operating point. '
  'Each row of a batch gets the answer it gets alone, in any order and on any repetition, and inputs and flight conditions stay untouched. '
  'The gas-dynamic helper functions (Mach number from area ratio, isentropic and shock relations, oblique shocks, heat addition) satisfy their defining equations.',
  ['inputs', 'histories'], 'component settings grid x 8 operating points x {batch, single rows, all ordered pairs, reversed, repeated}',
  'Tests pin one design point in one-row batches.',
  [S + 'Components/Energy/Converters', S + 'Components/Energy/Processes', S + 'Methods/Propulsion/nozzle_calculations.py', S + 'Methods/Propulsion/fm_id.py', S + 'Methods/Propulsion/rayleigh.py'],
  [('Compressor.compute', S + 'Components/Energy/Converters/Compressor.py'), ('mach_area', S + 'Methods/Propulsion/nozzle_calculations.py')],
  'Exhaustive over settings x points x batch shapes; oracle: independent gas-dynamics formulas (gaskit) and single-row reference runs.')

P('C20', 'Sized engines deliver their design thrust and follow their cycle everywhere',
  'A turbofan, turbojet, ducted fan, ramjet, scramjet or rocket sized for a design thrust delivers that thrust at its design point, whichever way the sizing conditions were given and however often it was sized, and its recorded sea level thrust is the one it delivers there. '
  'At every other operating point thrust and fuel flow follow the engine cycle, are proportional to throttle and engine count, respect the fuel consumption adjustment, afterburner and shaft off-take, and lose exactly one share with one engine out. '
  'Evaluations depend neither on the other rows of the batch nor on what the network computed, was sized for, or was copied from before.',
  ['inputs', 'histories'], 'engine settings x 8 operating points x {batch, singles, ordered pairs}; all histories to length 3 (4) of evaluate, engine out, size, copy',
  'Regression scripts evaluate one freshly sized network at one design and one off-design row.',
  [S + 'Components/Energy/Networks', S + 'Methods/Propulsion/turbofan_sizing.py', S + 'Methods/Propulsion/turbojet_sizing.py', S + 'Methods/Propulsion/ramjet_sizing.py', S + 'Methods/Propulsion/scramjet_sizing.py', S + 'Methods/Propulsion/ducted_fan_sizing.py', S + 'Methods/Propulsion/liquid_rocket_sizing.py', S + 'Components/Energy/Processes'],
  [('Turbofan.evaluate_thrust', S + 'Components/Energy/Networks/Turbofan.py'), ('turbofan_sizing', S + 'Methods/Propulsion/turbofan_sizing.py')],
  'Exhaustive over settings, points and histories; oracle: an independent engine cycle written from the textbook relations, scaled by the design thrust only.')

P('C21', 'Battery packs keep account of energy, charge, heat and ageing in every history',
  'For every current history the stored energy changes by what is put in or taken out less the losses, never charges past the aged capacity, and state of charge, voltages, losses, cell temperature and charge throughput are those of the cell model scaled by the series and parallel circuit, row by row and without touching the inputs. '
  'Successive segments continue energy, temperature, throughput and ageing without a gap, a battery never gets younger, and packs sized from circuit, mass or energy and power hold what their cells hold.',
  ['inputs', 'histories'], 'chemistries x circuits x current profiles x charge x temperature x ageing; all charge/discharge missions to length 3 (4)',
  'Scripts discharge and charge one cell and compare two stored values.',
  [S + 'Components/Energy/Storages/Batteries', S + 'Methods/Power/Battery', S + 'Methods/Missions/Segments/Common/Energy.py', S + 'Methods/Missions/Segments/Ground/Battery_Charge_Discharge.py', S + 'Components/Energy/Networks/Battery_Cell_Cycler.py'],
  [('Lithium_Ion.energy_calc', S + 'Components/Energy/Storages/Batteries/Constant_Mass/Lithium_Ion.py')],
  'Exhaustive over the grids and charge/discharge histories; oracle: independent energy, charge and heat bookkeeping, trilinear interpolation of the measured cell data.')

P('C22', 'Propulsion networks add up exactly what their parts deliver and draw',
  'For battery, solar, piston, constant speed, hybrid, ducted fan, lift-and-cruise, cryogenic and engine deck networks the vehicle force, current, power, fuel and coolant flow are the sums over all engines of what motors, rotors, fans and accessories deliver and draw, whether engines are declared identical or distinct and in whatever order they are listed; every reported column belongs to its engine. '
  'Networks declare exactly as many solver unknowns as residuals, residuals vanish when and only when motor and rotor agree, and components (motors, controllers, converters, gearboxes, engines, solar panels, leads, coolers) follow their defining relations for each operating point. '
  'Nothing depends on the other rows of a batch or on what the network was asked before.',
  ['inputs', 'histories'], 'ten network types x 1..3 engines x identical/distinct x every permutation x 6 operating points; component grids; all histories to length 3 (4)',
  'Scripts fly each network once, with identical engines.',
  [S + 'Components/Energy/Networks', S + 'Components/Energy/Converters', S + 'Components/Energy/Distributors', S + 'Components/Energy/Processes/Solar_Radiation.py', S + 'Methods/Cryogenics'],
  [('Battery_Propeller.evaluate_thrust', S + 'Components/Energy/Networks/Battery_Propeller.py'), ('Lift_Cruise.evaluate_thrust', S + 'Components/Energy/Networks/Lift_Cruise.py')],
  'Exhaustive over network set-ups, engine permutations, operating grids and histories; oracle: independent sums over stand-in propulsors whose answer is a known function of what they are handed.')

P('C23', 'Rotors obey blade element vortex theory at every operating point',
  'Whatever rotor, section polars, stream, shaft speed, pitch and orientation, the wake and the blade carry the same circulation at every station, thrust, torque, power and all coefficients are the sums and ratios of the section forces, thrust acts along the rotor axis, and rotors at rest or without throttle give nothing. '
  'The azimuthal analysis of an axial stream gives the axial one and turns with a side stream; density, size, pitch and uniform stream changes act as similarity demands; designed propellers carry the load they were designed for; every slipstream reaches the wing at every control point. '
  'Each row of a batch gets the answer it gets alone.',
  ['inputs'], 'rotor geometry grid x section models x operating points x {batch, singles, ordered pairs}; all station rotations; orientation grid; design grid; slipstream grid',
  'Scripts spin five rotors at one point and compare stored coefficients.',
  [S + 'Components/Energy/Converters/Rotor.py', S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py', S + 'Methods/Propulsion/Rotor_Wake/Fidelity_Zero', S + 'Methods/Propulsion/propeller_design.py', S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Lift/compute_RHS_matrix.py'],
  [('Rotor.spin', S + 'Components/Energy/Converters/Rotor.py'), ('propeller_design', S + 'Methods/Propulsion/propeller_design.py')],
  'Exhaustive over geometry, operating, orientation and design grids; oracle: independent blade element sums and wake equation residuals, similarity laws, bisection design.')

P('C24', 'The vortex lattice solves its own flow problem on the geometry it was given',
  'For every wing, tail, fin, control surface, fuselage and nacelle, angle, sideslip, rotation rate and Mach number, the panels lie on the described geometry, no flow passes through any panel, and lift, side force and moments follow from the vortices by Kutta-Joukowski, obey Prandtl-Glauert similarity, linear supersonic theory and left-right symmetry, and do not depend on the order of surfaces, on units or on where the vehicle is put. '
  'Control surfaces and all-moving surfaces rotate rigidly about their hinge by the commanded angle, wherever they lie against the section breaks; forces per wing add up to the total. '
  'Each row of a batch gets the answer it gets alone, and the surrogates reproduce their training points.',
  ['inputs', 'histories'], '11 vehicles x angle/sideslip/rate/Mach grid x lattice options; all permutations of 3 surfaces; all placements of control surfaces; deflection histories to depth 3; ordered pairs of points',
  'Scripts compare stored coefficients of three vehicles.',
  [S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Lift', S + 'Analyses/Aerodynamics/Vortex_Lattice.py', S + 'Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py'],
  [('VLM', S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Lift/VLM.py'), ('generate_vortex_distribution', S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Lift/generate_vortex_distribution.py')],
  'Exhaustive over geometry, flow and deflection grids, permutations and histories; oracle: independent Prandtl-Glauert horseshoe kernel, rigid rotations, similarity and linear theory, closed form planform points.')

P('C25', 'The drag of a vehicle is the sum of what its parts contribute',
  'For every set of wings, segments, fuselages and nacelles, subsonic and supersonic, the reported parasite, induced, compressibility and miscellaneous drags are what the documented correlations give for each part, referred once to the reference area, they add up to the totals and the corrections are applied once. '
  'The result does not depend on the order of parts, on the size at equal Reynolds number, on the other points of the batch or on earlier calls, does not jump across any Mach threshold, and evaluating drag changes neither vehicle nor settings. '
  'Lifting line analyses solve the monoplane equation for every wing, AERODAS coefficients and maximum lift follow their published definitions at every angle and flap setting.',
  ['inputs', 'histories'], '9 vehicles x settings x Mach/Reynolds/temperature/angle grid; all permutations of parts; call histories to depth 3; ordered pairs of points; lifting line, AERODAS and high lift grids',
  'Scripts compare stored coefficients of a few vehicles at a few points.',
  [S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Drag', S + 'Methods/Aerodynamics/Fidelity_Zero', S + 'Methods/Aerodynamics/Supersonic_Zero', S + 'Methods/Aerodynamics/Lifting_Line', S + 'Methods/Aerodynamics/AERODAS'],
  [('parasite_total', S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_total.py'), ('lifting_line', S + 'Methods/Aerodynamics/Lifting_Line/Lifting_Line.py')],
  'Exhaustive over vehicle, settings and flow grids, permutations and histories; oracle: the correlations written down one point at a time, limits (fully turbulent, fully laminar, Mach 0), similarity, the monoplane equation solved by a Fourier series.')

P('C26', 'A weight estimate adds up and the centre of gravity is where the masses are',
  'For every vehicle, method (SUAVE, New SUAVE, both FLOPS, Raymer, blended wing body, general aviation, UAV, human powered, eVTOL) and setting, every total is the sum of its items in kilograms, the components carry exactly the reported masses, reduction factors apply once, and passengers, crew and systems follow the documented rules at every threshold. '
  'The estimate does not depend on the order of components or on estimates made before, and changes neither geometry nor settings nor the Data class. '
  'Mass and centre of gravity of the vehicle, its fuel range and its mission value are the mass-weighted sums of the parts, and component placement follows its rules, can be repeated and balances the main gear.',
  ['inputs', 'histories'], '6 transports x 5 methods x factor grid x accessories; all permutations of components; method histories to depth 3; all mass/origin assignments of small component trees; all tank sets against all fill orders; BWB, GA, UAV, human powered and eVTOL grids',
  'Scripts compare stored masses of a few vehicles.',
  [S + 'Methods/Weights', S + 'Analyses/Weights', S + 'Methods/Center_of_Gravity', S + 'Vehicle.py', S + 'Components/Physical_Component.py'],
  [('weight_transport', S + 'Methods/Weights/Correlations/Common/weight_transport.py'), ('compute_component_centers_of_gravity', S + 'Methods/Center_of_Gravity/compute_component_centers_of_gravity.py')],
  'Exhaustive over vehicles, methods, factors, permutations, method histories, component trees and tank fills; oracle: sums of items, independent closed forms, brute force over every fill order, conservation of the takeoff mass.')
P('C27', 'Planform quantities are those of the shape, however it is described',
  'For every trapezoidal or sectioned wing the area, aspect ratio, mean chords, sweeps, spans, length, thickness, wetted area and aerodynamic center are the integrals of its shape, on one or two sides and lying or standing; the section areas add up to the wing. '
  'Cutting a section, describing the wing in the other form, asking twice, scaling it or taking two halves changes nothing it should not; a fuselage holds the seats it was sized for, origins survive the change of units and control surfaces are split over the sections without gap or overlap. '
  'Tails, fuel volume and nacelles follow their sizing rules.',
  ['inputs'], 'trapezoid grid x sides x direction; all section sequences to 3 (4) over a section alphabet with every cut; fuselage grid in both branches; engine counts x layouts; all pairs of control surface ends over the break grid and every surface type',
  'Scripts check one fuselage, one airfoil and whole-vehicle numbers.',
  [S + 'Methods/Geometry/Two_Dimensional/Planform', S + 'Methods/Geometry/Two_Dimensional/Cross_Section/Propulsion'],
  [('wing_segmented_planform', S + 'Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py'), ('populate_control_sections', S + 'Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py')],
  'Exhaustive over shape grids, section sequences and cuts, surface ends and layouts; oracle: Gauss integration of the chord law per section (exact for trapezoids) and agreement of equivalent descriptions.')
P('C28', 'An airfoil is the same airfoil in every file layout and in all derived data',
  'Four digit sections are the published curves at every number of points and spacing; one airfoil written in any supported layout (Selig or Lednicer, with or without title, any separators, blanks, line ends and number style) gives one geometry, which lies on the given curve with its thickness and camber. '
  'Mirrored, stretched and blended airfoils give mirrored, stretched and blended data. '
  'Polars are those of their files in any order of files or angles, and their extension keeps the data, stays finite and bounded and behaves like a plate in deep stall.',
  ['inputs'], 'all codes x 8..41 points x spacings; six airfoils x all file layouts x equal and unequal stations; all pairs blended; all orders of polar files and of their angles; extension on every angle of the sweep for a family of polars',
  'Scripts import three files and compare one thickness each.',
  [S + 'Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil'],
  [('import_airfoil_geometry', S + 'Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py'), ('compute_extended_polars', S + 'Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py')],
  'Exhaustive over codes, layouts, blends, file orders and sweep angles; oracle: closed form sections evaluated independently, agreement of equivalent files, linear blends, interpolation of the written tables.')
P('C29', 'Panel method and boundary layers solve each section and batch case alone',
  'The panel method gives the potential flow of the section (no flow through any panel, Kutta condition, the exact cylinder in the limit), moving with the section when it is mirrored, turned or scaled. '
  'The laminar and turbulent layers follow their published integral equations and closures along any edge speed. '
  'Every angle and Reynolds number of a batch gets what it gets alone, in any order, and the section handed in is not changed.',
  ['inputs', 'histories'], 'six sections x panel counts x angles; every mirror, rotation, scale; every batch of angles x Reynolds numbers (pairs, permutations, mixed); grids of wedge flows and pressure gradients',
  'The script runs one section at four angles and compares lift and drag with stored numbers.',
  [S + 'Methods/Aerodynamics/Airfoil_Panel_Method'],
  [('hess_smith', S + 'Methods/Aerodynamics/Airfoil_Panel_Method/hess_smith.py'), ('airfoil_analysis', S + 'Methods/Aerodynamics/Airfoil_Panel_Method/airfoil_analysis.py'), ('thwaites_method', S + 'Methods/Aerodynamics/Airfoil_Panel_Method/thwaites_method.py')],
  'Exhaustive over sections, panel counts, angles and batches; oracle: an independent scalar panel solver in complex variables, the exact cylinder, closed form laminar layers, a fixed step integration of the turbulent equations, single against batch runs.')
P('C30', 'Noise levels add as sound energies and metrics follow the FAR 36 procedures',
  'Levels of sources, bands, rotors and components add as sound energies, in any order and grouping, each tone in its own band; tones fall 6 dB per doubling of the distance, attenuation adds along the path. '
  'Noisiness, tone correction and exposure follow their published procedures for every band, level and history; engine, airframe and rotor levels are the energy sum of their published components. '
  'Every time step and microphone gets what it gets alone, in any order; flight path and configuration stay unchanged.',
  ['inputs', 'histories'], 'every tuple and splitting of up to four sources; band x level grids; tone shapes x bands x heights; every level history up to length five; gear x flap x slots x units; row, pair, reversal and microphone permutations; sets of up to four rotors',
  'The scripts compare the level at one microphone of one aircraft and one propeller with stored numbers.',
  [S + 'Methods/Noise', S + 'Analyses/Noise'],
  [('Noise tools', S + 'Methods/Noise/Fidelity_One/Noise_Tools'), ('airframe', S + 'Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py'), ('engine', S + 'Methods/Noise/Fidelity_One/Engine/noise_SAE.py'), ('rotors', S + 'Methods/Noise/Fidelity_One/Propeller/propeller_mid_fidelity.py'), ('Fidelity_One', S + 'Analyses/Noise/Fidelity_One.py')],
  'Exhaustive over tuples, bands, levels, histories, configurations and batches; oracle: the FAR 36 tables and steps in their own indices, the component formulas evaluated independently, source positions by bisection, the Hanson formula per tone, single against batch runs.')
P('C31', 'Stability derivatives and flight modes are those of the linearised equations',
  'Flight modes, approximate or full, are those of the linearised equations of motion for stable and unstable spirals, with any product of inertia, angle and batch of cases. '
  'Static derivatives scale, shift and add up over the surfaces in any order; the neutral point is a length along x, areas and centers are those of the straight-tapered chord law. '
  'What an analysis answers depends on the state alone, never on earlier calls, and finite difference derivatives are the slopes of the aircraft, also at zero pitch and throttle.',
  ['inputs', 'histories'], 'grids of derivatives in both signs of spiral stability; planform grids; orders, scales, shifts and twists of three aircraft; every history of calls of the stability analysis; orders and batches of cases; grid of trimmed states of an analytic aircraft',
  'The scripts compare one transport with a textbook within 8 percent and four static derivatives with stored numbers.',
  [S + 'Methods/Flight_Dynamics', S + 'Analyses/Stability/Fidelity_Zero.py'],
  [('lateral_directional', S + 'Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py'), ('flight modes', S + 'Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py'), ('aero derivatives', S + 'Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py'), ('Fidelity_Zero', S + 'Analyses/Stability/Fidelity_Zero.py')],
  'Exhaustive over derivative, planform and history grids; oracle: generalised eigenvalues of the matrix pencil of the equations of motion, Gauss integration of the chord law, a fresh analysis per state, an analytic aircraft with known slopes.')
P('C32', 'Flight envelopes and field, range and climb performance obey their relations',
  'V-n envelopes hold the stall lines, the specified or regulatory limits and the gust loads at every corner speed, for any weight, height, category and order of wings. '
  'Payload range points sum to the take-off mass within every limit and burn exactly their fuel; field lengths, climb gradients, best speeds and climb rates follow the defining relations with the specified constants and temperature. '
  'No performance analysis changes the vehicle or an earlier result.',
  ['inputs', 'histories'], 'categories x weights x heights x Mach x limits x wing orders; every mass statement of a grid; one to six engines x airports x constants; drag polars; all V-h points; ordered pairs of diagrams',
  'The scripts run eight single-wing envelopes, one payload range, one runway and compare a few numbers.',
  [S + 'Methods/Performance', S + 'Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions'],
  [('V_n_diagram', S + 'Methods/Performance/V_n_diagram.py'), ('payload_range', S + 'Methods/Performance/payload_range.py'), ('field lengths', S + 'Methods/Performance/estimate_take_off_field_length.py'), ('V-h diagram', S + 'Methods/Performance/electric_V_h_diagram.py')],
  'Exhaustive over vehicles, airports and limits of the grids, vertex by vertex; oracle: the FAR 23 and 25 relations evaluated independently, a mission with closed form fuel burn, analytic drag polars and networks.')
P('C33', 'AVL decks describe the vehicle and flight state, results land in their place',
  'The geometry, mass and run case files and the command deck written for AVL describe the vehicle (sections, twist, airfoils, control surfaces at every span fraction) and the commanded flight state, for every wing, state, trim and order of surfaces. '
  'Every number AVL writes comes back, with sign and all its digits, as the quantity it is, for every case of the batch, whatever was evaluated before and whatever files are left. '
  'The surrogates reproduce AVL at their training points, also from a stored training file, in any order of points.',
  ['inputs', 'histories'], 'wings x breaks x control surfaces; flight states x trims x vehicles run through an environment model of the AVL executable; histories of three evaluations; all training nodes',
  'The regression script reads stored result files of one aircraft at one set of conditions; decks and geometry files are never read back.',
  [S + 'Methods/Aerodynamics/AVL', S + 'Analyses/Aerodynamics/AVL_Inviscid.py', S + 'Analyses/Stability/AVL.py'],
  [('AVL geometry', S + 'Methods/Aerodynamics/AVL/create_avl_datastructure.py'), ('read_results', S + 'Methods/Aerodynamics/AVL/read_results.py'), ('run cases', S + 'Methods/Aerodynamics/AVL/write_run_cases.py'), ('input deck', S + 'Methods/Aerodynamics/AVL/write_input_deck.py')],
  'The real interface runs against a model of the AVL executable (mc/avl/fake_avl: its command language, parsers and file layout, bound to files of the real program line by line and column by column); it logs what it understood and answers with numbers that are unique per quantity and state. Exhaustive over vehicles, states, histories and training grids; oracle: the geometry of the vortex lattice, the log of the model and the numbers it wrote.')
