MON = "runtime monitoring: "
prop(
    "P01", "Each solved section satisfies blade-element and momentum theory together",
    "For any rotor with polars of positive drag and any condition with inflow from upwind and against rotation, every section's reported angle of attack, induction factors, relative speed, Reynolds number, lift, drag, normal and tangential coefficients and loads satisfy at once the velocity triangle, the section's own polar at that angle and Reynolds number, and the axial and tangential momentum balances with the selected Prandtl tip/hub losses. The thrust relation is momentum theory up to a = 0.4, Buhl's empirical curve above it and the propeller-brake relation for a > 1; the torque relation is the wake rotation balance, or no tangential induction when wake rotation is off. Section forces always contain drag, whether or not drag enters the induction.",
    ["inputs", "configurations"],
    "every valid rotor geometry, polar set, option combination (tip loss, hub loss, wake rotation, drag in induction, Reynolds iterations) and operating condition",
    "The tests compare rotor power and thrust of one 5 MW rotor with stored numbers; they never look at a section's own equations nor at other regimes, flags or polars.",
    [CB, BEM], [("induction factors and residual", "ccblade/src/bem.f90 inductionFactors"), ("relative wind", "ccblade/src/bem.f90 relativeWind"), ("section loads", "ccblade/ccblade.py CCBlade.__loads")],
    MON + "online oracle that re-derives every section's balances from the reported state",
    "Independent reference of the section equations, decided at every station of thousands of random rotors; the root is located by a sign change within 1e-7 rad. Polar values are taken from the airfoil object itself (P15 judges those).",
)
prop(
    "P02", "The section solver always terminates on the right branch with finite loads",
    "For every operating condition whose section inflow comes from upwind and against rotation and has a solution, the solver returns finite loads, coefficients and (when requested) gradients without a warning or message, after a bounded number of polar lookups. The inflow angle lies in (0, 90] degrees when the residual changes sign there, otherwise in [-45, 0) degrees when the propeller-brake residual changes sign there, otherwise in [90, 180) degrees. Outside that domain the loads are still finite.",
    ["inputs", "configurations"],
    "tip speed ratio 0.1-25, pitch -80..90 degrees, 1-8 blades, low and very high solidity, stations on hub and tip, any loss and drag option",
    "Tests sample about twenty ordinary conditions of one rotor; bracket changes, brake and reversed inflow never occur in them.",
    [CB, BEM], [("bracketing", "ccblade/ccblade.py CCBlade.distributedAeroLoads"), ("residual", "ccblade/ccblade.py CCBlade.__errorFunction")],
    MON + "solver monitor (lookups recorded by a wrapped airfoil, warnings, output, branch and root oracle)",
    "Every polar lookup of the solver is recorded; branch choice and root are compared with an independent residual. Conditions for which the section equations have no solution are only judged for finite loads.",
)
prop(
    "P03", "Section inflow follows the documented frames, wind shear and rotation",
    "The wind each section sees is the hub-height wind (or the wind speed given per station) scaled by the power law (height/hub height)^exponent at the section's own height, plus the rotation of the section's position, resolved through yaw, tilt, azimuth, precone and the local cone angle of the (pre)curved, swept blade axis in the documented coordinate systems. Stations are analysed where the user put them, except that one lying exactly on the hub or tip radius is moved inward by less than half of its interval.",
    ["inputs"],
    "any cone/tilt/yaw (|yaw| up to 180 for parked rotors), curve, sweep, shear exponent, azimuth beyond a turn, scalar and per-station wind",
    "Tests use one geometry with at most one angle at a time and only see integrated loads.",
    [CB, BEM], [("wind components", "ccblade/src/bem.f90 windComponents"), ("curvature and cone", "ccblade/src/bem.f90 definecurvature"), ("per-station wind", "ccblade/ccblade.py CCBlade.__windComponents")],
    MON + "reference-frame oracle on the relative wind of lightly loaded sections",
    "Inflow is recovered from the reported speed and angle of blades with vanishing chord (no induction) and compared to 1e-7 with an independent rotation-matrix model.",
)
prop(
    "P04", "Rotor quantities are the azimuthal average of the integrated blade loads",
    "Thrust, side and vertical force, torque, power and the three bending moments equal the number of blades times the average over equally spaced sectors of the blade loads integrated from hub to tip along the curved axis (loads vanish at hub and tip), rotated into the non-rotating frame; the blade root flap moment is for one blade. At least four sectors are used unless tilt, yaw and shear are all zero, when one suffices; power is torque times rotor speed.",
    ["inputs", "configurations"],
    "any geometry, angles, shear, number of blades and requested sectors",
    "Tests check power and thrust sums of a straight, mostly unshifted rotor; side forces, moments, sectors and curved or swept integration have no expected value.",
    [CB, BEM], [("integration", "ccblade/src/bem.f90 thrustTorque"), ("azimuthal average", "ccblade/ccblade.py CCBlade.evaluate")],
    MON + "conservation monitor: rotor totals against an independent integration of the loads recorded at each sector",
    "Agreement to 3e-11 of the total absolute load. The one-sector shortcut leaves the in-plane force and tilting moments unaveraged: recorded as a known finding.",
)
prop(
    "P05", "Coefficients are the dimensional quantities over the documented references",
    "Power, thrust, side/vertical force, torque and moment coefficients equal the dimensional results divided by dynamic pressure, swept area, rotor radius and wind speed as documented, with rotor radius Rtip*cos(precone) + precurveTip*sin(precone), for every condition of a call. Asking for coefficients changes no dimensional result.",
    ["inputs", "configurations"],
    "1-5 conditions per call, any geometry incl. curved and coned rotors, parked conditions",
    "Tests read CP and CT of a few points of a straight rotor; other coefficients, curved radii and several conditions are unchecked.",
    [CB], [("normalisation", "ccblade/ccblade.py CCBlade.evaluate")],
    MON + "metamorphic oracle between the dimensional and the coefficient results",
    "Exact up to rounding (1e-11) on every run.",
)
prop(
    "P06", "Conditions of one call are independent of each other and of their order",
    "Evaluating a vector of operating conditions gives, condition by condition, the results and gradients that evaluating each condition alone gives, whatever the order, repetition or array shape of the conditions. A gradient of one condition's result with respect to another condition's wind speed, rotor speed or pitch is exactly zero.",
    ["inputs", "histories"],
    "2-7 conditions, shuffled, duplicated, parked ones between rotating ones, with and without gradients and coefficients",
    "Tests evaluate fixed vectors once; coupling between conditions would be averaged into expected values.",
    [CB], [("condition loop", "ccblade/ccblade.py CCBlade.evaluate"), ("gradient packing", "ccblade/ccblade.py CCBlade.__thrustTorqueDictionary")],
    MON + "differential oracle: vector call against single calls and permutations",
    "Results to 1e-12, gradients to 1e-10.",
)
prop(
    "P07", "Distributed-load gradients equal the change of the loads themselves",
    "With gradients requested, every entry of the Jacobians of the normal and tangential loads with respect to radial position, chord, twist, precurve, presweep, hub and tip radius, precone, tilt, hub height, yaw, shear exponent, azimuth, wind speed, rotor speed and pitch equals the derivative of the corresponding load, including off-diagonal entries, in the units of the inputs (degrees, rpm). Shapes are stations by stations or stations by one.",
    ["inputs", "configurations"],
    "random rotors with curve, sweep, all angles, all option combinations (one Reynolds iteration), Reynolds-dependent polars, parked and rotating",
    "The gradient tests cover two fixed rotors with default options and loosely toleranced one-sided differences.",
    [CB, BEM], [("adjoint of the residual", "ccblade/ccblade.py CCBlade.__loads"), ("wind derivatives", "ccblade/src/bem.f90 windcomponents_dv"), ("Tapenade derivatives of the section", "ccblade/src/bem.f90 inductionfactors_dv, relativewind_dv")],
    MON + "finite-difference oracle with a self-validating step ladder",
    "An entry is judged only where the ladder of central differences has converged on its own; decided entries agree to 1e-4.",
)
prop(
    "P08", "Gradients of rotor quantities and coefficients match the quantities",
    "With gradients requested, every derivative of thrust, side and vertical force, torque, power, the three moments and all their coefficients with respect to each geometric, frame and operating input (vectors element by element, precurve and presweep tips included) equals the change of that quantity when the input changes, in the units of the inputs. Every derivative is finite, shaped conditions by elements (conditions by conditions for wind speed, rotor speed and pitch).",
    ["inputs", "configurations"],
    "random rotors with curve, sweep and their tips, all angles, shear, 1-8 sectors, all options (one Reynolds iteration), one or two conditions, zero-valued quantities included",
    "The gradient tests read power and thrust derivatives of two fixed rotors; side forces, moments, coefficients and curve tips have no gradient test.",
    [CB, BEM], [("chain rule over sectors and inputs", "ccblade/ccblade.py CCBlade.__thrustTorqueDictionary, evaluate"), ("integration adjoint", "ccblade/src/bem.f90 thrusttorque_bv")],
    MON + "finite-difference oracle on whole-rotor re-evaluations with a self-validating step ladder",
    "An entry is judged only where the ladder of central differences has converged; decided entries agree to 1e-4. Gradients at exactly zero tilt, yaw and shear follow the one-sector shortcut: recorded as a known finding. Stations coinciding with the hub or tip radius are outside (they are moved).",
)
prop(
    "P09", "Asking for gradients changes no result, and wrong gradients are refused",
    "Requesting gradients returns exactly the loads, rotor quantities and coefficients that are returned without them, plus a gradient for every rotor quantity (and coefficient when requested); without the request no gradient is returned. With more than one Reynolds iteration, which is not differentiated, gradients of a rotating rotor are refused with a ValueError instead of being returned wrong.",
    ["inputs", "configurations"],
    "every option combination, ordinary, hostile and parked conditions",
    "Tests evaluate values and gradients on separate rotors and never compare them; nothing exercises the unsupported combination.",
    [CB], [("derivative path", "ccblade/ccblade.py CCBlade.distributedAeroLoads, __loads, evaluate")],
    MON + "differential oracle between runs with and without gradients",
    "Agreement to 1e-13.",
)
prop(
    "P10", "Results depend on the inputs only: not on history, other rotors or threads",
    "Every answer of a rotor equals that of a freshly built rotor asked the same question, whatever was asked before, whichever other rotors (sharing airfoils) were used in between and however many threads use rotors of their own (possibly sharing airfoils) at the same time; one rotor object used by two threads at once is outside it. No input array is changed, nothing returned earlier is changed by later calls, and the caller may change its arrays after building the rotor.",
    ["histories", "schedules"],
    "random histories of 3-10 calls on 2-3 rotors sharing airfoils; 4 threads at a 1 microsecond switch interval",
    "Tests build each rotor anew and ask it once; state leaking between calls, rotors or threads is invisible to them.",
    [CB, BEM, CS], [("per-call state", "ccblade/ccblade.py CCBlade attributes set by evaluate and distributedAeroLoads"), ("module state of the extension", "ccblade/src/bem.f90")],
    MON + "history checker: every recorded answer against a fresh rotor; aliasing monitor on inputs and earlier answers",
    "Answers agree to 1e-11; each thread asks its own rotor objects, airfoil objects are shared.",
)
prop(
    "P11", "Rotors obey the symmetries and scaling laws of blade-element momentum theory",
    "Full turns of azimuth change nothing; in axisymmetric inflow azimuth is irrelevant; geometric, speed and density scaling at equal Reynolds numbers scale loads and rotor quantities by the corresponding powers and leave coefficients, induction and angles unchanged. Pitch and twist offsets are interchangeable; without tip and hub losses more blades of proportionally less chord are equivalent; shear is symmetric left-right on unswept blades, and yaw and tilt alone without shear are equivalent to their opposite half a turn, and to each other a quarter turn, away.",
    ["inputs", "configurations"],
    "random rotors with random scaling factors, every applicable relation per rotor",
    "These relations link two runs with different inputs; the tests compare single runs with stored numbers.",
    [CB, BEM], [("section model and frames", "ccblade/src/bem.f90 relativeWind, inductionFactors, windComponents"), ("coefficients", "ccblade/ccblade.py CCBlade.evaluate")],
    MON + "metamorphic relations between pairs of executions",
    "Agreement to 2e-8 of the local load.",
)
prop(
    "P12", "Each model option does what it documents and documented defaults apply",
    "With tip (hub) loss off the tip (hub) radius has no influence on induction and loads; with wake rotation off there is no tangential induction; with drag left out of the induction, more drag changes neither induction nor angle of attack but enters the loads in full; Reynolds iterations have no influence with single-Reynolds polars and are made as often as asked for otherwise. A rotor built and evaluated without options behaves as one with the documented defaults given explicitly.",
    ["configurations", "inputs"],
    "random rotors and conditions in upwind inflow, each option switched one at a time",
    "Tests use the default options almost exclusively.",
    [CB, BEM], [("options", "ccblade/ccblade.py CCBlade.__init__, __runBEM"), ("losses and drag in the induction", "ccblade/src/bem.f90 inductionFactors")],
    MON + "non-interference monitor: what a switched-off model would read is perturbed and nothing may change",
    "The check also requires that the dependence exists with the option on, so that it is not vacuous.",
)
prop(
    "P13", "A stopped rotor is loaded by the undisturbed wind broadside to its sections",
    "At zero rotor speed there is no induction: every section's angle of attack is 90 degrees minus twist minus pitch, its relative speed and Reynolds number are those of the undisturbed wind in the section plane, its normal load is dynamic pressure times chord times drag and its tangential load the same with lift, whatever the orientation. Power and power coefficient are exactly zero, all results and gradients are finite, and the loads do not depend on the hub and tip radius (loss factors) and vary with the square of the wind speed when polars do not depend on Reynolds number.",
    ["inputs", "configurations"],
    "yaw up to 180 degrees, exactly aligned rotors, still air, pitch -10..100 degrees, all options, with and without gradients",
    "No test runs a stopped rotor with a checked load or gradient.",
    [CB, BEM], [("parked branch", "ccblade/ccblade.py CCBlade.distributedAeroLoads, __loads")],
    MON + "online oracle of the parked section",
    "Loads to 1e-7 of the section's own polar.",
)
prop(
    "P14", "The inverse analysis returns the twist that meets the requested targets",
    "Given angle of attack, lift and drag per station, the inverse analysis returns a twist per station at which the section balances hold with these coefficients, with the requested angle of attack reported, and a rotor with that twist run forward has this angle of attack and these loads. A forward solution fed back returns its own twist; a stopped rotor gets 90 degrees minus angle of attack minus pitch; switching the inverse analysis off continues as a rotor with the found twist.",
    ["inputs", "histories"],
    "round trips and arbitrary targets on random rotors of every option combination, pitch, azimuth and parked conditions",
    "The inverse analysis has no test with a checked twist.",
    [CB], [("inverse residual", "ccblade/ccblade.py CCBlade.__errorFunction_inverse, distributedAeroLoads")],
    MON + "round-trip oracle and section-balance oracle",
    "Twist located by a sign change of the independent residual within 1e-7 rad; stations with several solutions are judged by their balances only.",
)
prop(
    "P15", "Airfoil objects reproduce their polars smoothly with matching derivatives",
    "The lift, drag and moment returned by an airfoil deviate from the data by no more than the documented smoothing (sum of squares 0.1, 0.001 and 0.0001), have a continuous slope in angle of attack, are constant beyond the angles and Reynolds numbers of the data, do not depend on Reynolds number for a single polar, and are the same for vector and scalar angles. The derivatives with respect to angle of attack and Reynolds number equal the change of lift and drag themselves, and airfoils read from AeroDyn files or built from few-point tables behave alike.",
    ["inputs"],
    "0-6 Reynolds numbers, 4-181 unevenly spaced angles, full and partial ranges, with and without moment data, the 5 MW files",
    "Tests evaluate one or two airfoils indirectly through rotor power.",
    [CB], [("spline fit", "ccblade/ccblade.py CCAirfoil.__init__"), ("evaluation and derivatives", "ccblade/ccblade.py CCAirfoil.evaluate, derivatives")],
    MON + "fidelity monitor on every data point, finite-difference oracle for derivatives",
    "Data that scipy's own fit refuses are skipped.",
)
prop(
    "P16", "Most efficient and stall-margin operating points of an airfoil are optimal",
    "The most efficient operating point returned for a Reynolds number lies in -20..40 degrees, its lift-to-drag ratio, lift and drag are the airfoil's own at that angle, and no angle of a 201-point scan of the window has a higher ratio. The stall-margin point, moved up by the margin, has at least the largest lift in the window; its ratio, lift and drag are the airfoil's own; three-point cylinders return zero angle.",
    ["inputs"],
    "synthetic polars with 0-5 Reynolds numbers, 5 MW files, cylinders, partial ranges, Reynolds numbers inside and outside the data, margins 0-10 degrees",
    "No test calls these functions with a checked result.",
    [CB], [("operating points", "ccblade/ccblade.py CCAirfoil.max_eff, awayfromstall, eval_unsteady")],
    MON + "optimality monitor: dense scan of the airfoil itself",
    "Judged on the airfoil's own coefficients, to 1e-9.",
)
prop(
    "P17", "Blending and Reynolds interpolation of polars are linear and leave sources alone",
    "A blend of two polars is their weighted mean in lift, drag, moment and Reynolds number over all angles they have in common; an airfoil's polar at a Reynolds number is the polar itself where given, the linear interpolation between neighbours, and the nearest polar outside, whatever the order in which polars were given; airfoil blends follow at the union of the Reynolds numbers. Interpolation to common angles (union or given) and the data grid hold every polar's interpolated values, types of polars are kept, and source polars and stored polars are never changed.",
    ["inputs", "histories"],
    "1-4 polars per airfoil with partly overlapping ranges and different grids, weights in and outside the ends, Reynolds numbers at, between and beyond the data",
    "Tests use one polar pair and check a handful of angles.",
    [AF], [("blending", "ccblade/airfoilprep.py Polar.blend, Airfoil.blend"), ("Reynolds interpolation", "ccblade/airfoilprep.py Airfoil.getPolar"), ("common angles", "ccblade/airfoilprep.py Airfoil.interpToCommonAlpha, createDataGrid")],
    MON + "reference oracle and mutation monitor",
    "Independent linear interpolation, to 1e-10.",
)
prop(
    "P18", "Rotational stall delay correction follows Du-Selig lift and Eggers drag",
    "The 3-D correction of a polar adds to lift the Du-Selig fraction of the difference between the linear lift line (least squares of lift between the two given angles) and the lift, in full up to the full-correction angle and beyond it tapered by ((90 - angle)/(90 - full-correction angle)) squared, and adds to drag the Eggers/Du-Selig fraction of its excess over drag at zero angle. Reynolds number, angles and moment are kept, the default angles are 30, -5 and 5 degrees, and sources are unchanged. An airfoil's correction is that of each of its polars.",
    ["inputs"],
    "r/R 0.05-1, chord/r 0.01-0.6, tip speed ratio 0.5-15, partial and full angle ranges with noise, default and other limits",
    "One polar at one station and tip speed ratio is tested.",
    [AF], [("stall delay", "ccblade/airfoilprep.py Polar.correction3D, Airfoil.correction3D")],
    MON + "reference oracle and mutation monitor",
    "Independent implementation of the published formulas, to 1e-9.",
)
prop(
    "P19", "Extrapolated polars keep the data and follow Viterna to the full circle",
    "Extrapolation returns strictly increasing angles from -180 to 180 degrees that contain the data's own angles without others between them and keep their lift, moment and (not below the minimum) drag; outside, lift and drag follow Viterna anchored at the upper end (reversed airfoil with 0.7 lift on the negative side and behind), drag is nowhere below the minimum, and moments follow the documented AirfoilPrep table. The maximum drag is the given one or 1.11 + 0.018 times the given aspect ratio; negative minimum drag and data beyond +-90 degrees are refused; repeated use and airfoils agree with single polars and leave sources unchanged.",
    ["inputs", "histories"],
    "ranges between -80 and 80 degrees (lower end above, at and below minus the upper end, also above zero), segment sizes 5-30, maximum drag given or from aspect ratio",
    "One extrapolated polar with default arguments is tested.",
    [AF], [("Viterna", "ccblade/airfoilprep.py Polar.extrapolate, __Viterna, __CMCoeff, __getCM"), ("airfoil", "ccblade/airfoilprep.py Airfoil.extrapolate")],
    MON + "reference oracle, structural monitor and mutation monitor",
    "Independent implementation, to 1e-8.",
)
prop(
    "P20", "AeroDyn airfoil files and the command line preserve the polar data",
    "An airfoil written to an AeroDyn file and read back has the same tables (Reynolds number, angles, lift, drag, moment to the printed digits), ordered by Reynolds number and on common angles, with the unsteady parameters of each polar in its header; hand-written files with other spacing, header text and number formats are read as they stand, and rows with missing columns and files cut off before the end of their last table are refused. The command-line tool applies exactly the documented operation (stall delay, extrapolation, blending, common angles) to the input, writes the documented output name and changes no input file.",
    ["inputs", "configurations"],
    "airfoils with 1-4 polars on common and different angles, every command-line operation with and without output name and common angles",
    "The file reader is only tested with the shipped files; the command line has no test.",
    [AF, CB], [("files", "ccblade/airfoilprep.py Airfoil.initFromAerodynFile, writeToAerodynFile"), ("command line", "ccblade/airfoilprep.py main")],
    MON + "round-trip oracle on files, differential oracle between the command line and the library",
    "Files live in a scratch directory of each case.",
)
prop(
    "P21", "Direction vectors transform between the documented frames, with derivatives",
    "Each transformation of a direction vector is the documented rotation of its frame by the given angle in degrees, is undone by its inverse, preserves length and leaves the source unchanged, for scalars and arrays of vectors and angles. The recorded derivatives through any chain of transformations (with respect to components and to each angle, repeated angles included) and of cross products are those of the rotation products, and vector arithmetic, in-place operators and array conversion act component by component.",
    ["inputs", "histories"],
    "chains of 1-6 random transformations, scalars, arrays, array angles up to several turns",
    "Tests rotate unit vectors by single angles; chains, repeated angles, arrays and derivatives are not tested.",
    [CS], [("rotations", "ccblade/csystem.py DirectionVector"), ("derivative packing", "ccblade/csystem.py DirectionVector.__packGradients, _setDx")],
    MON + "rotation-matrix oracle on every step of a chain",
    "Agreement to 1e-12 of the vector length.",
)
prop(
    "P22", "OpenMDAO rotor components return CCBlade's own results and derivatives",
    "The geometry, loads and evaluation components return, for inputs given in any compatible unit and on every re-run of the problem with other inputs (other airfoil tables included, and also where inputs are left at their declared defaults), exactly what a rotor built from these inputs returns, in the declared units. Their total derivatives equal the rotor's own gradients and the change of the outputs when the problem is re-run with changed inputs.",
    ["inputs", "configurations", "histories"],
    "random rotors with several polars per station table, all options, one or more tables and Reynolds numbers, two runs per problem",
    "The component tests check derivatives of one configuration and no output values, units or re-runs.",
    [OM, CB], [("components", "ccblade/ccblade_component.py CCBladeGeometry, CCBladeLoads, CCBladeEvaluate")],
    MON + "differential oracle between component and rotor, finite-difference oracle on re-runs",
    "Outputs to 1e-11. Missing derivatives with respect to density and viscosity are recorded as known findings.",
)
prop(
    "P23", "The twist component's outputs all belong to the twist it returns",
    "With a prescribed twist the twist component returns that twist; with inverted twist the sections of an axisymmetric rotor run at the requested angle of attack or at the stall-margin one, except where the 20 degree cap or smoothing applies, and requesting both is refused. Every output (loads, induction, angle of attack, velocities, lift, drag, coefficients, efficiencies, values on the spline grid) and every gradient the component provides is that of a rotor with the returned twist at the design tip speed ratio, in declared units, on every re-run.",
    ["inputs", "configurations", "histories"],
    "random rotors and tip speed ratios, angle of attack given or from the stall margin, one or several tables and Reynolds numbers, smoothing on and off, other units",
    "The twist component has no test with checked values.",
    [OM, CB], [("twist design", "ccblade/ccblade_component.py CCBladeTwist.compute")],
    MON + "recomputation oracle: every output from a rotor with the returned twist",
    "Outputs to 1e-9; the angle-of-attack target is judged for axisymmetric rotors with one Reynolds number and outside the cap.",
)
prop(
    "P24", "The native section code is memory safe and reads nothing uninitialised",
    "For any number of stations and every option, regime and gradient request, the native extension reads and writes only inside its arrays, has no undefined behaviour, and its results do not depend on the contents of uninitialised memory nor on the rotors evaluated before. Inconsistent array lengths lead to the same error on every build instead of foreign memory being read.",
    ["inputs", "configurations", "histories"],
    "2-45 stations, straight and curved blades, all options, hostile and parked conditions, inconsistent lengths",
    "An overrun or uninitialised read seldom changes a printed number; the tests run an uninstrumented build.",
    [BEM, CB], [("native routines", "ccblade/src/bem.f90"), ("work arrays of the adjoints", "ccblade/src/bem.f90 thrusttorque_bv")],
    "sanitizers: AddressSanitizer/UBSan, run-time bounds checks and poisoned-memory builds of the native extension, with equality of results between builds",
    "Four instrumented builds in processes of their own over identical batches. MemorySanitizer cannot be used with gfortran; two different fill patterns for heap and stack stand in for it.",
)
prop(
    "P25", "Unsteady parameters are the documented features of the polar",
    "The dynamic-stall parameters of a polar are those of its data: least-squares slope and zero of the normal force over the linear range, stall angles where the normal force has left that line by 0.05, the normal force of the line there, the minimum drag and its angle; cylinders give zeros. The airfoil object's unsteady table holds the zero-lift angle with the drag and moment there, separation normal forces from the moment break, the normal-force slope and stall angle, the data themselves and default entries, and is zero without moment data.",
    ["inputs"],
    "synthetic polars over partial and full ranges with and without noise, cylinders, the 5 MW files, default and other linear ranges",
    "Only one polar's parameters are compared with stored numbers.",
    [AF, CB], [("polar parameters", "ccblade/airfoilprep.py Polar.unsteadyparam"), ("airfoil table", "ccblade/ccblade.py CCAirfoil.eval_unsteady")],
    MON + "feature oracle: each parameter checked against its defining condition on the data",
    "Judged where the defining break point is unique.",
)
prop(
    "P26", "Flapped outlines are exactly what XFOIL returned for the airfoil requested",
    "Requesting flapped coordinates hands XFOIL this airfoil's outline with the requested hinge, flap angle and node count, takes back the outline XFOIL wrote and stores the flap angle, also when several processes do so at once in one directory with the options for that. No files are left, lost or changed; an XFOIL that fails, writes nothing or is missing leads to an error, never to the outline of an earlier run.",
    ["inputs", "fault_sequences", "schedules"],
    "random outlines, flap angles, hinges and names; repeated calls, failing or missing XFOIL, 2-4 processes at once",
    "XFOIL is not present in the test environment, so nothing of this is tested.",
    [CB], [("flap coordinates", "ccblade/ccblade.py CCAirfoil.af_flap_coords")],
    MON + "a stand-in XFOIL records each request and answers with a known outline; fault injection; directory monitor",
    "The stand-in is an unprivileged script in a scratch directory.",
)
prop(
    "P27", "How inputs are passed does not matter, and impossible inputs are refused",
    "Rotors, airfoils and conditions given as lists, tuples, integers (of any size), exactly representable single precision, views, reversed, read-only or size-one arrays give the results and gradients of plain float arrays, and none of these inputs is changed. Rotors with a single station, with fewer chord, twist or airfoil entries than stations, or with precurve or presweep arrays of another length than the stations are refused instead of giving numbers.",
    ["inputs"],
    "random mixtures of containers and types for every argument of rotor, airfoil and evaluation",
    "Tests pass float arrays of consistent length.",
    [CB, BEM], [("input conversion", "ccblade/ccblade.py CCBlade.__init__, evaluate, CCAirfoil.__init__")],
    MON + "differential oracle between representations of the same numbers",
    "Agreement to 1e-10.",
)
prop(
    "P28", "Blade sections are analysed independently of each other",
    "Changing one station's chord, twist or polar changes that station and no other station's loads, induction or angle of attack; moving one station's precurve or presweep reaches its direct neighbours only; inserting or removing stations on a straight blade leaves the remaining stations' results unchanged. The corresponding gradients between different stations are exactly zero.",
    ["inputs"],
    "random rotors, any station, every option, rotating and parked, with and without gradients",
    "Tests change whole blades only.",
    [CB, BEM], [("station loop", "ccblade/ccblade.py CCBlade.distributedAeroLoads"), ("curvature", "ccblade/src/bem.f90 definecurvature")],
    MON + "non-interference monitor between stations",
    "Agreement to 1e-12.",
)
prop(
    "P29", "Copies of rotors, airfoils, polars and vectors behave like the original",
    "Deep copies and pickles (every protocol, also in another process) of rotors, airfoils, polars, airfoil collections and direction vectors, taken before or after use, give bit-identical results and gradients, and changing the copy leaves the original as it was.",
    ["histories", "inputs"],
    "random rotors copied before and after use, with and without gradients",
    "No test copies an object; parallel optimisation does.",
    [CB, AF, CS], [("object state", "ccblade/ccblade.py CCBlade, CCAirfoil; ccblade/airfoilprep.py Polar, Airfoil; ccblade/csystem.py DirectionVector")],
    MON + "differential oracle between copy and original",
    "Bit equality in-process and across a spawned process.",
)
prop(
    "P30", "Repeated use leaks no memory, files or threads and leaves the process as it was",
    "Repeating any kind of use (loads, rotor quantities, gradients, refused inputs, airfoil evaluation and preparation, files, direction vectors) lets neither Python nor native memory, live objects, open files nor threads grow, leaves no stray files, and leaves process-wide settings (floating-point error handling, warning filters, working directory, umask, environment, random state, print options) as they were.",
    ["histories"],
    "60-400 repetitions of one use in a process of its own after a warm-up",
    "A leak or altered global setting of one call does not fail any test.",
    [CB, BEM, AF, CS], [("all entry points", "ccblade/ccblade.py, ccblade/src/bem.f90, ccblade/airfoilprep.py")],
    MON + "resource monitors (traced and resident memory, objects, files, threads, process settings) around equal windows of repetitions",
    "Growth must stay below what one forgotten 2 kB object per repetition would cost.",
)
prop(
    "P31", "A call that fails or is interrupted leaves objects as if it had not been made",
    "When a call on a rotor, airfoil, polar, direction vector or OpenMDAO component fails or is interrupted at any point - an exception of an airfoil during a lookup, a keyboard interrupt between two statements, an impossible request - the exception reaches the caller unchanged, and the same objects afterwards answer every request as fresh objects do; results handed out earlier and process-wide settings are unchanged.",
    ["histories", "fault_sequences"],
    "every entry point; failure at the k-th airfoil lookup, interruption at any line executed in the package (outside clean-up clauses), refused requests; one to three failures in a row",
    "Tests only make calls that succeed, on fresh objects.",
    [CB, AF, AP, CS, OM], [("state written during a call", "ccblade/ccblade.py CCBlade.distributedAeroLoads, evaluate, inverse_analysis"), ("components", "ccblade/ccblade_component.py compute")],
    MON + "fault injection (raising airfoils, interrupts at traced lines) with a differential oracle against fresh objects",
    "A ValueError raised by an airfoil is left out: the solver treats it as a refusal of the root finder and warns.",
)
prop(
    "P32", "The compiled routines compute their documented quantities and derivatives",
    "Called directly, the compiled routines return the documented blade axis, cone angle and arc length of a curved blade, wind components, induction factors with residual, relative wind, and hub-to-tip integrals of the loads, for any admissible arguments. Their derivative routines return the same values, and along any directions, several at once, the change of those values (the arc length included; the integrals by their adjoint); directions do not influence each other.",
    ["inputs"],
    "random blades of 2-30 stations, every branch of the induction equations, all flags, 1-6 directions at once (whole, sparse, zero), contiguous and strided arrays",
    "Tests reach the compiled routines only through a rotor, with unit directions and few states; arc length and its derivative are never read.",
    [BEM], [("values", "ccblade/src/bem.f90 defineCurvature, windComponents, inductionFactors, relativeWind, thrustTorque"), ("tangents", "ccblade/src/bem.f90 *_dv, definecurvature_dv2"), ("adjoint", "ccblade/src/bem.f90 thrusttorque_bv")],
    MON + "reference oracle for the values and self-validating finite differences for the derivatives of direct calls",
    "Values to 1e-9 or better, derivatives to 1e-5. definecurvature_bv cannot be called usefully from Python and is judged through the adjoint of the integration.",
)
prop(
    "P33", "Plots show the polars' own data",
    "Every curve that plotting a polar, an airfoil (shared or separate figures) or a command-line operation draws is the lift, drag or moment coefficient of one polar over its own angles of attack, on axes labelled with that coefficient and named by its Reynolds number or origin; every polar appears once per coefficient, all figures are returned or shown, and plotting changes neither polars nor the files written.",
    ["inputs", "configurations"],
    "airfoils with 1-4 polars on common and different angles, every command-line operation with --plot",
    "No test plots anything; matplotlib is not even installed.",
    [AF], [("plots", "ccblade/airfoilprep.py Polar.plot, Airfoil.plot, main")],
    MON + "a stand-in for matplotlib records what is drawn; oracle compares it with the polars",
    "The appearance of the plots is not judged. The stall-delay plot has no moment figure.",
)
