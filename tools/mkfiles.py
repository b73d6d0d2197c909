#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC, AP, CS, OM, BEM = ("ccblade/ccblade.py", "ccblade/airfoilprep.py", "ccblade/csystem.py", "ccblade/ccblade_component.py",
                       "ccblade/src/bem.f90")
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), technique=technique, note=note))


I, C, H = "inputs", "configurations", "histories"
ROT = ("all rotors (stations, chord, twist, curvature, sweep, cone, tilt, yaw, shear, polars, blade number, loss/wake/drag switches, "
       "Reynolds passes) and operating conditions")
NREL = "the tests use one NREL 5MW rotor and one FLOWind vertical-free variant at a handful of conditions"

p("C01", "Inflow angles solve the blade element momentum equations",
  "For every blade station of a turning rotor the angle of attack returned with the distributed loads corresponds to an inflow angle at "
  "which the blade element momentum residual (Ning's formulation with Prandtl hub and tip losses, the high-induction correction, "
  "wake rotation and the drag switch as selected) changes sign. The solution is sought first in the interval (0, 90] degrees, then in "
  "the propeller-brake interval [-45, 0), then in (90, 180); whenever the residual has opposite signs at the ends of one of these "
  "intervals the returned angle lies in the first such interval.",
  [I, C], ROT, "tests compare totals of one rotor against stored numbers; they never look at the residual, the brake and reversed "
  "regions, or other combinations of the loss and wake switches",
  [CC, BEM], [("bracketing and root search per station", CC + " distributedAeroLoads"), ("residual and inductions", BEM + " inductionFactors")],
  "property-based testing against a reference BEM model", "independent residual in numpy; solution class by sign changes")
p("C02", "Section outputs are consistent with the inflow angle",
  "Given the returned angle of attack, the inductions, relative velocity, Reynolds number, lift, drag, normal and tangential "
  "coefficients and the distributed loads follow from the blade element relations with the polar evaluated at that angle and Reynolds "
  "number. For a parked rotor the inflow is perpendicular to the rotor plane and the inductions are zero.",
  [I, C], ROT, "tests check integrated quantities only, at normal operating points with one Reynolds pass",
  [CC, BEM], [("section loads", CC + " CCBlade.__loads"), ("relative wind", BEM + " relativeWind")],
  "property-based testing against a reference BEM model", "each section output recomputed from the returned angle, 1e-8")
p("C03", "Relative wind seen by each blade section",
  "The undisturbed wind components normal and tangential to each section equal the projections obtained by rotating the sheared wind at the "
  "height of the section and the velocity due to rotation through yaw, tilt, azimuth, cone and local curvature. The wind "
  "speed may be given once or per station.",
  [I], "all geometries (cone, tilt, yaw, curvature, sweep, hub height, shear), azimuths, rotation speeds and wind speeds",
  "tests have zero yaw, one azimuth grid and almost no sweep; sign errors in products of angles are not visible there",
  [CC, BEM], [("wind components", BEM + " windComponents"), ("curvature", BEM + " defineCurvature"), ("array wind speed", CC + " distributedAeroLoads")],
  "property-based testing against independent vector rotations", "force-free sections make the undisturbed wind observable")
p("C04", "Rotor forces, moments and power integrate the section loads",
  "Thrust, side forces, torque, hub moments and the blade root moment of an evaluation equal the trapezoidal integrals along the curved "
  "blade axis of the section loads at equally spaced azimuths, with zero load at hub and tip, resolved into the hub frame, averaged over the azimuths "
  "and multiplied by the number of blades (not so for the root moment). Power is torque times rotation speed.",
  [I, C], ROT + ", batches of conditions", NREL + "; side forces, moments and curved blades are compared with stored numbers at most",
  [CC, BEM], [("azimuthal averaging", CC + " evaluate"), ("integration", BEM + " thrustTorque")],
  "property-based testing against an independent integration", "uses the section loads the code itself returns, 1e-10")
p("C05", "Coefficients are the documented normalisations",
  "With coefficients requested, force, moment and power coefficients equal the dimensional outputs divided by q A, q A R and q A U, with "
  "q the dynamic pressure of the hub wind, R the rotor radius including cone and tip precurve and A = pi R^2; the dimensional outputs are the same "
  "with and without coefficients.", [I], ROT + ", batches of conditions", "tests check power, thrust and torque coefficients of one rotor without precurve",
  [CC], [("normalisation", CC + " evaluate"), ("rotor radius", CC + " CCBlade.__init__")],
  "property-based testing (algebraic oracle)", "documented formulas applied to the dimensional outputs")
p("C06", "Gradients of the distributed loads are exact",
  "With gradients requested, the derivatives of the normal and tangential section loads with respect to every design and operating variable equal the "
  "true derivatives of the returned loads, off-diagonal terms included, wherever the loads are differentiable. This includes parked rotors, wind speeds per station and "
  "Reynolds-dependent polars.", [I, C], ROT + " with gradients, one Reynolds pass",
  "gradient tests cover two rotors at one condition each with loose tolerances, and several of them fail or skip entries",
  [CC, BEM], [("chain rule", CC + " distributedAeroLoads"), ("implicit derivative of the residual", CC + " CCBlade.__residualDerivatives"), ("polar slopes", CC + " CCAirfoil.derivatives")],
  "property-based testing against complex-step implicit derivatives", "exact derivatives of an independent model at the returned solution; kinks are set aside")
p("C07", "Gradients of forces, moments and power are exact",
  "With gradients requested, the derivatives of thrust, side forces, torque, hub moments, root moment and power with respect to every design and "
  "operating variable equal the true derivatives wherever they exist, for every condition of a batch, and different conditions are not coupled.",
  [I, C], ROT + " with gradients, batches of conditions", "tests check a few entries of two rotors",
  [CC, BEM], [("reverse-mode integration", BEM + " THRUSTTORQUE_BV"), ("assembly", CC + " evaluate")],
  "property-based testing against complex-step implicit derivatives", "exact derivatives, 1e-5 of the column, conditions at kinks set aside")
p("C08", "Gradients of the coefficients are exact",
  "With gradients and coefficients requested, the derivatives of the force, moment and power coefficients with respect to every design and operating "
  "variable (including their dependence through the rotor radius and wind speed) equal the true derivatives wherever they exist, also where a coefficient is zero.",
  [I, C], ROT + " with gradients, batches of conditions", "tests check the power, thrust and torque coefficients of two rotors only",
  [CC], [("derivatives of the normalisation", CC + " evaluate")],
  "property-based testing against complex-step implicit derivatives", "exact derivatives, conditions at kinks set aside")
p("C10", "Answers do not depend on history or batching",
  "The answer to a call depends only on the rotor and the condition: not on earlier calls, on other rotors that share polars, on what the caller does with "
  "earlier answers, on the other conditions of the batch, or on whether gradients are computed along; and later calls do not change an answer already given.",
  [H, I], "all sequences of calls on one or more rotors, batches of conditions, caller modifications of earlier results",
  "tests make one call per object or do not compare the second with a fresh object",
  [CC], [("per-call state", CC + " distributedAeroLoads / evaluate")],
  "stateful property-based testing against fresh objects", "every answer of a random history compared with a new rotor asked once")
p("C11", "Scaling and symmetry laws",
  "Loads scale with density; with wind speed squared at fixed tip-speed ratio and Reynolds number; and geometrically with rotor size. Full turns of azimuth, trading pitch for twist, "
  "trading blade number for chord without hub and tip losses, and (in uniform axial wind) azimuth, number of sectors and hub height leave the loads "
  "unchanged or change them in proportion; tilting an upright blade is the same as yawing a sideways one.",
  [I], ROT + " and transformed twins", "tests have no metamorphic relations",
  [CC, BEM], [("nondimensional residual", BEM + " inductionFactors"), ("wind components", BEM + " windComponents")],
  "metamorphic property-based testing", "twins with several solutions are set aside after checking that both solve the equations")
p("C12", "Input forms do not matter and caller data is untouched",
  "Lists, tuples, integer arrays, strided views and read-only arrays of the same numbers give the same loads, rotor outputs and gradients as "
  "floating-point arrays, and scalar, integer or length-one conditions the same as arrays. Constructor arguments may be given by keyword or, in the published order, by position, and those left "
  "out take the published defaults. No argument of the caller is modified.",
  [I], "all combinations of array forms for the geometry and conditions", "tests always pass float arrays or plain scalars",
  [CC], [("input conversion", CC + " CCBlade.__init__"), ("condition conversion", CC + " evaluate")],
  "metamorphic property-based testing", "differential against float arrays, 1e-12")
p("C13", "Splined polars are faithful, smooth and have exact slopes",
  "The continuous polar stays within its smoothing tolerance of the table (exact for tables it can represent), is continuous with continuous slope in angle of attack, is "
  "constant beyond the tabulated angles and Reynolds numbers, and its reported slopes are the derivatives of its values inside the table "
  "and zero beyond. The same table gives the same polar as lists or arrays, with and without moments, and a single Reynolds number means no dependence on it.",
  [I], "all tables (angles, Reynolds numbers, realistic curves, 2-4 entries) and query points", "tests evaluate a few table points of one airfoil",
  [CC], [("spline construction and evaluation", CC + " CCAirfoil"), ("slopes", CC + " CCAirfoil.derivatives")],
  "property-based testing (invariants and finite differences)", "tables the spline library itself cannot fit are skipped")
p("C14", "AeroDyn airfoil files round-trip",
  "Reading an AeroDyn airfoil file yields exactly the Reynolds numbers, angles and coefficients in the file whatever its layout, and a table with an incomplete row is "
  "refused. Writing an airfoil, over an existing file too, gives a file with common angles, Reynolds numbers in millions and the unsteady parameters of each polar that reads "
  "back as the airfoil to the precision of the format; the airfoil itself is unchanged.",
  [I, H], "all airfoils and file layouts, write-read-write histories", "tests read the eight files shipped with the repository and never write",
  [AP, CC], [("reader", AP + " Airfoil.initFromAerodynFile"), ("writer", AP + " Airfoil.writeToAerodynFile"), ("reader for the rotor analysis", CC + " CCAirfoil.initFromAerodynFile")],
  "property-based round-trip testing with generated files", "independent writer and reader")
p("C15", "Blending and Reynolds number look-up interpolate linearly",
  "A blend of two polars with weight w is their linear interpolation on the union of their angles within the common range. The blend of two airfoils holds such a blend at the Reynolds numbers of both (the "
  "nearest polar beyond the range of one), and the polar of an airfoil at a Reynolds number is the linear interpolation of its neighbours, clamped at the ends. The polars given are unchanged.",
  [I], "all polars, airfoils (any number and order of Reynolds numbers), weights and Reynolds numbers", "tests blend two fixed polars with equal angles at a few weights",
  [AP], [("polar blend", AP + " Polar.blend"), ("airfoil blend and look-up", AP + " Airfoil.blend / getPolar")],
  "property-based testing against independent interpolation", "exact to 1e-9")
p("C16", "Extrapolation to +-180 degrees keeps the data and follows Viterna",
  "The extrapolated polar covers -180 to 180 degrees with increasing angles, contains the original table unchanged apart from raising drag to the minimum, and elsewhere "
  "follows the Viterna, scaled reflection and linear pieces with the requested maximum drag (or the aspect ratio's), minimum drag and the AirfoilPrep moment rule. Airfoils are extrapolated polar by polar; "
  "input that reaches beyond the supported range is refused.",
  [I], "all polars that span zero and end inside +-90 degrees, all parameters", "tests compare a single polar with stored numbers, moments never",
  [AP], [("extrapolation", AP + " Polar.extrapolate"), ("moments", AP + " Polar.__CMCoeff / __getCM")],
  "property-based testing against an independent piecewise model", "the reference writes out the published formulas")
p("C17", "Rotational stall-delay correction",
  "The corrected polar follows the Du-Selig lift and AirfoilPrep drag corrections for the given radius, chord and tip-speed ratio with the lift line fitted in the linear range; "
  "the lift correction is full below the limiting angle and fades to nothing at 90 degrees, and Reynolds number, angles and moments are kept. The polar given is unchanged.",
  [I], "all polars with a lifting linear range, all positions, tip-speed ratios and limits", "tests compare one polar at two radii with stored numbers",
  [AP], [("correction", AP + " Polar.correction3D")], "property-based testing against the published formulas", "1e-9 relative")
p("C18", "Coordinate transformations are rotations with exact derivatives",
  "Every transformation between the inertial, wind, yaw, hub, azimuth, blade, airfoil and profile frames is the documented rotation, each pair of opposite "
  "transformations are inverses, and chains of them carry exact derivatives with respect to the original components and the angles. One angle or one per vector may be given, and the vectors given are unchanged.",
  [I, "programs"], "all vectors, angles and chains of transformations", "tests of the frames are absent; they are exercised only through the rotor tests at small angles",
  [CS], [("transformations", CS + " DirectionVector")], "property-based testing of random transformation chains against rotation matrices", "derivatives judged for chains with each named angle at most once")
p("C19", "Vector arithmetic does not alias or corrupt operands",
  "Sums, differences, products, quotients, negation, cross products, rotations and in-place forms of direction vectors give the componentwise results; out-of-place "
  "operations leave their operands alone and no result shares memory with an operand or another vector. Derivatives of cross products are the skew matrices of the factors.",
  [H, "programs"], "all operation sequences on a pool of single vectors and arrays of vectors", "no test covers vector arithmetic",
  [CS], [("operators", CS + " DirectionVector")], "model-based stateful property testing", "after each operation the whole pool is compared with plain arrays")
p("C20", "Geometry component",
  "The geometry component returns rotor radius Rtip cos(cone) + tip precurve sin(cone), twice that as diameter, and the last entries of precurve and sweep as tip values, whatever the units the "
  "inputs are given in, and its total derivatives are those of these formulas after any sequence of changes.",
  [I, H], "all tip radii, cones, precurve and sweep distributions, units and sequences of runs", "one random distribution is checked against finite differences",
  [OM], [("compute and partials", OM + " CCBladeGeometry")], "stateful property-based testing (closed form)", "1e-12")
p("C21", "Blade loads component equals the library",
  "The blade loads component returns the stations, the normal load as x, minus the tangential load as y and zero as z loads that the library computes for the same rotor and condition, and its total derivatives are the "
  "library's gradients, whatever the units of the inputs and however often design and condition were changed and re-run before. Loss models, angles, shear, curvature and sweep left unset take the library's defaults.",
  [I, H], "all rotors, conditions (parked included), switches, unit choices, run sequences; one airfoil table per station", "one rotor at one condition, finite differences with an absolute tolerance of 10",
  [OM], [("compute and partials", OM + " CCBladeLoads")], "stateful differential property-based testing", "differential against direct calls (themselves checked by C01-C08)")
p("C22", "Rotor evaluation component equals the library",
  "The evaluation component returns power, hub forces and moments, root moment and their coefficients as computed by the library for the same rotor and condition, and its total derivatives with "
  "respect to all seventeen geometric and operating inputs are the library's gradients, whatever the units of the inputs and the runs before. Loss models, angles, shear, curvature and sweep left unset take the library's defaults.",
  [I, H], "all rotors, conditions, switches, unit choices, run sequences; one airfoil table per station", "one rotor at one condition; most rows and columns of the Jacobians vanish there",
  [OM], [("compute and partials", OM + " CCBladeEvaluate")], "stateful differential property-based testing", "differential against direct calls (themselves checked by C01-C08)")
p("C23", "Twist component: analysis and inverse design",
  "In analysis mode all outputs (loads in blade and airfoil frames, lift, drag, inductions, coefficients, power, thrust, torque, moment, also at the control points) are those of the library for the given twist, "
  "tip-speed ratio and pitch, with the middle one of several airfoil tables. In inverse mode with uniform axial wind the returned twist "
  "gives the requested angle of attack, or that of stall less the margin where none is requested, at every station with less than 95% thickness, capped at 20 degrees from the outermost exceeding station inwards and smoothed "
  "through the control points if asked for; requesting it together with twist as a design variable is refused. Loss models, angles, shear, curvature and sweep left unset take the library's defaults.",
  [I, C], "all rotors, tip-speed ratios, pitch angles, requested angles, thickness distributions; inverse mode with Reynolds-independent polars", "the only test of this component is disabled",
  [OM, CC], [("component", OM + " CCBladeTwist.compute"), ("inverse solution", CC + " distributedAeroLoads")],
  "property-based testing: differential, and residual oracle for the inverse", "inverse twist judged by an independent BEM model")
p("C25", "Unsteady aerodynamics parameters of polars",
  "The AeroDyn 13 parameters of a polar are the line fitted to the normal force in the linear range (angle in degrees, slope per radian), the positive and negative stall angles where the normal force has departed "
  "from it by 0.05 and the forces of the line there, and the angle in degrees and value of minimum drag; a cylinder has zeros. The AeroDyn 15 parameters of a full-range table are its zero-lift angle, "
  "drag and moment there, and the break points of moment and drag as defined by the extraction rule; the table is unchanged.",
  [I], "all polars (narrow, full range, cylinders, few angles) and fit limits", "tests compare one polar with stored numbers; the AeroDyn 15 extraction has no test",
  [AP, CC], [("AeroDyn 13", AP + " Polar.unsteadyparam"), ("AeroDyn 15", CC + " CCAirfoil.eval_unsteady")],
  "property-based testing against independent extraction", "AeroDyn 15 values judged where the zero-lift angle is unique and no ties occur")
p("C26", "Angle of best glide and margin from stall",
  "The angle of maximum efficiency lies between -20 and 40 degrees and no angle of a fine grid there has a better ratio of lift to drag, and the returned lift, drag and efficiency are those of the polar there. "
  "The angle away from stall is that of the highest lift in the search range less the margin.",
  [I], "all airfoil tables, Reynolds numbers (also beyond the table) and margins", "no test calls these functions",
  [CC], [("maximum efficiency", CC + " CCAirfoil.max_eff"), ("margin", CC + " CCAirfoil.awayfromstall")],
  "property-based testing against exhaustive search", "grid search over the same spline")
p("C27", "Interpolation to common angles and data grids",
  "Interpolating an airfoil to common angles gives each polar at the given angles, or at the sorted union of all, by linear interpolation with constant continuation; the data "
  "grid lists these angles, the Reynolds numbers in increasing order and the coefficients at each pair. The airfoil and its polars are unchanged and the class of the polars is kept.",
  [I], "all airfoils (number and order of polars, angles) and angle lists", "tests use three polars with equal angles",
  [AP], [("common angles", AP + " Airfoil.interpToCommonAlpha"), ("grid", AP + " Airfoil.createDataGrid")],
  "property-based testing against independent interpolation", "1e-9")
p("C28", "Preprocessing command line equals the library",
  "Each action of the airfoil preprocessing command line (3-D correction, extrapolation, blending, with or without common angles) writes exactly one file, at the given place or at "
  "the documented default name next to the input, identical to what the corresponding library calls write; no other file changes.",
  [I, C], "all input airfoils, options and paths", "the command line has no test",
  [AP], [("command line", AP + " __main__")], "property-based differential testing of the command line", "byte-for-byte comparison")
p("C29", "Flap coordinates through XFOIL",
  "Computing flap coordinates hands the airfoil's outline, flap angle, hinge and panel number to XFOIL, returns exactly the outline XFOIL wrote, and leaves no temporary file of its own and every other file as "
  "it was, also after left-overs of an earlier run and for several processes at once with the option for it.",
  [I, "schedules"], "all outlines, flap parameters, working folder contents, parallel runs", "XFOIL is not available to the tests; the function is never called",
  [CC], [("XFOIL run", CC + " CCAirfoil.af_flap_coords")], "property-based testing with a stand-in program and concurrent processes", "XFOIL replaced by a stand-in that understands the menu commands")
p("C31", "Stations at the very hub and tip",
  "A rotor whose first station is at the hub radius and/or whose last is at the tip radius (its curvature there equal to the tip's or not) gives finite loads, rotor outputs and gradients. They are those of the rotor with these end stations moved "
  "inside by one percent of the span (not beyond half-way to the neighbour), and the caller's arrays are not changed.",
  [I], "all rotors with end stations at hub and/or tip and conditions", "tests place all stations inside the blade",
  [CC], [("adjustment of end stations", CC + " CCBlade.__init__")], "property-based testing against a reference BEM model", "residual and loads of the adjusted rotor, all outputs finite")
p("C32", "Unsupported gradients are refused",
  "With gradients requested and more than one Reynolds pass, both the distributed loads and the rotor evaluation raise a value error rather than returning approximate gradients; without gradients the same rotor "
  "is evaluated.", [C], "all rotors, conditions, two to five Reynolds passes", "no test requests this combination",
  [CC], [("guard", CC + " distributedAeroLoads")], "property-based testing (required refusal)", "every generated case is judged")
p("C33", "Sections in still air",
  "Where a section sees no wind normal to it (zero wind speed, given for the whole rotor or for single stations; rotors without sweep when turning), its distributed loads and inductions are zero and so are all their gradients, "
  "and they remain numbers; a rotor in still air has zero thrust, forces, torque, moments and power with zero gradients. Stations in the wind, and other conditions of the same batch, are what they are without "
  "still neighbours.", [I, C], "all rotors, parked or turning, calm stations, calm conditions within batches, gradients on and off", "no test evaluates zero wind speed",
  [CC], [("guard for missing wind", CC + " CCBlade.__loads"), ("array wind speed", CC + " CCBlade.__windComponents")], "property-based testing (invariant and metamorphic)",
  "zero loads, outputs and gradients; neighbours unchanged")
p("C34", "Objects own their data",
  "Rotors, splined airfoils, polars and sets of polars hold the data they were built from: overwriting in place the arrays or lists that were passed to a constructor or a method, the results that came back (load and "
  "gradient arrays, polars obtained by Reynolds number look-up, blending, corrections or extrapolation, data grids), or a deep or pickled copy of the object, has no effect on what the object answers afterwards, a copy answers like the original, and results handed out earlier do not change when the object is used again.",
  [I, H], "all objects, sequences of use, overwriting and use again", "tests never touch an array after passing it on, nor a result before the next call",
  [CC, AP], [("rotor and spline constructors", CC + " CCBlade.__init__, CCAirfoil.__init__"), ("polar constructor and look-up", AP + " Polar.__init__, Airfoil.getPolar")],
  "property-based testing with a twin object", "bitwise the answers of an object built from private copies")
p("C35", "Damaged airfoil files are refused",
  "An AeroDyn airfoil file that is cut off before the end mark of its last table, announces more tables than it holds, lacks an end mark, or has a table row or parameter that is not made of numbers, an incomplete "
  "row or an empty line within a table makes both readers (for polars and for splined airfoils) raise an error; they neither hang nor return a part of the data. Text behind the announced tables is ignored.",
  [I, "fault_sequences"], "all file texts and all bytes at which a file may end", "tests read intact files only",
  [AP, CC], [("reader", AP + " Airfoil.initFromAerodynFile"), ("reader for the rotor analysis", CC + " CCAirfoil.initFromAerodynFile")],
  "property-based fault injection (truncation and corruption of generated files)", "an error is required; whole files read as announced")
p("C36", "Plots show the data",
  "Plotting a polar returns three figures, of lift, drag and moment coefficient in this order, and plotting an airfoil the same three with one line per polar in order of Reynolds number, or on request three figures per polar. Every "
  "line has exactly the angles and coefficients of its polar and, where the legend names it, its Reynolds number; the axes name the quantities, and the data are not changed.",
  [I], "all polars and airfoils, both forms of the plot", "no test plots (matplotlib is not there)",
  [AP], [("plots", AP + " Polar.plot, Airfoil.plot")], "property-based testing with a recording stand-in for matplotlib", "what is drawn on which figure against the data")

os.chdir(V)
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[dict(property=x["id"], quick_cmd="python3 run.py %s --tier quick" % x["id"],
                      thorough_cmd="python3 run.py %s --tier thorough" % x["id"], technique=x["technique"], level="exploration",
                      level_note="Generated-input search with Hypothesis, failures shrunk to a replay file. " + x["note"][0].upper() + x["note"][1:] + ".")
                 for x in P],
         not_applicable=[], notes="Everything is driven by run.py; see DESIGN.md.")
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", max(len(x["title"]) for x in P))
