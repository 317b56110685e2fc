#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Simulation clock counts completed steps",
  "Every time stepper reports a simulation time equal to its time step multiplied by the number of steps it has completed. "
  "The clock starts at zero, each completed step advances it by exactly one time step no matter whether the step was requested directly, in a batch, or by the solver, and nothing else moves it.",
  ["histories", "configurations"], "all sequences of step/batch/solver calls, all steppers, all time steps",
  "Tests look at the time of a single stepper after one fixed call sequence; the RK4 stepper driven by the solver is never inspected.",
  ["pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go", "pf/sdd.go", "pf/solver.go"],
  [("per-step counter increment", "each Step method"), ("time = counter * dt", "each GetTime method"), ("batch drivers", "Propagate methods")],
  ["return value of GetTime after any history of calls"])

p("C02", "A step with no dynamics leaves every field unchanged",
  "If an equation has no right-hand-side contribution, no implicit coefficient and no filter, then one step of the Euler or Runge-Kutta stepper leaves the real-space values of the corresponding field exactly as they were (up to rounding), for any number of fields and any grid. "
  "In particular all fields are back in real space, normalised by the number of nodes, whenever a step returns.",
  ["inputs", "configurations"], "all field contents, numbers of fields, grid sizes",
  "Tests run specific equations with one or two fields; a missing or doubled inverse transform or normalisation for only some fields or stages needs a universally quantified argument.",
  ["pf/euler.go", "pf/rk4.go", "pfutil/sliceOperations.go"],
  [("forward transform / inverse transform / division by number of nodes", "Step methods")],
  ["field data after Step"])

p("C03", "Steppers compute the documented update schemes",
  "One Euler step maps each field y to (y + dt*N)/(1 - dt*A) and one Runge-Kutta step combines the four documented stage values with weights 1/6, 1/3, 1/3, 1/6 and the documented implicit denominators, all in Fourier space, followed by exactly one application of the modal filter per field when a filter is set. "
  "Right-hand sides are evaluated on freshly recomputed derived quantities and at the stage time (start of step, half step, half step, full step for Runge-Kutta). "
  "The fully implicit stepper drives the residual of the documented integrator to zero starting from the state at the beginning of the step.",
  ["inputs", "configurations"], "all models, fields, time steps, filters",
  "Tests compare a few scalar equations against analytic solutions with loose tolerance; stage weights, time arguments, filters and multi-field indexing are not distinguished.",
  ["pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go"],
  [("Euler update", "pf/euler.go Step"), ("RK4 stages", "pf/rk4.go Step, PrepareNextCorrection, correction"), ("implicit residual", "pf/implicitEuler.go updateEquation, Step")],
  ["field data after Step"])

p("C04", "All equations of a step see the same state",
  "Within one step (or one stage of a step) the right-hand sides and implicit coefficients of all equations are evaluated on one common snapshot of all fields. "
  "Consequently the result of a step does not depend on the order in which fields were added to the model.",
  ["inputs", "configurations"], "all models with any number of coupled equations and any order of fields",
  "Existing tests use one field or uncoupled fields, for which sequential and simultaneous updates coincide.",
  ["pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go", "pf/sdd.go"],
  [("evaluate all right-hand sides before updating any field", "Step methods")],
  ["field data after Step"])

p("C05", "Saddle-point stepper keeps its dimer invariants",
  "After any step or initialisation the dimer orientation has unit length, and the shifts applied to the fields along the dimer within a step add up to zero. "
  "The dimer length decays exponentially from its initial value and never falls below the configured minimum, and every field is advanced with the weighted end-point forces of its own equation.",
  ["inputs", "histories"], "all initial/final states, numbers of fields, weights and step counts",
  "The tests use one field and one weight; multi-field indexing and the exactness of the shift bookkeeping are not sampled.",
  ["pf/sdd.go"],
  [("normalisation of the orientation", "Step, Init, SetInitialOrientation"), ("shift by -l/2, +l, -l/2", "Step"), ("dimer length", "DimerLength")],
  ["orientation and field data after Step"])

p("C06", "Solver runs steps, hooks, callbacks and monitors on schedule",
  "Solving for a number of epochs performs exactly epochs*steps steps; after every step each registered term is notified exactly once with the time after that step. "
  "After every epoch each callback is invoked once, in registration order, with the epoch number offset by the start epoch, and each monitor receives exactly one new sample.",
  ["histories", "configurations"], "all epoch/step counts and all sets of terms, callbacks and monitors",
  "Tests count callbacks for one configuration; the ordering and the notification of every kind of term are not covered.",
  ["pf/solver.go", "pf/monitor.go"],
  [("step and notification loops", "Propagate"), ("epoch loop", "Solve"), ("sample append", "PointMonitor.Add")],
  ["sequence of Step/OnStepFinished/callback/monitor calls"])

p("C07", "Right-hand side is the sum of all contributions",
  "The right-hand side of an equation is the sum of every explicit term and every source of that equation, with the equation's modifiers applied afterwards in registration order; the implicit coefficient is the sum of all implicit terms of that equation. "
  "No contribution is dropped, counted twice or taken from another equation.",
  ["inputs", "configurations"], "all models: any number of terms, sources and modifiers per equation",
  "Tests register at most one or two contributions of a kind at a time.",
  ["pf/model.go", "pfutil/sliceOperations.go"],
  [("accumulation loops", "GetRHS, GetDenum"), ("registration", "AddSource, RegisterRHSModifier")],
  ["arrays returned for an equation"])

p("C08", "Terms fully overwrite their output and have no side effects",
  "Evaluating a term writes every element of its output array, with a value that depends only on the registered quantities, the time and the frequencies, never on what the output array held before. "
  "Evaluation does not modify any field, derived field, other registered quantity or term parameter, so repeating it gives the same result.",
  ["inputs", "histories"], "all previous buffer contents, all grids, all evaluation orders",
  "Tests hand each term a freshly zeroed buffer once, so stale data and accumulated state are invisible.",
  ["pf/tensorialHessian.go", "pf/squareGradientTerm.go", "pf/advection.go", "pf/gradientCalculator.go", "pf/noise.go", "pf/pairCorrelationTerm.go", "pf/chargeTransport.go", "pf/homoLinElast.go", "pf/spectralViscosity.go", "pf/volumeConserving.go", "pf/sourceTerm.go", "pf/rhsBuilder.go"],
  [("clear-or-assign before accumulate", "every returned term function")],
  ["output buffer of a term function"])

p("C09", "A registered name always denotes the registered data",
  "After fields, scalars, functions, derived fields or terms are registered, looking up a name yields exactly the data stored for that name: the same storage that is transformed and updated by the steppers. "
  "Distinct names never share storage, no matter how many items are registered together, and registering further items never detaches earlier ones.",
  ["histories", "configurations"], "all registration sequences",
  "Tests register single derived fields, for which sharing the loop variable or a stale copy is invisible.",
  ["pf/model.go"],
  [("name table update next to list append", "AddField, AddScalar, RegisterDerivedField, registerDerivedFields, UpdateDerivedFields, RegisterFunction")],
  ["values read through the name table"])

p("C10", "Equation text is assembled with correct signs and operators",
  "Each summand of an equation contributes with its own sign and with all of its leading operators applied: a minus negates, Laplacian prefixes apply the corresponding power of the Laplacian, and products multiply every named factor raised to its power. "
  "Terms registered as implicit enter only the implicit side, explicit ones only the explicit side, and mixed ones contribute their linear part to the implicit and their non-linear part to the explicit side.",
  ["programs", "inputs"], "all equations in the accepted grammar and all registered terms",
  "Tests cover a dozen fixed equation strings.",
  ["pf/rhsBuilder.go", "pf/util.go"],
  [("term classification", "Build"), ("prefix application", "constructFunc"), ("factor product", "ConcreteTerm"), ("derived product fields", "DerivedFieldCalcFromDesc")],
  ["term functions of the built right-hand side"])

p("C11", "Differential operators implement their documented formulas",
  "Each built-in spatial operator computes its documented expression for every field, frequency and dimension: Laplacian powers (-|2*pi*k|^2)^p, gradients 2*pi*i*k_d, tensorial Hessians -4*pi^2*k_i*K_ij*k_j, squared gradients, weighted Laplacians, divergence of weighted gradients, advection, point sources, spectral viscosity and charge transport. "
  "All frequency-space multiplications use the frequency of the same node, and every excursion to real space is normalised by the number of nodes.",
  ["inputs", "configurations"], "all fields, frequencies, dimensions and coefficients",
  "Tests check single plane waves or uniform coefficients in 2D.",
  ["pf/diffOp.go", "pf/gradientCalculator.go", "pf/tensorialHessian.go", "pf/squareGradientTerm.go", "pf/advection.go", "pf/sourceTerm.go", "pf/spectralViscosity.go", "pf/chargeTransport.go"],
  [("spectral multipliers", "Construct/Eval/Calculate methods")],
  ["output of the operator"])

p("C12", "Operators keep real fields real",
  "For a real-valued field on any grid, including grids with an even number of points where the Nyquist frequency has no conjugate partner, the gradient, squared-gradient, noise, charge-transport and strain operators produce a quantity whose inverse transform is real. "
  "Every odd-in-frequency multiplier vanishes at the Nyquist frequency of its direction.",
  ["inputs", "configurations"], "all real fields and all even/odd grid sizes",
  "Tests use smooth fields without Nyquist content.",
  ["pf/gradientCalculator.go", "pf/squareGradientTerm.go", "pf/noise.go", "pf/chargeTransport.go", "elasticity/linearElasticity.go"],
  [("Nyquist masks", "multiplier loops")],
  ["imaginary part of the inverse-transformed output"])

p("C13", "Conservative operators conserve the domain integral",
  "Terms in divergence or Laplacian form (Laplacian powers, conserved noise, divergence of a weighted gradient, tensorial Hessian, charge transport, correlation and mixing terms with the Laplacian option) have a zero mean component for every input, so they never change the integral of the field they act on.",
  ["inputs", "configurations"], "all field contents, coefficients and grids",
  "Tests check the integral for one or two simulations only.",
  ["pf/diffOp.go", "pf/noise.go", "pf/gradientCalculator.go", "pf/tensorialHessian.go", "pf/chargeTransport.go", "pf/pairCorrelationTerm.go"],
  [("multiplier vanishes at zero frequency", "Construct/Eval")],
  ["zero-frequency element of the output"])

p("C14", "Driving forces are the derivatives of the reported energies",
  "For the ideal-mixture free energy, the interpolation (indicator) functions, the mode expansion and the elastic-property fit, every derivative the library offers is the exact derivative of the corresponding energy or objective, with the same prefactor. "
  "The linear and non-linear parts of the mixture term add up to that derivative, and the implicit and explicit versions of the correlation term represent the same operator.",
  ["inputs", "configurations"], "all arguments and coefficients",
  "Tests use finite differences at a few points with prefactor one.",
  ["pfc/ideal.go", "pfc/twoPhaseCorrFunc.go", "pfc/mode_solver.go", "pf/homoLinElast.go", "pf/pairCorrelationTerm.go", "pf/negative_value_penalty.go"],
  [("Eval/Deriv pairs", "IdealMix, Indicator"), ("Func/Grad/Hess closures", "ModeSolver")],
  ["returned energies, gradients and term values"])

p("C15", "Node number, position and frequency use one layout",
  "Converting a node number to a position and back is the identity on every 2D and 3D grid, square or not, and distinct positions have distinct numbers. "
  "The frequency reported for a node, its conjugate node, and the transform itself all use this same ordering of dimensions, so the transform of a plane wave along direction d peaks at the node whose reported frequency has only component d.",
  ["inputs", "configurations"], "all grid shapes and all nodes",
  "Tests use cubic or 2D grids, where permuted dimensions coincide.",
  ["pfutil/indexPositionConversion.go", "pfutil/fftWrap.go", "pfutil/grid.go"],
  [("index arithmetic", "NodeIdx, Pos, Freq, ConjugateNode"), ("plan dimensions", "NewFFTW")],
  ["returned indices, positions, frequencies"])

p("C16", "Geometric transformations are exact",
  "Rotations are orthogonal with unit determinant, reduce to the identity at angle zero, and reverse under a negated angle; translations and scalings act component-wise, and appending a transformation applies it after the existing one. "
  "Periodic wrapping maps every integer coordinate to the congruent one inside the domain; blurring averages over the wrapped neighbours and every node is assigned to the generator that is nearest under periodic boundary conditions. A tilt boundary consists of the same crystal turned by half of the angle in opposite directions.",
  ["inputs"], "all angles, vectors, positions (also far outside the domain)",
  "Tests use a handful of angles and positions.",
  ["pfutil/affine.go", "pfutil/sliceOperations.go", "pfutil/shapes.go", "elasticity/rank4.go", "pfutil/blur.go", "pfutil/voronoi.go"],
  [("matrix constructors", "RotX, RotY, RotZ, Translation, Scaling, RotationMatrix"), ("periodic wrap", "Wrap"), ("periodic neighbours", "Blur, Voronoi")],
  ["matrices and positions returned"])

p("C17", "Elasticity tensors have all required symmetries",
  "Every elasticity tensor the library constructs (isotropic, cubic, from Voigt notation) has the minor symmetries ijkl=jikl=ijlk, is major-symmetric whenever its input is, and places each constant at the index positions the Voigt convention prescribes. "
  "Rotating a tensor applies the rotation to all four indices, and contracting it sums over both contracted indices.",
  ["inputs"], "all elastic constants, Voigt matrices and rotation matrices",
  "Tests compare a few tensor entries.",
  ["elasticity/rank4.go"],
  [("tensor fill loops", "Isotropic, CubicMaterial, FromFlatVoigt"), ("index sums", "Rotate, ContractLast")],
  ["tensor entries"])

p("C18", "Elastic fields satisfy the discrete equilibrium formulas",
  "The effective body force, the equilibrium matrix, the strain and the strain energy are computed by the documented index contractions: force -i*k_j*sigma_ij, matrix C_mjnl*k_j*k_l, strain symmetrised in its two indices, energy half the double contraction, with the mean displacement set to zero. "
  "The first-order correction force contracts the same indices as its documentation states.",
  ["inputs", "configurations"], "all tensors, misfit strains, frequencies and grids",
  "Tests use isotropic or spherically symmetric cases where several index errors cancel.",
  ["elasticity/effectiveForce.go", "elasticity/linearElasticity.go", "elasticity/perturbation.go", "pf/homoLinElast.go"],
  [("contraction loops", "Get, DisplacementMatrixElement, Strain, EnergyDensity, PerturbedForce, Construct")],
  ["returned forces, strains, energies"])

p("C19", "Crystal geometry helpers are mutually consistent",
  "Reciprocal vectors are dual to the real-space cell vectors (inner products 2*pi or 0), the vector of a set of Miller indices is the corresponding integer combination, and the number of equivalent planes equals the size of the orbit under sign changes and permutations for every set of indices. "
  "The first-order change of the reciprocal vectors under a small change of the cell follows from the duality. The tabulated primitive cells span the volume and edge lengths of the named lattice.",
  ["inputs"], "all Miller indices, cells and lattice constants",
  "Tests tabulate a few index triples in sorted order.",
  ["pfc/lattice.go", "pfc/miller.go", "pfc/pairCorrelation.go", "pfc/mode_solver.go", "pfc/periodicFieldInit.go"],
  [("inverse transpose", "Reciprocal"), ("integer combination", "HKLVector"), ("orbit count", "NumEquivalent3D")],
  ["returned vectors and counts"])

p("C20", "Every database statement fits the schema",
  "Every SQL statement the library and the command line tool can issue refers only to tables and columns that the library creates, has exactly as many bound arguments as placeholders, binds values in the order of the named columns with the right meaning, and reads exactly as many result columns as it selects, into variables of matching type.",
  ["inputs", "configurations"], "all statements reachable from any call",
  "Most statements of the command line tool are never executed by a test.",
  ["pf/database.go", "cmd/attr.go", "cmd/comment.go", "cmd/export.go", "cmd/info.go", "cmd/list.go", "cmd/time.go", "cmd/util.go"],
  [("SQL text next to Exec/Query/Scan arguments", "all database call sites")],
  ["statements sent to the database"])

p("C21", "Simulations sharing a database never mix",
  "Every row written is tagged with the identifier of the writing simulation, and every query made on behalf of one simulation (or one time step of it) is restricted to that identifier (and time step). "
  "A simulation obtains its identifier once, registers it, and keeps it for all later writes.",
  ["histories", "configurations"], "all databases with any number of simulations and interleavings of writes",
  "Tests use one simulation per database.",
  ["pf/database.go", "cmd/export.go", "cmd/attr.go", "cmd/comment.go", "cmd/time.go"],
  [("simID column in INSERT, WHERE simID=? in SELECT/UPDATE", "all database call sites"), ("identifier initialisation", "initialize")],
  ["rows written and rows selected"])

p("C22", "Saved fields are restored exactly where they were",
  "Storing fields of a time step in the database and loading that simulation and time step returns every field under its name with the real part of every node at the same node, and the positions stored for a node number are the position of that node. "
  "Loading the last step uses the largest stored time step, and the time series, attribute and comment writers store each key with its own value.",
  ["inputs", "histories"], "all field contents, names, domain sizes and epochs",
  "Tests store one small square 2D domain, where swapped columns or transposed positions go unnoticed.",
  ["pf/database.go", "pfutil/indexPositionConversion.go"],
  [("insert/select column order and node index", "insertRealPart, Load, populatePositionsTable")],
  ["arguments bound to INSERT and destinations of SELECT"])

p("C23", "Storage failures are never silent",
  "If opening, creating, reading, writing, preparing, executing, committing or parsing stored data fails, the failing operation is reported: the call panics, terminates, returns or prints the error and does not claim success. "
  "No write path ignores the error of the operation that makes the data durable.",
  ["fault_sequences"], "any failure of any file or database operation at any point",
  "No test injects a file system or database failure.",
  ["pf/database.go", "pf/fileIO.go", "pf/xdmf.go", "pfutil/grid.go", "cmd/export.go", "cmd/energy.go", "cmd/list.go"],
  [("error checks after every storage call", "all storage call sites")],
  ["error results of storage calls"])

p("C24", "A database save is all or nothing",
  "Each batch save (fields of one time step and field, attributes, time series, node positions) is performed inside one transaction: every row of the batch goes through it, the transaction is committed only after the last row was written without error, and it is never left open when the call returns. "
  "A failure part-way leaves no partial batch behind.",
  ["fault_sequences", "crash_points"], "a failure or crash between any two row insertions",
  "No test interrupts a save.",
  ["pf/database.go"],
  [("Begin / per-row Exec on the transaction / Commit", "insertRealPart, SetAttr, SetTextAttr, TimeSeries, populatePositionsTable")],
  ["sequence of database calls"])

p("C25", "File writers and readers agree on format",
  "Binary field files are written and read with the same byte order, element type and element order, and the visualisation index file names exactly the files the binary writer produces, with matching precision, byte order and dimensions for every step and field. "
  "CSV files have the position columns first and then one column per field, reader and writer use the same column offset, and values are written with enough digits to be read back unchanged.",
  ["inputs"], "all field values (including very small ones), names, prefixes, domains",
  "Tests read back values of order one with loose tolerance.",
  ["pf/fileIO.go", "pf/xdmf.go", "pf/model.go", "pf/sdd.go"],
  [("encoders", "SaveFloat64, SaveCsv, CreateXDMF"), ("decoders", "LoadFloat64, LoadCSV")],
  ["bytes written, values read"])

p("C26", "Command line options do what their help says",
  "Every option a command reads is one it declares, with the declared type; every declared option is read and influences the result; every documented option value is accepted. "
  "When no simulation is selected the newest one is used wherever the help says so.",
  ["inputs"], "all option combinations",
  "No test invokes the command line commands.",
  ["cmd/attr.go", "cmd/comment.go", "cmd/contour.go", "cmd/energy.go", "cmd/export.go", "cmd/lineplot.go", "cmd/list.go", "cmd/template.go", "cmd/time.go"],
  [("flag declarations in init vs reads in Run", "each command file")],
  ["flag lookups and their use"])

p("C27", "Exports and plots put each value at its own position",
  "In exported CSV files each record carries the position of its node and the value of the field named in the column header; plots show for each grid point the value read for exactly that point, independent of the order of rows in the file. "
  "Line plots contain exactly the rows on the selected line.",
  ["inputs"], "all data sets, non-square domains, any row order",
  "Tests use a single small ordered square data set.",
  ["cmd/export.go", "cmd/contour.go", "cmd/lineplot.go"],
  [("record assembly", "exportFieldData, exportTimeseries"), ("point lookup", "HeatMapData"), ("row filter", "lineData")],
  ["records written, values plotted"])

p("C28", "Inconsistent input is rejected before anything changes",
  "Data whose length does not match the domain, unknown names, unregistered prerequisites, unsupported dimensions, unset time steps and uninitialised steppers are rejected (by panic or termination) before any field is modified or any row or file is written.",
  ["inputs"], "all inconsistent inputs",
  "Tests check a few of the guards.",
  ["pf/solver.go", "pf/model.go", "pf/database.go", "pf/fileIO.go", "pf/sdd.go", "pf/noise.go", "pf/advection.go", "pf/volumeConserving.go", "pf/squareGradientTerm.go", "pfutil/indexPositionConversion.go", "pfc/miller.go"],
  [("guards dominating the first effect", "entry points")],
  ["panic/termination before first effect"])

p("C29", "Read-only operations leave the caller's data untouched",
  "Operations that compute a result from caller-supplied arrays or grids (copies, norms, energies, densities, conversions, writers, correlation evaluation) do not modify those arrays, and copies do not share storage with their source. "
  "In-place operations modify only the array documented as output.",
  ["inputs", "histories"], "all inputs",
  "Tests do not compare inputs before and after a call.",
  ["pf/model.go", "pf/pairCorrelationTerm.go", "pfc/twoPhaseCorrFunc.go", "pfutil/grid.go", "pfutil/sliceOperations.go", "elasticity/linearElasticity.go"],
  [("allocation of work arrays", "computing functions")],
  ["caller-visible arrays after the call"])

p("C30", "Time stepping converges to the exact solution",
  "For smooth problems the numerical solution approaches the exact solution of the differential equations as the time step goes to zero, with the order of the chosen scheme (one for Euler, four for Runge-Kutta, two for the implicit scheme).",
  ["inputs", "histories"], "all problems and time steps",
  "Tests compare single step sizes with loose tolerances.",
  ["pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go"],
  [("update formulas", "steppers")],
  ["fields after many steps"])

p("C31", "Iterative searches converge or say that they did not",
  "The implicit solve converges for solvable steps, and the saddle point search converges to a stationary point with one unstable direction, for every start state inside the basin of attraction.",
  ["inputs", "histories"], "all problems and start states",
  "Tests run one small problem each.",
  ["pf/implicitEuler.go", "pf/sdd.go", "elasticity/linearElasticity.go"],
  [("solver settings", "iterative solvers")],
  ["fields after convergence"])

p("C32", "Random terms have the documented statistics",
  "White and conservative noise have zero mean, the documented variance per node and time step, and are independent between nodes, components and steps.",
  ["inputs", "histories"], "all random states",
  "Tests look at one sample.",
  ["pf/noise.go"],
  [("random number generation", "noise terms")],
  ["noise values"])

p("C33", "Enumerations visit every item exactly once",
  "The iterators the library offers and builds on visit every element of what they enumerate exactly once and then report that they are exhausted: all index combinations of a product, one frequency of every pair k and -k, all self-conjugate frequencies, and all start points of a minimisation with their signs.",
  ["inputs", "configurations"], "all grid shapes and index limits",
  "Tests enumerate a few even, mostly square grids.",
  ["pfutil/iterators.go", "pf/util.go", "pfc/initialGuessExplorer.go"],
  [("carry to the next index", "Product.Next"), ("selection of frequencies", "UniqueFreqIterator, RealAmplitudeIterator"), ("signs", "HyperOctantExplorer.Next")],
  ["sequence of returned items"])

p("C34", "Paired conversions undo each other",
  "Where the library offers a conversion and its inverse, applying both gives back the original: bounded parameter transform, packing of fields into vectors, real and complex grids, conjugate nodes, opposite rotations and translations, lattice and reciprocal lattice, dimer length and the time at which it is reached.",
  ["inputs"], "all inputs",
  "Tests use a few numbers.",
  ["pf/boundTransform.go", "pf/implicitEuler.go", "pfutil/grid.go", "pfutil/fftWrap.go", "pfutil/affine.go", "pfc/lattice.go", "pf/sdd.go"],
  [("pairs of inverse functions", "listed files")],
  ["result of the round trip"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
