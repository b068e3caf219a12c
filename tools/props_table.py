ALLIN = "every grid extent, every field content, every scalar coefficient, both precisions, every thread setting, fixed and generic grid size"

prop("C01", "Differential operators equal their centred differences on interior cells",
     "After calling a generated curl, divergence, diffusion-flux, vortex-stretching or vorticity-update kernel, every cell with a complete stencil holds exactly the second-order centred difference of the inputs with the given prefactor, with components and grid axes paired as documented (array axes run z, y, x; vector component 0 is x). "
     "Kernels documented to update a field in place add the difference to the previous value.",
     ["inputs", "configurations"], ALLIN + "; small and anisotropic grids included",
     "The tests sample one cubic grid with one random field and compare with the same formula copied next to them; other extents, sizes and options are never reached.",
     [S2 + "outplane_field_curl_2d.py", S2 + "inplane_field_curl_2d.py", S2 + "diffusion_flux_2d.py", S2 + "update_vorticity_from_velocity_forcing_2d.py",
      S3 + "curl_3d.py", S3 + "divergence_3d.py", S3 + "diffusion_flux_3d.py", S3 + "vorticity_stretching_flux_3d.py", S3 + "update_vorticity_from_velocity_forcing_3d.py"],
     [("curl stencils", S3 + "curl_3d.py"), ("divergence stencil", S3 + "divergence_3d.py"), ("stretching stencils", S3 + "vorticity_stretching_flux_3d.py"),
      ("vorticity update stencils", S3 + "update_vorticity_from_velocity_forcing_3d.py")])

prop("C02", "Advection flux is conservative, third-order and upwind on every face",
     "The advection-flux kernels add to the flux field, on every cell with a complete stencil, inv_dx times the difference of one face flux per cell face, so that neighbouring cells see the identical face flux and the interior sum telescopes. "
     "Each face flux is the three-point ENO reconstruction of field times velocity taken from the side the mean face velocity comes from.",
     ["inputs", "configurations"], ALLIN + "; every sign pattern of the velocity",
     "Upwind selection is data dependent: the tests use one random velocity field per case and never check that the two neighbours of a face agree.",
     [S2 + "advection_flux_2d.py", S3 + "advection_flux_3d.py"],
     [("front/back face stencils", S2 + "advection_flux_2d.py"), ("front/back face stencils", S3 + "advection_flux_3d.py")],
     note="A face whose two velocities sum to zero may use either side.")

prop("C03", "Cells without a complete stencil are reset to zero or left untouched",
     "Every stencil kernel leaves each cell too close to the grid boundary for a complete stencil exactly zero when it documents a ghost-zone reset, and with its previous value otherwise. "
     "This holds on every face, edge and corner, for grids smaller than the stencil too.",
     ["inputs", "configurations"], ALLIN + "; grids down to one cell per direction",
     "Tests compare the whole array for one grid size; degenerate and anisotropic grids, and edges where two zones meet, are not sampled.",
     [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py", S3 + "curl_3d.py", S3 + "divergence_3d.py", S3 + "diffusion_flux_3d.py"],
     [("boundary setter called by the *_reset kernels", S3 + "elementwise_ops_3d.py"), ("iteration domain of the stencils", S3 + "curl_3d.py")])

prop("C04", "Boundary setters write exactly the boundary zone",
     "Setting a field to a fixed value at the boundaries with a zone width w assigns the value (per component for vector fields) to exactly the cells within w of any face, and leaves every other cell unchanged.",
     ["inputs", "configurations"], "every width >= 1, every grid extent that holds the zones, overlapping zones included, both precisions and thread settings",
     "Tests use one width and one grid.",
     [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py"],
     [("boundary slices", S2 + "elementwise_ops_2d.py"), ("boundary slices", S3 + "elementwise_ops_3d.py")])

prop("C05", "Boundary penalisation freezes and sine-damps exactly the boundary zones",
     "Penalising a field in a boundary zone of width w processes x, then y, then z: in each zone the field takes its value at the inner edge of the zone times a sine ramp that vanishes at the first (last) grid coordinate, and cells outside every zone keep their value. "
     "A zone width of zero leaves the field unchanged.",
     ["inputs", "configurations"], "every width >= 0, every grid extent of at least two zone widths, every coordinate field and spacing, scalar and vector fields, " + "both precisions and thread settings",
     "Tests use one width on one grid and replicate the numpy slicing; a width of one cell used to raise and no test noticed.",
     [S2 + "penalise_field_boundary_2d.py", S3 + "penalise_field_boundary_3d.py"],
     [("zone slices and sine stencils", S2 + "penalise_field_boundary_2d.py"), ("zone slices and sine stencils", S3 + "penalise_field_boundary_3d.py")])

prop("C06", "Kernels never modify their inputs",
     "A call of any generated grid kernel changes only the arrays documented as its outputs or scratch buffers; velocity fields, characteristic functions, coordinates, coefficients and every other input hold the same values afterwards, on every cell.",
     ["inputs", "configurations"], ALLIN + "; every kernel generator",
     "Tests check the output array and almost never compare an input with its copy.",
     [S2 + "__init__.py", S3 + "__init__.py"],
     [("assignment targets of the stencils and numpy statements", S2), ("assignment targets of the stencils and numpy statements", S3)])

prop("C07", "Kernels are race-free and memory-safe for every thread setting and size",
     "No generated grid kernel reads or writes outside the arrays it is given, and no iteration of a kernel depends on another, so the result is the same for serial execution and for any number of threads under any schedule.",
     ["schedules", "inputs", "configurations"], "every thread setting and schedule, every grid extent, every kernel generator",
     "A data race or an out-of-bounds access shows only under particular schedules, sizes or heap layouts; the tests run one.",
     [S2 + "__init__.py", S3 + "__init__.py", U + "pyst_kernel_config.py"],
     [("independence of stencil iterations", S3), ("iteration slices and ghost layers", S2), ("thread setting of the kernel configuration", U + "pyst_kernel_config.py")])

prop("C08", "Pointwise field operations compute the documented function in every cell",
     "Copy, sum, linear combination, set, add-constant, cross product and complex product write to every cell of the output the documented function of the same cell of the inputs, component by component, also when an input array is used as the output where that is meaningful.",
     ["inputs", "configurations", "histories"], ALLIN + "; repeated use of one generated kernel",
     "Tests use one size and distinct arrays.",
     [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py"],
     [("elementwise stencils", S2 + "elementwise_ops_2d.py"), ("elementwise stencils", S3 + "elementwise_ops_3d.py")])

prop("C09", "Euler-forward steps depend only on the state, never on the stale flux buffer",
     "An Euler-forward advection, diffusion or stretching step replaces the state by state plus step times the flux of the state before the step, on every cell with a complete stencil. The result does not depend on what the flux scratch buffer held before, nor on earlier calls.",
     ["inputs", "histories", "configurations"], ALLIN + "; every previous content of the scratch buffer; any sequence of calls",
     "Tests start from one buffer content and take one step.",
     [S2 + "advection_timestep_2d.py", S2 + "diffusion_timestep_2d.py", S3 + "advection_timestep_3d.py", S3 + "diffusion_timestep_3d.py", S3 + "vorticity_stretching_timestep_3d.py"],
     [("reset of the flux buffer before each use", S3 + "advection_timestep_3d.py"), ("flux then sum sequence", S3 + "diffusion_timestep_3d.py")],
     state=[("flux buffer", "scratch array passed by the caller", S3 + "advection_timestep_3d.py")])

prop("C10", "The three-stage stretching step is the SSP Runge-Kutta scheme",
     "The SSP-RK3 stretching step combines three forward-Euler stages, each over the full step, with weights (1), (3/4, 1/4), (1/3, 2/3), reading the velocity unchanged and independent of the previous content of its buffers.",
     ["inputs", "histories", "configurations"], ALLIN,
     "The repository's test repeats the implementation's own statement sequence, so it cannot see a wrong stage.",
     [S3 + "vorticity_stretching_timestep_3d.py"],
     [("stage sequence", S3 + "vorticity_stretching_timestep_3d.py")],
     note="The third stage of the current tree uses half the step; recorded as a known finding, everything else about the step is checked.")

prop("C11", "Brinkmann penalisation is the implicit relaxation towards the target",
     "Penalisation sets every cell to (field + penalty*chi*target) / (1 + penalty*chi): unchanged where the characteristic function is zero, each component with its own target, for field targets and for fixed-value targets alike.",
     ["inputs", "configurations"], ALLIN,
     "Tests use one characteristic function and grid.",
     [S2 + "brinkmann_penalise_2d.py", S3 + "brinkmann_penalise_3d.py"],
     [("penalisation stencils", S2 + "brinkmann_penalise_2d.py"), ("penalisation stencils", S3 + "brinkmann_penalise_3d.py")])

prop("C12", "Characteristic function is the smoothed Heaviside of the level set",
     "The characteristic function is 0 where the level set is below minus the blend width, 1 where it is above the blend width, and the sine-smoothed ramp in between, continuous at both ends.",
     ["inputs", "configurations"], "every level-set value, every positive blend width, every extent",
     "Tests sample one level set; the region boundaries have measure zero.",
     [S2 + "char_func_from_level_set_2d.py", S3 + "char_func_from_level_set_3d.py"],
     [("piecewise stencil", S2 + "char_func_from_level_set_2d.py"), ("piecewise stencil", S3 + "char_func_from_level_set_3d.py")])

prop("C13", "Laplacian filter removes exactly the powers of the discrete Laplacian",
     "Filtering a 3D field of order p subtracts from it the p-fold composition of the three one-dimensional second-difference kernels (multiplicative) or does so one direction after the other (convolution), per component for vector fields. The result is a function of the field alone: the scratch buffers never leak into it, for any order.",
     ["inputs", "histories", "configurations"], "every field, extent (orders 0 to 3) or small concrete grid (orders 4, 5, 8; thorough up to 16), previous buffer content, field and filter type",
     "No numerical reference exists in the tests for stale buffers or order 0 (which leaked the buffer until repaired).",
     [S3 + "laplacian_filter_3d.py"],
     [("filter passes", S3 + "laplacian_filter_3d.py"), ("buffer reset", S3 + "laplacian_filter_3d.py")],
     state=[("flux and field buffers", "scratch arrays owned by the caller", S3 + "laplacian_filter_3d.py")],
     note="Filter orders above 3 are decided on concrete grids only. ")

prop("C14", "The requested precision is honoured throughout",
     "A kernel generated for a precision accepts arrays of that precision, computes with at least that precision, and refuses arrays of the other precision by raising instead of converting or reinterpreting them. Kernels, Poisson solvers, transforms, immersed-boundary communicators and forcing objects set up for double precision never round a value to single precision on the way. Precision names other than single and double are refused.",
     ["inputs", "configurations"], "every kernel generator, both precisions, every array argument; every object built on them, in double precision",
     "Tests run each kernel with matching arrays and tolerances that hide single-precision literals.",
     [U + "pyst_kernel_config.py", U + "precision.py", S2 + "__init__.py", S3 + "__init__.py"],
     [("kernel configuration", U + "pyst_kernel_config.py"), ("precision lookup", U + "precision.py")])

prop("C15", "Fixed-grid-size kernels agree with generic kernels and refuse other sizes",
     "A kernel specialised to a grid size leaves exactly the same values in every array as the generic kernel, for anisotropic sizes too, and raises when called with arrays of any other size.",
     ["inputs", "configurations"], "every kernel generator with a fixed-size option, every extent, both precisions",
     "Tests exercise mostly cubic grids and never a wrong size.",
     [S2 + "__init__.py", S3 + "__init__.py"],
     [("field shape strings of the stencils", S3)])

prop("C16", "Invalid generator options are refused",
     "A kernel generator called with an option outside its documented set (field type, zone width, filter order or type, real type) raises instead of returning a kernel.",
     ["configurations"], "every generator and option",
     "Tests never pass invalid options.",
     [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py", S3 + "laplacian_filter_3d.py", U + "pyst_kernel_config.py"],
     [("option assertions", S3 + "elementwise_ops_3d.py"), ("real type lookup", U + "pyst_kernel_config.py")])

prop("C17", "Unbounded Poisson solve is the free-space convolution on a doubled grid",
     "The unbounded solver returns, at every node, the sum over all nodes of the documented free-space Green function (2D logarithmic, 3D 1/r, with its regularised value at the origin) times the right-hand side, computed on a zero-padded doubled grid so that no periodic image contributes; vector solves treat each component alone.",
     ["inputs", "configurations"], "every right-hand side, grid extent, domain size and precision",
     "Tests compare one sinusoidal-free analytic field at loose tolerance; wrap-around from padding errors is small there.",
     [P2 + "UnboundedPoissonSolverPYFFTW2D.py", P3 + "UnboundedPoissonSolverPYFFTW3D.py"],
     [("Green function and convolution", P2 + "UnboundedPoissonSolverPYFFTW2D.py"), ("Green function and convolution", P3 + "UnboundedPoissonSolverPYFFTW3D.py")],
     state=[("domain_doubled_buffer", "zero-padded copy of the right-hand side", P2 + "UnboundedPoissonSolverPYFFTW2D.py")],
     note="The DFT pair is an opaque linear operator with its inverse; the FFT library itself is trusted.")

prop("C18", "Poisson solves are pure functions of the right-hand side",
     "The result of a solve depends only on the right-hand side handed to that call: any sequence of earlier solves, in any order, on this or another solver object leaves it unchanged, the right-hand side is not modified and no padding region keeps old data.",
     ["inputs", "histories"], "every pair of earlier and later right-hand sides, any previous solution content, two live solver objects",
     "Tests solve once per solver object.",
     [P2, P3], [("reused buffers", P2 + "UnboundedPoissonSolverPYFFTW2D.py"), ("reused buffers", P3 + "UnboundedPoissonSolverPYFFTW3D.py"), ("scratch field", P3 + "FastDiagPoissonSolver3D.py")],
     state=[("domain_doubled_buffer", "zero outside the physical region before each forward transform", P3 + "UnboundedPoissonSolverPYFFTW3D.py")],
     note="Histories of two calls are unrolled over arbitrary initial buffer content, which covers longer ones for solvers whose state is overwritten.")

prop("C19", "Fast-diagonalisation solve inverts the Neumann finite-difference Laplacian",
     "The fast-diagonalisation solvers (2D and 3D) return minus the inverse of the second-order finite-difference Laplacian with homogeneous Neumann ends applied to the right-hand side, the null (constant) mode being removed, for every anisotropic grid; vector solves treat each component alone.",
     ["inputs", "configurations"], "every right-hand side, extent and spacing",
     "Tests use one smooth field on one grid.",
     [P2 + "FastDiagPoissonSolver2D.py", P3 + "FastDiagPoissonSolver3D.py"], [("eigendecomposition and tensor contractions", P3 + "FastDiagPoissonSolver3D.py")],
     note="The symmetric eigendecomposition is an opaque orthogonal factorisation; the LAPACK routine is trusted. Neumann only, as documented.")

prop("C20", "FFT wrapper objects transform the right buffers with the right shape and type",
     "The FFT wrappers hand out real and half-complex buffers of matching shape and precision, plans and helpers that transform along all axes and invert each other, wired to the advertised buffers, in every configuration.",
     ["inputs", "configurations"], "every extent, precision, thread count; every field content",
     "Tests only exercise the plan used by the Poisson solver.",
     [P2 + "FFTPyFFTW2D.py", P3 + "FFTPyFFTW3D.py", P2 + "scipy_fft_2d.py", P3 + "scipy_fft_3d.py"],
     [("plan construction", P2 + "FFTPyFFTW2D.py"), ("plan construction", P3 + "FFTPyFFTW3D.py")])

prop("C21", "Saved fields are restored exactly",
     "Loading a file written by save gives every registered Eulerian field (scalar or vector), Lagrangian grid and Lagrangian field the value it held when saved, bit for bit at its own precision, and returns the saved time; saving changes none of the user's arrays; each file keeps its own state; order and grouping of registration do not matter.",
     ["inputs", "histories", "configurations"], "every field content, grid size, number of nodes, subset of registered fields, precision, time and file name, 2D and 3D",
     "Tests save and load one float64 configuration per case; fields of several Lagrangian grids, evolving content, subsets and single precision are not sampled.",
     [U + "IO.py"], [("save and load", U + "IO.py"), ("registration of Eulerian and Lagrangian fields", U + "IO.py")],
     state=[("eulerian_fields, lagrangian_fields", "references to the user's arrays, read at save and written at load", U + "IO.py")],
     note="h5py and the file system are modelled (a tree of datasets per file name). ")

prop("C22", "Mismatched data is refused on registration and load",
     "load raises when the file lacks a registered field, grid or component, when the saved origin, spacing or extents differ from the registered ones, or when the number of Lagrangian nodes differs; registering an array that is neither a scalar nor a vector field of its grid raises, as does an Eulerian field without a grid or a dimension other than 2 or 3; a refused field is not registered, so that saving the others still works.",
     ["inputs", "configurations"], "every missing item, each component of origin, spacing and extent, every kind of wrong shape, 2D and 3D",
     "Tests only exercise matching data.",
     [U + "IO.py"], [("shape checks on registration", U + "IO.py"), ("grid consistency checks on load", U + "IO.py")],
     note="Grid extents are concrete in this check. ")

prop("C23", "The XDMF files describe the saved data",
     "For each non-empty grid save writes one well-formed XDMF file named after the HDF5 file: every data item names an existing dataset with its number of elements, kind and byte size, every saved field appears once under its own name, the time is the saved one, and topology and geometry give the saved grid (extents, origin, spacing, node coordinates, connection).",
     ["inputs", "configurations"], "every grid size, number of nodes, time, set of fields, precision and file name, 2D and 3D",
     "No test parses the XDMF files.",
     [U + "IO.py"], [("XDMF generation", U + "IO.py")],
     note="Extents of one at the front of a shape are ignored on both sides, as readers take the elements in order. ")

prop("C24", "Eulerian support of Lagrangian nodes is the window around the nearest grid point",
     "For every node position the communicator reports, per component, the index of the grid cell at or below the node (grid coordinates start at the coordinate shift) and, for each cell of the support window of twice the kernel width, the signed coordinate distance of that grid point from the node, in the component order x, y, z, without touching the positions.",
     ["inputs", "configurations"], "every node position inside the grid, also exactly on grid lines; any number of nodes, spacing, shift, precision, 2D and 3D",
     "numba is not installed here so no test of the immersed-boundary package runs at all; elsewhere tests sample a handful of nodes.",
     [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
     [("support kernels", IB + "EulerianLagrangianGridCommunicator2D.py"), ("support kernels", IB + "EulerianLagrangianGridCommunicator3D.py")],
     note="Node positions are written shift + dx*(K + theta), K an arbitrary integer and theta in [0,1), which covers every real position. ", tech=TECH_IB)

prop("C25", "Interpolation and spreading use the same window and weights and are adjoint",
     "Interpolation gives every node the sum over its support window of field times weight times cell volume; spreading adds at every grid point the sum over nodes of nodal value times weight of the covering window cell, keeping what was there; both act per component, touch nothing else, and use the same window, so that they are adjoint up to the cell volume.",
     ["inputs", "configurations"], "every field, weight array, node cell, number of nodes, scalar and vector fields, precision, 2D and 3D",
     "No test of this package runs here; overlapping windows and components are sampled at best.",
     [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
     [("interpolation and spreading kernels", IB + "EulerianLagrangianGridCommunicator2D.py"), ("interpolation and spreading kernels", IB + "EulerianLagrangianGridCommunicator3D.py")], tech=TECH_IB)

prop("C26", "Interpolation weights are the tensor-product smoothed delta functions",
     "The weight of a window cell is the product over the components of the chosen one-dimensional smoothed delta function (cosine, the default, or Peskin's four-point function) of the distance in grid units, divided by the cell volume, for every node offset inside its cell, also exactly on grid lines.",
     ["inputs", "configurations"], "every node offset, spacing, kernel type, precision, 2D and 3D",
     "No test of this package runs here; the branch points of the delta functions are hit by no random sample.",
     [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
     [("cosine and Peskin weight kernels", IB + "EulerianLagrangianGridCommunicator2D.py"), ("cosine and Peskin weight kernels", IB + "EulerianLagrangianGridCommunicator3D.py")], tech=TECH_IB)

prop("C27", "Virtual boundary forcing is the documented feedback law",
     "Each interaction step sets velocity mismatch = interpolated flow velocity - body velocity, Lagrangian forcing = stiffness * position mismatch + damping * velocity mismatch, and adds its spread to the Eulerian forcing (zeroed first when reset is on); time_step adds dt * velocity mismatch to the position mismatch and dt to the time; mismatches start at zero, time at the start time, and the grid shift defaults to half a cell.",
     ["inputs", "histories", "configurations"], "every flow, body state, earlier buffer content, coefficient, number of nodes, precision, reset flag, 2D and 3D",
     "No test of this package runs here; elsewhere tests start from zero mismatch with one coefficient pair.",
     [IB + "VirtualBoundaryForcing.py"], [("feedback step and time step", IB + "VirtualBoundaryForcing.py")],
     state=[("lag_grid_position_mismatch_field", "time integral of the velocity mismatch", IB + "VirtualBoundaryForcing.py"), ("lag_grid_velocity_mismatch_field", "flow minus body velocity of the last step", IB + "VirtualBoundaryForcing.py")],
     note="Interpolation and spreading are those of the communicator (C24-C26), named by their content. ", tech=TECH_IB)

prop("C28", "Brinkmann boundary forcing is the documented implicit penalisation",
     "Each Brinkmann interaction step penalises the interpolated velocity to (flow + lambda dt body)/(1 + lambda dt), takes the flux as penalised minus flow velocity, adds its spread times the cell volume to the Eulerian flux (zeroed first when reset is on) and reports the Lagrangian forcing as cell volume times flux over dt.",
     ["inputs", "histories", "configurations"], "every flow, body state, earlier buffer content, coefficient, step, number of nodes, precision, reset flag, 2D and 3D",
     "No test of this package runs here; elsewhere one coefficient and step are sampled.",
     [IB + "experimental/BrinkmannBoundaryForcing.py"], [("penalisation step", IB + "experimental/BrinkmannBoundaryForcing.py")],
     note="Interpolation and spreading are those of the communicator (C24-C26), named by their content. ", tech=TECH_IB)

prop("C29", "Forcing steps have no memory beyond the position mismatch",
     "A forcing step reads its flow and body arguments without changing them; after it the Eulerian and Lagrangian results are those of a fresh object with the same position mismatch, whatever earlier steps did; with reset the Eulerian field holds only this step's forcing, without it the step's forcing is added; two live objects share no state.",
     ["histories", "inputs"], "every pair of steps at different body positions, every earlier field content, both classes, reset on and off, 2D and 3D",
     "Tests run single steps on fresh objects.",
     [IB + "VirtualBoundaryForcing.py", IB + "experimental/BrinkmannBoundaryForcing.py"],
     [("reused window, weight and Lagrangian buffers", IB + "VirtualBoundaryForcing.py"), ("reused window, weight and Lagrangian buffers", IB + "experimental/BrinkmannBoundaryForcing.py")],
     state=[("interp_weights, nearest_eul_grid_index_to_lag_grid", "recomputed from the positions of each step", IB + "VirtualBoundaryForcing.py")], tech=TECH_IB)

prop("C30", "Invalid immersed-boundary options are refused",
     "Building a communicator with an unknown weight kernel, a component count other than 1 or the dimension, or a support width the delta functions are not defined for, or a forcing object with a dimension other than 2 or 3, raises; every documented option is accepted.",
     ["configurations"], "every option of the two communicators and two forcing classes",
     "Tests never pass invalid options and do not run here.",
     [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py", IB + "VirtualBoundaryForcing.py", IB + "experimental/BrinkmannBoundaryForcing.py"],
     [("option checks", IB + "EulerianLagrangianGridCommunicator2D.py"), ("option checks", IB + "EulerianLagrangianGridCommunicator3D.py")], tech=TECH_IB)

prop("C91", "Spatial and temporal convergence order on smooth fields",
     "On smooth fields the operators and time steps converge at their nominal order as the grid and step are refined.",
     ["inputs"], "all smooth fields",
     "Only sampled resolutions are measured.",
     [S2 + "__init__.py", S3 + "__init__.py"], [("stencils", S2)],
     na="Convergence order is a statement about limits of numerical error; no source-level argument decides it (the exact stencil, which implies it, is claimed as C01/C02).")

prop("C92", "Bounded round-off error of the kernels",
     "The floating-point result of each kernel differs from the exact-arithmetic result by a small multiple of machine epsilon times the magnitude of its inputs.",
     ["inputs"], "all finite inputs",
     "Only sampled fields are measured.",
     [S2 + "__init__.py", S3 + "__init__.py"], [("stencils", S3)],
     na="Quantifies over runtime magnitudes and compiler reassociation (fast-math C); static rules in reach cannot bound it without also firing on harmless rewrites.")
