"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
        mechanism=[dict(zip(("name","where"),m)) for m in mech],observe_at=list(observe),hook_needed=hook)))

UN="pterasoftware/unsteady_ring_vortex_lattice_method.py"; HS="pterasoftware/steady_horseshoe_vortex_lattice_method.py"
RI="pterasoftware/steady_ring_vortex_lattice_method.py"; FN="pterasoftware/functions.py"; AE="pterasoftware/aerodynamics.py"
PR="pterasoftware/problems.py"; MV="pterasoftware/movement.py"; OUT="pterasoftware/output.py"; TR="pterasoftware/trim.py"
CV="pterasoftware/convergence.py"; GE="pterasoftware/geometry.py"; OP="pterasoftware/operating_point.py"; PA="pterasoftware/panel.py"; ME="pterasoftware/meshing.py"

add("C01","Interrupted, failed or repeated solves leave no trace in the next result",
"Running any of the three solvers to completion gives the same loads, circulations, wake history, streamlines and exactly one final entry per airplane, whether it is the first run of that solver object or follows any number of completed, failed or interrupted runs of it. A run that returns normally has complete, correct results; otherwise the fault that stopped it reaches the caller.",
["crash_points","fault_sequences","histories"],
"Every point at which a run can be stopped (keyboard interrupt, out of memory, singular matrix, failing progress/log stream), every sequence of stopped and completed runs of one solver object, every model and run option.",
"The tests run each solver object once, to completion, without faults; no test reruns a solver or interrupts one.",
[UN,HS,RI,FN,PR],
[("per-run set-up of the wake records and the final result lists","UnsteadyRingVortexLatticeMethodSolver.run / finalize_near_field_forces_and_moments in "+UN),("per-run set-up of panel arrays and streamline seed points","collapse_geometry in "+HS+", "+RI)],
[("wake records per step","strength, age and corners of every wake ring at every step",UN),("final load lists","one entry per airplane","UnsteadyProblem in "+PR)],
["solver.run() return or exception","solver and problem result attributes after run()"])

add("C02","Analyses running concurrently in one process do not affect one another",
"When several threads of one process build airplanes and movements, solve problems and read results, each on its own models (at most sharing airfoils, base airplanes and base operating points that no thread changes), every analysis gives exactly the result it gives when it runs alone, under every interleaving of the threads.",
["schedules","configurations"],
"Every interleaving (at source-line granularity of the package) of 2 to 4 caller threads, each building, solving (steady horseshoe, steady ring, unsteady, all run options) and reading results.",
"The tests are single-threaded; parallel parameter sweeps are never exercised.",
[UN,HS,RI,FN,AE,MV,GE,ME],
[("all working state lives on the solver, problem and airplane objects",UN),("no module-level mutable scratch state",FN+", "+AE+", "+ME)],
(),["result attributes of every analysis, compared with the same analysis run alone"])

add("C03","The wake is an exact memory of what each wing shed, and where it went",
"At every time step the recorded wake of each wing has one row of rings per earlier step, newest first: the newest row is joined to the wing's current trailing edge, neighbouring rows share their corners, and every ring carries unchanged the circulation its trailing-edge panel had when it was shed and an age equal to the simulated time since it first appeared. Between consecutive steps every wake corner moves by one time step times the freestream velocity (prescribed wake) or the local velocity induced by freestream, wings and wake (free wake), and a recorded step is never altered afterwards.",
["histories","fault_sequences","schedules"],
"Every motion history, airplane and wing layout, operating point history, step count and wake model; in runs that follow interrupted runs or are interleaved with other analyses.",
"The tests of unsteady solves only check that nothing is thrown (variable geometry) or three integrated numbers (static geometry, tolerance 10%).",
[UN,AE,FN],
[("wake shedding, convection and ageing","populate_next_airplanes_wake* in "+UN),("snapshot of the wake per step","collapse_geometry in "+UN)],
[("wake rings of each wing","row 0 is the newest",UN)],
["per-step wake records of the solver","per-step trailing-edge circulations"])

add("C04","Each time step's circulation and loads solve the flow posed by the history",
"At every time step of an unsteady simulation no flow passes through any wing panel's control point under the combined velocity of the freestream, the panel's own motion since the previous step, the recorded wake (with its age-dependent cores) and the bound circulation. The panel and airplane forces, moments, load coefficients and the streamlines recorded for that step are the ones that follow from that circulation and its change since the previous step by the documented vortex-force and unsteady-pressure laws.",
["histories","fault_sequences","schedules"],
"Every motion history, airplane layout, operating point history and wake model; in runs that follow interrupted runs or are interleaved with other analyses.",
"The only numeric unsteady test compares three coefficients of one static wing with 10% tolerance; flapping, multiple wings and airplanes, sideslip and free wakes are only run for absence of exceptions.",
[UN,FN,AE,PA,OP],
[("influence assembly, linear solve and flapping velocities",UN),("vortex force, unsteady force, moment and coefficient processing","calculate_near_field_forces_and_moments in "+UN+"; process_unsteady_solver_forces in "+FN)],
[("previous step's circulation and leg centres","what the unsteady term and apparent velocities are built from",UN)],
["panel ring strengths, panel and airplane loads at every step","streamline points"])

add("C05","Reported final loads are the reduction of the last cycle's recorded loads",
"After an unsteady simulation the problem reports, for each airplane in order, exactly one set of final loads: for static geometry those of the last time step, for moving geometry the mean and the root mean square over precisely the trailing steps that span the longest motion period (the whole run if it is shorter), for forces, moments and both coefficient sets. Asking only for final results, choosing another logging level or skipping streamlines changes none of these numbers.",
["histories","configurations","fault_sequences"],
"Every combination of periods, step size, step count, number of airplanes and run options, including reruns and runs after an interruption.",
"Tests check final loads of one static single-airplane case; the averaging window, RMS, multi-airplane order and only-final mode are never compared.",
[PR,UN,MV],
[("first averaging and first results step","UnsteadyProblem.__init__ in "+PR),("reduction","finalize_near_field_forces_and_moments in "+UN)],
(),["final, mean and RMS lists of the unsteady problem","per-step airplane loads"])

add("C06","The simulated past does not depend on the simulated future",
"What an unsteady simulation records for a time step (circulations, loads, wake, geometry, operating point) depends only on the motion and flow up to that step: extending the simulation by more steps, or changing geometry or flow at later steps, leaves every earlier step's record unchanged.",
["histories","fault_sequences"],
"Every motion, pair of step counts m < n and every change confined to later steps, also when either run was preceded by an interrupted one.",
"No test compares two simulations of different length or with different futures.",
[UN,MV,PR],
[("time marching in step order","run loop in "+UN),("motion sampled at k times the time step","oscillating_* in "+MV)],
(),["per-step records of both simulations"])

add("C07","Viewing and reporting never change results and show exactly what was recorded",
"Drawing, animating, plotting and printing a solved problem, in any order, any number of times and even when the display, screenshot or file system fails part-way, leave every solver and model result unchanged and do not prevent a later complete output. What is shown or written is exactly the recorded data: every frame holds that step's panels, wake and scalars, every curve the per-step loads of its airplane at the right times, every printed number the final loads.",
["fault_sequences","histories","crash_points"],
"Every sequence of output calls and options over every kind of solver, with failures of the plotter, screenshot, image encoder, figure save and terminal at any call.",
"The output tests only check that three calls do not throw; they never look at what was drawn, nor at results afterwards, nor at any failure.",
[OUT],
[("frame assembly","draw, animate, get_panel_surfaces, get_wake_ring_vortex_surfaces, get_scalars in "+OUT),("curves","plot_results_versus_time in "+OUT),("reports","print_steady_results, print_unsteady_results in "+OUT)],
(),["meshes, scalars and text handed to the plotter","images handed to the encoder, figures saved","text printed","solver results before and after"])

add("C08","A trim condition that is returned is within bounds and actually trims",
"When a trim search (steady or unsteady) returns a condition, every value is within the bounds (intervals of positive width) the caller gave and solving the airplane afresh at that condition meets the requested objective cut-off; it returns such a condition whenever one of the conditions it evaluated met the cut-off and all-NaN otherwise. A solver failure during the search reaches the caller instead of becoming a result, and the search stops after a bounded number of solves, whatever random numbers drive it and whatever searches or failures came before.",
["schedules","fault_sequences","histories"],
"Every stream of random numbers driving the global search, every airplane, bound, cut-off and call budget, every failing solve, and searches that follow failed or interrupted ones.",
"One steady trim case is tested, with one random stream, without faults and without checking bounds or the objective at the returned point; unsteady trim is never run.",
[TR],
[("objective and early stop","objective_function in both analyses in "+TR),("bounds handed to the local and global search",TR)],
[("last evaluated condition","what is returned when the search stops early",TR)],
["returned condition","every solve the search performs","the caller's operating point"])

add("C09","A convergence study's answer is justified by the solves it made, at any speed",
"A convergence study returns the first mesh, in its documented search order, whose refinement in every studied direction changed every airplane's coefficients by less than the criterion (or that direction is saturated or has a single candidate), and no mesh otherwise; the answer never depends on how long solves take or on the wall clock. Each mesh it solves is the reference problem at the stated resolution, the reference problem is left untouched, and a failing solve stops the study with that failure.",
["schedules","fault_sequences","inputs"],
"Every table of coefficients the solves may produce, every bound, mask and criterion, every behaviour of the clock and every failing solve.",
"Three convergence tests check one fixed answer each (two bounds); the decision logic, the copying of the reference problem and failures are otherwise unexplored.",
[CV],
[("search loops, change tables and decision","analyze_steady_convergence and analyze_unsteady_convergence in "+CV),("rebuilding the reference problem at a resolution",CV)],
(),["returned values","problem handed to every solve","the reference problem before and after"])

add("C10","Airfoil data is loaded completely or not at all, whatever the disk does",
"Constructing a database airfoil either yields exactly the coordinates its file lists, in order, or raises an error: a missing or unreadable file, a read that fails at any point, undecodable bytes or text that is not a number among the coordinate lines never give missing, extra or altered coordinates (lines beginning with a letter are commentary). A failed load leaves nothing behind: the next load of that or any other airfoil gives the right coordinates.",
["fault_sequences","histories","crash_points"],
"Every airfoil of the database and user-supplied files of the same form, every read fault at every position, garbage and undecodable bytes anywhere, and every sequence of failed and successful loads.",
"Tests use a handful of NACA airfoils (generated, not read) and never make a read fail.",
[GE,"pterasoftware/airfoils"],
[("reading and parsing of the coordinate file","Airfoil.populate_coordinates in "+GE)],
(),["Airfoil.coordinates or the raised error"])

add("C11","Results depend on the model only, not on clock, randomness or environment",
"Building and solving the same model gives the same results whatever the wall clock does (jumps, stalls, runs backwards), whatever the state of the random number generators, string hashing, logging configuration, progress stream, working directory or floating-point error settings. Solving changes none of these for the caller: random state, floating-point settings, working directory, files, warning filters and the input model's own parameters stay as they were.",
["schedules","configurations","fault_sequences"],
"Every clock behaviour, random state, hash seed, logging level, stream failure and working directory, for all solvers and movement generation.",
"Tests run in one environment and never compare two.",
[UN,HS,RI,FN,MV,GE],
[("progress bar and logging around the time march",UN),("no use of clock or random numbers in the numerics",FN+", "+AE)],
(),["results in perturbed environments","process-wide state before and after"])

add("C12","Every time step's airplane is the base airplane in its prescribed position",
"Every airplane, wing, cross section and operating point generated for a time step equals the base object in everything the motion does not prescribe (names, weight, reference dimensions given by the user, chords, airfoils, panel counts and spacings, control surfaces, symmetry, density, viscosity, flow angles, thrust) and, in what it does prescribe, follows base value plus amplitude times the chosen waveform at time step index times step size; with zero amplitudes it equals the base geometry. Generation leaves the base objects unchanged, and later assigning to attributes of one step's objects or of the base objects alters no other step.",
["histories","inputs","fault_sequences"],
"Every base model and motion, every step, repeated generation from the same movement, interrupted generation, and every later mutation of one generated or base object.",
"Tests only check that movements can be built and solved; none compares generated snapshots with the base model or with each other.",
[MV,PR],
[("snapshot generation","generate_airplanes, generate_wings, generate_wing_cross_sections, generate_operating_points in "+MV)],
(),["airplanes and operating points of Movement and UnsteadyProblem"])

add("C13","Each entry of the GUI's example menu runs the example it names, every time",
"In the desktop application, choosing the n-th example runs the example program that the menu entry names, exactly once per choice, for every order in which the file system lists the examples directory, whatever other entries it contains, and whatever was chosen before or failed before.",
["schedules","histories","fault_sequences"],
"Every directory listing order, extra directory entries, every sequence of menu choices, and examples that fail.",
"The GUI has no tests.",
["main.py","pterasoftware/ui_resources/main_window.py"],
[("mapping of menu index to example file","MainWindow.exampleMenu in main.py"),("menu labels","retranslateUi in pterasoftware/ui_resources/main_window.py")],
(),["which example module is executed after each triggered action"])

add("C14","A solve depends only on the model as it is now, not on what was solved before",
"Solving an airplane gives the same results whatever was done before with the same airplane, wing and operating point objects: other solvers run on them, changed flow conditions, failed or interrupted solves, other problems sharing them. Every steady solve uses the operating point's values at the time of the run and satisfies no-penetration at every control point, with loads that follow from its circulation.",
["histories","fault_sequences"],
"Every sequence of steady horseshoe, steady ring and unsteady solves, operating point edits, interruptions and retries over shared model objects.",
"Each test builds fresh objects and solves them once.",
[HS,RI,UN,FN,TR],
[("panel vortices are rebuilt by each run","initialize_panel_vortices in "+HS+", "+RI+", "+UN),("freestream taken from the operating point",HS+", "+RI)],
[("vortex objects and loads stored on shared panels","overwritten by each solve",PA)],
["results of every solve in the sequence, compared with an independent model of the same flow"])

add("C15","A built model is the described one, whatever was built, shared or failed before",
"Airfoils, cross sections, wings and airplanes are the described ones - outline and mean camber line, panel corners that tile the wing from tip to tip, edge flags, counts, derived measures and reference dimensions - whenever they are built: in any order, from parts other wings share, again after their parts were edited, after constructions that failed, were refused or were interrupted, and whatever was read, drawn or solved in between. Building, reading or drawing one object changes no other.",
["histories","fault_sequences","crash_points","inputs"],
"Every sequence of constructions over shared airfoils, cross sections and wings, every point at which one can be cut short, every refused construction, edit and read in between.",
"Tests build each model once from fresh parts and check a few attributes.",
[GE,ME,PA,FN],
[("meshing",  "mesh_wing and its helpers in "+ME),("airfoil outlines and control surfaces","Airfoil in "+GE),("reference dimensions","Airplane, Wing in "+GE)],
[("wing_unit_chordwise_vector of a cross section","set by the wing that uses it",GE)],
["coordinates, panels and measures of every object of the pool"])

add("C16","Repeating an analysis costs the same each time and leaves nothing behind",
"However often the same work is repeated in one process - building, solving, trim searches, convergence studies, generating movements, loading airfoils, reporting, each completed, failed or interrupted - every repetition does the same amount of work, and once its objects are dropped nothing of it stays: no solver, model object or data held by the package, no open file, window, figure, thread, log handler, hook or temporary file. Objects that are kept and used again hold no more than after their previous use.",
["histories","fault_sequences","crash_points"],
"Every history of analyses and faults, repeated any number of times, on new objects or on kept ones.",
"Every test makes one analysis and never looks at what is left; sweeps of thousands of solves are not tested.",
[UN,HS,RI,FN,MV,GE,TR,CV],
[("results are held by solver, problem and model objects only",UN+", "+PR),("per-run lists are rebuilt","run in "+UN),("no registry or cache in the modules",FN+", "+GE)],
(),["live objects, data reachable from the package's modules, open files, threads, log handlers; calls of package functions"])

# not applicable: pure functions of their input
def na(id,title,st,files,mech): add(id,title,st,["inputs"],"Every input.","Tests sample a few inputs.",files,mech)
na("N01","Induced velocity kernels obey the Biot-Savart law with core growth","The velocity induced by line, ring and horseshoe vortices equals the (cored) Biot-Savart integral at every point, is zero on the filament, and the collapsed and expanded evaluations agree.",[AE],[("kernels",AE)])
na("N02","Meshing tiles each wing's mean camber surface without gaps or overlaps","For every wing description the panels tile the cambered surface from tip to tip, share edges, and carry correct edge flags and positions.",[ME,GE],[("mesh_wing",ME)])
na("N03","Symmetric wings mesh to mirror images","The mirrored half of a symmetric wing is the exact reflection of the other half, with control surfaces mirrored or reversed as chosen.",[ME,FN],[("mesh_symmetric_wing",ME),("reflect_point_across_plane",FN)])
na("N04","NACA airfoil generation and repanelling are geometrically correct","Generated four-digit airfoils follow the NACA equations, repanelling preserves the shape, and control surfaces rotate it about the hinge.",[GE],[("Airfoil",GE)])
na("N05","Wind and geometry axes are related by a proper rotation","The axis conversion is orthonormal for every angle of attack and sideslip, and the freestream has the stated speed and direction.",[OP],[("rotation and freestream",OP)])
na("N06","Reference dimensions follow from the wing geometry","Span, projected and wetted area, standard and aerodynamic mean chord equal their geometric definitions for every wing.",[GE,PA],[("Wing properties",GE)])
na("N07","Steady loads have the symmetries and scalings of potential flow","Mirroring the model mirrors the loads, and loads scale with dynamic pressure and coefficients do not, for every steady model.",[HS,RI,FN],[("steady solvers",HS+", "+RI)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
