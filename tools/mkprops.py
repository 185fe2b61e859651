#!/usr/bin/env python3
# Source of properties.jsonl: python3 tools/mkprops.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    M={"process counts":"configurations","partitions":"configurations","reduction orders":"schedules","random choices":"configurations","faults":"fault_sequences","crash points":"crash_points"}
    over=list(dict.fromkeys(M.get(o,o) for o in over))
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mech)]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
K="kernel/"
p("P01","Parallel runs always finish, whatever the message timing",
  "A parallel run on a valid mesh (reading it, exchanging data, numbering unknowns, assembling, solving, time stepping, writing output) finishes on every process for every legal timing and buffering of messages and every relative speed of the processes: it never deadlocks, never mixes up collective operations and never uses the message-passing library illegally. Two runs of the same job that differ only in that timing give the same results, up to floating-point reassociation in global sums.",
  ["schedules","process counts","partitions"],"all message timings, all buffering choices, all process counts and all partitions (empty parts included)",
  "The tests run each program once or on one process; real MPI exhibits one friendly, mostly eager schedule.",
  [K+"Base/MpiContainer.h",K+"Base/MpiContainer.cpp",K+"Base/HpgemAPIBase_Impl.h",K+"Utilities/GlobalIndexing.cpp",K+"Base/Submesh.cpp"],
  ["non-blocking sends and receives completed in one wait","probe-based index exchange","collectives executed by every process in the same order"])
p("P02","After synchronisation every ghost copy equals its owner's data",
  "After the solution data of the elements is synchronised, every process' copy of an element it does not own holds exactly the values the owner had when it entered the synchronisation, and the data of owned elements is unchanged. This holds for repeated synchronisations, for any mixture of the data vectors being synchronised and overwritten in between, and for all mesh types, orders and partitions.",
  ["schedules","histories","partitions"],"all schedules, all sequences of update and synchronise operations, all partitions",
  "A test observes one exchange on one partition; buffer reuse, tag confusion and overtaking only show for particular timings and histories.",
  [K+"Base/HpgemAPIBase_Impl.h",K+"Base/Submesh.cpp",K+"Base/MpiContainer.h",K+"Base/MeshManipulator_Impl.h"],
  ["push and pull lists built while reading the mesh","one message per ghost element tagged by its id"])
p("P03","Reading a partitioned mesh in parallel reproduces the whole mesh",
  "When a partitioned mesh file is read by as many processes as it has parts, every element is owned by exactly the process the file names, each process additionally holds precisely the ghost elements the file assigns to it, and all copies of an element, face, edge or node carry the same identity and geometry on every process. Merging what the processes hold gives the mesh in the file: same elements, coordinates, zones, element-to-element connections through faces, edges and nodes, and boundary faces, and each process' send lists match its neighbours' receive lists in content and order.",
  ["inputs","process counts","partitions"],"all valid mesh files (line, square, triangle, cube, tetrahedron, periodic, with zones) and all partitions of them",
  "The tests read single-part files on one process.",
  [K+"Base/MeshManipulator_Impl.h",K+"Base/Mesh_Impl.h",K+"Base/Submesh.cpp",K+"Base/ElementFactory.cpp",K+"Base/FaceFactory.cpp"],
  ["every process reads the whole file and keeps its part","reserved global ids keep identities equal across processes"])
p("P04","The global numbering of unknowns is a bijection all processes agree on",
  "For every layout and every chosen subset of unknowns, the numbers that all processes together give to the degrees of freedom of their own entities are exactly 0..N-1 with no gap and no duplicate, each process owns the number of unknowns it reports in the contiguous range its layout promises, and a process that also sees an entity owned by another process uses the owner's number for it. Conversion between global and process-local numbers is consistent with this on every process.",
  ["schedules","partitions","inputs"],"all schedules of the numbering exchange, all layouts, all subsets of unknowns, conforming and discontinuous basis functions, all partitions",
  "Unit tests number on one process, where no numbers are exchanged.",
  [K+"Utilities/GlobalIndexing.cpp",K+"Utilities/GlobalIndexing.h"],
  ["prefix sums over processes","two rounds of messages for ghost entities owned by third processes"])
p("P05","Parallel assembly gives the same global matrix and vector as serial",
  "The global matrix and vector assembled from element and face contributions are, after renumbering, the same on any number of processes as on one: every contribution is added exactly once, also for entities on process borders, for conforming unknowns shared between processes and for rectangular matrices, subsets of unknowns and repeated re-assembly after a reset. The rows reported for a boundary face are exactly the face, edge and node unknowns on that face, on every process. Assembly never runs out of the matrix storage reserved beforehand.",
  ["schedules","partitions","inputs"],"all partitions, schedules, layouts, mixtures of unknowns, and sequences of re-assembly",
  "Unit tests assemble on one process and compare a handful of entries.",
  [K+"Utilities/GlobalMatrix.cpp",K+"Utilities/GlobalVector.cpp",K+"Utilities/SparsityEstimator.cpp",K+"Utilities/GlobalIndexing.cpp"],
  ["each border face assembled by one owner only","row owners receive remote contributions","preallocation from the sparsity estimate"])
p("P06","Solution data survives the trip to the global vector and back",
  "Collecting the element solution data into the global vector and writing it back restores every coefficient exactly on every process, ghost elements included, for all unknowns together or one unknown at a time, for conforming and discontinuous basis functions and every layout. Writing one unknown leaves the others untouched, and a global vector changed by any process is seen by every process that holds a copy of the element.",
  ["schedules","partitions","histories"],"all partitions, layouts, schedules and interleavings of collecting, changing and writing back",
  "Unit tests do the round trip on one process.",
  [K+"Utilities/GlobalVector.cpp",K+"Utilities/GlobalIndexing.cpp",K+"Base/ElementData.cpp"],
  ["scatter of the remote entries each process needs"])
p("P07","Time stepping in parallel reproduces the serial solution",
  "Explicit Runge-Kutta time integration, with fixed or error-controlled steps, on any number of processes and any partition yields at every output time the serial solution up to round-off, and all processes take the same sequence of time steps. This holds for the general and for the linear (pre-assembled) solvers, for every supplied scheme, with several unknowns and time-dependent sources.",
  ["schedules","partitions","inputs"],"all partitions, schedules, Runge-Kutta schemes and step controls",
  "The tests integrate on one process; a missing exchange between stages or a rank-dependent step decision is invisible there.",
  [K+"Base/HpgemAPISimplified_Impl.h",K+"Base/HpgemAPILinear_Impl.h",K+"Base/HpgemAPIBase_Impl.h",K+"Base/TimeIntegration/ButcherTableau.h"],
  ["ghost exchange after each stage","global error and norm decide the step"])
p("P08","Global error norms and reductions are the same on every process",
  "Every quantity computed over the whole domain (total error, maximum error per variable, error estimate and norm of an update) is returned identically on every process and equals the value of the serial computation up to round-off, whatever the partition, including processes without elements and values of any sign or magnitude.",
  ["schedules","partitions","reduction orders"],"all partitions, reduction orders and schedules",
  "On one process a reduction is the identity.",
  [K+"Base/HpgemAPISimplified_Impl.h",K+"Base/MpiContainer.cpp",K+"Base/MpiContainer.h"],
  ["reduce then broadcast","user-defined maximum"])
p("P09","Steady-state solves in parallel reproduce the serial solution",
  "Solving a steady problem (assemble, solve, write the solution back to the elements) on any number of processes and partition gives on every process, for owned and ghost elements alike, the serial solution up to the solver tolerance.",
  ["schedules","partitions","inputs"],"all partitions and schedules, conforming and discontinuous discretisations",
  "The tests solve on one process.",
  [K+"Base/HpgemAPILinearSteadyState_Impl.h",K+"Base/HpgemAPILinear_Impl.h",K+"Utilities/GlobalMatrix.cpp",K+"Utilities/GlobalVector.cpp",K+"Utilities/GlobalIndexing.cpp"],
  ["parallel assembly","parallel Krylov solve","scatter to ghosts"])
p("P10","The messaging layer delivers each message once, intact, to its addressee",
  "Values sent to a process with a given tag arrive exactly once, complete, in the variable registered for that sender and tag, and messages with the same sender and tag arrive in the order sent; a synchronisation point returns only after all communication started before it has completed on this process and all processes reached it. Broadcast gives every process the root's value and reduce gives the root the combination of all contributions, for scalars, complex numbers and vectors of any length (zero included).",
  ["schedules","histories"],"all schedules and buffering choices, all sequences of operations with arbitrary types, sizes, tags and roots",
  "Real MPI buffers small messages eagerly, so reuse of buffers or missing completion is not seen in tests.",
  [K+"Base/MpiContainer.h",K+"Base/MpiContainer.cpp"],
  ["list of pending requests completed at a synchronisation point"])
p("P11","Requested extra ghost elements are served by their owners from then on",
  "When processes ask for data of elements that are owned elsewhere but not among their ghosts, at the next synchronisation, and at every later one, exactly these elements receive the owner's current data on exactly the asking processes, whichever subset of processes asks and however often the same element is requested. Existing ghosts keep being updated and processes that asked for nothing are unaffected.",
  ["schedules","histories"],"all schedules and all sequences of requests by all subsets of processes, interleaved with synchronisations",
  "No test issues such a request.",
  [K+"Base/Submesh.cpp",K+"Base/Submesh.h",K+"Base/HpgemAPIBase_Impl.h"],
  ["owners found by exchanging the sorted ids of all elements","requests sent to the owners before the next exchange"])
p("P12","A mesh is read exactly, or the run stops loudly",
  "Whatever happens while a mesh file is read (short or interrupted reads, read errors, a file that ends early because it was only partly written), the run either obtains exactly the mesh described by the intact file or stops with an error; it never silently continues with a different mesh. A file whose number of parts does not match the number of processes is refused.",
  ["faults","inputs"],"all points at which a read can fail or a file can be cut, on any subset of the processes",
  "Tests read intact local files.",
  [K+"Base/MeshManipulator_Impl.h",K+"Base/MeshFileInformation.cpp","applications/Preprocessor/lib/hpgem.cpp"],
  ["stream extraction of counts and sections"])
p("P13","Output is written completely, or the failure is reported",
  "When writing results or a prepared mesh meets a disk error or a full disk, the program reports the failure with an error instead of ending successfully with missing or truncated data; with merely short or interrupted writes the files come out complete and identical to an undisturbed run.",
  ["faults","crash points"],"every write of every output file failing, falling short or being interrupted",
  "Tests write to healthy disks.",
  [K+"Output/TecplotDiscontinuousSolutionWriter_Impl.h",K+"Output/VTKSpecificTimeWriter_Impl.h",K+"Output/VTKTimeDependentWriter_Impl.h","applications/Preprocessor/lib/output_impl.h"],
  ["file streams flushed and closed at the end of writing"])
p("P14","The output files of a parallel run together hold the serial solution",
  "The per-process output files of a parallel run (Paraview, Tecplot and GNUPlot) are well formed, the master file lists exactly the piece files that exist, and together they contain each element of the domain exactly once, with the coordinates and solution values the serial run writes. No process overwrites or omits another's part, for every process count and partition, also when a process has no elements, and for every output time.",
  ["schedules","partitions"],"all partitions, schedules and output times",
  "The tests write output from one process and do not compare pieces.",
  [K+"Output/VTKSpecificTimeWriter_Impl.h",K+"Output/VTKTimeDependentWriter_Impl.h",K+"Output/TecplotDiscontinuousSolutionWriter_Impl.h",K+"Base/HpgemAPISimplified_Impl.h"],
  ["one piece file per process, one master file"])
p("P15","The preprocessor writes an equivalent mesh for any number of parts",
  "For every supported input mesh, requested number of parts and random seed of the partitioner, the preprocessor writes a mesh file that has that many parts, assigns each element to exactly one part, lists the ghost parts each part needs, and describes the same elements, coordinates, zones, connections and boundary as the input; reading it with that many processes works.",
  ["random choices","process counts","inputs"],"all part counts, partitioner seeds and input meshes",
  "The partitioner is seeded from the operating system, so a test sees one partition and usually one part.",
  ["applications/Preprocessor/main.cpp","applications/Preprocessor/lib/output_impl.h","applications/Preprocessor/lib/mesh","applications/Preprocessor/lib/hpgem.cpp","applications/Preprocessor/lib/gmsh.cpp"],
  ["random graph partition","shadow computation over shared nodes"])
p("P16","An error on any process ends the whole run visibly",
  "If one process of a parallel run meets an error at any point (an error or fatal message, a failed always-on check, an uncaught exception, memory that cannot be had, a message-passing call that fails, unusable command-line options), the run ends with a failure; it never completes as if it had succeeded and never hangs. For errors reported through the logger, the message and the number of the process appear on the error stream, and output written before is not lost. Warnings and lesser messages never end a run (unless ending on warnings is asked for) and never change its results; a warning is written with the number of its process unless it is suppressed.",
  ["faults","crash points","schedules"],"every process, every point of the run at which the error can strike, all schedules",
  "Tests provoke errors on one process only.",
  [K+"Logger.h",K+"Logger.cpp",K+"Base/CommandLineOptions.cpp",K+"Base/MpiContainer.cpp"],
  ["error messages flush the output and raise a terminating signal","warnings only print","unusable options are refused","MPI errors are fatal"])
p("P17","The electromagnetic solver gives the same answers in parallel",
  "The DG-Max harmonic, eigenvalue and time-dependent Maxwell solvers give on any number of processes and partition the fields, eigenvalues, eigenfields (of isolated eigenvalues, up to their phase), energy fluxes, absorbing-layer transmission and norms of the error of the serial run up to solver tolerance, for the discontinuous and the divergence-conforming discretisation, with zones of different material, absorbing layers and periodic borders, and finish for every message timing.",
  ["schedules","partitions","inputs"],"all partitions and schedules, discontinuous and divergence-conforming discretisations",
  "The DG-Max tests run on one process.",
  ["applications/DG-Max/Algorithms/HarmonicSolver.cpp","applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp","applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp","applications/DG-Max/Algorithms/DivDGMaxEigenvalue.cpp","applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp","applications/DG-Max/DGMaxProgramUtils.cpp","applications/DG-Max/Utils/PMLTransmission.cpp"],
  ["complex parallel assembly and solves","phase shifts over periodic borders","fluxes and error norms summed over the processes"])
p("P18","The bundled flow and wave programs give the same answers in parallel",
  "The tutorial programs (advection, Poisson), the acoustic wave example, the Euler, compressible Navier-Stokes and air-flow programs, the granular-flow programs (bidispersed, and the one- and two-dimensional problems of the same directory with their width average) and the mesh-mover demonstration write on any number of processes and for every partition the solution (and moved mesh, in every output format the program writes) of the serial run up to round-off, each element once, and finish for every message timing, also when a process has no elements.",
  ["schedules","partitions","inputs"],"all partitions, process counts and schedules, all meshes and polynomial orders the program supports serially",
  "The tests run the programs on one process or not at all.",
  ["applications/TutorialAdvection/main.cpp","applications/TutorialPoisson/main.cpp","applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h","applications/Euler/Euler_Impl.h","applications/NavierStokes/UnsteadyNavierStokesAPI_Impl.h","applications/NavierStokes/CompressibleNavierStokes/CompressibleNavierStokes.cpp","applications/SavageHutter/SavageHutterBase_Impl.h","applications/SavageHutter/SavageHutter2DBase.cpp","applications/MeshMoverDemo/MeshMoverDemo.cpp"],
  ["ghost exchange between stages, limiters and boundary handling at process borders"])
# --- not simulation targets
def na(id,title,st,text,files):
    p(id,title,st,["inputs"],text,"Sampled inputs only.",files,["pure computation"])
na("P30","Quadrature rules integrate polynomials exactly up to their order","Every supplied quadrature rule integrates all polynomials of its stated order exactly on its reference shape.","all rules and polynomials",[K+"Integration/QuadratureRules"])
na("P31","Basis functions are conforming and their derivatives consistent","Basis functions of every order have continuous traces where promised and derivatives that match the functions.","all orders, shapes and points",[K+"FE"])
na("P32","Reference and physical mappings are mutually inverse and consistent","Mapping a point to physical space and back is the identity and the reported Jacobian is the derivative of the map.","all geometries and points",[K+"Geometry"])
na("P33","Dense linear algebra agrees with its mathematical definition","Small vector and matrix operations compute their mathematical definition up to round-off.","all operands",[K+"LinearAlgebra"])
na("P34","The tree of refined entities visits each entity once per level","Iterating the entity tree visits each active entity once, in order, on every level.","all trees",[K+"Base/LevelTree.h",K+"Base/TreeIterator.h"])
for x in P: print(json.dumps(x))
