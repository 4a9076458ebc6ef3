"""Writes /verif/properties.jsonl (kept as code so ids, anchors and MANIFEST stay in step)."""
import json, os
B="src/tight_binding_redweasel/bandstructure.py"; A="src/tight_binding_redweasel/tight_binding_asym.py"
J="src/tight_binding_redweasel/json_tb_format.py"; W="src/tight_binding_redweasel/wannier90_tb_format.py"
Q="src/tight_binding_redweasel/qespresso_interface.py"; L="src/tight_binding_redweasel/logger.py"
K="src/tight_binding_redweasel/bulk_properties.py"; D="src/tight_binding_redweasel/density_of_states.py"
SM="src/tight_binding_redweasel/smearing.py"; S="src/tight_binding_redweasel/symmetry.py"
LI="src/tight_binding_redweasel/linalg.py"; LO="src/tight_binding_redweasel/loss.py"; KP="src/tight_binding_redweasel/kpaths.py"
UR="src/tight_binding_redweasel/unitary_representations.py"; HS="src/tight_binding_redweasel/hamiltonian_symmetry.py"
FS="src/tight_binding_redweasel/fermi_surface.py"
def mech(*p): return [{"name":n,"where":w} for n,w in p]
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,observe=None,state=None):
    a={"files":files,"mechanism":mech(*mechanism)}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("P01","Saving over a model file never loses the last good copy",
 "When a model is saved to a path that already holds a saved model, then wherever the save is cut short - process killed, power lost, disk full, I/O error, user interrupt - the path afterwards holds either the complete old model or the complete new one. It never holds an empty, truncated or mixed file, and no other file of the user is changed. Once the save has returned it is the new one, also after a power loss.",
 ["crash_points","fault_sequences"],
 "every model, both model classes and every writable format, every file operation of the save as crash point, every loss/tear of not yet synced data a crash may cause, and every failing open/write/flush/sync/rename",
 "The tests save nothing at all: no test calls save, let alone kills it between two writes.",
 [B,A,J],[("BandStructureModel.save","%s: save"%B),("AsymTightBindingModel.save","%s: save"%A),("json writer","%s: save"%J)],
 ["content of the target path after restart, read back with load"])
prop("P02","A damaged or incomplete model file is never loaded as a model",
 "Loading a model file that lost its tail - cut at any byte, or with the tail replaced by zero bytes, as a crash or a full disk leaves it - in any readable format raises an error and comes back promptly; it never hangs and never returns a model with missing, zeroed or shifted coefficients. The only accepted damage is one that leaves every announced number in place, in which case the loaded model equals the undamaged one (a cut inside the digits of the very last number of a text table is out of scope).",
 ["fault_sequences","inputs"],
 "every well-formed file of the json, python, wannier90 hr and wannier90 tb formats and every truncation point or zero-filled tail of it",
 "Only intact files are loaded by the tests; none is cut.",
 [W,J,B,A],[("wannier90 readers","%s: load_tb, load_hr"%W),("json reader","%s: load"%J),("load","%s: load"%B),("load","%s: load"%A)],
 ["exception or returned model of load"])
prop("P03","A failed save changes nothing in the running process",
 "If saving a model fails for any reason - disk full, I/O error, permission, unsupported or unknown format, interrupt, out of memory - the error reaches the caller, the model in memory is bit for bit what it was, the process-wide number formatting is what it was before the call, and a retry after the fault is gone succeeds. A save that fails with an error leaves neither a partial file nor an open file handle behind. Formatting and model are also unchanged after a successful save.",
 ["fault_sequences","crash_points"],
 "every fault at every file operation and every interrupt instant during a save, any prior number formatting, any number of failed attempts before a retry",
 "No test injects an I/O error or interrupt into a save or looks at global formatting afterwards.",
 [B,A,J],[("print option handling","%s: save"%B),("print option handling","%s: save"%A)],
 ["np.get_printoptions()","model arrays","exception from save"])
prop("P04","A save that reports success has stored exactly the model",
 "Once a save returns normally, the file read back - in the same process or after the process was killed - yields a model with the same neighbour set and coefficients equal to those in memory at the time of the save up to the documented rounding of values below 1e-14 to zero, and hence the same band structure; the python format also brings back the symmetry. This holds for any model size and stored precision, however the operating system splits the writes, and whatever was saved to that path before.",
 ["histories","fault_sequences","crash_points"],
 "every history of edits, saves to a few paths and reloads, every splitting of writes, kill right after the save, model sizes beyond print limits, all formatting options in force at the time",
 "test_model.json is only read; nothing is ever written and read back, and no history is tried.",
 [B,A,J],[("save/load","%s: save, load"%B),("save/load","%s: save, load"%A),("json format","%s: load, save"%J)],
 ["reloaded model","band structure of reloaded model"])
prop("P05","An interrupted fit hands back the model of a completed step and a true log",
 "If the user interrupts a running fit at any instant and the fit returns, the model is the one reached after some whole number of fit steps (same band structure as an uninterrupted fit limited to that many steps), the returned log is marked as aborted, its iteration and loss lists are parallel, and its last loss is the loss of the model handed back. If the interrupt instead escapes to the caller, the model still has the band structure of some whole number of steps; no other exception appears.",
 ["schedules","crash_points"],
 "every instant at which the interpreter can deliver the interrupt during either fit algorithm of either model class, for any data set, batch setting and symmetry constraint",
 "The optimizer tests run to convergence; none interrupts a fit, and the windows are single bytecodes wide.",
 [B,A,L],[("except KeyboardInterrupt blocks","%s: optimize, optimize_cg"%B),("except KeyboardInterrupt blocks","%s: optimize, optimize_cg"%A),("OptimisationLogger.abort/add_data",L)],
 ["returned log","band structure of the model"])
prop("P06","An interrupted or failing basis change never changes the band structure",
 "Normalising a model, permuting its basis, or re-setting its coefficients to the same values is physically neutral: the band structure before and after agree. If such an operation is interrupted or runs out of memory at any instant, the model still has that same band structure and stays usable, and repeating the operation completes it.",
 ["crash_points","fault_sequences"],
 "every interrupt instant and every failing allocation during the operation, all models with and without overlap matrices, any number of interrupted attempts before a completed one",
 "Only completed normalisations are exercised by the tests; partial ones never.",
 [B,A],[("normalize, permute, set_params_complex",B),("normalize, permute",A)],["bands of the model on sample points"])
prop("P07","Neighbour-list edits are all-or-nothing and keep coefficients attached",
 "Adding, limiting, counting down or cleaning up neighbours, and transforming them, either takes full effect or - if it raises, is interrupted or runs out of memory at any instant - leaves the Fourier series exactly as it was. Every surviving neighbour keeps its own coefficient matrix, the zero neighbour stays first, new neighbours start at zero, and the reported number of removed neighbours is the true one.",
 ["crash_points","fault_sequences","histories"],
 "every edit with every argument on every series, at every interrupt instant and failing allocation",
 "The tests never call these edits with a fault; neighbour and coefficient arrays are replaced one after the other.",
 [A],[("add_neighbors, limit_neighbors, limit_neighbor_count, cleanup_neighbors",A),("transform",A)],["neighbours, coefficients and value of the series"])
prop("P08","Any history of model edits matches a simple Fourier-series model",
 "After any sequence of building, editing, combining (scaling, shifting, direct sum, supercell), copying, saving, loading and crash-restart from the last save, evaluating a model gives the Hamiltonian and bands of a plain dictionary from lattice vector to matrix that underwent the same sequence. A copy or a combined model is independent of its sources: editing one (coefficients, or the neighbour set of the asymmetric class) never changes another.",
 ["histories","crash_points","fault_sequences"],
 "every sequence of operations over a pool of models sharing ancestry, with failed operations and crash-restarts interleaved",
 "The tests check single operations on fresh models; aliasing and state left behind by earlier or failed operations need long histories.",
 [A,B],[("edit and combination operators",A),("copy, operators, params conversion",B)],["f, bands, neighbours of every model in the pool"])
prop("P09","An automatic fit can be killed at any time without losing announced checkpoints",
 "Whenever the automatic fit announces a checkpoint as saved, that file holds the complete model of that moment, and from then on - through kill, power loss, disk-full, interrupt or wall-clock jump at any later point - it always holds a complete checkpoint of the same stage. The run starts from the best of its restarts, the model it returns equals its last checkpoint, its neighbour sets grow as documented for each stage, and it completes for every random draw and with unfitted bands added below or above.",
 ["crash_points","schedules","fault_sequences","configurations"],
 "every random draw, every kill or fault point in the campaign, every clock behaviour, any number of added bands and restarts",
 "autofit is not called by any test; it runs for minutes and touches the disk, the clock, the random generator and the interrupt handler.",
 [A,J],[("autofit_asym","%s: autofit_asym"%A),("save",J)],["checkpoint files vs. announcements","returned model"])
prop("P10","A computation is reproducible from its inputs and random seed alone",
 "Given the same data, model and random seed, fitting, randomised initialisation, the automatic fit, Hamiltonian/DOS evaluation and file output give bit-identical results in every process, whatever the hash seed, wall clock, current directory, log verbosity, prior number formatting, and whatever this process computed, failed or aborted before.",
 ["schedules","histories","configurations"],
 "every hash seed, clock, verbosity and any prior history of other computations, including interrupted ones, in the same process",
 "Tests run once in one process with a fixed hash seed and compare nothing across processes or histories.",
 [A,B,D,L],[("optimize, optimize_cg, autofit_asym",A),("optimize, optimize_cg",B),("random draws","%s: random_hermitian"%LI)],["bytes of results across runs"])
prop("P11","Concurrent use gives the same answers as sequential use",
 "When several threads fit, normalise, save, load or evaluate separate models, or evaluate and integrate one shared model, density of states or Brillouin-zone integral without editing it, every thread gets exactly the result it would get alone, under every interleaving; no thread sees an error or a half-built state caused by another.",
 ["schedules"],
 "every interleaving of the threads at the granularity at which the interpreter may switch threads",
 "All tests are single-threaded.",
 [K,D,B,A],[("lazy precomputation shared state","%s: KIntegral.precompute, integrate_df"%K),("per-model state",B)],["result of every thread"])
prop("P12","Brillouin-zone integrals survive failures and do not depend on query order",
 "Integrals over the bands (transport, Drude, Hall, heat capacity) from one integral object give the same values in whatever order and however often they are requested, with or without explicit precomputation. If a request is interrupted or fails (model error, out of memory) at any point, a later request on the same object gives the same values as a fresh object.",
 ["histories","crash_points","fault_sequences"],
 "every order of requests with and without second derivatives, and every fault point inside a request",
 "test_bulk requests each integral once on a healthy object.",
 [K],[("KIntegral.precompute, integrate_df",K)],["returned integrals"])
prop("P13","Density-of-states queries never disturb later answers",
 "Querying a density-of-states object (state counts, densities, curves, Fermi energy, gap, chemical potential, energy, heat capacity, Fermi-surface samples) leaves all later answers unchanged: any sequence of queries, some of them interrupted or failing, gives the answers a freshly built object gives. Arrays passed in by the caller are not modified, and what the caller does with returned arrays has no effect on later answers.",
 ["histories","crash_points","fault_sequences"],
 "every query sequence on every smearing method with interrupts and failing allocations at any instant",
 "Tests build a new object for each assertion and never repeat or interrupt a query.",
 [D,SM],[("queries",D),("cached geometry of the smearing methods",SM)],["all query results"])
prop("P14","Randomised self-checks give the same verdict for every random draw",
 "The periodicity check of the density of states accepts every periodic model and rejects every model that is clearly not periodic along some lattice direction, the symmetry check of a group accepts every function that has the symmetry (inversion included) and rejects every one that clearly breaks it, and the symmetry check of a unitary representation does the same for operators under its matrices, for every draw of their random sample points (a draw which hides the difference at every point excepted). The draw never changes any computed density or symmetry data.",
 ["schedules","inputs"],
 "every state of the random generator, including extreme draws",
 "Each test run uses one unrecorded draw.",
 [D,S,UR],[("DensityOfStates.check",D),("Symmetry.check_symmetry",S),("UnitaryRepresentation.check_symmetry",UR)],["verdicts under controlled draws"])
prop("P15","Continuing from disk reproduces the same calculation",
 "A crystal recreated from the output of an earlier run after a process restart writes input decks that describe the same physical calculation: same lattice in absolute units, same atoms at the same fractional positions, same pseudopotentials, plane-wave cutoff, electronic temperature and smearing kind, and relativistic treatment. This stays true over any number of restart-and-rerun rounds and when a run dies before replacing the previous output, with no drift.",
 ["histories","crash_points","configurations"],
 "every crystal (cell, unit, basis, species, cutoff, temperature, relativistic), every crash point of the external program, any number of restart rounds",
 "No test touches the Quantum Espresso interface; the external programs are not installed.",
 [Q],[("from_disk",Q),("input deck writers: scf, nscf, nscf_nosym, bands, relax",Q)],["parsed input decks received by the external program"])
prop("P16","The input decks for one crystal are the same in every process",
 "For the same crystal and parameters every input deck handed to the external programs is byte-identical in every process, and it lists every species exactly once with its own mass and pseudopotential, every atom in order, and counts that agree with those lists. Calculations with another crystal, made from the same arrays or not, change nothing about them.",
 ["schedules","configurations"],
 "every hash seed and every crystal",
 "No test writes a deck, and the test run pins the hash seed.",
 [Q],[("_crystal and deck writers",Q)],["bytes of the decks"])
prop("P17","Binary results are read completely or not at all",
 "Reading wavefunctions or the charge density written by the external program returns exactly the numbers in the files, assigned to the right k-point, whatever order the file system lists the files in. If any of those files is missing from the numbering, truncated at any byte, or otherwise shorter than its header announces, reading raises instead of returning data.",
 ["fault_sequences","schedules","inputs"],
 "every directory order, every truncation point of every file, every missing file",
 "No test reads these files.",
 [Q],[("read_wavefunctions, read_charge_density",Q)],["returned arrays or exception"])
prop("P18","Text and XML results are read completely or not at all",
 "Reading bands, projections, pseudopotential headers, dielectric data or Wannier Hamiltonians written by the external programs returns exactly the data in the file, and raises on any file cut short by a crash (wherever the cut removes announced data). A failed read leaves the crystal object as it was.",
 ["fault_sequences","crash_points","inputs"],
 "every truncation point or zero-filled tail of the XML and table outputs, for any number of k-points, bands, spins and orbitals",
 "Only one complete XML file is read, in examples that the tests do not run.",
 [Q,W],[("read_bands_crystal, read_projections, read_valence_electrons, read_wannier_tb",Q)],["returned arrays, exception, crystal attributes"])
prop("P19","Interrupted downloads never pose as pseudopotentials; names never run",
 "After preparing pseudopotentials, every file present under its final name is complete: a download that is refused, cut off, killed or interrupted at any byte leaves no file under that name, so the next preparation fetches it again; a complete file is not fetched again. A file name taken from a list or from an output file is only ever used as a file name: it never reaches a command interpreter as anything but one plain word, and names with unsafe characters are skipped.",
 ["fault_sequences","crash_points","inputs"],
 "every network failure and kill point of every download, in any sequence of preparations, and every file name",
 "No test performs downloads (no network).",
 [Q],[("qe_prepare, from_disk",Q)],["pseudo directory after the fault; words passed to the shell"])

# pure functions of their input: listed, not applicable to this technique
def pure(id,title,statement,text,files,mechanism):
    prop(id,title,statement,["inputs"],text,"The tests sample a handful of inputs with loose tolerances; the statement is over all inputs.",files,mechanism)
pure("P30","Hamiltonians are Hermitian and bands real, sorted and lattice periodic","For every model and every k-point the Hamiltonian is Hermitian, the bands are real and in ascending order, and shifting k by a reciprocal lattice vector leaves the bands unchanged.","all models, all k",[B,A],[("f, bands",B),("f, bands",A)])
pure("P31","Band gradients and Hessians are the derivatives of the bands","Wherever bands are not degenerate, the returned first and second derivatives are those of the returned bands.","all models, all non-degenerate k",[B,A,LI],[("eigh_grad, eigh_grad_hess",LI)])
pure("P32","Symmetry objects are closed groups","Every constructed, generated or combined symmetry is a finite group closed under composition and inverse.","all constructors and generators",[S],[("from_generator, *, /, subgroup",S)])
pure("P33","Reducing and realising data by symmetry are inverse","Expanding symmetry-reduced samples and reducing them again gives back the same data, and every expanded point carries the value of its representative.","all symmetries and sample sets",[S],[("realize_symmetric_data, reduce_symmetric_data",S)])
pure("P34","Symmetrisation is a projection onto the symmetric models","Symmetrising twice equals symmetrising once, keeps Hermiticity, leaves symmetric models unchanged and yields models with the symmetry.","all representations, neighbour sets and matrices",[HS,UR,S],[("symmetrizer",HS),("symmetrizer",UR)])
pure("P35","State counts are monotone from zero to the number of bands","The number of states below an energy never decreases with energy, is zero below all bands and the band count above them, and its slope is the density.","all models, grids, smearing methods, energies",[D,SM],[("states_below, density",D)])
pure("P36","Fermi energy and chemical potential invert the electron count","The returned level holds exactly the requested number of electrons at the requested temperature, and lies in the gap for insulators.","all metals and insulators, electron counts, temperatures",[D],[("fermi_energy, chemical_potential",D)])
pure("P37","Interpolated bands reproduce the samples","The interpolation of sampled bands equals the samples at the sample points and has the crystal symmetry and periodicity.","all grids, symmetries and methods",[KP],[("interpolate",KP)])
pure("P38","Supercells and transforms describe the same solid","A supercell model has the folded spectrum of the original; transforming neighbours and k-points together leaves bands unchanged.","all models and integer cell matrices",[A,B],[("supercell, transform",A)])
pure("P39","Lattice builders give the documented cells","Every lattice constructor returns the documented lengths, angles and volume, and densities and rescaling agree with it.","all lattice parameters",[Q],[("lattice constructors, mass_density, scale_to_density",Q)])
pure("P40","k-paths hit their named points and are evenly spaced","A k-path passes through each named point exactly, in order, and samples between them evenly; its text form lists the same points.","all paths",[KP],[("KPath",KP)])
pure("P41","Transport tensors have the symmetry and limits physics requires","Conductivity-type tensors are symmetric positive semidefinite, scale with cell and relaxation time as documented, and reduce to the free-electron limits.","all models, cells and temperatures",[K],[("transport_coefficients, conductivity_hall_tensor",K)])
pure("P42","Loss functions measure what they document","The reported loss is the weighted root-mean-square deviation on the chosen band window, zero exactly for exact models and independent of k order.","all band arrays and windows",[LO],[("model_loss, model_error, model_windowed_loss",LO)])
pure("P43","Fermi-surface export is a valid mesh of the surface","Exported faces refer to existing vertices of their own band, and vertices lie on the iso-energy surface.","all models and energies",[FS],[("export_3D_fermi_surface",FS)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
