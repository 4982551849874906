import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None,
                 **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {})}})
ALL=["irrep/cli.py","irrep/bandstructure.py","irrep/kpoint.py","irrep/gvectors.py","irrep/spacegroup.py","irrep/readfiles.py","irrep/utility.py","irreptables/irreptables/__init__.py"]
p("C01","A run is a function of its input files and command line",
 "Two runs of the command-line tool on the same input files with the same options report the same results on standard output and in every output file, up to numerical noise below the printed precision. Nothing else may enter the results: not hash randomisation, the operating system's entropy, the state of global random generators, the clock, environment variables, unrelated files in the directory, or the contents of uninitialised memory.",
 ["inputs","configurations","schedules"],"for all inputs, command lines and environments (hash seed, entropy, generator state, clock readings and jumps, environment, unrelated files, memory contents)",
 "The tests run each example once in one environment; a dependence on the environment shows only when two environments are compared, and the symptoms (sign of a spinor rotation, order of a listing, garbage in an unset array) look valid alone.",
 ALL,[("sign choice of spinor rotations (seeded search)","irrep/spacegroup.py match_spinor_rotations"),("ordering of symmetries, subspaces and irreps","irrep/spacegroup.py, irrep/bandstructure.py"),("arrays allocated before they are filled","irrep/readfiles.py, irrep/kpoint.py")],
 ["stdout","trace.txt","irreps.dat","irrep-output.json","irreptable-template","bands-*.dat","*.sym"])
p("C02","A failing read never turns into a successful run with different results",
 "If an operation on an input file or on the irrep tables fails or delivers less data than requested, the run either ends with a non-zero status or produces exactly the results of the undisturbed run. Reads that are merely short or interrupted and can be continued do not make the run fail.",
 ["fault_sequences","inputs"],"for all input sets of the four codes, command lines, and sequences of open/read/stat/seek/close faults (errors, short counts, interruptions, transient or persistent) on their files",
 "No test injects a fault; the readers contain fallbacks and exception handlers that could swallow one.",
 ["irrep/readfiles.py","irrep/bandstructure.py","irrep/spacegroup.py","irreptables/irreptables/__init__.py"],
 [("record readers","irrep/readfiles.py WAVECARFILE, ParserAbinit, ParserEspresso, ParserW90"),("fallbacks of the Abinit and Espresso readers","irrep/readfiles.py"),("text parsers of POSCAR, .win, .eig, tables","irrep/readfiles.py, irreptables/irreptables/__init__.py")],
 ["exit status","stdout","output files"])
p("C03","Unfinished input files are rejected or make no difference",
 "If a DFT code was killed while writing, so that an input file is missing, empty, ends early at any byte or line, or has lost its later blocks (zeros; in a WAVECAR, which has no record marks, whole records), a run on these files either ends with a non-zero status or produces exactly the results it produces on the complete files.",
 ["crash_points","inputs"],"for all crash points of the producer of each input file (plain text cut at line ends, binary and XML at any byte) of the four codes, and all command lines",
 "The tests only read complete files; there is a continuum of cut positions and only some readers check lengths.",
 ["irrep/readfiles.py","irrep/bandstructure.py"],
 [("record length, band and plane-wave counts checked against data read","irrep/readfiles.py"),("count of plane waves against the cutoff","irrep/gvectors.py calc_gvectors"),("number of atoms, k-points and energies","irrep/readfiles.py ParserVasp.parse_poscar, ParserW90")],
 ["exit status","stdout","output files"])
p("C04","A run that could not write its results does not report success",
 "If any operation on an output file or on standard output fails (no space, quota, I/O error, permission, a disk that fills up), the run ends with a non-zero status unless all outputs are complete and identical to those of the undisturbed run. Writes that are merely short or interrupted are continued, and the outputs are complete.",
 ["fault_sequences","inputs"],"for all command lines and sequences of faults on opens, writes, closes and renames of every output, including a disk with any number of free bytes",
 "No test makes a write fail, and output buffering moves the failure to a close or to the end of the interpreter.",
 ["irrep/cli.py","irrep/bandstructure.py","irrep/spacegroup.py"],
 [("outputs opened, written and closed","irrep/bandstructure.py write_trace, write_irrepsfile, write_plotfile; irrep/spacegroup.py write_sym_file; irrep/cli.py")],
 ["exit status","stdout","output files"])
p("C05","A run converges after any crash, whatever an earlier run left behind",
 "Whenever a run is killed at any point and only part of what it wrote is durable, or the directory holds outputs of an earlier run with other inputs or options, running again to completion produces exactly the results of a run in a fresh directory. A killed run leaves the input files as they were.",
 ["crash_points","histories"],"for all crash points, all durable subsets/prefixes of the files written, and all histories of up to several earlier runs in the same directory",
 "Tests start from a fixed directory state and never kill a run or pre-populate outputs.",
 ["irrep/cli.py","irrep/bandstructure.py","irrep/spacegroup.py"],
 [("outputs are rewritten from scratch and never read back","irrep/cli.py, irrep/bandstructure.py")],["output files after the rerun","input files"])
p("C06","Input files and foreign files are never touched",
 "A run opens its input files, the irrep tables and any file it does not own for reading only: it never writes, truncates, renames, removes or changes the mode of a file other than its documented outputs, no matter which operation fails or where it is interrupted. A completed run leaves behind only its documented outputs.",
 ["fault_sequences","crash_points","inputs"],"for all command lines, fault sequences and crash points; observed on every file operation the process makes",
 "Tests look at selected outputs after successful runs, not at the operations performed or the paths taken when something fails.",
 ["irrep/cli.py","irrep/bandstructure.py","irrep/readfiles.py","irrep/spacegroup.py","irreptables/irreptables/__init__.py"],
 [("modes with which files are opened","irrep/readfiles.py, irreptables/irreptables/__init__.py"),("names of the outputs","irrep/cli.py, irrep/bandstructure.py")],["every file operation","directory contents"])
p("C07","Interrupts and failed allocations never end in success with other results",
 "If a run receives an interrupt or a memory allocation fails, at whatever moment, it ends with a non-zero status or produces exactly the results of the undisturbed run; it does not go on with data missing.",
 ["schedules","fault_sequences"],"for all moments (every source line executed, every file operation, every large allocation) at which an interrupt or an allocation failure can arrive",
 "No test interrupts a run; handlers meant for missing data can swallow an interrupt or an allocation failure.",
 ALL,[("exception handlers","irrep/readfiles.py, irrep/bandstructure.py, irrep/spacegroup.py, irreptables/irreptables/__init__.py")],["exit status","stdout","output files"])
p("C08","What is read at a k-point does not depend on what else is read, or when",
 "For every code, the coordinates, energies, wave functions, characters and irreps reported for a k-point and a band are those stored in the files for that k-point and band, whichever other k-points are selected, repeated or skipped, in whichever order, whichever band window or spin channel is chosen, and whatever was read before in the same process. Energies, gaps and band-window results agree with the energies stored in the files.",
 ["histories","inputs"],"for all selections (subsets, permutations, repetitions) of k-points, band windows and spin channels, over all sequences of reads in one process, for the four codes",
 "Tests read one fixed selection per example, mostly in file order, and compare with stored output.",
 ["irrep/readfiles.py","irrep/bandstructure.py","irrep/kpoint.py"],
 [("position in the file / record arithmetic","irrep/readfiles.py"),("slicing of bands and energies","irrep/bandstructure.py"),("spin channels","irrep/readfiles.py ParserEspresso")],
 ["attributes of the band structure and its k-points","irrep-output.json","stdout"])
p("C09","Concurrent and repeated use in one process is isolated",
 "Band structures built, identified, separated and written out in several threads of one process, under every interleaving, give the results each gives alone. No operation changes its arguments or process-wide state: the working directory, the environment, global random generators, print options, warning filters, signal handlers or standard streams.",
 ["schedules","histories"],"for all interleavings at source-line granularity of two or three threads working on their own inputs, and all sequences of operations in one process",
 "The tests use one process and one thread each; an interleaving is never chosen.",
 ALL,[("no module-level mutable state","irrep/*.py"),("caches keyed by object","irrep/kpoint.py get_rho_spin"),("copies made by the separation by symmetry","irrep/kpoint.py, irrep/bandstructure.py")],
 ["results of each thread","arguments after the call","process-wide state"])
p("C10","All outputs of a run are complete and tell the same story",
 "Whenever a run ends with status zero, every output that the options ask for exists and is well-formed, and standard output, the trace file, the irreps file, the JSON file and the band-plot files agree with each other on k-points, degeneracies, energies, symmetries, characters and irreps. The energies and degeneracies agree with those in the input files, relative to the chosen Fermi energy, and the JSON file can be loaded back and holds the selected symmetries.",
 ["inputs","configurations","fault_sequences"],"for all inputs of the four codes, all combinations of output options, and all transparent I/O faults (short and interrupted reads and writes)",
 "The tests compare a few fields of one output with stored values for a handful of option sets; they never compare outputs with each other.",
 ["irrep/cli.py","irrep/bandstructure.py","irrep/kpoint.py","irrep/spacegroup.py"],
 [("writers","irrep/bandstructure.py write_characters, json, write_irrepsfile, write_trace, write_plotfile; irrep/kpoint.py; irrep/spacegroup.py json, str, write_trace")],
 ["stdout","trace.txt","irreps.dat","irrep-output.json","irreptable-template","bands-*.dat"])
p("C11","A written .sym file reads back as the same symmetries, a torn one is rejected",
 "Symmetry operations written to a .sym file and read back by another run with the same lattice parameter give the same operations, in the same order (or in that of the tables, in their cell), up to a lattice translation and the sign of spinor rotations, and the same characters. If the writing run crashed or ran out of space, or the file lost lines or its later blocks, the reading run ends with a non-zero status or produces the same results as with the intact file.",
 ["histories","crash_points","inputs"],"for all space groups, codes and lattice parameters; all write-read-write chains; all crash points of the writer and all cuts of the file at line ends",
 "One test writes and one reads a fixed file of one symmorphic group without translations, so that neither the sign nor the scale of translations matters.",
 ["irrep/spacegroup.py","irrep/cli.py","irrep/bandstructure.py"],
 [("writer","irrep/spacegroup.py write_sym_file, str_sym"),("reader","irrep/spacegroup.py read_sym_file, cart_to_crystal"),("option -alat","irrep/cli.py")],
 ["*.sym","trace.txt","irrep-output.json","exit status"])
p("C12","Files of different generations do not mix silently",
 "If a file of the set was left behind by, or replaced by that of, another calculation and the set is inconsistent in information that the formats store twice (lattice, numbers of plane waves, bands, k-points or spinor components, index of the k-point), the run ends with a non-zero status. It never reports success on data that contradict each other.",
 ["histories","inputs"],"for all pairs of calculations and all mixtures of their files that are inconsistent in redundant information",
 "The tests only read consistent sets; mixtures arise when a calculation is repeated over an old directory.",
 ["irrep/readfiles.py","irrep/bandstructure.py","irrep/gvectors.py"],
 [("POSCAR and WAVECAR lattice","irrep/bandstructure.py"),("numbers of plane waves","irrep/gvectors.py calc_gvectors; irrep/readfiles.py"),("indices and counts in UNK, .eig, WFK and wfc files","irrep/readfiles.py")],
 ["exit status"])
p("C13","Separation by symmetries partitions the states correctly",
 "Separating by one or several symmetries assigns each state of each k-point to exactly one subspace, the one whose label is its eigenvalue (or, grouping Kramers pairs, the real part of it) under each of the symmetries, and keeps its energy. The outcome does not depend on the basis in which degenerate states were delivered, nor on the history of earlier separations, and the original band structure is unchanged.",
 ["inputs","histories"],"for all crystals and gauges of the simulated DFT runs, all choices and orders of commuting symmetries, with and without grouping Kramers pairs",
 "One test separates one example by one symmetry, with files of one gauge.",
 ["irrep/bandstructure.py","irrep/kpoint.py","irrep/gvectors.py","irrep/cli.py"],
 [("matrix of a symmetry and its eigenvectors","irrep/gvectors.py symm_matrix; irrep/kpoint.py Separate, copy_sub"),("grouping of eigenvalues","irrep/bandstructure.py Separate"),("repeated separation","irrep/cli.py")],
 ["stdout","irrep-output.json","attributes of the subspaces"])
p("C14","Characters and irreps do not depend on the run of the DFT code",
 "The characters, degeneracies, irreps with multiplicities, inversion-odd counts and gaps agree with those computed independently from the physical states, for every code and option. They are the same for any two runs of a DFT code that differ only in what is physically arbitrary: phases and bases of degenerate states, order of plane waves, file format and its optional parts.",
 ["inputs","histories","configurations"],"for all space groups and crystals with and without spin-orbit coupling, seeds of the simulated DFT run (gauge, order of plane waves), the four formats, cutoffs, band windows and reference cells",
 "The tests check three examples from stored files; gauge, plane-wave order and format never vary there.",
 ["irrep/gvectors.py","irrep/kpoint.py","irrep/spacegroup.py","irrep/readfiles.py","irrep/bandstructure.py","irreptables/irreptables/__init__.py"],
 [("traces of symmetries","irrep/gvectors.py; irrep/kpoint.py calculate_traces"),("matching with the tables","irrep/spacegroup.py; irreptables/irreptables/__init__.py"),("selection and sorting of plane waves","irrep/gvectors.py calc_gvectors, sortIG")],
 ["irrep-output.json","stdout","irreps.dat"])
p("C15","Wilson-loop and Zak phases are gauge independent",
 "Wannier charge centres and total Zak phases of a closed path, for sets of bands closed at every point and with non-vanishing overlaps between points, agree (modulo 1 and modulo 2 pi) with those computed independently from the physical states, whatever phases and degenerate bases the DFT code delivered, whatever the order of plane waves, and with every code. The gaps and gap centres printed with them are those of the energies in the files.",
 ["inputs","histories"],"for all crystals, closed k-paths, band windows, formats and gauges of the simulated DFT run",
 "No test computes Wilson loops or Zak phases.",
 ["irrep/bandstructure.py","irrep/kpoint.py","irrep/cli.py"],
 [("overlaps","irrep/kpoint.py overlap"),("Wilson loop and Zak phase","irrep/bandstructure.py wcc, zakphase")],["stdout","return values"])
p("C16","The space group, its operations and the cell of the tables are the crystal's",
 "For every crystal of every space group, in any primitive cell, origin, orientation, order and labelling of atoms and rounding of coordinates, the space group and the operations identified are those of the crystal, with spinor rotations that represent them. The transformation found to the cell of the tables takes every operation to that of the tables, in their order; one that the user gives and that does not is rejected when its irreps are looked up, and one that does gives the irreps of the tables. All of this is the same whatever was identified before or at the same time in the process, and a table that cannot be read is an error.",
 ["inputs","histories","schedules","fault_sequences"],"for all crystals of all 230 groups, their cells, origins, orientations and orders of atoms, given or searched cells, histories of one process, two threads, faults while reading tables",
 "The tests identify a handful of crystals, in the cells their files happen to have, one per process.",
 ["irrep/spacegroup.py","irreptables/irreptables/__init__.py"],
 [("operations and identification","irrep/spacegroup.py SpaceGroup.__init__, determine_basis_transf"),("matching with the tables","irrep/spacegroup.py match_symmetries, get_irreps_from_table")],["return values","stdout","JSON file"])
p("C17","The irrep tables are consistent",
 "Every table lists a closed group of operations, and characters that are those of its irreducible representations.",
 ["inputs"],"for all 230 groups with and without spin","The tests touch a few tables.",["irreptables/irreptables/__init__.py"],[("IrrepTable","irreptables/irreptables/__init__.py")],["tables"])
p("C18","Unfolding gives the weights of the physical states",
 "The weights, and spin-resolved weights, that unfolding gives a degenerate set of states on a k-point of the zone of a smaller cell are those of the physical states: non-negative, summing to the number of states over all the points that fold onto their k-point, the same for any two runs of the DFT code that differ in phases, bases of degenerate states or order of plane waves, for parts separated by symmetries too, and whatever was asked before. Points that do not fold onto the k-point are refused, and lengths along (unfolded) paths are those of the points given.",
 ["inputs","histories"],"for all crystals, supercell matrices, k-points, thresholds, gauges and formats of the simulated DFT run, and orders of calls",
 "No test unfolds.",["irrep/kpoint.py","irrep/bandstructure.py"],[("unfold, get_rho_spin","irrep/kpoint.py"),("KPOINTSline","irrep/bandstructure.py")],["return values"])
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80
    assert x["statement"].count(". ")<=2, x["id"]
