"""The properties, and how each is decided: source of properties.jsonl and MANIFEST.json."""

S = "src/plaquette/"
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                  files=[S + f for f in files], mech=[{"name": n, "where": S + w} for n, w in mech],
                  technique=technique, note=note,
                  state=[{"name": n, "meaning": m, "where": S + w} for n, m, w in state]))


prop(
    "C01", "The built-in simulator executes Clifford circuits as quantum mechanics does",
    "For every circuit of Clifford gates, measurements and resets (gates on any number of qubits, qubits repeated, any order), executing it on the built-in stabilizer simulator leaves a valid tableau of exactly the state that quantum mechanics prescribes given the recorded outcomes, and every measurement outcome occurs with exactly its quantum probability. Results are recorded once per measured qubit, in program order, and measuring again without a gate in between repeats the result.",
    ["programs", "inputs", "schedules"],
    "All programs over the gate set on any number of qubits, from every stabilizer state, and every sequence of random outcomes.",
    "The tests run a few fixed circuits and compare some tableaux; they never enumerate random outcomes or states.",
    ["device/_circuitsim.py", "pauli.py", "device/__init__.py"],
    [("gate dispatch and measurement record", "device/_circuitsim.py"), ("tableau update rules, measure, reset", "pauli.py")],
    "TLA+ stabilizer-formalism specification, model checked with TLC; every random branch of recorded executions of the simulator validated against it as a behaviour",
    "Specification laws are exhaustive for two qubits; executions: all gates on all reachable one-qubit (thorough: two-qubit) states, plus random programs up to six qubits.",
    [("tableau", "destabilizers and stabilizers with signs", "device/__init__.py"), ("meas_results", "measurement record", "device/_circuitsim.py")])

prop(
    "C02", "Noise instructions act as the documented error channels",
    "For every circuit with noise (depolarising, erasure, one- and two-qubit Pauli channels, blocks of correlated errors with alternatives and continuations), the built-in simulator applies each possible error with exactly the probability written in the circuit and to exactly the stated qubits, in the stated order of Pauli letters. At most one branch of a block is applied, continuations accompany exactly their own branch, and each erasure instruction adds exactly one entry to the erasure record, true iff the erasure happened.",
    ["programs", "inputs", "schedules"],
    "All programs with noise, all probabilities, all random decisions.",
    "The tests look at single gates with probability 0 or 1, or at sampled frequencies.",
    ["device/_circuitsim.py", "circuit/__init__.py"],
    [("error channels and error blocks", "device/_circuitsim.py")],
    "TLA+ probabilistic transition relation; the full branching of the simulator's random decisions, with exact weights, validated against it with TLC",
    "Probabilities are multiples of 1/16; programs up to five qubits.")

prop(
    "C03", "The Stim backend samples the same distribution as the circuit prescribes",
    "For every circuit accepted by the Stim backend, measurement results and erasure indications follow the same joint distribution that the circuit's own semantics prescribes, with results in program order and erasures separated from measurements. A circuit feature that Stim cannot express is refused instead of silently changed.",
    ["programs", "inputs"],
    "All circuits over the full instruction set.",
    "The tests compare a handful of translated circuits textually and check few outcomes.",
    ["device/_stimsim.py"],
    [("translation of every instruction; erasure results told apart from measurements", "device/_stimsim.py")],
    "TLA+ specification yields the exact joint distribution of each circuit; TLC compares it with the sampled one (exact support, bounded deviation)",
    "Support is compared exactly; frequencies within a deviation of more than six standard deviations, 8192 samples per circuit.")

prop(
    "C04", "Sessions on a device return exactly the results of the runs they belong to",
    "For every history of running circuits, building on them, resetting, sampling and switching circuits on any number of devices, the results returned are those of a run of the circuit that was asked for, in the form it had at that time. Runs with reset start from the all-zero state and return one run's results; runs without reset continue from the present state and append; devices and circuits do not influence each other, and the same seed, given when a device is made or reset, gives the same results.",
    ["histories"],
    "All histories of device operations on shared circuits.",
    "The tests use a device once or twice with a fixed circuit.",
    ["device/__init__.py", "device/_circuitsim.py", "device/_stimsim.py"],
    [("backend kept or replaced on run", "device/__init__.py"), ("batching and recompilation", "device/_stimsim.py")],
    "TLA+ session state machine, model checked with TLC; random histories on real devices replayed through it",
    "Histories of up to 4-5 operations over up to two devices and circuits; model-checked exhaustively for short histories.")

prop(
    "C05", "Circuits keep exactly the instructions they were given",
    "For every sequence of appended instructions, through strings, arguments or the builder, a circuit contains exactly the valid ones in order, its text form parses back to an equal circuit, and its qubit count is one more than the largest qubit used. Unknown gates (also inside error blocks), qubits that are not integers, error channels with the wrong number of arguments and error blocks with a probability outside [0, 1] are rejected and leave the circuit unchanged.",
    ["histories", "inputs"],
    "All histories of editing operations with valid and invalid instructions.",
    "The tests cover fixed examples of each gate.",
    ["circuit/__init__.py"],
    [("argument validation and parsing", "circuit/__init__.py")],
    "TLA+ document model, model checked with TLC; editing sessions on the real classes replayed through it",
    "Random sessions over all gates, argument forms and kinds of mistakes.")

prop(
    "C06", "OpenQASM export has the same effect as the circuit",
    "For every exportable circuit, the OpenQASM program declares enough qubits and classical bits and performs the circuit's gates on the same qubits in the same order, with each measurement result stored in its own classical bit in program order. Circuits with instructions that have no OpenQASM form are refused.",
    ["programs"],
    "All circuits, including broadcast gates and repeated measurements.",
    "The tests compare three fixed texts.",
    ["circuit/openqasm.py"],
    [("translation of each gate", "circuit/openqasm.py")],
    "TLA+ specification of the exported program; exports of generated circuits parsed and validated with TLC",
    "Random circuits over the whole gate set. Known finding: resets are dropped.")

prop(
    "C07", "Codes are valid stabilizer codes with the promised parameters",
    "Every built-in code of every supported size (two or larger; odd and three or larger for the repetition code) is a valid stabilizer code with the documented number of qubits, stabilizers and logical qubits and the documented distance, its operators are those of its lattice, and its qubits are numbered consistently (data qubits first, then stabilizer ancillas, then logical ancillas). For codes given by operators, validation accepts exactly the valid ones (including independence of the generators when asked), equality means equal operators, and selections of logical operators by letters or indices denote the operators documented, invalid selections being refused.",
    ["inputs", "configurations"],
    "All families and sizes; all operator sets and selections.",
    "The tests cover a few sizes and never compute a distance.",
    ["codes/__init__.py", "codes/latticeinstances.py", "codes/latticebase.py"],
    [("lattice construction", "codes/latticeinstances.py"), ("check, equality, logical selection", "codes/__init__.py")],
    "TLA+ specification of stabilizer codes (commutation, rank, exact distance by search); recorded codes judged by TLC",
    "Sizes up to 7 (thorough: 9); distances by exhaustive search over errors for small codes, by shortest homologically nontrivial chain otherwise.")

prop(
    "C08", "Editing a lattice keeps its vertices, edges and indices consistent",
    "After every sequence of lattice edits (adding and removing qubits, operators and edges, joining and multiplying stabilizers, reindexing) the lattice's vertices, edges, neighbour relations, positions and operators describe one and the same graph, exactly the one the edits produce. Joining stabilizers multiplies them as Pauli operators, and adding to an occupied position, duplicating an edge, removing a vertex that still has edges, or joining operators with different Pauli factors on a shared qubit is refused. A measurement order gives every stabilizer edge the time step of its direction, also across periodic boundaries; lookups by position or index find exactly the vertex there, or report that there is none of that kind.",
    ["histories"],
    "All sequences of edits on all lattices.",
    "The tests apply single edits to one lattice.",
    ["codes/latticebase.py"],
    [("removal and merging of vertices", "codes/latticebase.py")],
    "TLA+ lattice state machine; random edit histories on real lattices replayed step by step with TLC",
    "Histories of 25-40 edits (and an exhaustive model of short ones) on planar, rotated, toric and hand-made lattices.")

prop(
    "C09", "Codes with fabrication errors stay valid codes or are refused",
    "For every code and every set of faulty qubits, gates and stabilizers, applying the fabrication errors yields a valid code that uses no faulty element: it stays consistent with its lattice, its operators commute as required, and its logical operators are equivalent to the original ones. If no logical operator can avoid the faults, this is reported as an error; elements named by index or by position mean the same, and elements of the wrong kind are refused.",
    ["inputs", "fault_sequences"],
    "All codes and all sets of faults.",
    "The tests remove a few fixed qubits from small planar codes.",
    ["codes/latticebase.py", "codes/__init__.py"],
    [("superstabilizers, logical operator rerouting", "codes/latticebase.py")],
    "TLA+ specification of fabrication repair, model checked with TLC for all small fault sets; recorded applications validated against it",
    "All sets of up to 3 faults on small planar codes, random fault sets on larger ones.")

prop(
    "C10", "Generated QEC circuits measure the code and nothing else",
    "For every code, number of rounds, selection of logical operators and either way of measuring logicals, the generated circuit measures the selected logical operators, then every stabilizer generator once per round (one initial round, then the requested number), then the logical operators again. A Pauli error on data qubits just before a round flips exactly the syndrome bits of that round whose stabilizers anticommute with it, and flips exactly the logical values it anticommutes with; without errors the syndrome is zero and every logical operator keeps its value. Operators that cannot be measured, and logical operators that do not commute, are refused. A generator can be used repeatedly; each circuit is the one asked for.",
    ["programs", "configurations", "inputs", "fault_sequences"],
    "All codes (built-in, from operators, with fabrication errors), rounds, selections, measurement schedules; all patterns of data errors and outcomes at once, symbolically.",
    "The tests compare gate lists of one small code and sample few syndromes.",
    ["circuit/generator.py", "codes/latticebase.py", "codes/latticeinstances.py"],
    [("sequential and parallel measurement schedules", "circuit/generator.py"), ("time steps of edges", "codes/latticebase.py")],
    "TLA+ symbolic execution of every generated circuit by TLC (outcomes and data errors as GF(2) variables); obligations model checked on reference circuits",
    "Built-in codes up to size 5, all selections and ways of measuring; random codes up to seven qubits with any valid measurement schedule; lattices with fabrication errors.")

prop(
    "C11", "Error data appears in the generated circuit exactly where it belongs",
    "Given valid error data, each round starts with the configured Pauli channel and then the configured erasure of each data qubit; in every round but the last, each gate on a stabilizer's ancilla is followed by its configured error channel, and a measurement error flips the ancilla just before it is read out. State preparation, the last round's measurements and logical measurements carry no such errors, probabilities and Pauli letters are those of the error data, and there are no other errors. Error data naming unknown errors, unknown parameters or qubits of the wrong kind is refused; neither the error data nor the code is modified.",
    ["configurations", "inputs"],
    "All codes, rounds and error data.",
    "The tests check the last instruction for single errors on one code.",
    ["circuit/generator.py", "errors/__init__.py"],
    [("insertion of errors", "circuit/generator.py"), ("validation of error data", "errors/__init__.py")],
    "TLA+ placement rules; generated circuits compared by TLC with the specified ones up to commuting independent instructions",
    "Random error data of all kinds on the codes of C10, 1-4 rounds.")

prop(
    "C12", "Raw results are unpacked into logical values, syndromes and erasures",
    "For every code, selection of logical operators and way of measuring them, the raw results of a run are split into initial and final logical values (parities over the qubits of each operator), one block of stabilizer results per round, and erasure flags per round and data qubit; the syndrome is the change of each stabilizer result from one block to the next and the toggle the change of each logical value. Results or erasure data of the wrong length are refused, and the input is not modified.",
    ["inputs", "configurations"],
    "All codes, rounds, selections and result vectors.",
    "The tests unpack one or two vectors of a symmetric code.",
    ["device/__init__.py"],
    [("unpacking of measurement samples", "device/__init__.py")],
    "TLA+ functional specification of the layout; random and simulated results unpacked by the code and judged by TLC",
    "Random vectors of right and wrong lengths, and results of real runs on both simulators.")

prop(
    "C13", "The syndrome graph represents exactly the errors of the code",
    "For every code, number of rounds and error data, the syndrome graph has one vertex per stabilizer and round, one edge per X and Z error of each data qubit and round, and one edge per measurement error between successive rounds; an edge ends at exactly the stabilizers the error anticommutes with. Edge weights are ln((1-p)/p) for the summed probability of the Paulis that cause the error (X and Y, or Z and Y, and on request half the erasure probability as an independent source; user-supplied weights are used as given); impossible errors and all but the lightest of parallel edges are disabled. Syndromes and erasures are mapped into the graph's connected components, and the selected edges are mapped back to the Pauli frame whose effect they are; stale results are not reused. Codes with errors that affect more than two stabilizers, and contradictory arguments, are refused; the weight check for decoders refuses weights that are no numbers or negative and reports zero and infinite ones.",
    ["inputs", "configurations", "histories"],
    "All codes, rounds, error data, syndromes, erasures and selected edges.",
    "The tests look at the graphs of two small codes and at hand-picked edges.",
    ["syngraph/__init__.py", "decoders/interfaces.py"],
    [("construction of the syndrome graph, weights, components", "syngraph/__init__.py")],
    "TLA+ definition of the syndrome graph (model checked: explanations of a syndrome are exactly corrections of the error); graphs and mappings of the code judged by TLC",
    "Built-in codes, random codes and codes with fabrication errors, 1-4 rounds.")

prop(
    "C14", "Every decoder returns a correction that explains the syndrome",
    "For every decoder, graph or code, weights and erasures, and every sequence of runs, the correction has exactly the given syndrome and uses only errors that are possible. A syndrome that no error can cause is reported as an error; so are erasures given to a decoder that cannot handle them, negative weights, and weights for only some edges. New weights or graphs announced between runs take effect from the next run on. The result does not depend on earlier runs or weights, and the inputs (error data included) are not modified.",
    ["inputs", "configurations", "histories"],
    "All graphs and codes, weights, syndromes, erasures and sequences of runs.",
    "The tests decode a few single errors on small surface codes.",
    ["decoders/fusionblossom.py", "decoders/matching.py", "decoders/unionfind_decoder.py", "decoders/unionfind_interfaces.py", "decoders/interfaces.py"],
    [("union-find", "decoders/unionfind_decoder.py"), ("matching", "decoders/matching.py"), ("decoder interface", "decoders/interfaces.py")],
    "TLA+ specification of decoding problems and of union-find under any growth order (model checked, including termination); recorded runs of all decoders judged by TLC",
    "Graphs of up to seven vertices; codes with up to 90 possible errors.")

prop(
    "C15", "Matching decoders find corrections of minimum weight",
    "For every graph or code and all positive weights (equal weights if none are given), the correction of the PyMatching decoder has the least total weight of all corrections of the syndrome. So has that of the Fusion Blossom decoder, except that weights are rounded to hundredths of the largest one; erased edges weigh nothing there.",
    ["inputs", "configurations"],
    "All graphs, weights, syndromes and erasures.",
    "The tests never compare the weight of a correction with alternatives.",
    ["decoders/fusionblossom.py", "decoders/matching.py", "decoders/interfaces.py", "syngraph/__init__.py"],
    [("weights passed to the libraries", "decoders/fusionblossom.py"), ("weights passed to the libraries", "decoders/matching.py")],
    "TLA+ minimum over all corrections (dynamic programming, cross-checked by model checking against enumeration); TLC compares the weight of each recorded correction with it",
    "Exact minimum on graphs of up to nine vertices.")

prop(
    "C16", "Union-find corrects within the region it grows, smallest clusters first",
    "For every graph, syndrome and set of erased edges, union-find starts from the clusters formed by the erased edges; as long as there are clusters with an odd number of syndrome vertices and no dangling edge, those with the fewest boundary vertices grow by half an edge (with weights: by an increment inversely proportional to the edge's weight, the lightest edge growing fastest, scaled by the normalization coefficient), and it stops as soon as all clusters are neutral. The correction lies within the grown region; if the erased edges explain the syndrome, nothing grows.",
    ["inputs", "schedules"],
    "All graphs, weights, syndromes and erasures.",
    "The tests check corrections of single cases, not the region or the growth order.",
    ["decoders/unionfind_decoder.py", "decoders/unionfind_interfaces.py"],
    [("growth and peeling", "decoders/unionfind_decoder.py")],
    "TLA+ union-find state machine, model checked on codes of distance 3 and 4 (it corrects all 2t+s<d errors if and because smallest clusters grow first); grown regions of the code compared by TLC with the specified ones",
    "Graphs of up to seven vertices; weights that are powers of two where the region is compared exactly.")

prop(
    "C17", "Errors within the guarantee of the code are corrected",
    "For the built-in surface and repetition codes of distance d and equally likely errors, every decoder corrects every pattern of t errors on qubits or in measurement results together with any errors on s erased qubits (for decoders that accept erasures) as long as 2t+s < d: correction and errors together act as a stabilizer, also when the errors are put into the circuit and the run, the unpacked results and the decoder are used as a whole. The verdict on a correction is success if and only if the change of each selected logical value equals what the correction predicts.",
    ["inputs", "fault_sequences", "configurations"],
    "All patterns of errors within the guarantee, all decoders, and all corrections and results for the verdict.",
    "The tests decode a handful of single errors, or look at success rates of random runs.",
    ["decoders/decoderbase.py", "decoders/interfaces.py", "syngraph/__init__.py", "device/__init__.py", "circuit/generator.py"],
    [("verdict on a correction", "decoders/decoderbase.py"), ("erasures, duplicate edges", "syngraph/__init__.py")],
    "TLA+ model: union-find (smallest clusters first) and minimum-weight corrections correct every pattern with 2t+s<d, model checked; recorded corrections and complete runs judged by TLC",
    "Exhaustive for codes of distance 2 and 3 in the thorough tier (mostly in the quick one), random patterns up to distance 7; up to three rounds. Excluded (known finding): erasures on codes of distance 2 in which logically different errors have the same syndrome.")

prop(
    "C18", "The error description determines exactly the errors that are simulated",
    "An ErrorData object behaves as a document: built from a lattice and a configuration, from data frames or from CSV files, edited by adding, updating and overwriting qubit and gate errors and by enabling or disabling them, it always holds the values last given (missing values leave what is stored, refused changes leave everything), and its dictionaries hold exactly the enabled errors with a value: Pauli and erasure probabilities of data qubits, measurement errors of stabilizer qubits, and for each gate and its qubits the channels of the last enabled row. Templates list every qubit with zero probabilities. Gaussian errors are probabilities with the given mean and spread, reproducible from plaquette.rng, saving and loading loses nothing, and the check against a code refuses exactly the errors of other qubits or unknown channels.",
    ["histories", "inputs", "configurations"],
    "All histories of edits, all tables, files and configurations.",
    "The tests look at single calls; updating, files and the dictionaries are skipped tests.",
    ["errors/__init__.py"],
    [("update, files", "errors/__init__.py"), ("dictionaries", "errors/__init__.py")],
    "TLA+ document model of error descriptions, model checked over all short histories; recorded histories of the code (data frames, files, configurations) validated step by step by TLC",
    "Random histories of up to seven steps on four small codes; the model exhaustively over three (thorough: four) steps.")

prop(
    "C19", "Pauli operators obey their algebra, in binary form and in writing",
    "For all Pauli operators on any number of qubits: products have the body and the exact complex phase of the matrix product (the sign bit stands for -1 and -i), commutators between operators, lists and states are those of the matrices, tensor products and padding place every factor on its qubits, applying an operator to rows is the product with each. Texts are read as documented: canonical or short form, optional sign, separators ignored, on the requested number of qubits; anything else is refused. Writing an operator as text or dictionary and reading it back gives the same operator (dictionaries drop the sign). Arguments are not modified.",
    ["inputs"],
    "All operators of any size, all texts and dictionaries.",
    "The tests multiply and print a few operators of up to three qubits; reading strings is untested.",
    ["pauli.py"],
    [("products and commutators", "pauli.py"), ("strings", "pauli.py")],
    "TLA+ Pauli group with phases (checked against matrices) and grammar of operator texts (model checked over all short texts); recorded calls judged by TLC",
    "Random operators of up to 150 qubits, products of up to five factors. Known finding: products of more than two factors count signs of intermediate products twice. Short forms that name a qubit twice or have inner signs are left open.")

prop(
    "C20", "Stabilizer states evolve exactly under gates, measurements, resets, new qubits",
    "For every history of operations of plaquette.pauli on a state: after each step the tableau is that of the exact stabilizer state, for gates on single qubits or lists of them, measurements of any signed Pauli operator, measurements in the X or Z basis of one or several qubits, destructive or with forced outcomes, resets to either eigenstate of X, Y or Z, insertion of new qubits in |0> anywhere, and tensor products; every stabilizer row anticommutes with its own destabilizer only. Random outcomes are fair and independent, outcomes that are determined are never random and cannot be forced. States read from strings are exactly the states described; dependent, anticommuting or too few stabilizers and wrong destabilizers are refused, and so are malformed single-qubit operators. State objects behave like the arrays they hold, and printed states show exactly their stabilizers.",
    ["inputs", "histories", "schedules"],
    "All stabilizer states, all histories of operations, all random outcomes.",
    "The tests apply single operations to hand-written tableaus; many functions say that tests are missing.",
    ["pauli.py"],
    [("measurement", "pauli.py"), ("insertion and tracing out of qubits", "pauli.py"), ("strings to states", "pauli.py")],
    "TLA+ states as full stabilizer groups; model checking over all stabilizer states of two to four qubits shows that the tableau algorithm refines them; recorded histories with all random branches validated step by step by TLC",
    "Histories of up to twelve steps on up to five qubits, every random branch of every step.")

prop(
    "C21", "Experiment configurations say what is configured, in memory and in files",
    "Configurations behave as documents. Reading a dictionary, a TOML or a JSON file gives every part exactly the values written there and the documented defaults for those left out; it modifies neither the dictionary nor configurations read before. Values that make no sense (unknown codes, devices, decoders or distributions, sizes, rounds or shots below one, parameter lists that do not fit the distribution, channels that do not fit the gate, missing files) are refused, on reading as on updating; everything valid is accepted. Updating changes the named values of that one part only, so that after any history of updates each part holds the values last given. Writing a configuration as a dictionary or file and reading it back gives the same configuration. The simulated errors are exactly those that are given, enabled and not switched off by the sample flag, with their parameters and file.",
    ["configurations", "histories", "inputs"],
    "All documents, all histories of reading, changing, replacing and writing.",
    "The tests read a few fixed files and look at single attributes; updates and writing are hardly tested.",
    ["frontend/__init__.py", "frontend/schemas.py"],
    [("parts of the configuration", "frontend/__init__.py"), ("schema of files", "frontend/schemas.py")],
    "TLA+ document model of configurations (reading, defaults, validity, changes, writing), model checked; recorded histories on real configurations and files validated step by step by TLC",
    "Random histories of up to eight steps; the model over all documents of a reduced vocabulary. Open: what a refused update leaves behind; parameters without a distribution.")

prop(
    "C22", "An experiment simulates what is configured and reports the failure rate",
    "For every history of configuring, building (all parts or one by one) and using an experiment: each part found is the one last built, from the configuration and the other parts at that time; parts not built are reported as such, parts cannot be built without those they depend on, and building everything brings everything up to date; drawings and error templates are those of the code built. Code, errors, circuit, device and decoder are the configured ones: the errors are those of the error configuration (none if none are sampled), the circuit contains exactly these errors and measures the configured logical operator, or is that of the file, the decoder knows the error probabilities if and only if it is weighted. The result of a run is the fraction of exactly the configured number of shots, on the configured simulator, in which the corrected logical operators differ: zero for errors that are corrected, one for certain logical errors, the exact failure probability within statistics otherwise. Equal seeds give equal results, other seeds other shots.",
    ["configurations", "histories", "inputs", "schedules"],
    "All configurations, all orders of building, all errors.",
    "The tests build each part of one configuration; running an experiment is not tested.",
    ["frontend/__init__.py", "errors/__init__.py", "circuit/generator.py", "device/__init__.py"],
    [("building and running", "frontend/__init__.py")],
    "TLA+ model of experiments (what every part was built from; which errors make a run fail; exact odds for repetition codes), model checked; recorded histories and runs of real experiments validated by TLC",
    "Histories of up to nine steps over two or three codes, two error models and all devices and decoders; runs with certain errors on codes of up to 32 qubits, failure odds of repetition codes within five standard deviations of 200-300 shots.")

prop(
    "C23", "Peeling finds a correction within the erasure; subgraphs stay consistent",
    "For every graph (parallel and dangling edges included), set of erased edges and syndrome that errors on the erased edges can cause, and for every sequence of runs, the erasure decoder returns one truth value per edge, selecting only erased edges, whose boundary is exactly the syndrome; its inputs are not modified and the result does not depend on earlier runs. The forest it constructs spans exactly the erased vertices, has no cycles and no tree with two dangling edges, and has a dangling edge in every tree of a cluster that has one. After every sequence of operations on a subgraph (reset, enabling and disabling vertices, edges and lists of edges, updating or clearing neighbours, popping leaves, copying) the enabled vertices and edges, the neighbours and the leaves are those of the operations; edges without enabled ends, and disabling vertices that have edges, are refused.",
    ["inputs", "histories"],
    "All graphs, erasures, syndromes, sequences of runs and histories of operations.",
    "The tests decode a few erasures of one small graph and check single operations.",
    ["decoders/unionfind_erasure.py"],
    [("peeling decoder, subgraphs", "decoders/unionfind_erasure.py")],
    "TLA+ peeling decoder with every spanning forest and peeling order (model checked), and state machine of subgraphs; recorded decodings and histories of operations validated by TLC",
    "Graphs of up to nine vertices. Syndromes that the erasure cannot explain are left open.")

prop(
    "C24", "Drawings show exactly the code, the errors and the circuit",
    "For every two-dimensional lattice (also after edits), syndrome, error and correction, and every sequence of drawings by one visualizer: the drawing has exactly one mark per data qubit, stabilizer and logical operator at its position, of its kind (toggled if and only if its syndrome is set) and labelled with its numbers or name, one segment per edge for its Pauli factor, and one mark for every X and Z factor of the error and the correction next to its qubit, none hidden; options leave out exactly what they name. Error probabilities are shown at their qubits. Grey drawings grey everything but syndrome, errors and corrections; afterwards, also if a drawing fails, the colors are as before. Matplotlib drawings show the same code. Wrong numbers of syndrome bits, probabilities or operators, and lattices of other dimensions, are refused; inputs are not modified. A drawn circuit has exactly the gates and measurements of the circuit; circuits with errors are refused.",
    ["inputs", "configurations", "histories"],
    "All lattices, syndromes, errors, options, circuits and sequences of drawings.",
    "The visualizer has no tests.",
    ["visualizer/__init__.py", "circuit/openqasm.py"],
    [("drawing lattices and circuits", "visualizer/__init__.py")],
    "TLA+ specification of pictures from which the lattice can be read off (model checked), and of grey and plain drawings; the parts of recorded figures compared with it by TLC",
    "Built-in, edited and random lattices of up to 81 vertices. What is drawn is read from the Plotly, Matplotlib and Qiskit objects, not from pixels. Resets are missing in drawings because they are missing in the export (known finding of C06).")

prop(
    "C25", "Devices of plugins pass every request on to their own backend",
    "For every history of registering plugins, creating devices and using them: a name that is neither built in nor registered is refused; a device of a plugin creates one backend of its own, at once and with exactly the given arguments, and passes every request on to it and no other (running a circuit with the number of shots, one unless given; sampling, completion, reset with arguments, stepping, state, number of qubits, the circuit), in order, exactly once, and hands back its answers and failures. Built-in simulators report no completion and are unaffected by plugins.",
    ["histories", "configurations"],
    "All histories of registering, creating and using devices.",
    "The tests have no plugin; only the built-in devices are created.",
    ["device/__init__.py"],
    [("devices and backends", "device/__init__.py")],
    "TLA+ model of devices and their backends (model checked); recorded histories with logging backends validated by TLC",
    "Up to 14 requests on several devices of up to three plugins. Plugins are injected into the table of recognized devices instead of being installed.")
