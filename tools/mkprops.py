"""Writes properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
S = "src/"
prop("C01", "Error-free runs give every detector and the observable one fixed value",
  "When no error happens, every detector and the logical observable annotated in a generated memory-experiment circuit takes the same fixed value on every run, whatever random outcomes the individual measurements give. This holds for every supported grid size, number of sub-rounds (1 or more), circuit style (SD6, PC3, EM3, EM3_v2, SI1000), noise strength and preserved observable, including long circuits whose steady state is compressed into a loop; such a layout always produces a circuit.",
  ["inputs", "configurations"], "all layouts: width a multiple of 2, height a multiple of 6, sub_rounds >= 1 (multiple of 3 for SI1000), 5 styles, obs H/V; all measurement outcomes",
  "The tests build error models only for widths <= 8, sub_rounds <= 23, four styles and one noise value; a fault in the loop folding, in a larger grid or in EM3_v2 is never executed.",
  [S+"honeycomb_circuit.py", S+"honeycomb_layout.py", S+"measure_tracker.py"],
  [("generate_honeycomb_circuit / generate_rounds_*", S+"honeycomb_circuit.py"), ("MeasurementTracker", S+"measure_tracker.py")],
  ["HoneycombLayout(...).make_circuit()"])
prop("C02", "Circuits perform exactly the requested honeycomb measurement schedule",
  "A generated circuit performs exactly the requested number of sub-rounds: sub-round k measures, in order and exactly once, the two-qubit parity of every type-(k mod 3) edge of the periodic honeycomb lattice in basis X, Y, Z for k mod 3 = 0, 1, 2, and after the last one every data qubit is measured exactly once. The joint statistics of all these outcomes are those of the ideal schedule started in the preserved observable's basis, and no qubit takes part in two operations of one time step, for every supported size, style, observable and sub-round count. Unsupported requests (zero or fewer sub-rounds, SI1000 with a count that is not a multiple of 3, empty sizes or sizes off the lattice period, unknown style or observable) are refused instead of producing a different circuit.",
  ["inputs", "configurations"], "all supported layouts as in C01; all sub-round counts up to the bound, both sides of every loop-folding threshold",
  "Six golden circuits pin a few (size, count) pairs; nothing checks that other counts produce that many rounds, or that the compiled gates still measure the right edges.",
  [S+"honeycomb_circuit.py", S+"honeycomb_layout.py"],
  [("pipelining and loop folding", S+"honeycomb_circuit.py"), ("round_edges", S+"honeycomb_layout.py")],
  ["measurement record of make_circuit()"])
prop("C03", "The annotated observable is the requested logical operator",
  "In every supported circuit exactly one logical observable is annotated, number 0 for the vertical and number 1 for the horizontal one, and it records the requested logical operator of the code: preparing the state with the opposite eigenvalue of that logical operator flips the recorded observable and fires no detector. The logical operators a layout reports before each sub-round turn into one another by multiplying in the parities measured along the observable's path, commute with everything measured in between, and the horizontal and vertical ones at the same sub-round anticommute.",
  ["inputs", "configurations"], "all supported layouts; every sub-round index (period 6)",
  "No test looks at which operator the observable is; an observable that became trivial, or another logical qubit's, would still give a valid error model.",
  [S+"honeycomb_circuit.py", S+"honeycomb_layout.py"],
  [("obs_h_before_sub_round / obs_v_before_sub_round / obs_edges", S+"honeycomb_layout.py"), ("OBSERVABLE_INCLUDE accumulation", S+"honeycomb_circuit.py")],
  ["make_circuit()", "obs_*_before_sub_round"])
prop("C04", "Every available stabilizer comparison is annotated as one detector",
  "The detectors of a generated circuit are exactly the comparisons the schedule makes available: each hexagon's stabilizer against its previous known value every time it is re-measured (including the values known from initialisation and the ones recovered from the final data measurement), plus the edges whose parity is known at initialisation (X-basis starts) or recoverable at the end, each annotated once. Each detector carries the coordinates of its hexagon or edge centre and, as third coordinate, the number of sub-rounds completed before the one that determined it.",
  ["inputs", "configurations"], "all supported layouts, all sub-round counts up to the bound",
  "Dropping or misplacing a detector keeps every circuit valid and every non-golden test green; only the decoding quality silently degrades.",
  [S+"honeycomb_circuit.py", S+"measure_tracker.py"],
  [("append_detector calls", S+"honeycomb_circuit.py"), ("obstacles and dummies", S+"measure_tracker.py")],
  ["detectors and coordinates of make_circuit()"])
prop("C05", "Circuits really have the code distance that is advertised",
  "The code distance reported for a layout is the smallest number of single-qubit errors between sub-rounds that can flip one of the two preserved observables without firing a detector: the width for V and two thirds of the height for H, the smaller one being advertised. Under the full circuit noise of the ancilla-based styles (SD6, PC3, SI1000) the smallest undetected logical error needs as many faults as the width for V and, from four sub-rounds on (six for SI1000), half the height for H; with direct pair measurements (EM3, EM3_v2) half the width (from two sub-rounds on) and a third of the height. Shorter experiments never have a smaller distance than these.",
  ["inputs", "fault_sequences"], "all sets of faults up to the distance, all supported layouts up to the size bound",
  "No test computes a distance; a schedule or detector change that halves it leaves all tests passing.",
  [S+"honeycomb_circuit.py", S+"honeycomb_layout.py", S+"noise.py"],
  [("code_distance_1qdep", S+"honeycomb_layout.py"), ("detector annotation and gate order", S+"honeycomb_circuit.py")],
  ["make_circuit()", "as_decoder_problem_desc().code_distance"])
prop("C06", "Any single fault of a memory experiment is decoded correctly",
  "Every supported noisy circuit yields an error model that decomposes into graph edges. For noise strengths up to 1%, in every circuit whose smallest undetected logical error needs at least three faults, decoding the detection events caused by any one fault mechanism of the circuit predicts exactly the observable flips that fault causes; with no detection event no flip is predicted.",
  ["inputs", "fault_sequences"], "every single fault mechanism of every supported circuit up to the size bound",
  "Tests only run the decoder on 100 random shots without looking at the result (and one statistical test at a single size).",
  [S+"decoding.py", S+"honeycomb_circuit.py", S+"noise.py"],
  [("decode_using_pymatching", S+"decoding.py"), ("detector_error_model_to_pymatching_graph", S+"decoding.py")],
  ["decode_using_pymatching(circuit, det_samples)"])
prop("C07", "Layouts describe a consistent 3-coloured honeycomb torus",
  "For every supported size the layout is a honeycomb lattice on a torus: each data qubit touches exactly one edge of each of the three types and one hexagon of each of the three types, the edges of one type pair up all data qubits, each hexagon has six distinct qubits and six edges that split into the two alternating edge types other than its own (on the narrowest torus the same qubit pair may be joined by two edges), and coordinate wrapping is periodic. Qubit indices are a gap-free numbering with data qubits first. The used qubits and the advertised qubit count, distance, rounds, size, noise, observable, style and legend label of the decoding problem agree with the circuit produced.",
  ["inputs", "configurations"], "all widths (multiples of 2) and heights (multiples of 6) up to the bound, all styles",
  "Tests pin the 2x6 tile and a few lists for two other sizes.",
  [S+"honeycomb_layout.py"],
  [("HoneycombLayout geometry methods", S+"honeycomb_layout.py"), ("as_decoder_problem_desc", S+"honeycomb_layout.py")],
  ["HoneycombLayout attributes", "as_decoder_problem_desc", "make_circuit"])
prop("C08", "Layouts, circuits and noise are independent of history and process",
  "What a layout answers, the circuit it generates and the noise inserted into a circuit depend only on the arguments: not on which layouts, observables, styles, noise levels or queries were used before in the process, on how often or in what order attributes are read, nor on hash randomisation or on what callers later do with circuits they were given. Building a problem description, a circuit or a noisy circuit never changes the layout or the circuit given as input.",
  ["histories", "inputs"], "all sequences of queries over several layouts up to the depth bound; several hash seeds",
  "Tests use fresh layouts one at a time per process; the small per-method caches shared between instances are never driven past eviction.",
  [S+"honeycomb_layout.py", S+"honeycomb_circuit.py", S+"noise.py"],
  [("lru_cache / cached_property", S+"honeycomb_layout.py")],
  ["HoneycombLayout methods", "make_circuit", "NoiseModel.noisy_circuit"],
  [dict(name="lru_cache on methods", meaning="results shared between equal layouts, evicted after 3", where=S+"honeycomb_layout.py")])
prop("C09", "Adding noise never changes the ideal circuit",
  "Inserting noise with any of the noise models leaves the ideal computation untouched: the same gates, resets and measurements (including inverted results) on the same qubits in the same order and time steps, the same measurement record, detectors, observables, coordinates and loop repetition counts. A zero noise strength adds nothing at all. An operation the model has no rule for is refused rather than passed through without noise.",
  ["inputs", "programs"], "all circuits over the supported operations up to the size bound, with loops and annotations; all generated memory experiments up to the bound",
  "Tests compare a dozen hand-written circuits.",
  [S+"noise.py"],
  [("NoiseModel.noisy_circuit / noisy_op", S+"noise.py")],
  ["NoiseModel.X(p).noisy_circuit(circuit)"])
prop("C10", "Each operation and each idle qubit gets exactly the prescribed noise",
  "With each noise model, in circuits that touch a qubit at most once per time step, every operation is accompanied by exactly one error channel of the kind and strength the model prescribes (depolarising after gates, a flip after resets and before measurements in the basis that matters, depolarising plus outcome flip for pair measurements) on exactly its own targets. In every time step that does something, each idle qubit of the circuit, and no other, gets exactly one idle channel of the prescribed strength (in SI1000 also one measurement/reset idle channel in steps that measure or reset). This holds for every circuit and noise strength, wherever loops and annotations are placed and however many qubits are idle; steps end at TICKs and at loop boundaries.",
  ["inputs", "programs"], "all circuits over the supported operations up to the size bound; five models; a grid of noise strengths",
  "Tests compare a dozen hand-written circuits at one noise value per model.",
  [S+"noise.py"],
  [("noisy_op", S+"noise.py"), ("flush of a moment", S+"noise.py")],
  ["NoiseModel.X(p).noisy_circuit(circuit)"])
prop("C11", "Correlated pair-measurement noise is the exact uniform mixture",
  "A pair measurement under the correlated (EM3_v2) model measures the requested Pauli product and, with the given probability, applies a uniformly random element of all 32 combinations of two-qubit Pauli and outcome flip, for every pair of bases and every probability in [0, 1]. The helper qubit it introduces is never one of the circuit's own qubits and leaks nothing from one measurement to another, wherever the measurement stands (inside loops, in any order).",
  ["inputs", "programs"], "all 9 basis pairs, all probabilities on a grid including 0 and 1, all small circuits around it",
  "One test checks the probability conversion at p = 0.1; the golden circuit pins one layout where the helper index happens to be safe.",
  [S+"noise.py"],
  [("parity_measurement_with_correlated_measurement_noise", S+"noise.py"), ("mix_probability_to_independent_component_probability", S+"noise.py"), ("ancilla = circuit.num_qubits", S+"noise.py")],
  ["NoiseModel.EM3_v2(p).noisy_circuit", "parity_measurement_with_correlated_measurement_noise"])
prop("C12", "The measurement tracker resolves names to the right records",
  "After any sequence of recording measurements, groups, dummies and obstacles, asking for a combination of names (latest or earlier occurrences) yields exactly the records whose parity equals the sum of what those occurrences stood for when recorded; names that occur twice cancel, combinations touching an obstacle yield nothing and produce no detector, and unknown occurrences are an error. Queries never change later answers.",
  ["histories", "inputs"], "all operation sequences over a small name alphabet up to the depth bound, all queries after each",
  "Two tests walk one fixed sequence each; groups, offsets, detectors and relative times are never tested directly.",
  [S+"measure_tracker.py"],
  [("MeasurementTracker / Prev", S+"measure_tracker.py")],
  ["measurement_time_set", "get_record_targets", "append_detector"],
  [dict(name="history", meaning="per name, list of record sets", where=S+"measure_tracker.py")])
prop("C13", "The matching graph represents the error model faithfully",
  "Converting an error model to a graph keeps every graph-like mechanism: the probability of an edge is that of an odd number of its independent mechanisms, its weight is the log likelihood ratio, it carries the observables those mechanisms flip, single-detector mechanisms go to the boundary, and parts of decomposed mechanisms count separately. Conflicting mechanisms on the same detectors keep the first one, mechanisms with no detector or zero probability add nothing, more than two detectors are refused, and loops and shifts give every mechanism and detector coordinate its absolute position.",
  ["inputs", "programs"], "all error models of up to the bounded number of instructions over a small alphabet, with nested repeats and shifts",
  "Only component count and degree of five generated models are tested.",
  [S+"decoding.py"],
  [("iter_flatten_model", S+"decoding.py"), ("detector_error_model_to_nx_graph", S+"decoding.py")],
  ["detector_error_model_to_nx_graph(model)"])
prop("C14", "Decoding always answers, with a most likely correction",
  "For every error model made of graph-like mechanisms and every set of detection events it can produce, the matching decoder returns one prediction per observable, and the prediction is that of a minimum-weight explanation of the events. Shots are decoded independently of each other and of their order, and observables that no correctable mechanism touches are predicted as not flipped.",
  ["inputs"], "all small graph-like error models up to the bound, all producible syndromes, all shot orders up to the bound",
  "Tests only require the decoder not to crash on random shots, and six of those cases crash with the installed matching library.",
  [S+"decoding.py"],
  [("decode_using_pymatching", S+"decoding.py"), ("detector_error_model_to_pymatching_graph", S+"decoding.py")],
  ["decode_using_pymatching"])
prop("C15", "Correct-shot counts and the external decoder protocol are exact",
  "The number of correct shots reported for a batch is exactly the number of sampled shots whose observables were all predicted correctly, whichever decoder is used. The external decoder is given the exact error model of the circuit (of the decoding-model circuit, where one is given) and the exact detection events of every shot in order, and the correlated options only when asked; its predictions are matched to the right shot and observable. An unavailable or failing decoder, or one whose output lacks a well-formed line of 0s and 1s for some shot, is reported as an error (keeping a reproduction of the case when the decoder fails) and never counted as a result.",
  ["inputs", "fault_sequences"], "all detection/observable/prediction bit patterns for small batches; every failure mode of the external decoder",
  "The external decoder tests are skipped because the binary is not public; the count is checked only against a loose statistical bound.",
  [S+"decoding.py"],
  [("sample_decode_count_correct", S+"decoding.py"), ("decode_using_internal_decoder", S+"decoding.py")],
  ["sample_decode_count_correct", "decode_using_internal_decoder"])
prop("C16", "Sampling honours shot limits, batch limits and stopping rules",
  "For each problem, collection never takes more than the maximum number of shots in total nor more than the maximum batch at once, starts with no more than the minimum number of shots, and takes at least the minimum (of one or more) unless the maximum is smaller. Beyond that it continues, with no batch more than twice as large as the one before, exactly until the maximum is reached, or enough logical errors have been seen and the standard deviation requirement is met, or the error rate is clearly at threshold (at least 48% with at least 10 errors). Remaining-work estimates agree with the corresponding limits.",
  ["histories", "inputs"], "all sequences of per-batch outcomes for all small parameter combinations",
  "One test runs a single batch per problem.",
  [S+"collect_data.py"],
  [("collect_simulated_experiment_data loop", S+"collect_data.py"), ("RemainingWork", S+"collect_data.py")],
  ["calls to the sampler", "RemainingWork properties"])
prop("C17", "Recorded data survives interruption and resumption exactly",
  "Every finished batch is recorded as one row (in the file and on standard output) before the next batch starts, with the problem's full description, the shots taken and the shots correct; reading the file back gives exactly the sums of the finished batches per problem. If collection is interrupted at any point (an exception, an interrupt, a kill between any two file operations, a write cut short by a kill or a full disk) and later resumed on the same file, everything finished before is still counted once and the file stays readable; discarding previous data removes exactly the old rows.",
  ["crash_points", "histories"], "all interruption points of short histories of runs (fresh, resumed, discarding), both collectors",
  "The test writes one file once and never interrupts or resumes.",
  [S+"collect_data.py"],
  [("header creation and row append", S+"collect_data.py"), ("read_recorded_data", S+"collect_data.py")],
  ["CSV file", "stdout", "read_recorded_data"])
prop("C18", "Merging, grouping and aggregating data conserves every shot",
  "Reading any collection of distinct data files, in any order and with any repetition of descriptions across rows and files, gives each distinct problem description the exact totals of shots, correct shots and time of its rows. Grouping, merging and filtering by any key keep exactly the selected descriptions and totals without altering the original data. Aggregating files or directories (searched recursively) to a new file and reading that file gives the same data, each input file counted once.",
  ["inputs", "histories"], "all small multisets of rows distributed over files and directories, all key functions over the description fields",
  "No test merges, groups, filters or aggregates data.",
  [S+"collect_data.py", S+"paper/aggregate_csv_data.py"],
  [("ProblemShotData", S+"collect_data.py"), ("aggregate main", S+"paper/aggregate_csv_data.py")],
  ["read_recorded_data", "grouped_by / merged_by / filter", "aggregate_csv_data output"])
prop("C19", "Likelihoods and error-rate bounds are numerically right",
  "The log likelihood of any number of hits among any number of shots agrees with the exact binomial value (to 0.01 in the logarithm), also for probabilities 0 and 1, arrays, and shot counts up to the hundred-million scale used for collection. The error-rate bounds reported for a data point bracket the observed rate, lie in [0, 1], and are the points where the likelihood falls to the requested fraction of its maximum (or the end of the range if it never does), to within the search granularity of one hundredth of a shot.",
  ["inputs"], "all (shots, errors) pairs up to the bound, boundary pairs up to 10^8, several ratios",
  "Tests check a few points with even splits and loose tolerances.",
  [S+"probability_util.py", S+"collect_data.py"],
  [("log_binomial / log_factorial", S+"probability_util.py"), ("likely_error_rate_bounds", S+"collect_data.py")],
  ["log_binomial", "log_factorial", "ShotData.likely_error_rate_bounds"])
prop("C20", "Searches and line fits return the closest point and the best fit",
  "Searching a non-decreasing function over any integer range returns an argument in the range whose value is as close as possible to the target; the continuous search returns an argument on the requested side whose value is within tolerance of the target. The constrained line fits pass through the required point or have the required slope and have minimum squared error, and the reported ranges of outputs and slopes contain the best fit and end where the cost has grown by the requested amount.",
  ["inputs"], "all monotone functions on small domains, all small integer data sets",
  "Tests check one quadratic and one data set.",
  [S+"probability_util.py"],
  [("binary_search / binary_intercept / least_squares_*", S+"probability_util.py")],
  ["probability_util functions"])
prop("C21", "Per-piece error rates compose back to the total error rate",
  "Converting a total error rate over any number of pieces to a per-piece rate is the exact inverse of composing that many independent pieces, for every total rate from 0 up to and including 1/2; it is monotone, fixes 0 and 1/2, is the identity for one piece, and rates above 1/2 mirror those below.",
  ["inputs"], "all rates on a fine grid including extremes, all piece counts up to the bound",
  "Tests check thirteen points, none above one half and none at the end points.",
  [S+"plotting.py"],
  [("total_error_to_per_piece_error", S+"plotting.py")],
  ["total_error_to_per_piece_error"])
prop("C22", "Every listed benchmark problem samples the circuit it describes",
  "The paper's benchmark list contains each combination of decoder, size (5), noise strength (15), style and observable exactly once for honeycomb and surface codes, and every problem is described by data that match the circuit it samples: noise strength and model, observable, qubit count, size, number of rounds and code distance. Surface code problems keep their full distance and have deterministic detectors. Selecting a single problem, a directory of surface code circuits, a shot limit, an error limit or a batch limit runs exactly that problem, from that directory, with those limits.",
  ["configurations", "inputs"], "all listed problems; all combinations of the selection options",
  "The paper scripts have no tests at all.",
  [S+"paper/main_collect_all.py", S+"honeycomb_layout.py"],
  [("honeycomb_problems / surface_code_problems / collect_data", S+"paper/main_collect_all.py")],
  ["problem.desc vs problem.circuit_maker()"])
prop("C23", "Figures show the recorded data",
  "Each plotted curve point is the per-cell logical error rate (or lambda factor, qubit projection or detection fraction) computed from the recorded shots of exactly the problems belonging to that curve and noise level, drawn at that noise level or distance, the sizes of one panel in different colours, with shaded regions given by the likelihood bounds; problems without any logical error contribute bounds but no curve point. Combined error rates of the two observables at each distance and noise use both observables when both are present and the one that is present otherwise; the sizes of one lambda curve run for a number of rounds proportional to their distance. Every figure has a panel for exactly the intended decoders, styles and observables, with its own data.",
  ["inputs"], "all small data sets over two sizes, noise levels, observables, decoders and a few shot outcomes",
  "One test renders one figure without looking at it; the paper figures have no tests.",
  [S+"plotting.py", S+"paper/main_render_lambda_figure.py", S+"paper/main_render_threshold_figure.py", S+"paper/main_render_detection_fraction_figure.py"],
  [("plot_data", S+"plotting.py"), ("LambdaGroup", S+"paper/main_render_lambda_figure.py")],
  ["matplotlib artists of the returned figure", "LambdaGroup"])
prop("C24", "Circuit diagrams show every operation where and when it happens",
  "The text diagram of a circuit shows, for each time step and each located qubit, the symbol of the operation on that qubit in that step (or an idle mark), and draws a connector between the two qubits, in one row or column, of every two-qubit operation (broken into two stubs where it spans the whole torus). Error channels and annotations are not drawn, and restricting the diagram to the loop shows exactly one iteration of the loop. Conflicting or unknown operations are refused rather than drawn wrongly.",
  ["inputs", "programs"], "all small circuits on a small grid; all generated circuits up to the bound",
  "Three golden diagrams.",
  [S+"circuit_diagrams.py"],
  [("plot_circuit / diagram_3d", S+"circuit_diagrams.py")],
  ["plot_circuit(circuit, only_repeat_block)"])
prop("C25", "Experiments of any length have short, periodic circuits",
  "The circuit description of an experiment does not grow with its number of sub-rounds, however many are requested (trillions included): beyond the first sub-rounds everything repetitive is expressed by loops, and generating it takes no longer. Each cycle of three further sub-rounds takes exactly 6 time steps in SD6, 3 in PC3, EM3 and EM3_v2 and 10 in SI1000. A circuit with n sub-rounds on a grid of A data qubits contains exactly n*A/2 + A measurements, and from twelve sub-rounds on every six further sub-rounds add exactly A detectors.",
  ["configurations"], "all sizes, styles and observables of the bound, every sub-round count up to the bound and a ladder of counts up to 10^15",
  "Golden circuits fix one long count per style; other counts above 23, sizes and observables are never generated, and no test looks at length or pace.",
  [S+"honeycomb_circuit.py"],
  [("generate_honeycomb_circuit (loop folding)", S+"honeycomb_circuit.py")],
  ["HoneycombLayout(...).make_circuit()"])
prop("C26", "The example and export programs produce the documented data",
  "Running the example program, whatever its output file held before and also after an interrupted run, leaves a file with exactly its six honeycomb problems (grids 4x6 and 8x12, strengths 0.001, 0.002 and 0.003), each sampled with at least 1000 and at most a million shots until 100 errors are seen, and shows one figure of exactly these data. Running the graph export program from any directory writes the complete matching graph of the documented circuit (4x6, SD6, 36 sub-rounds, horizontal observable, strength 0.001), replacing any earlier file, and reading it back gives that graph.",
  ["histories", "inputs"], "all outcome sequences of the sampled batches to a depth, all interruption points, all earlier files of the bound",
  "The programs have no tests.",
  [S+"main_example.py", S+"paper/write_honeycomb_networkx_graph.py"],
  [("main", S+"main_example.py"), ("main", S+"paper/write_honeycomb_networkx_graph.py")],
  ["test.csv", "test.graph", "the figure shown"])
prop("C27", "Figure programs draw all recorded data they are given",
  "Each figure program draws exactly the data of all files it is given and of all data files directly inside the folders it is given, whatever their arrangement and order (other files there are ignored). It writes exactly its documented figures, each both as pdf and as png, to the output folder, creating the folder when missing and replacing earlier figures; the focused and the complete variants go to the files named so. Running it without any file is an error and writes nothing.",
  ["inputs", "histories"], "all distributions of the rows over files and folders and all argument orders in the bound; all earlier states of the output folder",
  "The programs have no tests.",
  [S+"paper/main_render_lambda_figure.py", S+"paper/main_render_threshold_figure.py", S+"paper/main_render_detection_fraction_figure.py"],
  [("main", S+"paper/main_render_lambda_figure.py"), ("main", S+"paper/main_render_threshold_figure.py"), ("main", S+"paper/main_render_detection_fraction_figure.py")],
  ["gen/*.pdf", "gen/*.png", "the figures saved"])
out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1
    if n > 3: print("too many sentences?", p["id"], n)
