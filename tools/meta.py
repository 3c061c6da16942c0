HOOKS = dict(guard="none", enable="no hooks: harnesses in /verif include the real sources", source_commits=[])
TEST_REACH = ("The suite runs the program on one built-in generator (32-bit outputs), one seed, one p-value sample per "
              "test and compares golden p-values; ")
PROPS = [
 dict(id="P01", title="Tests receive the generator's output bits exactly once and in order",
  statement="The bit supply used inside the individual tests hands out the generator's output as one continuous bit string, most significant bit first: for any sequence of requests of 1 to 32 bits and any generator output width of 1 to 32 bits, each request receives exactly the next bits that have not been handed out yet. No bit is skipped, repeated or altered and no generator output is drawn before it is needed. A request for exactly the generator's own width receives the next whole output.",
  over=["inputs", "histories", "configurations"], forall="every generator output sequence, every output width 1..32, every sequence of request widths 1..32",
  why=TEST_REACH + "only 32-bit requests on a 32-bit generator occur there, which take the bypass path, so the buffering logic is never exercised.",
  files=["libdieharder/static_get_bits.c"], mech=[("get_rand_bits_uint: bit_buffer / bits_left_in_bit_buffer", "libdieharder/static_get_bits.c")],
  observe=["return value of the bit supply", "number of generator outputs drawn"],
  note="Inductive step over an arbitrary buffer state for each of the 32 output widths, all request widths and outputs symbolic; debug printing off; generator = arbitrary outputs below 2^width."),
 dict(id="P02", title="The general bit supply delivers an unbroken stream for any output width",
  statement="The library's general-purpose supplies of 32-bit words and of arbitrary short bit fields deliver the concatenation of the generator's outputs, least significant bit first, for every generator output width from 1 to 32 bits: nothing is lost, duplicated, reordered or mixed with bits already delivered. After a buffer reset only bits drawn after the reset are delivered. A request of zero bits, of more than 128 bits, or of more bits than the result area holds yields zeros inside that area and draws nothing.",
  over=["inputs", "histories", "configurations"], forall="every output sequence, output width 1..32 and sequence of requests of up to 32 bits",
  why=TEST_REACH + "generators narrower than 32 bits never occur.",
  files=["libdieharder/bits.c"], mech=[("get_uint_rand, get_rand_bits ring buffer, reset_bit_buffers", "libdieharder/bits.c")],
  observe=["delivered words and bit fields"],
  note="Inductive steps for the word supply (all 32 widths) and for the ring buffer of the field supply (32-bit words, requests up to 32 bits); bounded request histories for other combinations; requests of 33..128 bits are outside the statement."),
 dict(id="P03", title="Bit-field extraction primitives return exactly the addressed bits",
  statement="The primitives that mask, window, rotate and extract bit fields from words and cyclic bit strings return exactly the addressed bits, at the documented position, with all other result bits zero. This holds for every word value, every in-range field start, length and target position, and every significant word width, including wrap-around at the end of the word or string.",
  over=["inputs", "configurations"], forall="all words, offsets, lengths 1..32 and widths 1..32",
  why=TEST_REACH + "a handful of windows at 32-bit width are reached; wrap-around and narrow widths are not.",
  files=["libdieharder/bits.c", "libdieharder/static_get_bits.c"],
  mech=[("b_umask, b_window, b_rotate_left/right, get_bit_ntuple, get_ntuple_cyclic, get_bit, cycle, bit2uint", "libdieharder/bits.c"), ("get_bit_ntuple_from_uint, get_bit_ntuple_from_whole_uint", "libdieharder/static_get_bits.c")],
  observe=["return values"],
  note="Contracts enforced for all inputs; multi-word strings bounded to 4 (8) words; callers of b_window and b_umask are checked against their contracts."),
 dict(id="P04", title="Generator outputs lie within the declared range",
  statement="Every integer output of a generator dieharder supplies lies between the minimum and maximum the generator declares, from every internal state. The floating point output lies in [0,1] and is the integer output divided by the declared maximum (for the R generators it lies strictly between 0 and 1). The device generators deliver exactly the next 32 bits of the device they are named after.",
  over=["inputs", "histories"], forall="all internal states of each generator; all device contents",
  why=TEST_REACH + "out-of-range outputs show up only as slightly different statistics.",
  files=["libdieharder/rng_kiss.c", "libdieharder/rng_superkiss.c", "libdieharder/rng_aes.c", "libdieharder/rng_threefish.c", "libdieharder/rng_uvag.c", "libdieharder/rng_ca.c", "libdieharder/rng_dev_random.c", "libdieharder/rng_dev_urandom.c", "libdieharder/rng_dev_arandom.c", "libdieharder/rngs_gnu_r.c"],
  mech=[("*_get, *_get_double, gsl_rng_type tables", "libdieharder/rng_*.c"), ("fixup, unif_rand, r_rng_get", "libdieharder/rngs_gnu_r.c")],
  observe=["gsl_rng_get", "gsl_rng_uniform"],
  note="Integer ranges from arbitrary states (superkiss table and ca width reduced, labelled bounded); floating point outputs on selected words; R generators: contract of the final range step for every double, first output after one seed."),
 dict(id="P05", title="A seed alone determines a generator's output sequence",
  statement="After a generator dieharder supplies is seeded, its output sequence depends only on the seed value passed in: not on what the generator or any other part of the program did before, and not on bits left over from earlier use. Seeding changes nothing outside the generator: the program's recorded seeds and the selected generator's width stay as they were.",
  over=["inputs", "histories"], forall="all earlier states and histories of the generator, all seeds",
  why=TEST_REACH + "each process seeds its generator once, so carried-over state never shows.",
  files=["libdieharder/rng_kiss.c", "libdieharder/rng_superkiss.c", "libdieharder/rng_uvag.c", "libdieharder/rng_ca.c", "libdieharder/rng_XOR.c", "libdieharder/rng_aes.c", "libdieharder/rng_threefish.c", "libdieharder/rngs_gnu_r.c"],
  mech=[("*_set", "libdieharder/rng_*.c"), ("RNG_Init, FixupSeeds", "libdieharder/rngs_gnu_r.c")],
  observe=["outputs after seeding", "seed and Seed after seeding"],
  note="kiss: arbitrary earlier state, all seeds, three outputs; superkiss and ca with reduced tables; uvag, ca, XOR and the six R generators on bounded histories; the GSL seed generator is a specified stub delivering a fixed sequence per seed."),
 dict(id="P06", title="The XOR generator combines all selected generators, one output each",
  statement="Each output of the XOR generator is the exclusive or of the next output of every selected component generator, each of which advances by exactly one. Every component is of the type the user selected and is seeded once, each from its own value derived from the seed.",
  over=["inputs", "configurations"], forall="all component outputs and numbers of components",
  why="The XOR generator is not run by any test.",
  files=["libdieharder/rng_XOR.c"], mech=[("XOR_set, XOR_get", "libdieharder/rng_XOR.c")], observe=["gsl_rng_get of the XOR generator"],
  level="model_checking",
  note="Bounded: up to four components and three outputs, component outputs symbolic; GSL is a specified stub."),
 dict(id="P07", title="Cipher generators deliver every word of an output-feedback stream",
  statement="The AES and Threefish generators run their block cipher in output feedback mode: each block is the encryption of the previous block under an unchanging key, starting from the documented initial block, and every 32-bit word of every block is delivered exactly once, in order. Key and initial block depend on the seed as documented.",
  over=["inputs", "histories"], forall="all seeds, block contents and positions",
  why=TEST_REACH + "a few hundred outputs of Threefish for one seed; AES is never run.",
  files=["libdieharder/rng_aes.c", "libdieharder/rng_threefish.c"], mech=[("aes_set, aes_get; threefish_set, threefish_get", "libdieharder/rng_aes.c, rng_threefish.c")], observe=["gsl_rng_get"],
  note="Inductive step from any block and position; start-up checked for all seeds; the block ciphers themselves are uninterpreted (arbitrary function results)."),
 dict(id="P08", title="KISS, SuperKISS and UVAG follow their published recurrences",
  statement="From every valid state the KISS, SuperKISS and UVAG generators advance their components by the published recurrences and deliver the sum modulo 2^32 that the recurrence defines. Seeding establishes a state in which no component is degenerate (such as an all-zero shift register), and no output ever leads to one.",
  over=["inputs", "histories"], forall="all valid generator states",
  why="These generators are not run by any test.",
  files=["libdieharder/rng_kiss.c", "libdieharder/rng_superkiss.c", "libdieharder/rng_uvag.c"],
  mech=[("kiss_get, kiss_set, superkiss_get, superkiss_refill, superkiss_set, uvag_get", "libdieharder/rng_*.c")], observe=["gsl_rng_get"],
  note="Exact step contracts for all states (Z3 back end); superkiss table renewal and filling with the table reduced to 10 entries (bounded)."),
 dict(id="P09", title="Raw file input delivers the file's words in order, wrapping at its end",
  statement="The raw file generator delivers the 32-bit words of the named file in order, each once, and starts again at the first word exactly when the file's last complete word has been delivered; words delivered and rewinds are counted accordingly. Seeding with a nonzero value starts again at the first word with fresh counts; seeding with zero in mid-file changes nothing. A file that cannot be examined or opened, or holds no complete word, ends the program instead of delivering made-up data.",
  over=["inputs", "histories"], forall="all file sizes, contents, positions and request/reseed histories",
  why="File generators are not run by any test.",
  files=["libdieharder/rng_file_input_raw.c"], mech=[("file_input_raw_set, file_input_raw_get", "libdieharder/rng_file_input_raw.c")], observe=["gsl_rng_get", "file positions", "rewind count"],
  note="Inductive step from any position of a file of any size; operating system file functions are a specified stub."),
 dict(id="P10", title="Text file input delivers the listed values, converted as the header says",
  statement="The text file generator delivers the values listed after the header in order, converted according to the announced type (decimal, unsigned, hexadecimal, octal, binary, floating point scaled to 32 bits) and starts again at the first value exactly when the announced number of values has been delivered. Announced width and counts are taken from the header. A missing or unconvertible value is reported and ends the run; it is never replaced by made-up data.",
  over=["inputs", "histories"], forall="all values, counts, positions and request/reseed histories, for each type",
  why="File generators are not run by any test.",
  files=["libdieharder/rng_file_input.c", "libdieharder/parse.c"], mech=[("file_input_set, file_input_get", "libdieharder/rng_file_input.c"), ("split, chop", "libdieharder/parse.c")], observe=["gsl_rng_get"],
  note="Inductive step from any position and counts for each type letter; header values fixed per unit; floating point values restricted to multiples of 2^-12; line splitting bounded to 8 characters; C library conversions are specified stubs."),
 dict(id="P11", title="Standard input generator delivers each 32-bit word exactly once",
  statement="The standard input generator delivers the 32-bit words of standard input in order, each exactly once, regardless of reseeding. When the input ends or a read fails the program reports it and stops; it never delivers a word that was not read.",
  over=["inputs", "histories", "fault_sequences"], forall="all input contents, lengths and request histories",
  why="Standard input is not used by any test.",
  files=["libdieharder/rng_stdin_input_raw.c"], mech=[("stdin_input_raw_get", "libdieharder/rng_stdin_input_raw.c")], observe=["gsl_rng_get", "exit status"],
  note="Stateless step contract for every input word and every read outcome; standard input is a specified stub."),
 dict(id="P12", title="Dumping random numbers writes exactly the requested values and their header",
  statement="When asked to dump random numbers, the program seeds the selected generator once (with the user's seed, or a random one if none was given) and writes exactly the requested number of consecutive outputs, in order, to the named file or to standard output. Binary output holds nothing but the 32-bit words, without end if no count was given; text outputs start with the documented header naming generator, seed, type and count.",
  over=["inputs", "configurations"], forall="all generator outputs, counts, formats, seeds and destinations",
  why="The dump mode is not run by any test.",
  files=["dieharder/output_rnds.c"], mech=[("output_rnds", "dieharder/output_rnds.c")], observe=["the output file"],
  note="Binary output for any count by a loop contract; text formats bounded to 3 values (values symbolic); C library output and the generator are specified stubs."),
 dict(id="P13", title="Each test takes exactly the requested samples and judges all of them",
  statement="For every test the driver fills the sample slots once each, in order, up to the requested number of p-values (the user's number, or the test's standard number scaled by the multiplier, at least one), never beyond the room allotted; in the adaptive strategies each further round adds exactly the configured step up to the cutoff and keeps earlier samples. Every statistic's final p-value is computed by the selected KS variant from all samples accumulated for that statistic and from nothing else, and the reported sample count is the number taken. Setup and release leak no memory.",
  over=["inputs", "histories", "configurations"], forall="all sample counts, steps, cutoffs, multipliers, strategies and numbers of statistics",
  why=TEST_REACH + "always one p-value and strategy 0, so accumulation over rounds, cutoffs and defaults never occur.",
  files=["libdieharder/std_test.c"], mech=[("create_test, std_test, add_2_test, destroy_test", "libdieharder/std_test.c")],
  observe=["sample slots filled", "arguments of the KS test", "psamples reported"],
  note="std_test and add_2_test for any number of samples by a loop contract (at most 3 statistics, counts below 2^31); full set-up/run/release life cycles with real storage bounded to 8 configurations."),
 dict(id="P14", title="A run continues exactly until the configured stop condition",
  statement="A test run stops after the first round in normal mode, continues exactly while some statistic is weak, none has failed and the sample cutoff is not reached in resolve-ambiguity mode, and exactly while none has failed and the cutoff is not reached in test-to-destruction mode; every round is reported exactly once before the next begins. The generator is reseeded once, before the first round, only if per-test reseeding is selected (with the user's seed if one was given). A test selected by number or name is the one that is run, and an unknown one is refused.",
  over=["inputs", "histories", "configurations"], forall="all p-value histories, any number of rounds and statistics, all strategies, cutoffs and seed settings",
  why=TEST_REACH + "the adaptive strategies never run.",
  files=["dieharder/run_test.c"], mech=[("execute_test, run_test", "dieharder/run_test.c")],
  observe=["sequence of sampling, reporting and reseeding calls"],
  note="Any number of rounds by a loop contract, for four fail/weak threshold pairs and up to 3 statistics; p-values within 1e-15 of a threshold are left open; sampling, output and seeding are specified stubs."),
 dict(id="P15", title="The verdict printed follows from the p-value and the two thresholds",
  statement="The assessment shown for a statistic is FAILED exactly if its p-value lies within the failure threshold of either end of [0,1], WEAK exactly if it is not FAILED but lies within the weak threshold of either end, and PASSED otherwise, for every p-value in [0,1] and every pair of thresholds.",
  over=["inputs", "configurations"], forall="all p-values in [0,1] and thresholds",
  why=TEST_REACH + "each golden value shows one p-value at the default thresholds; upper-tail and boundary values do not occur.",
  files=["dieharder/output.c"], mech=[("output_table_line: assessment", "dieharder/output.c")],
  observe=["assessment column"],
  note="All doubles; output captured at the stdio boundary by a specified recorder."),
 dict(id="P16", title="Result tables show exactly the selected fields, in order, with the right values",
  statement="For every combination of output flags, the result table prints exactly the selected fields, in the documented order, separated by the configured separator and no other, each showing the value that belongs to that test and statistic; the column header lists the same fields in the same order; the per-sample p-value listing prints every sample once; the generator information line shows the selected generator facts.",
  over=["inputs", "configurations"], forall="all output flag combinations, separators and field values",
  why="The tests use a single output flag combination.",
  files=["dieharder/output.c"], mech=[("output_table_line, output_table_line_header, output_rng_info", "dieharder/output.c")],
  observe=["standard output"],
  note="Flag combinations enumerated in chunks (all of them in the thorough tier), field values symbolic; number formatting itself is libc's and is compared at the level of the arguments and conversions; width/padding of columns is not part of the statement."),
 dict(id="P17", title="The generator the user selects is the one that is seeded and tested",
  statement="A generator selected by number or exact name is the one that is created, seeded (once, after any timing, with the user's seed or else a random one that is recorded) and tested, and the recorded width, mask and maximum are those of that generator. An unknown number or name, or a file generator without a file, is refused and leaves the current generator alone. Replacing a generator releases the previous one and discards bits buffered from it.",
  over=["inputs", "configurations", "histories"], forall="all generator numbers, names, maxima and seeds, with or without a previous generator",
  why=TEST_REACH + "one generator number is used throughout.",
  files=["dieharder/choose_rng.c"], mech=[("choose_rng, select_rng", "dieharder/choose_rng.c")], observe=["generator created and seeded", "width used by the bit supply"],
  note="Every generator number, maximum and seed symbolic; selection by name bounded to a table of 8 generators and 12 names; GSL, timing and listing are specified stubs."),
 dict(id="P20", title="Matrix rank tests judge the true rank of the matrices they are given",
  statement="The binary rank routine returns the rank over GF(2) of the given bit matrix, for every content and shape, including more than 32 columns, and never more than the smaller dimension. The rank tests fill each matrix row by row with the generator's next outputs, count every matrix exactly once in the class of its rank (ranks below the lowest class counted in that class), and evaluate these counts against expected counts that add up to the number of matrices.",
  over=["inputs", "configurations"], forall="all matrices and generator outputs",
  why=TEST_REACH + "ranks far below full, which only poor generators produce, and matrices wider than 32 columns never occur.",
  files=["libdieharder/rank.c", "libdieharder/diehard_rank_32x32.c", "libdieharder/diehard_rank_6x8.c"],
  mech=[("binary_rank", "libdieharder/rank.c"), ("diehard_rank_32x32, diehard_rank_6x8", "libdieharder/diehard_rank_*.c")],
  observe=["return value of binary_rank", "counts evaluated by the tests"],
  level="model_checking",
  note="Bounded: matrices of up to 4x5, 2x32, 2x40 and 3x64 (six free bits per row) bits with symbolic contents; rank tests with 3 matrices, symbolic outputs and ranks; larger matrices in the thorough tier."),
 dict(id="P21", title="Counts and samples are judged completely and with the right degrees of freedom",
  statement="A chi-square evaluation uses every class exactly once: each class whose expected count reaches the cutoff contributes (observed-expected)^2/expected, all smaller ones are pooled into one class that contributes exactly if the pooled expectation reaches the cutoff, and the p-value is the chi-square upper tail with one less degree of freedom than contributing classes, or with those the test has set. The fixed-class variants (Poisson, geometric, binomial, Pearson, G test) compare each class with the probability of exactly that class. A normal evaluation uses expected minus observed over the stated spread. The Kolmogorov-Smirnov evaluation of two or more p-values uses all of them, sorted, and their largest distance from the uniform distribution (position i of n at i/(n+1)); with a single value it returns that value, with none -1. The Kolmogorov distribution it uses is exact for small samples.",
  over=["inputs"], forall="all counts, expectations, cutoffs and sample values",
  why=TEST_REACH + "pooled classes at the cutoff, more than one sample and the distribution functions behind them are hardly reached.",
  files=["libdieharder/Vtest.c", "libdieharder/Xtest.c", "libdieharder/chisq.c", "libdieharder/kstest.c"],
  mech=[("Vtest_create, Vtest_eval", "libdieharder/Vtest.c"), ("Xtest_eval", "libdieharder/Xtest.c"), ("chisq_*", "libdieharder/chisq.c"), ("kstest, kstest_kuiper, p_ks_new, mPower", "libdieharder/kstest.c")],
  observe=["arguments of the distribution functions", "p-values"],
  level="model_checking",
  note="Bounded: up to 3 classes (4 in the thorough tier) and 4 samples with values on a grid, computed in a narrow floating point type in which they are exact; callers are checked against contracts of p_ks_new, q_ks, q_ks_kuiper; the Kolmogorov distribution is compared with its closed form for up to 3 samples; GSL distribution functions are stubs recording their arguments. At least two classes contribute (or the degrees of freedom are given)."),
 dict(id="P22", title="Each test counts what it says it counts",
  statement="In the tests named here every sample drawn from the selected generator is used exactly once, no more outputs are drawn than the samples need, each outcome is tallied exactly once in the class it belongs to, the expected counts passed to the evaluation are those of the documented distribution, and the p-value goes to the slot of this run only. STS monobit and STS runs (bits changed, the sample read as a ring); RGB lagged sums (lag outputs passed over before each sample), permutations and the KS-test test; Diehard craps (wins, and throws per game, long games in the last class), runs (up and down, lengths of 6 and more together), birthdays and DAB birthdays (number of spacing values that occur more than once), rank 32x32 and 6x8 (small ranks pooled), squeeze (steps, ends pooled), 2d sphere, 3d sphere and RGB minimum distance (smallest distance between any two points); DAB monobit 2 (ones per block of two outputs).",
  over=["inputs"], forall="all generator outputs and sample counts",
  why=TEST_REACH + "the classes at the ends of the tables, ties and rare outcomes are hardly reached.",
  files=["libdieharder/sts_monobit.c", "libdieharder/sts_runs.c", "libdieharder/rgb_lagged_sums.c", "libdieharder/rgb_permutations.c", "libdieharder/rgb_kstest_test.c", "libdieharder/diehard_craps.c", "libdieharder/diehard_runs.c", "libdieharder/diehard_birthdays.c", "libdieharder/dab_birthdays1.c", "libdieharder/diehard_rank_32x32.c", "libdieharder/diehard_rank_6x8.c", "libdieharder/diehard_squeeze.c", "libdieharder/diehard_2dsphere.c", "libdieharder/diehard_3dsphere.c", "libdieharder/rgb_minimum_distance.c", "libdieharder/dab_monobit2.c"],
  mech=[("sts_monobit, sts_runs", "libdieharder"), ("rgb_lagged_sums, rgb_permutations, rgb_kstest_test, rgb_minimum_distance", "libdieharder"), ("diehard_craps, _runs, _birthdays, _rank_32x32, _rank_6x8, _squeeze, _2dsphere, _3dsphere", "libdieharder"), ("dab_birthdays1, dab_monobit2", "libdieharder")],
  observe=["tables handed to the evaluation", "outputs drawn", "p-value slots"],
  level="model_checking",
  note="Bounded: a few samples per run (at most 64 outputs, all values of them or of a small grid; squeeze, Diehard runs, the minimum distance and the expected counts on given outputs), real arithmetic in a narrow floating point type where it is symbolic; generator, GSL routines and the evaluation (P21) are stubs that record what they are given; table sizes NMS and POINTS_3D reduced. Tests with large tables (count-the-1s, bitstream, OPSO/OQSO/DNA, OPERM5, GCD, parking lot, sums, serial, bit distribution, byte distribution, fill tree, DCT) are not covered."),
]
NA = [
 dict(id="P90", title="P-values of a good generator are uniformly distributed",
  statement="For an ideal random generator every test's p-value is uniformly distributed on [0,1].",
  over=["inputs"], forall="all ideal generators", why="A statistical statement about distributions, not about any single run.",
  files=["libdieharder"], mech=[("all tests", "libdieharder")],
  reason="A probabilistic statement over distributions of inputs; contracts relate one input to one output and cannot express it."),
]
