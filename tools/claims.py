REAL = "Floats are mathematical reals; numpy operations are assumed contracts listed in the evidence. "
CLAIMS = {
    "C01": REAL + "All obligations of the clustering step, reset, construction and the makeclusters loop, for data and cluster tables of any length; the nearest-cluster query is used through its contract (C02).",
    "C02": REAL + "Both nearest-cluster queries and the resolution rule of a step, for data and cluster tables of any length.",
    "C03": REAL + "Adjacency detection, cutting and fullness for any length; merging is proved for one group of any length and, as a labelled bound, for two groups of any length.",
    "C04": REAL + "Part write/read-back, distribution over parts, concatenation and counts, for parts of any number of parameters and models of any number of parts.",
    "C05": REAL + "Ranged value and jacobian of an arbitrary function on a grid of any length, scalar evaluation, ownership, and the sum over a model of any number of parts.",
    "C06": REAL + 'Residual and its Jacobian for any number of parts, parameters, points, every range, grid or scalar; the fit for every answer and failure of the optimiser.',
    "C07": REAL + "Gaussian, Gaussian over r, nanospherical, polynomial of any degree and Arbitrary, on grids of any length and scalars, for every fixed/free pattern; the derivative is computed from the value by the verifier. Termination ripples are covered by C24's contract and the replay.",
    "C08": REAL + 'All conversions between the three formats of both peak functions, restoring the preferred range from anywhere, refusals, format-name resolution (every combination), and the four baselines.',
    "C09": REAL + 'Every entry of every conversion gradient of both peak functions, computed by the verifier from the conversion itself.',
    "C10": REAL + 'Sorting by any parameter, the sort order query, and matching of any number of peaks with arbitrary scaling outcomes (including failures of the first and second attempts); the peaks own scaling is C11.',
    "C11": REAL + 'Scaling of both peak functions at any coordinate and factor (closed form, exponent and amplitude identities, the maximum), division by zero included, and the guarded scaling of a peak of any function.',
    "C12": REAL + 'Statistic, penalty, growth rule and chi-square of both criteria, for any number of points and parameters.',
    "C13": REAL + 'All six operators, order laws, refusals, weights and probabilities for any number of models.',
    "C14": REAL + 'Storing (both shapes, any earlier contents), refusal, every query, conversion of any selection of parts with any mixture of failing conversions, and warnings, for any number of parts with any number of parameters each.',
    "C15": REAL + 'the views of a cluster over any data and slice, its values, baseline and residual, adding external peaks, and joining any two clusters with any numbers of peaks are under contract; the loop that drops strayed peaks carries an invariant for every number of peaks',
    "C16": REAL + 'replacing, deleting and cleaning are under contract for any number of peaks, any protection pattern and any cluster; pruning is explored for up to two peaks over every protection pattern, fit outcome and quality order (bounded), and replayed with scripted optimiser outcomes',
    "C17": REAL + 'Fitting for every optimiser outcome and quality, conditional fitting, reductions that are not kept, and the never-fit rule, on clusters of any size with any numbers of peaks and parameters.',
    "C18": REAL + 'Data of any lengths, the slicing loops with invariants over any ascending grid, changes of any settings, and the defaults of every setting (range, uncertainty, resolution, functions, baseline, and those of a PDF) for data of any length; the estimate of qmax is an assumed contract (any number or an exception).',
    "C19": REAL + 'Resampling (the Whittaker-Shannon sum by an invariant over the samples, at any coordinate), its value at the original points and its linearity by induction, resampled data on the requested spacing, the rule of error scales, and the running ratio of deviations with invariants for both running sums. sinc, interpolation and defaults (C18) are assumed contracts.',
    "C20": REAL + 'The classification loops with invariants, for any number of models and peaks: the whole partition (who is in which class, where, in what order, and why), and the ranking within any class for any uncertainty. Sums of squares are linear terms; the sort is an assumed contract on the real comparison of evaluators.',
    "C21": REAL + "Tables by uncertainty, rankings, every query, the rescaled statistics, and saving and loading, with invariants, for any number of models, classes and uncertainties (a table is specified at one arbitrary key). Weights and probabilities are those of the criterion's own property; sorting and pickling are assumed contracts.",
    "C22": REAL + "Contracts on ModelPart.writestr, Peak.factory, Baseline.factory, BaseFunction.writestr/factory and the built-in functions' constructors: texts are built by the real code with printed values standing for themselves (repr reads back exactly, assumed), for any number of parameters, any values, flags and positions in a function list of any length; tampered references and unreadable values are refused; reading a sequence from a file is a bounded stand-in.",
    "C23": REAL + 'Texts are written and read by the real code with printed numbers standing for themselves: data and clusters with any number of points and every combination of unset columns, settings, PDF metadata, damaged lines anywhere; functions, baselines and peaks with up to two (and thirteen) of each, and stability results, are labelled bounded.',
    "C24": REAL + "Delegation, grid extension, the frequency cut, values and derivatives on grids of any length and at points, with invariants, for an arbitrary underlying function. The transform is an assumed contract (linear, real input gives mirrored coefficients, multiplying coefficients by a mirrored mask gives a real result); the base function's own values are arbitrary.",
    "C25": REAL + 'Reading texts of any number of points with missing, odd or invalid uncertainties on any line, damaged lines anywhere, writing and reading again with printed numbers standing for themselves in every form the formats print, through files too; declared variables for any table of names; copies and clearing. Up to three entries of metadata: bounded.',
    "C26": REAL + 'Copies, equality, names, positions and owners of parts with any number of parameters; models of any length copied, indexed and sliced in every way; clusters over any data and slice copied, with later changes on either side.',
    "C27": REAL + 'Definitions with any number of names, indices, formats and defaults (the sort is an assumed contract, its two lemmas are discharged), and ordering over any forest of functions: the recursion is checked against its own contract, the loop with an invariant.',
    "C28": REAL + 'Live plotting, console and file levels for any earlier state and any level, counters from any state, emission for every combination of storing, writing and admission, and traces of any number of clusters read back (as text and through a file); filters of up to three conditions and traces of up to three clusters are labelled bounded.',
    "C29": REAL + 'The maximum of both peak functions (sign of the derivative on either side), and estimates from data of any length.',
    "C31": REAL + 'PeakExtraction.extract_single and its loop body: invariants of the main loop, the fitting loop and the joining loop for any number of clusters and points; the step at the end of the data, the joining of neighbours between two peaks and beside one, recursion and failure of any fit are separate scenes. Assumed: the contracts of clustering (C01-C03) and of model clusters (C15-C17), and that fits return.',
    "C32": REAL + 'fit_single, PDFPeakExtraction.fit, extract and _extract (the Nyquist loop with a variant, for any spacing), the loop giving every peak its ripples (any number of peaks), estimate_peak and add_peaks, also when a fit fails. Assumed: the contracts of resampling (C19), clustering (C01-C03), model clusters (C15-C17), ripples (C24) and an inner extraction (C31); fits return; the range is wider than one sampling interval. The scene with two peaks is bounded and not counted.',
}
NOT = {
    "C30": "a statistical claim about noisy data and a nonlinear optimiser's convergence: no contract within reach can express or decide it",
}
