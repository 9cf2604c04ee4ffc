#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S = "src/diffpy/srmise/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

p("C01", "Clustering covers all data with ordered, disjoint clusters",
  "For data on a strictly increasing grid, after every clustering step the clusters are non-empty index ranges inside the data, in increasing order and pairwise disjoint, and the step has clustered the highest not-yet-clustered point without unclustering any. When clustering finishes every data point belongs to exactly one cluster; resetting returns to the single cluster holding only the highest point.",
  ["inputs", "histories"], "every strictly increasing grid, every value sequence, every non-negative resolution, every number of clustering steps, with resets in between",
  "The tests only build and compare three-point clusterings and never take a clustering step; the claim is an invariant over every step of every data set.",
  ["dataclusters.py"],
  [("one clustering step", "dataclusters.py DataClusters.__next__"), ("run to completion", "dataclusters.py DataClusters.makeclusters"),
   ("initial state", "dataclusters.py DataClusters._setdata"), ("reset", "dataclusters.py DataClusters.reset_clusters")],
  ["the cluster table and the clustering status after each step"],
  [("clusters", "sorted table of inclusive [low, high] index ranges", "dataclusters.py"), ("data_order/current_idx", "points by increasing value and the position reached", "dataclusters.py")])

p("C02", "Nearest-cluster queries and the resolution rule are exact",
  "The nearest-cluster query returns the cluster whose closest end is nearest to the asked point (a data point or an arbitrary coordinate resolved to its nearest data point), with zero distance inside a cluster, negative distance when the point lies left of it and positive when right. A clustering step opens a new cluster exactly when the point is further than the resolution from its nearest cluster; otherwise it extends that nearest cluster to the point.",
  ["inputs", "histories"], "every valid cluster table over every strictly increasing grid, every point and coordinate, every resolution",
  "No test asks for a nearest cluster; correctness depends on every arrangement of gaps and clusters.",
  ["dataclusters.py"],
  [("query by data index", "dataclusters.py DataClusters.find_nearest_cluster"), ("query by coordinate", "dataclusters.py DataClusters.find_nearest_cluster2"), ("resolution rule", "dataclusters.py DataClusters.__next__")])

p("C03", "Merging and slicing clusters preserves the covered points",
  "Adjacent-cluster detection reports exactly the maximal runs of two or more clusters with no unclustered point between them; merging such runs leaves the same set of covered points with one cluster per run, and an invalid merge request (repeated, non-consecutive, or separated by unclustered points) is rejected with a value error and leaves the clusters unchanged. Cutting by cluster index yields exactly the half-open slice(s) of the data in the cluster(s), and a cluster is full exactly when no unclustered point touches either of its ends.",
  ["inputs", "histories"], "every valid cluster table and every merge request or cluster index",
  "No test merges, cuts or inspects adjacency; the claim ranges over all arrangements of clusters.",
  ["dataclusters.py"],
  [("merge", "dataclusters.py DataClusters.combine_clusters"), ("adjacency", "dataclusters.py DataClusters.find_adjacent_clusters"), ("cut", "dataclusters.py DataClusters.cut"), ("fullness", "dataclusters.py DataClusters.cluster_is_full")])

p("C04", "Flattening and restoring free parameters never touches fixed ones",
  "Flattening a model yields the free parameters of its parts in order; writing a parameter vector back assigns its leading entries, in the same order and at full floating-point value, to exactly the free parameters and leaves every fixed parameter unchanged, so that flattening afterwards returns what was written. Vectors containing not-a-number are rejected without changing the model, and the reported parameter counts (all, or free only) agree with the flattened length.",
  ["inputs"], "every model with any number of parts, any number of parameters per part, any pattern of fixed parameters, every vector",
  "No test touches models; holding parameters fixed is promised for every fixed/free pattern and every vector the optimiser tries.",
  ["modelparts.py"],
  [("write into one part", "modelparts.py ModelPart.update"), ("read one part", "modelparts.py ModelPart.compress"), ("distribute over parts", "modelparts.py ModelParts.pack_freepars"), ("concatenate", "modelparts.py ModelParts.unpack_freepars"), ("counts", "modelparts.py ModelPart.npars, ModelParts.npars"), ("construction", "modelparts.py ModelPart.__init__")])

p("C05", "Evaluation honours range, ownership, and additivity",
  "Evaluating a model part over a grid gives an array of the grid's length that equals the underlying function inside the requested range and zero outside it, and a scalar gives the function's value there; evaluating through a function that does not own the part is refused. The value of a model is the sum of the values of its parts (zero for an empty model), and evaluation changes neither the parts nor the grid.",
  ["inputs"], "every owner function, parameter set, grid, scalar and range; models with any number of parts",
  "No test evaluates a function; the claim is over all grids and ranges.",
  ["basefunction.py", "modelparts.py"],
  [("ranged value", "basefunction.py BaseFunction.value"), ("ranged jacobian", "basefunction.py BaseFunction.jacobian"), ("sum of parts", "modelparts.py ModelParts.value"), ("delegation", "modelparts.py ModelPart.value, ModelPart.jacobian")])

p("C06", "The fit minimises the right residual with its matching Jacobian",
  "The fitted residual is (expected minus model) divided by the uncertainty over the requested range, evaluated at exactly the given free parameters, and its Jacobian has one row per free parameter, in flattening order, equal to minus the model derivative divided by the uncertainty over the same range. Fitting refuses a model with at least as many free parameters as there are data points given, leaves a model without free parameters untouched, reports any optimiser failure as a fit error, and when asked for covariance scales the optimiser's curvature matrix by the residual variance.",
  ["inputs"], "every model, data set, uncertainty and range, any number of parts and any pattern of fixed parameters; every answer the optimiser may give",
  "No test fits anything; a wrong sign, scale or row order only shows as slow or wrong convergence on some data.",
  ["modelparts.py"],
  [("residual", "modelparts.py ModelParts.residual"), ("jacobian of residual", "modelparts.py ModelParts.residual_jacobian"), ("fit", "modelparts.py ModelParts.fit")])

p("C07", "Analytic Jacobians are the exact derivatives of the model functions",
  "For every built-in peak and baseline function the reported derivative with respect to each free parameter equals the mathematical partial derivative of that function's value, at every parameter set in its domain and every coordinate, scalar or grid. Fixed parameters are reported as having no derivative, and never change the derivatives reported for the free ones.",
  ["inputs"], "all real parameter values and coordinates in the functions' domains, every fixed/free pattern, every polynomial degree",
  "No test evaluates a Jacobian; finite sampling cannot establish an identity between functions of five real variables.",
  ["peaks/gaussian.py", "peaks/gaussianoverr.py", "baselines/polynomial.py", "baselines/nanospherical.py", "baselines/arbitrary.py", "baselines/fromsequence.py", "peaks/terminationripples.py"],
  [("Gaussian", "peaks/gaussian.py Gaussian._valueraw/_jacobianraw"), ("Gaussian over r", "peaks/gaussianoverr.py GaussianOverR._valueraw/_jacobianraw"), ("polynomial", "baselines/polynomial.py Polynomial._valueraw/_jacobianraw"), ("nanosphere", "baselines/nanospherical.py NanoSpherical._valueraw/_jacobianraw")])

p("C08", "Parameter format conversions are mutually inverse and value-preserving",
  "Converting parameters between any two supported formats and back returns the original parameters whenever they are in the preferred range, and restoring internal parameters to the preferred range never changes the value of the function at any coordinate. Width, full width at half maximum and standard deviation stay related by the documented constants, widths above the maximum and unknown formats are refused, and conversion never modifies its input.",
  ["inputs"], "all real parameter values, all pairs of formats, all maximum widths",
  "No test converts parameters; the claims are identities over all reals including the folding of out-of-range internal widths.",
  ["basefunction.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "baselines/polynomial.py", "baselines/nanospherical.py", "baselines/arbitrary.py", "baselines/fromsequence.py"],
  [("format resolution", "basefunction.py BaseFunction.transform_parameters"), ("peak conversions", "peaks/gaussian.py and peaks/gaussianoverr.py _transform_parametersraw"), ("baseline conversions", "baselines/*.py _transform_parametersraw")])

p("C09", "Format-conversion gradients are the derivatives of the conversion",
  "The gradient matrix reported for a conversion between two parameter formats equals the matrix of partial derivatives of the converted parameters with respect to the original ones, and is the identity when the formats are the same. Unknown formats are refused.",
  ["inputs"], "all parameter values in the interior of the preferred range, all pairs of formats, all maximum widths",
  "No test uses the gradients; uncertainties reported to users are wrong by an arbitrary factor if one entry is wrong for some pair of formats.",
  ["basefunction.py", "peaks/gaussianoverr.py"],
  [("format resolution", "basefunction.py BaseFunction.transform_derivatives"), ("gradients", "peaks/gaussianoverr.py GaussianOverR._transform_derivativesraw")])

p("C10", "Peak lists sort by position and match heights without losing peaks",
  "Sorting a peak list leaves the same peaks in non-decreasing order of position, and the sort order query returns indices that would do so. Matching a peak list to a height at a coordinate never adds, removes or replaces peaks nor changes any fixed parameter, leaves every parameter as it was when it reports that nothing was scaled, and when every peak scales the total at that coordinate equals the requested height.",
  ["inputs"], "every list of peaks, every fixed/free pattern, coordinate and height",
  "No test builds a peak list; the claims are over all lists and all failure points inside matching.",
  ["peaks/base.py"],
  [("sort", "peaks/base.py Peaks.sort, Peaks.argsort"), ("match", "peaks/base.py Peaks.match_at"), ("guarded scaling of one peak", "peaks/base.py Peak.scale_at")])

p("C11", "Scaling a peak multiplies its height and keeps its maximum in place",
  "Scaling a peak at a coordinate by a positive factor either returns parameters whose value at that coordinate is the factor times the original, with the coordinate and height of the peak's maximum unchanged, or fails with a scaling error; non-positive factors are always refused and a factor of one changes nothing. Scaling a peak object changes it only when it succeeds, and never when that would alter a fixed parameter.",
  ["inputs"], "all real peak parameters in the preferred range, coordinates and factors for which a solution exists",
  "No test scales a peak; the claim is an identity over all reals.",
  ["peaks/gaussian.py", "peaks/gaussianoverr.py", "peaks/base.py"],
  [("Gaussian", "peaks/gaussian.py Gaussian.scale_at"), ("Gaussian over r", "peaks/gaussianoverr.py GaussianOverR.scale_at"), ("guard", "peaks/base.py Peak.scale_at")])

p("C12", "Information criteria follow their definitions",
  "The quality statistic of a fit is its chi-square (squared differences between model and data over squared uncertainties) plus the penalty of the chosen criterion: twice the number of parameters k for the plain criterion, with the small-sample term 2k(k+1)/(n-k-1) added for the corrected one, where too few points are treated as the minimum number that criterion needs and a negative k is refused. Growth by some number of parameters is justified exactly when there are enough points for the larger model and the extra penalty is below the present chi-square.",
  ["inputs"], "every model size, data size, parameter shift and data values",
  "No test evaluates a criterion; all acceptance, pruning and multi-model ranking rest on these formulas for every size.",
  ["modelevaluators/base.py", "modelevaluators/aic.py", "modelevaluators/aicc.py"],
  [("chi-square", "modelevaluators/base.py ModelEvaluator.chi_squared"), ("AIC", "modelevaluators/aic.py AIC.evaluate/parpenalty/growth_justified"), ("AICc", "modelevaluators/aicc.py AICc.evaluate/parpenalty/growth_justified")])

p("C13", "Model comparison is a consistent order and model weights a distribution",
  "Comparing two evaluated fits of the same criterion agrees with comparing their statistics, a better fit always comparing as greater, and is a total order in which the six comparison operators are mutually consistent; comparing different criteria or unevaluated fits is refused. The weight of each model is exp(-(stat - best)/2), so the best has weight one and none exceeds it, and the probabilities are non-negative, sum to one and are ordered like the statistics.",
  ["inputs"], "every pair and every collection of statistics",
  "No test compares fits; order laws quantify over all triples of values.",
  ["modelevaluators/base.py", "modelevaluators/aic.py", "modelevaluators/aicc.py"],
  [("comparison", "modelevaluators/base.py ModelEvaluator.__lt__ and the other comparisons"), ("weights", "modelevaluators/aic.py and aicc.py akaikeweights, akaikeprobs")])

p("C14", "Covariance bookkeeping matches the model and survives conversion",
  "A covariance matrix given for all parameters is kept as is, one given for the free parameters is spread so that free entries keep their values and every entry of a fixed parameter is zero, and any other shape is refused; afterwards every parameter can be addressed both by (part, parameter) and by flat position with the same answers, whatever was stored before. Converting formats maps the matrix V to G V G-transpose with G the block-diagonal conversion gradient, uncertainties are square roots of variances, and correlations are covariances over the product of uncertainties (zero for fixed parameters), listed as a warning exactly for the pairs above the (non-negative) threshold. This is for models with at least one part.",
  ["inputs", "histories"], "every model, fixed/free pattern, matrix, threshold, and sequence of assignments to the same object",
  "No test touches covariances; the index arithmetic must hold for every fixed/free pattern.",
  ["modelcluster.py"],
  [("assignment", "modelcluster.py ModelCovariance.setcovariance"), ("conversion", "modelcluster.py ModelCovariance.transform"), ("queries", "modelcluster.py ModelCovariance.getcovariance/getcorrelation/getuncertainty/getvalue/get"), ("warning list", "modelcluster.py ModelCovariance.correlationwarning")],
  None, [("pmap/ipmap", "index maps between (part, parameter) and flat position", "modelcluster.py")])

p("C15", "Cluster views and joining adjacent model clusters are consistent",
  "A model cluster's coordinates, values, uncertainties and size are always exactly those of its data restricted to its current slice, and its residual is data minus baseline minus peaks. Joining two model clusters succeeds exactly when they share their data, criterion and equal baselines and their ranges touch, in either argument order; the result spans both ranges with the peaks of both in position order (a peak is dropped exactly when it lies at the border position together with another one, or is out of order and has strayed across the border to the other cluster's side; heights are then adjusted at the border), and the originals are left unchanged.",
  ["inputs", "histories"], "every pair of non-empty ranges of common data, every sequence of slice changes",
  "No test builds a model cluster; the claim covers all pairs of slices and peak lists.",
  ["modelcluster.py"],
  [("slice change", "modelcluster.py ModelCluster.change_slice"), ("join", "modelcluster.py ModelCluster.join_adjacent"), ("residual", "modelcluster.py ModelCluster.value/valuebl/residual")])

p("C16", "Protected peaks are never removed",
  "No operation that edits the peaks of a model cluster - replacing or deleting peaks, cleaning after a fit, or pruning - ever removes a peak marked as not removable whose parameters are numbers: an edit that asks for it is refused and leaves the peaks unchanged. Cleaning removes only peaks outside the cluster (before its first point, or not before its last) that contribute less than the uncertainty everywhere inside it, or that have non-numeric parameters, and after every successful edit the peaks are in position order.",
  ["inputs", "histories"], "every list of peaks with any removable pattern, every slice to delete, every cluster range and uncertainty",
  "No test edits peaks; users rely on pinned peaks surviving every extraction.",
  ["modelcluster.py"],
  [("replace", "modelcluster.py ModelCluster.replacepeaks, deletepeak"), ("clean", "modelcluster.py ModelCluster.cleanfit"), ("prune", "modelcluster.py ModelCluster.prune")])

p("C17", "A fit is accepted only if it does not make the model worse",
  "Fitting a model cluster either returns the quality of the accepted model, which is never worse than the quality before the fit (the estimation of a first peak counts as before the fit), or reports failure and restores peaks and baseline to what they were, also when the optimiser fails; a justification request additionally rejects a one-peak fit that more peaks would justify. A cluster whose data, less the baseline, stay below the uncertainty over its first range and every range it grows into is never fitted, a conditional refit of any other cluster happens exactly when it first has enough points or has grown by the threshold since its last fit, and a reduction that is not kept restores the peaks.",
  ["inputs", "histories"], "every model, data set, optimiser outcome (including failures) and quality values",
  "No test fits a cluster; the guarantee is about every possible optimiser outcome, including ones tests cannot provoke.",
  ["modelcluster.py"],
  [("fit with revert", "modelcluster.py ModelCluster.fit"), ("conditional fit", "modelcluster.py ModelCluster.contingent_fit"), ("reduction with revert", "modelcluster.py ModelCluster.reduce_to"), ("never fit", "modelcluster.py ModelCluster.change_slice")])

p("C18", "Extraction settings are validated, defaulted, and ranges clipped correctly",
  "Setting data of unequal lengths or an unknown setting is refused; unset settings get their documented defaults and settings that are set are kept, with half-open ranges completed from the data and positive scalar uncertainties broadcast. The extraction range selects exactly the data points whose coordinates lie within the requested limits, clipped to the data.",
  ["inputs"], "every data set and every combination of set, unset and partially set settings; every range overlapping the data",
  "No test sets up an extraction; the defaulting rules interact over all combinations of settings.",
  ["peakextraction.py", "pdfpeakextraction.py"],
  [("data", "peakextraction.py PeakExtraction.setdata"), ("settings", "peakextraction.py PeakExtraction.setvars, defaultvars"), ("range", "peakextraction.py PeakExtraction.getrangeslice"), ("PDF settings", "pdfpeakextraction.py PDFPeakExtraction.setvars, defaultvars")])

p("C19", "Resampling reproduces band-limited data and scales errors by the rule",
  "Resampling onto a grid gives the Whittaker-Shannon sum of the data, so at the original grid points it returns the original values, and it depends linearly on the data. Resampled data cover the extraction range on the requested spacing with interpolated uncertainties multiplied by the error scale, which is one unless a maximum momentum transfer is set together with Nyquist sampling and scaling, and then is the larger of one and the square root of Nyquist spacing over spacing. The running ratio used to find qmax is the standard deviation of the first i+2 values over that of the next i+2.",
  ["inputs"], "every uniform grid, data, target grid and setting combination",
  "No test resamples; identities must hold for all grids and data.",
  ["pdfpeakextraction.py"],
  [("resample", "pdfpeakextraction.py resample"), ("resampled data", "pdfpeakextraction.py PDFPeakExtraction.resampledata"), ("error scale", "pdfpeakextraction.py PDFPeakExtraction.errorscale"), ("running variance ratio", "pdfpeakextraction.py stdratio")])

p("C20", "Multi-model classification is a partition into similar models",
  "Classifying models puts every model in exactly one class, the recorded class of each model agrees with the class lists, every class lists its models by increasing index with the first as its exemplar, and a model joins the earliest class whose exemplar has the same structure and agrees with it within the tolerance in every peak and in the baseline. Within each class models are ranked by quality with the best last, for every uncertainty value.",
  ["inputs"], "every collection of models, tolerance, and assignment of quality statistics",
  "No test classifies models; the claim ranges over all collections.",
  ["multimodelselection.py"],
  [("classify", "multimodelselection.py MultimodelSelection.classify"), ("ranking", "multimodelselection.py MultimodelSelection.makesortedclasses")])

p("C21", "Multi-model probabilities and best-model queries are consistent",
  "For every assumed uncertainty the models' statistics use the chi-square rescaled by the squared ratio of uncertainties, their probabilities and those of class representatives sum to one, and rankings list models and classes by increasing probability. Queries for the best models or classes, for the uncertainties at which a given model or class is best (restricted to those asked about), and for the nearest tabulated uncertainty return exactly what those tables imply, and saved statistics reload to the same tables.",
  ["inputs"], "every collection of models, statistics and uncertainty values, and every query",
  "No test uses multi-model selection; the query results must agree with the tables for all of them.",
  ["multimodelselection.py"],
  [("statistics", "multimodelselection.py MultimodelSelection.makeaics, loadaics"), ("probabilities", "multimodelselection.py makeaicprobs, makeclassprobs, makesortedprobs, makesortedclassprobs"), ("queries", "multimodelselection.py bestclasses, bestmodels, classbestdgs, modelbestdgs, dg_key, get_*")])

p("C22", "Saved functions, peaks and baselines restore to the same thing",
  "Writing a function, peak or baseline to text and instantiating it again yields an object of the same type with the same defining values, owner or base reference, parameters, fixed/free flags and removable/static flags; a sequence baseline read from a file has exactly the numbers of the file's data lines. An owner or base outside the supplied list of functions is refused with a value error when writing and when reading, and a value that cannot be evaluated, or a peak or baseline line that is not of the form name=value, with the data format error.",
  ["inputs"], "every built-in function and every finite parameter value, flag pattern and position in the function list",
  "No test writes or reads anything; round trips quantify over all values.",
  ["basefunction.py", "modelparts.py", "peaks/base.py", "baselines/base.py", "baselines/fromsequence.py", "peaks/terminationripples.py"],
  [("functions", "basefunction.py BaseFunction.writestr/factory"), ("parts", "modelparts.py ModelPart.writestr, peaks/base.py Peak.factory, baselines/base.py Baseline.factory"), ("sequence baselines", "baselines/fromsequence.py FromSequence.readxy/xyrepr")])

p("C23", "Saved extractions and model clusters can be read back",
  "A saved extraction or model cluster can be read back from text and from file, restoring settings, functions, baseline, initial and extracted peaks, range, slice, criterion and PDF metadata exactly and numeric data and the clustering resolution to six significant digits, including when some are unset, and saved stability results are restored with their baselines. A file that does not contain the promised number of data fields per line is refused as badly formatted.",
  ["inputs"], "every combination of set and unset settings, any number of peaks, every finite data value",
  "No test writes or reads an extraction; the format has many optional sections.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "modelevaluators/__init__.py", "peakstability.py", "srmiselog.py"],
  [("extraction", "peakextraction.py PeakExtraction.writestr/readstr/read/write"), ("PDF metadata", "pdfpeakextraction.py writemetadata/readmetadata"), ("model cluster", "modelcluster.py ModelCluster.writestr/factory"), ("stability results", "peakstability.py PeakStability.save/load"), ("traces", "srmiselog.py TracePeaks.writestr/readstr")])

p("C24", "Termination ripples only band-limit the underlying peak on its own grid",
  "A termination-ripple function converts, estimates and scales exactly like the function it decorates. Extending a grid by the padding keeps the original grid as the reported contiguous part, with the spacing continued on both sides and no negative coordinates beyond one step; frequency cutting keeps the length, is linear, leaves nothing at or above the cutoff and keeps what lies more than one frequency step below it; value and derivatives have the grid's length, are zero outside the requested range, and use the fixed/free pattern of the part, for scalars and grids alike.",
  ["inputs"], "every underlying peak function, cutoff, extension, grid, scalar and range",
  "No test uses ripples; grid and index arithmetic must hold for all lengths and spacings.",
  ["peaks/terminationripples.py"],
  [("delegation", "peaks/terminationripples.py TerminationRipples"), ("grid extension", "peaks/terminationripples.py TerminationRipples.extend_grid"), ("cut", "peaks/terminationripples.py TerminationRipples.cut_freq"), ("evaluation", "peaks/terminationripples.py TerminationRipples.value/jacobian")])

p("C25", "PDF data sets parse, copy, and expose only their declared variables",
  "Reading a written data set restores its scattering type, instrument values, metadata and data (to the printed precision), and uncertainties that are missing, non-finite or non-positive anywhere become all zero with one entry per data point. Only the declared refinable variables can be read or set, always as floats, a copy has every persistent value of the original with independent metadata, and clearing forgets everything previously read.",
  ["inputs", "histories"], "every data set, header, uncertainty column pattern and variable name",
  "No test reads a data file; validity of a column depends on every line.",
  ["pdfdataset.py"],
  [("parse", "pdfdataset.py PDFDataSet.readStr"), ("write", "pdfdataset.py PDFDataSet.writeStr"), ("variables", "pdfdataset.py PDFDataSet.setvar/getvar"), ("copy", "pdfdataset.py PDFDataSet.copy")])

p("C26", "Copies are independent and equality compares content",
  "Copying a model part, a model or a model cluster gives an equal object of the same kind that shares owner functions but no parameters, flags or peak list, so no later change of one is visible in the other. Two model parts are equal exactly when they have the same owner, parameters, fixed/free flags and removability; slicing a model gives a model of the same kind with the same parts, and reading or setting a parameter or flag by name or by position addresses the same entry. The owner of a part can be changed only to a function with the same number of parameters, and not at all when declared static.",
  ["inputs", "histories"], "every part, model and cluster and every later modification of original or copy",
  "No test copies anything; reverting failed fits relies on independence under every later change.",
  ["modelparts.py", "modelcluster.py"],
  [("part copy and equality", "modelparts.py ModelPart.copy/__eq__/__getitem__/getfree/setfree/changeowner"), ("model copy and slice", "modelparts.py ModelParts.copy/__getitem__"), ("cluster copy", "modelcluster.py ModelCluster.__init__/copy")])

p("C27", "Function definitions are validated and ordered by dependency",
  "A function definition is accepted exactly when its parameter names are strings numbered uniquely from zero, both default formats are given and every default names a declared format, and a peak function names its position parameter; otherwise it is refused with a value error. Ordering functions for saving lists each requested function and everything it is built on exactly once, with every base before the functions built on it.",
  ["inputs"], "every definition and every collection of functions with acyclic base references of any depth",
  "No test defines functions; ordering must hold for every dependency chain.",
  ["basefunction.py", "peaks/base.py", "baselines/polynomial.py", "baselines/arbitrary.py", "baselines/fromsequence.py"],
  [("definition", "basefunction.py BaseFunction.__init__, peaks/base.py PeakFunction.__init__"), ("ordering", "basefunction.py BaseFunction.safefunctionlist/safefunction")])

p("C28", "Logging and tracing controls do exactly what is asked",
  "Live plotting accepts only true booleans, console and file levels accept the documented names or numbers and reach their own handler alone, after setting one the logger lets through everything that handler asks for and is no stricter than before, and setting a file level without a file log is refused. Trace counters nest exactly with pushes and pops, restart whenever a new outermost call begins, and a trace is stored and counted exactly when the filter admits it; a written trace reads back with its own counter, recursion level and clusters.",
  ["histories", "inputs"], "every sequence of pushes, pops, emissions and level changes",
  "No test uses logging or tracing; the counters are history-dependent.",
  ["srmiselog.py"],
  [("live plotting", "srmiselog.py liveplotting"), ("levels", "srmiselog.py setlevel/setfilelevel"), ("trace state", "srmiselog.py TracePeaks.pushc/popc/pushr/popr/reset_trace/emit"), ("trace text", "srmiselog.py TracePeaks.writestr/readstr")])

p("C29", "Peak maxima and initial estimates are well defined",
  "The reported maximum of a peak is the coordinate and value of its largest value (for peaks over r the local maximum, refused when there is none). Estimating a peak needs at least three positive points of equally long data, otherwise it fails with an estimation error, and an estimate is internal parameters with an angular width inside the preferred range whose width in natural units does not exceed the maximum width.",
  ["inputs"], "all parameter values in the preferred range, all data sets",
  "No test estimates a peak or asks for a maximum; being a maximum is a statement about all coordinates.",
  ["peaks/gaussian.py", "peaks/gaussianoverr.py"],
  [("maximum", "peaks/gaussian.py Gaussian.max, peaks/gaussianoverr.py GaussianOverR.max"), ("estimate", "peaks/gaussian.py and peaks/gaussianoverr.py estimate_parameters")])

p("C30", "Extraction recovers the peaks of well-separated noisy data",
  "Given data generated from well-separated peaks with known uncertainties, extraction returns one peak per generated peak with parameters within their uncertainties.",
  ["inputs"], "all data sets generated by well-separated peak models with noise",
  "It is a statement about a numerical optimiser under random noise.",
  ["peakextraction.py", "pdfpeakextraction.py"],
  [("main loop", "peakextraction.py PeakExtraction.extract_single"), ("PDF extraction", "pdfpeakextraction.py PDFPeakExtraction.extract")])

p("C31", "Extraction visits every point and keeps one model per cluster",
  "Provided its fits return, extraction finishes: it clusters every point of the range, keeps at every step exactly one model cluster per data cluster, in the same order and over the same points, and searches residuals at most three levels deep, always with the same baseline, resolution, criterion and peak functions. Where a cluster reaches the end of the data or meets a neighbour, exactly the peaks nearest that point on either side (at most two) are refitted, on the data reaching to their next neighbours, and all other peaks are kept. The result covers the whole range with initial peaks put back, the settings (baseline and initial peaks among them) are untouched, a covariance is returned at the top level only, and the trace counters are as they were, even when a fit fails.",
  ["inputs", "histories", "fault_sequences"], "all data sets, ranges, settings, initial peaks, outcomes of every fit, sequences of clustering steps and recursion levels",
  "One test extracts from one data set; the loop's invariants, its recursion and its behaviour when a fit fails cannot be sampled.",
  ["peakextraction.py"],
  [("main loop", "peakextraction.py PeakExtraction.extract_single"), ("clusters", "dataclusters.py DataClusters, modelcluster.py ModelCluster.join_adjacent")])

p("C32", "Fitting and PDF extraction use exactly the data and settings that were set",
  "fit_single fits copies of the initial peaks and baseline to exactly the range's data and uncertainties and records the model; the settings themselves stay as they were. PDF fitting uses the range's data when no highest frequency (qmax) is set or Nyquist sampling is off, else data resampled at pi/qmax. PDF extraction uses the data as they are without qmax; resamples them to the rate over the supersampling when they are not oversampled that much; else uses them with uncertainties scaled from the raw spacing. Every peak found that is not static and has no ripples gets them from its own function, exactly once. The sampling loop ends: the result is sampled at the rate, or oversampled as little as possible, and oversampled only if it has more free parameters than samples. The last fit includes the baseline and its covariance is returned. The trace counter is as it was even after a failure. Estimating a peak refuses coordinates outside the data, searches the residual's cluster nearest to it, returns that peak or None, and adds it exactly when wanted: to the extracted model, else to the sorted initial peaks.",
  ["inputs", "histories", "fault_sequences"], "all data sets wider than one sampling interval, ranges, settings (qmax, Nyquist sampling, supersampling), initial peaks, outcomes of every fit and estimate",
  "Tests fit one PDF; the sampling loop, the settings' effects and the failure paths range over all data and all outcomes of the fits.",
  ["peakextraction.py", "pdfpeakextraction.py"],
  [("fitting", "peakextraction.py PeakExtraction.fit_single, pdfpeakextraction.py PDFPeakExtraction.fit"), ("PDF extraction", "pdfpeakextraction.py PDFPeakExtraction.extract, peakfunctions/terminationripples.py"), ("estimates", "peakextraction.py PeakExtraction.estimate_peak, add_peaks")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
