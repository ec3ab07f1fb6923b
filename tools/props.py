# The properties: source of properties.jsonl and MANIFEST.json (see gen.py).
NOT_APPLICABLE = []
P = []

def p(**k):
    P.append(k)

p(id="C01", title="Parallel work splitting runs every index exactly once before returning",
  statement="Splitting n items over t workers hands every index 0..n-1 to exactly one non-empty part, never a range outside 0..n, whatever t and n are (t larger than n, t not dividing n, t zero or negative meaning all cores, n zero). The call returns only after every part has finished, and no two non-empty parts get the same worker number, which is below t when t is positive.",
  over=["inputs", "schedules"], quant="all worker counts and item counts, all schedules of the workers",
  why="Tests only run the estimators on data sizes where the chunking happens to work; coverage for every (t,n) pair and completion before return under every schedule is not sampled.",
  files=["base/parallel.go"], mech=[("Parallelize", "base/parallel.go")],
  tech="property-based testing: visit counters over generated (workers, items) pairs, delayed workers",
  note="generated pairs up to 70 workers and 300 items")

p(id="C02", title="Matrix views, slices and dense conversions address the right cells",
  statement="Row views, transposes, sub-matrix windows, constants and conversions to and from dense storage read and write exactly the cell of the underlying matrix they stand for, for compact matrices, windows of larger matrices and interface-only matrices; nothing outside the addressed window is written, a dense matrix is viewed rather than copied, and reading outside a row view panics. The shape check accepts exactly the operand shapes the operation is defined for. The text form of several matrices lists their rows side by side, each cell with the value's shortest form.",
  over=["inputs"], quant="all matrices, storage layouts, ranges and shapes",
  why="The tests use a couple of small compact matrices; wrong offsets only show for particular (start, stride) combinations.",
  files=["base/matrix.go"], mech=[("MatRowSlice, MatTranspose, MatDense*Slice, MatGeneral*Slice, ToDense, FromDense, MatDimsCheck", "base/matrix.go")],
  tech="property-based testing against a plain copy of the matrix, distinct cells, guarded windows",
  note="matrices up to 9x7")

p(id="C03", title="The locked random source serves its seed's stream under any concurrency",
  statement="However goroutines interleave draws, locked sections and clones on one shared source, the values handed out are together exactly the first values of the seed's stream, each handed out once and in stream order for each goroutine, without data races. Reseeding restarts the new seed's stream; a clone continues independently from the position its origin had, with neither disturbing the other.",
  over=["schedules", "histories"], quant="all interleavings of draws and clones, all histories of draw / reseed / clone",
  why="The existing test draws from a couple of goroutines once; a lost or doubled value needs a particular interleaving.",
  files=["base/source.go"], mech=[("LockedSource, Source", "base/source.go")],
  tech="stateful property-based testing against a (seed, position) model, race detector on",
  note="up to 8 goroutines x 60 draws per case under the Go race detector")

p(id="C04", title="First-order optimizers follow their published update recurrences",
  statement="For every sequence of gradients, plain and momentum descent, adagrad, rmsprop, adadelta, adam change the parameters at each step exactly as their documented recurrence says for the configured step size, decay, momentum, gradient clipping and epsilon, with one independent state per optimizer. The activation functions equal their definitions and their gradients equal the numeric derivative.",
  over=["histories", "configurations"], quant="all gradient sequences and hyper-parameters",
  why="Tests only check that one descent converges; a wrong decay or bias correction still converges.",
  files=["base/optimizers.go", "base/activation.go"], mech=[("SGDOptimizer, AdagradOptimizer, RMSPropOptimizer, AdadeltaOptimizer, AdamOptimizer", "base/optimizers.go"), ("Activation", "base/activation.go")],
  tech="stateful property-based testing against an independent scalar model of each recurrence",
  note="sequences of up to some tens of steps on small matrices")

p(id="C05", title="Scalers and normalizers apply exactly their defining map",
  statement="After fitting, min-max, standard, max-abs and robust scaling map any data cell by cell with the affine map given by the training columns' min/max, mean/population deviation, largest magnitude, or median and quantile range, constant columns getting a finite result with scale 1; the normalizer divides each row (or column) by its L1, L2 or max norm leaving zero ones alone, the binarizer compares strictly with its threshold, and kernel centring equals the kernel of the centred points. The column mean, variance and deviation helpers equal their definition (population variance) for every shape and storage.",
  over=["inputs", "configurations"], quant="all data (any shape, scale, ties, constant columns, strided storage) and options",
  why="Tests use one or two tiny matrices per scaler.",
  files=["preprocessing/data.go"], mech=[("MinMaxScaler, StandardScaler, MaxAbsScaler, RobustScaler, Normalizer, Binarizer, KernelCenterer, MeanStdDev, DenseMean", "preprocessing/data.go")],
  tech="property-based testing against independent column statistics",
  note="matrices up to some tens of rows and several columns, values from a grid to 1e±6 scales")

p(id="C06", title="Inverse transforms undo their transforms and hand back the other matrix",
  statement="For scalers, full-rank PCA, the one-hot, ordinal and binary label encoders, the shuffler, power transforms and user function pairs, inverting the transform of any accepted data gives the data back up to rounding, and both directions pass the matrix they do not act on through unchanged in the same row order. Discretization inverts to the centre of the cell's bin.",
  over=["inputs", "configurations"], quant="all accepted data and options",
  why="Round trips are tested on one example for a few transformers.",
  files=["preprocessing/data.go", "preprocessing/label.go", "preprocessing/pca.go", "preprocessing/discretization.go", "preprocessing/functiontransformer.go"],
  mech=[("InverseTransform methods", "preprocessing/*.go")],
  tech="property-based testing: round trip", note="generated data up to some tens of rows")

p(id="C07", title="Fitting in batches equals fitting once on all the data",
  statement="Feeding min-max, standard and max-abs scalers, the label encoder or the running mean/variance helper any split of the data into batches leaves, after every batch, the same statistics and the same transform as one fit on the rows seen so far, up to rounding. A clone taken in between stays frozen while the original goes on learning.",
  over=["histories", "inputs"], quant="all data and all ways of cutting it into batches",
  why="Tests feed at most one or two batches.",
  files=["preprocessing/data.go", "preprocessing/label.go"], mech=[("PartialFit, IncrementalMeanAndVar", "preprocessing/data.go"), ("LabelEncoder.PartialFit", "preprocessing/label.go")],
  tech="stateful property-based testing: incremental vs one-shot differential", note="up to 6 batches of uneven sizes")

p(id="C08", title="Encoders give every category its own column or code in sorted order",
  statement="One-hot and binary label encoding give each column one output per distinct training value, in increasing value order and columns left to right: the output of a value's own category is the positive label and all others the negative one, values never seen in training light no output. Ordinal encoding maps the i-th smallest value to i and unseen values to -1, decodes codes back and unknown codes to NaN; multi-label binarization marks exactly the sorted labels each row holds, and decodes back to them.",
  over=["inputs"], quant="all category values, orders, repetitions, column counts, seen or unseen",
  why="Tests encode a few fixed labels.",
  files=["preprocessing/data.go", "preprocessing/label.go"], mech=[("OneHotEncoder", "preprocessing/data.go"), ("LabelBinarizer, LabelEncoder, MultiLabelBinarizer", "preprocessing/label.go")],
  tech="property-based testing against a set-based reference encoder", note="up to several columns and categories")

p(id="C09", title="Polynomial expansion yields every monomial once with its value",
  statement="For any feature count, degree, bias and interaction-only option, the expansion has exactly one output column for each monomial allowed by the options, its reported powers and output count agree with the columns produced, and each cell is the product of the row's features raised to those powers. Adding a dummy feature prepends a column of ones and keeps the rest.",
  over=["inputs", "configurations"], quant="all data, degrees and options",
  why="Tests check two or three small expansions.",
  files=["preprocessing/data.go", "preprocessing/itertools.go"], mech=[("PolynomialFeatures", "preprocessing/data.go"), ("Combinations", "preprocessing/itertools.go")],
  tech="property-based testing against an enumerated monomial set", note="up to 5 features and degree 5")

p(id="C10", title="PCA projects on the leading orthonormal directions of the data",
  statement="For tall and wide data the fitted components are orthonormal right singular directions of the data matrix as given (it is not centred) in decreasing singular value order, with variance ratios that are their share of the sum of squares, and the projection of any data is its product with as many of them as requested by count or by variance ratio. Inverting a reduced projection gives the orthogonal projection of the data on the kept directions.",
  over=["inputs", "configurations"], quant="all data shapes and component counts",
  why="One fixed matrix is tested.",
  files=["preprocessing/pca.go"], mech=[("PCA", "preprocessing/pca.go")],
  tech="property-based testing: algebraic invariants (orthonormality, reconstruction, ordering)", note="matrices up to ~12x8")

p(id="C11", title="Imputation, binning and quantile mapping follow the columns' statistics",
  statement="Imputation replaces exactly the missing cells by the training column's mean, (lower) median or a most frequent value and keeps all others; binning puts every cell in the uniform or quantile bin of the training column that contains it (out-of-range values in the first or last), one-hot encoded on request. The quantile transformer is non-decreasing, maps training minimum to 0 and maximum to 1 and interpolates between the training quantiles, with values out of range clipped.",
  over=["inputs", "configurations"], quant="all data with ties, unsorted values, missing cells, out-of-range new data; no training column is wholly missing",
  why="Tests use one sorted example each.",
  files=["preprocessing/imputation.go", "preprocessing/discretization.go", "preprocessing/data.go"],
  mech=[("Imputer", "preprocessing/imputation.go"), ("KBinsDiscretizer", "preprocessing/discretization.go"), ("QuantileTransformer", "preprocessing/data.go")],
  tech="property-based testing against order-statistics references", note="up to some tens of rows")

p(id="C12", title="Power transforms use their formula with a likelihood-maximizing exponent",
  statement="Yeo-Johnson and Box-Cox transforms map every cell with their published piecewise formula for the column's exponent, including the special exponents 0 and 2. Fitting chooses for each column an exponent no other exponent is noticeably more likely than, and with standardization the transformed training columns have mean 0 and variance 1.",
  over=["inputs", "configurations"], quant="all data in the transform's domain, all exponents",
  why="One fixed data set is tested.",
  files=["preprocessing/data.go"], mech=[("PowerTransformer", "preprocessing/data.go")],
  tech="property-based testing against the formula and a likelihood grid", note="exponents in a bounded range around the usual values")

p(id="C13", title="Every transformer is a pure function of its training data and input",
  statement="For every preprocessing transformer, the transform of data does not depend on how the matrices are stored (compact, window, interface-only), on which rows are transformed together, on what the transformer had been fitted on earlier, on what clones of it do later, or on what the caller does with the training matrix once the fit has returned; fitting and transforming in one call equals doing both in turn. No fit or transform changes the matrices it was given.",
  over=["inputs", "histories", "configurations"], quant="all transformers, data, layouts, row groupings, refits and clone histories",
  why="Tests fit once on compact matrices.",
  files=["preprocessing/data.go", "preprocessing/label.go", "preprocessing/pca.go", "preprocessing/imputation.go", "preprocessing/discretization.go", "preprocessing/functiontransformer.go"],
  mech=[("Fit, Transform, FitTransform, TransformerClone", "preprocessing/*.go")],
  tech="metamorphic property-based testing over a registry of all transformers", note="small generated data, every transformer")

p(id="C14", title="Classification metrics equal their definition by counting",
  statement="The confusion matrix cell (i,j) is the total weight of samples with i-th true and j-th predicted label over all labels that occur on either side; accuracy, precision, recall, F-beta and support equal the counting definitions per class and for every average (micro, macro, weighted), an empty denominator giving 0. Sample weights act as repetition counts.",
  over=["inputs", "configurations"], quant="all label vectors, label values, weights, averages and betas",
  why="Tests check the scikit-learn doc example.",
  files=["metrics/classification.go", "metrics/base.go"], mech=[("ConfusionMatrix, AccuracyScore, PrecisionRecallFScoreSupport", "metrics/classification.go")],
  tech="property-based testing against counting references", note="up to some tens of samples and several classes")

p(id="C15", title="Ranking metrics equal pair counting and threshold sweeping",
  statement="The ROC and precision-recall curves list exactly the points of the threshold sweep with tied scores handled together (when one class is missing its ROC rate is NaN throughout and the other rate is unaffected), the ROC AUC equals the weighted fraction of correctly ordered positive/negative pairs with ties counted half, and average precision equals the sum of precision times recall increments, for binary labels and for every multi-label average. The area helper is the trapezoid sum over the given points.",
  over=["inputs", "configurations"], quant="all binary labels, scores with ties, weights and averages",
  why="Tests check the scikit-learn doc example without ties or weights.",
  files=["metrics/ranking.go", "metrics/base.go"], mech=[("ROCCurve, ROCAUCScore, PrecisionRecallCurve, AveragePrecisionScore, AUC", "metrics/ranking.go"), ("averageBinaryScore", "metrics/base.go")],
  tech="property-based testing against O(n^2) pair counting", note="up to some tens of samples")

p(id="C16", title="Regression metrics equal their definition",
  statement="Mean squared, mean absolute error and R2 equal their textbook definitions for any number of outputs, sample weights and aggregation (per output, uniform, variance weighted), a perfect prediction giving 0, 0 and 1; R2 of constant targets is 1 for perfect predictions and 0 otherwise, and none of it depends on the unit of the targets. They do not depend on the matrices' storage or on permuting samples.",
  over=["inputs", "configurations"], quant="all targets and predictions, weights and aggregations",
  why="Tests check the scikit-learn doc example.",
  files=["metrics/regression.go"], mech=[("MeanSquaredError, MeanAbsoluteError, R2Score", "metrics/regression.go")],
  tech="property-based testing against direct formulas", note="up to some tens of samples and several outputs; R2 of constant targets with errors left out")

p(id="C17", title="Neighbour searches return the true nearest points, whatever the search structure",
  statement="For every data set, number of neighbours, metric (Euclidean, Manhattan, Minkowski of any order, cosine) and algorithm (brute force, trees, automatic), a search returns that many distinct training rows with their true distances in increasing order and no other row is nearer; radius searches return exactly the rows within the radius, boundary included; the neighbour graph holds exactly those edges. Tree queries honour their distance bound and approximation factor, and the distance functions and bounding-box distances equal their definitions for any vector storage.",
  over=["inputs", "configurations", "histories"], quant="all point sets (repeats, ties, one point), queries, k, radii, metrics, algorithms and refits",
  why="Tests query a few points of one small set; pruning errors in a tree need particular geometry.",
  files=["neighbors/unsupervised.go", "neighbors/kdtree.go", "neighbors/distance.go", "cluster/distance.go"],
  mech=[("NearestNeighbors.KNeighbors, KNeighborsGraph, RadiusNeighbors", "neighbors/unsupervised.go"), ("KDTree, Rectangle", "neighbors/kdtree.go"), ("distances", "neighbors/distance.go")],
  tech="property-based testing against brute-force search with an independent distance", note="up to ~120 points, 5 features")

p(id="C18", title="Nearest-neighbour and centroid predictors follow their voting rules",
  statement="The neighbours classifier predicts the class with the largest (uniform, inverse-distance or user-weighted) vote of the k nearest training rows, the smallest class winning exact uniform ties, and its probabilities are the vote shares in class order; the regressor predicts the weighted mean of their targets for any number of outputs. The nearest-centroid classifier predicts the class whose mean (median for the Manhattan metric) is nearest; scores are accuracy and R2 of those predictions.",
  over=["inputs", "configurations", "histories"], quant="all data, class values, k, weightings, metrics, refits and destinations",
  why="Tests predict a handful of points.",
  files=["neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go"],
  mech=[("KNeighborsClassifier", "neighbors/classification.go"), ("KNeighborsRegressor", "neighbors/regression.go"), ("NearestCentroid", "neighbors/nearest_centroid.go")],
  tech="property-based testing against a direct vote over brute-force neighbours", note="up to some tens of rows")

p(id="C19", title="DBSCAN labels are the density-connected components",
  statement="Core samples are exactly those with at least the minimum count (or weight) of rows within eps, themselves included; two core samples share a label exactly when linked by a chain of core samples within eps, every other sample within eps of a core sample has the label of such a core sample, and the rest are labelled -1. Clusters are numbered from 0 in order of their first core sample, and refitting forgets earlier data.",
  over=["inputs", "configurations", "histories"], quant="all point sets, eps, minimum counts, weights and metrics",
  why="Tests cluster one generated blob set.",
  files=["cluster/dbscan.go"], mech=[("DBSCAN.Fit", "cluster/dbscan.go")],
  tech="property-based testing against connected components of the eps-graph", note="up to ~60 points")

p(id="C20", title="K-means stops in a fixed point that nearest-centre prediction agrees with",
  statement="Fitting ends with centres that are the means of the samples nearest to them, at a cost not above that of taking the first k samples as centres, and gives the same centres for the same data whatever the worker count. Prediction assigns every row the index of a nearest centre; repeated samples and empty clusters do not make centres undefined or the fit endless.",
  over=["inputs", "configurations", "histories"], quant="all point sets (repeats included) and cluster counts up to the number of samples",
  why="Tests cluster one easy data set.",
  files=["cluster/kmeans.go"], mech=[("KMeans", "cluster/kmeans.go")],
  tech="property-based testing: fixed-point and cost invariants", note="up to 90 points, 4 features")

p(id="C21", title="Data splitters partition the samples and keep rows paired",
  statement="Each split of the k-fold splitter separates all sample indices into a train and a test part with the advertised fold size, for every sample count, fold count, shuffle option and seed, and the same seed gives the same splits. A train/test split puts every row once on one side with X and Y rows kept together, the requested (rounded up) test size, in the order numpy's permutation of that seed gives, and copies rather than aliases its inputs.",
  over=["inputs", "configurations", "histories"], quant="all sample counts, fold counts, sizes, seeds, storage",
  why="Tests check one or two sizes.",
  files=["model_selection/split.go"], mech=[("KFold", "model_selection/split.go"), ("TrainTestSplit", "model_selection/split.go")],
  tech="property-based testing: partition invariants, reference Mersenne-twister permutation", note="up to some hundreds of samples; fold overlap between different splits is pinned by an existing example and not claimed")

p(id="C22", title="Cross-validation and grid search equal doing every fit by hand",
  statement="Cross-validation's scores and retained estimators equal cloning, fitting and scoring by hand on every split, in split order, for any worker count and splitter, and leave the given estimator untouched. The parameter grid is the full product in a fixed order; grid search reports for every combination its own parameters, scores and mean, and picks the first best one in the asked direction, its best estimator predicting as that candidate fitted on its best fold.",
  over=["inputs", "configurations", "schedules"], quant="all data, splitters, estimators, grids, worker counts and schedules",
  why="Tests run one grid and check a score.",
  files=["model_selection/validation.go", "model_selection/search.go"], mech=[("CrossValidate", "model_selection/validation.go"), ("ParameterGrid, GridSearchCV", "model_selection/search.go")],
  tech="property-based differential testing against sequential fits, recording probe estimators", note="up to some tens of candidates")

p(id="C23", title="A pipeline equals running its steps by hand",
  statement="Fitting, transforming, predicting and scoring with a pipeline give what fitting and applying its steps one after the other gives, for any sequence of transformers (target encoders, shuffling and user functions included) and final estimator; predictions come back in the original target encoding. A clone and a refit are independent of what the pipeline was fitted on before, and no input is modified.",
  over=["inputs", "configurations", "histories"], quant="all step sequences, data, refits and clones",
  why="Tests run one or two pipelines.",
  files=["pipeline/pipeline.go"], mech=[("Pipeline", "pipeline/pipeline.go")],
  tech="property-based differential testing over generated pipelines", note="up to a few steps out of 18 transformer kinds and 3 estimators")

p(id="C24", title="Least-squares and ridge fits reach the optimum of their objective",
  statement="For every design (any rank, constant or repeated columns, fewer rows than features), number of outputs and option, the linear regression's residuals are orthogonal to every feature (and sum to zero with an intercept); ridge and the optimizer-driven regressor with an L2 penalty end within rounding of the minimum of the squared error plus penalty. Predictions are exactly features times coefficients plus intercept, the score is their R2, and refits and clones do not influence each other.",
  over=["inputs", "configurations", "histories"], quant="all designs, targets, penalties, options, storage, refits and clones",
  why="Tests fit a few well-conditioned data sets.",
  files=["linear_model/Base.go", "linear_model/ridge.go", "linear_model/loss.go"], mech=[("LinearRegression, RegularizedRegression, SGDRegressor, PreprocessData", "linear_model/Base.go"), ("SquareLoss", "linear_model/loss.go")],
  tech="property-based testing: normal equations, objective compared with Gaussian elimination", note="up to 80 rows, 6 features, 3 outputs")

p(id="C25", title="Elastic net and lasso end in the minimum of their penalized objective",
  statement="When coordinate descent reports convergence the coefficients satisfy the optimality conditions of squared error plus L1 (row norm for several outputs) and L2 penalties, with non-negativity where asked, for any penalty, L1 share, design, selection order and warm start; cut off after k rounds they are those of k rounds of coordinate minimization. The reported duality gap is that of the coefficients, the iteration count stays within the maximum, and regularization paths hold for each penalty what a single fit gives; without penalties of their own they span, logarithmically and in descending order, from the smallest one for which every coefficient vanishes down to the requested fraction of it.",
  over=["inputs", "configurations", "histories"], quant="all designs, targets, penalties, options, cut-offs and warm starts",
  why="Tests compare a couple of fits with scikit-learn's.",
  files=["linear_model/coordinatedescent.go", "linear_model/cdfast.go"], mech=[("ElasticNet.Fit, EnetPath, LassoPath", "linear_model/coordinatedescent.go"), ("enetCoordinateDescent, enetCoordinateDescentMultiTask", "linear_model/cdfast.go")],
  tech="property-based testing: optimality conditions, step-by-step reference descent", note="up to 50 rows, 6 features, 3 outputs; the positive option for one output only")

p(id="C26", title="Logistic regression minimizes its loss and predicts from its coefficients",
  statement="The fitted probabilities of any rows are the sigmoid (0/1 targets) or softmax (class values or one-hot targets) of features times coefficients plus intercepts, the prediction is the most probable class in the targets' own coding, and the score is their accuracy. The reported loss is the mean cross entropy plus penalty at the returned parameters and the smallest one seen; with tight tolerances the gradient vanishes there; fitting never fails for want of further improvement, training without improvement stops sooner the smaller the configured patience, and refits, clones and equal seeds behave accordingly.",
  over=["inputs", "configurations", "histories"], quant="all data, class values and counts, penalties, stopping rules, seeds, refits and clones",
  why="Tests fit one data set with fixed settings.",
  files=["linear_model/logistic.go"], mech=[("LogisticRegression", "linear_model/logistic.go")],
  tech="property-based testing against an independent objective, gradient and softmax", note="up to 60 rows, 4 features, 4 classes; one target column or one-hot targets")

p(id="C27", title="Loss functions have their defined value and its true gradient",
  statement="For any parameters, data, activation, penalty and mini-batch, the square, log and cross-entropy losses return their textbook value with the elastic penalty (sparing the first feature when asked) and fill the gradient with the derivative of that value, predictions and differences with what they stand for, changing none of their inputs. The generic linear fit ends in a stationary point with gonum's quasi-Newton methods, does not get worse with any other method known by name (the library's own optimizers included), and otherwise returns the parameters of its best epoch with the loss it had there, having gone through every sample once per epoch.",
  over=["inputs", "configurations"], quant="all data, parameters, penalties, activations and solvers",
  why="Tests only check that fits converge.",
  files=["linear_model/loss.go", "linear_model/Base.go"], mech=[("SquareLoss, LogLoss, CrossEntropyLoss", "linear_model/loss.go"), ("LinFit, LinFitGOM", "linear_model/Base.go")],
  tech="property-based testing against the definition and central differences", note="up to 30 rows, 4 features, 3 outputs; gradients checked away from kinks")

p(id="C28", title="Bayesian ridge follows its evidence updates",
  statement="For more rows than features, any priors, options and iteration limit, the coefficients are the posterior mean for the reported noise and weight precisions, which result from the evidence fixed-point updates until the coefficients move less than the tolerance; the covariance, the scores per iteration, the intercept and the predictive mean and standard deviation equal their formulas. Refits and clones are independent, and a clone answers as its origin.",
  over=["inputs", "configurations", "histories"], quant="all data with more rows than features, priors, options",
  why="Tests fit one data set.",
  files=["linear_model/bayes.go"], mech=[("BayesianRidge", "linear_model/bayes.go")],
  tech="property-based differential testing against a matrix-inverse implementation of the updates", note="up to 45 rows, 5 features, one target")

p(id="C29", title="Gaussian naive Bayes equals its per-class statistics, batch by batch",
  statement="After one fit or any sequence of partial fits (with classes absent from some batches, sample weights and given priors) the class counts, priors, means and smoothed variances are those of all rows seen, log-probabilities and probabilities follow Bayes' rule for any rows, the prediction is the most probable class and the score its accuracy. A refit forgets what came before, a clone and its origin go separate ways, and no input is modified.",
  over=["inputs", "configurations", "histories"], quant="all data, class sets, batch sequences, weights, priors, smoothing, refits and clones",
  why="Tests fit one data set at once.",
  files=["naive_bayes/naivebayes.go"], mech=[("GaussianNB", "naive_bayes/naivebayes.go")],
  tech="stateful property-based testing against batch statistics", note="up to 50 rows per batch, 4 features, 4 classes")

p(id="C30", title="Interpolators pass through their points with the promised shape between",
  statement="Linear interpolation returns the straight line between neighbouring points (gaps skipped) and extends the end pieces; the cubic spline passes through every point, with continuous first and second derivatives and natural ends; bilinear interpolation agrees with linear interpolation along both axes of its grid. Points may come in any order, and later changes to the caller's slices change nothing.",
  over=["inputs"], quant="all point sets, orders and query positions (right of a two-dimensional grid excepted)",
  why="Tests query a few points.",
  files=["interpolate/interpolate.go", "interpolate/cubic.go"], mech=[("Interp1d, Interp2d", "interpolate/interpolate.go"), ("CubicSpline", "interpolate/cubic.go")],
  tech="property-based testing: reference interpolation, continuity invariants", note="up to some tens of points")

p(id="C31", title="Support vector classifiers are feasible, optimal and consistent",
  statement="Every multiplier of a fitted classifier lies between 0 and C, signed multipliers sum to zero, support vectors are rows of the training set, and when training ends no sample that violates the optimality conditions by more than epsilon can still be improved (none violates them when training ended by itself). More passes never make the dual objective worse. Predictions are 1 or 0 by the sign of the kernel expansion over the support vectors, whatever the kernel and however it is given. The fit depends on data, settings and seed only: not on the cache, storage, 0/1 or -1/+1 targets, or the schedule of several outputs; training always ends. Over many noisy linear problems training attains nearly all of the optimum of its objective on average.",
  over=["inputs", "configurations", "schedules", "histories"], quant="all data, kernels, C, tolerances, iteration limits, seeds, output counts, refits and clones",
  why="One example compares three accuracies.",
  files=["svm/svm.go", "svm/kernels.go", "svm/cache.go"], mech=[("svmTrain, SVC", "svm/svm.go"), ("kernels", "svm/kernels.go"), ("cachedKernel", "svm/cache.go")],
  tech="property-based testing: feasibility and optimality conditions, metamorphic refits", note="up to 30 rows, 4 features, 9 outputs")

p(id="C32", title="Support vector regressors are feasible, fit their tube, and consistent",
  statement="Every multiplier of a fitted regressor lies between -C and C, they sum to zero, support vectors are rows of the training set, the dual objective is no worse than without multipliers and never gets worse with more passes, and when training ends by itself every sample is within epsilon of its target unless its multiplier is at its bound. Predictions are the kernel expansion over the support vectors and the score their R2. The fit depends on data, settings and seed only, targets inside the tube included, and training always ends. Over many noisy linear problems training attains most of the optimum of its objective on average and explains most of the variance.",
  over=["inputs", "configurations", "schedules", "histories"], quant="all data, kernels, C, tolerances, iteration limits, seeds, output counts, refits and clones",
  why="The one example checks no output.",
  files=["svm/svr.go", "svm/svm.go", "svm/kernels.go"], mech=[("svrTrain, SVR", "svm/svr.go"), ("kernels", "svm/kernels.go")],
  tech="property-based testing: feasibility and tube conditions, metamorphic refits", note="up to 30 rows, 4 features, 9 outputs")

p(id="C33", title="Gaussian process kernels equal their definition, with true gradients",
  statement="For any rows, the constant, white, (an)isotropic squared-exponential and dot-product kernels and every sum, product and power of them evaluate to their definition, give symmetric positive semidefinite matrices whose diagonal is what the diagonal method returns, and a gradient with one slice per free hyperparameter that is the derivative by its logarithm. Theta and bounds list the free hyperparameters in order; a clone with a theta is the same expression at that theta, leaving the origin alone, fixed hyperparameters included. The tensors holding gradients address their cells in row-major order, refuse indices outside their shape and iterate over every cell once; comparing two complains exactly when a cell differs by more than the tolerance.",
  over=["inputs", "configurations", "histories"], quant="all kernel expressions, hyperparameters, fixed or free, and rows",
  why="Tests evaluate each kernel on one matrix.",
  files=["gaussian_process/kernels/kernels.go", "gaussian_process/kernels/matutil.go", "gaussian_process/tensor/tensor.go"], mech=[("Kernel implementations", "gaussian_process/kernels/kernels.go"), ("tensor.Dense", "gaussian_process/tensor/tensor.go")],
  tech="property-based testing over generated kernel expressions against a reference evaluator", note="expressions up to depth 3, up to 12 rows, 3 features, integer exponents")

p(id="C34", title="Gaussian process regression computes its likelihood, prior and posterior",
  statement="For any kernel expression, targets (several outputs included) and noise (one level or one per sample), the log marginal likelihood and its gradient at any theta equal their formulas, also as kept by a fit; before a fit predictions are the prior mean, deviation and covariance, afterwards those of the posterior; the score is the R2 of the posterior mean and changes nothing. With hardly any noise the posterior passes through the targets, no less sure of them than the noise allows. Refits and clones are independent, inputs are copied and not modified.",
  over=["inputs", "configurations", "histories"], quant="all data, kernel expressions, noise levels, thetas, refits and clones",
  why="Tests evaluate the likelihood of one data set and one prior prediction.",
  files=["gaussian_process/gpr.go"], mech=[("Regressor", "gaussian_process/gpr.go")],
  tech="property-based differential testing against explicit matrix inversion", note="up to 10 samples, 3 features, 3 outputs")
p(id="C35", title="MLP predictions are the forward pass of the stored weights",
  statement="For any layer sizes, activation (identity, logistic, tanh, relu), output activation (identity, logistic, softmax) and weights, loaded from a scikit-learn style JSON dump (flat or with nested params) into MLPRegressor, MLPClassifier or the 32 and 64 bit base networks, the hyperparameters and weights are those of the dump (SetParams sets the hyperparameters it names, by field or scikit-learn name, and no others; values of another kind are ignored), Predict writes exactly the forward pass (thresholded at 0.5, or one-hot at the largest output, for classification) into any kind of destination and Score is its R2 or accuracy. The exported activations, derivatives, losses, General32/General64 matrices and label binarizers compute their definitions for any stride, without touching the space between rows.",
  over=["inputs", "configurations"], quant="all networks, weights, inputs, matrix layouts and destinations, in both precisions",
  why="Tests predict with one stored single-layer network and check three R2 values.",
  files=["neural_network/basemlp64.go", "neural_network/basemlp32.go", "neural_network/general.go", "neural_network/multilayer_perceptron.go", "neural_network/unmarshal.go"],
  mech=[("BaseMultilayerPerceptron64.predict, Unmarshal", "neural_network/basemlp64.go"), ("General64", "neural_network/general.go")],
  tech="property-based differential testing against a reference forward pass", note="up to 3 hidden layers of 5 units, 4 outputs, 40 rows")
p(id="C36", title="MLP training is regularized mini-batch gradient descent from its weights",
  statement="Starting from given weights and without shuffling, training with sgd (constant, invscaling, adaptive rates; momentum, Nesterov) or adam follows mini-batch backpropagation of the loss with L2 penalty, weight decay and optional batch normalization: weights, loss curve, number of epochs and best loss equal a reference; training ends when the loss (or, with early stopping, the score of the held-out last rows, which are never trained on) stops improving by tol, or at MaxIter, and early stopping keeps the weights that scored best. lbfgs never ends above its starting loss, reports the loss of the weights it keeps and nearly zeroes the gradient of convex problems. float32 training follows float64. Inputs and hyperparameters are not modified.",
  over=["inputs", "configurations", "histories"], quant="all data, networks, starting weights, solvers and hyperparameters in range",
  why="Tests check one initial gradient and that a few fits reach an accuracy.",
  files=["neural_network/basemlp64.go", "neural_network/basemlp32.go"], mech=[("BaseMultilayerPerceptron64.fit, backprop, SGDOptimizer64, AdamOptimizer64", "neural_network/basemlp64.go")],
  tech="property-based differential testing against a reference trainer (two recorded defects are modelled exactly)", note="up to 2 hidden layers of 4 units, 40 rows, 60 epochs; runs whose rounding is amplified are skipped")
p(id="C37", title="An MLP fit depends only on its parameters, seed and data",
  statement="Fitting an MLPRegressor or MLPClassifier with a seeded random state gives the same weights, loss curve and scores whether the model is new, was fitted before on data of another shape, is a clone, is fitted concurrently with clones on the same data, or gets its inputs in another storage layout; clones never change the original, inputs are not modified. A regressor has identity output even for 0/1 targets. Classifiers predict training labels; renaming the classes in order, or giving one-hot targets, changes nothing but the names. With one batch the order of rows does not matter. Initial weights are drawn within each layer's Glorot bound sqrt(6/(inputs+outputs)), with 2 in place of 6 for logistic units, and fill it; a clone continues training (warm start) as the original would.",
  over=["inputs", "configurations", "histories", "schedules"], quant="all data, labels, hyperparameters, refit and clone histories, interleavings of concurrent fits",
  why="Tests fit each model once on one data set.",
  files=["neural_network/multilayer_perceptron.go", "neural_network/basemlp64.go"], mech=[("MLPRegressor, MLPClassifier", "neural_network/multilayer_perceptron.go")],
  tech="property-based metamorphic and stateful testing (race build)", note="up to 2 hidden layers, 20 rows, 5 concurrent models")

p(id="C38", title="Data set loaders and generators return what the file or model says",
  statement="Reading an Octave binary file, plain or gzipped, gives every matrix variable under its name with each cell bit for bit in its place, however the file is compressed and whatever its size; a file of another kind or one cut inside a variable is refused rather than partly or wrongly read. The bundled data sets load with exactly the cells of their files, fresh on every call. Generated regression targets equal the informative features times the returned coefficients plus the bias; generated blobs have labels of the given or drawn centres, spread over the box, and points scattered around their label's centre with the given deviation. The same seed gives the same data; the caller's configuration is not changed.",
  over=["inputs", "configurations"], quant="all variable sets, compressions and cut points; all generator options and seeds; all orders of loads",
  why="The tests read one file and print the shape of one generated data set.",
  files=["datasets/octave.go", "datasets/samples_generator.go", "datasets/base.go"],
  mech=[("LoadOctaveBin", "datasets/octave.go"), ("MakeRegression, MakeBlobs", "datasets/samples_generator.go"), ("Load*, GetXY", "datasets/base.go")],
  tech="property-based testing: round trip through a reference file writer, fault injection by truncation, defining equations of the generated data",
  note="files of up to 4 variables of up to 300x60 cells, up to 300 samples")

p(id="C39", title="Results do not depend on processors, concurrency or clones at work",
  statement="Every predicter and transformer (linear, neighbour, centroid, k-means, Bayes, support vector, Gaussian process, neural network, pipeline, grid search, all feature transformers), the neighbour searches, the k-d tree and DBSCAN give the same fit and the same predictions, up to rounding, with any number of processors and jobs, when several clones are fitted at the same time on the same data, when one fitted estimator serves several goroutines, and while clones of it are refitted; none of it is a data race, and the shared training data is not modified.",
  over=["schedules", "inputs", "configurations"], quant="all schedules of the worker goroutines and of concurrent users, all processor and job counts",
  why="Tests run one estimator at a time on one machine size; a buffer shared by workers gives the right answer on most schedules.",
  files=["base/parallel.go", "neighbors/kdtree.go", "neighbors/classification.go", "neighbors/regression.go", "svm/svm.go", "svm/svr.go", "naive_bayes/naivebayes.go", "preprocessing/data.go", "cluster/kmeans.go", "linear_model/Base.go", "model_selection/search.go"],
  mech=[("Parallelize callers, PredicterClone, TransformerClone", "all packages")],
  tech="property-based differential testing of generated schedules (processor counts, goroutines, clones) under the Go race detector",
  note="up to 5 goroutines, up to 8 processors, up to 60 rows; a Normalizer, which remembers its last norms for the inverse, is not shared")

p(id="C40", title="What a constructor returns works with the documented defaults",
  statement="A model, transformer or optimizer returned by its constructor fits, trains, predicts and transforms exactly like one whose hyperparameters are spelled out with the documented defaults (those of scikit-learn unless stated otherwise), whatever other hyperparameters the user then sets: linear models (intercept on; elastic net alpha 1, L1 ratio .5, lasso 1, tol 1e-4; ridge alpha 1; Bayesian ridge hyperpriors 1e-6; logistic alpha 1), support vector machines (C 1, epsilon .1, rbf, degree 3, gamma 1/features), networks (relu, adam, batches of 200, rates, momenta, tolerances, 100 hidden units), optimizers, neighbour models (euclidean), DBSCAN (eps .5, 5 samples), Gaussian processes (noise 1e-10) and transformers. Neighbour models refuse K<=0.",
  over=["inputs", "configurations"], quant="all data and all settings of the other hyperparameters",
  why="Tests set most hyperparameters themselves or check no output, so a changed default goes unnoticed.",
  files=["linear_model/Base.go", "linear_model/ridge.go", "linear_model/logistic.go", "linear_model/coordinatedescent.go", "linear_model/bayes.go", "neural_network/basemlp64.go", "neural_network/basemlp32.go", "neural_network/multilayer_perceptron.go", "svm/svm.go", "svm/svr.go", "base/optimizers.go", "neighbors/unsupervised.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go", "cluster/dbscan.go", "gaussian_process/gpr.go", "preprocessing/data.go", "preprocessing/discretization.go"],
  mech=[("New* constructors", "all packages")],
  tech="property-based differential testing of default against explicit configuration", note="up to 430 rows, 4 features, 200 epochs")

p(id="C41", title="Invalid settings and arguments are refused, and a refused call changes nothing",
  statement="Values outside the documented domain are refused by a panic the caller can recover from, and values inside it, its ends included, are accepted. Networks and logistic regression refuse at Fit: MaxIter or NIterNoChange <= 0, alpha < 0, learning rate or epsilon <= 0, momentum outside [0,1], validation fraction or betas outside [0,1), an empty hidden layer, an unknown activation, schedule or solver. Gaussian naive Bayes refuses several target columns, priors of another number than the classes, with a negative entry or not summing to 1, another number of features, and labels outside the initial classes. Neighbour models refuse K <= 0 or above the number of samples, and probabilities for several outputs or into a matrix of another width; a centroid model several outputs; k-means more clusters than samples; DBSCAN predictions of another shape than fitted; a Gaussian process another number of alphas or length scales; support vector machines a kernel of an unknown type; the discretizer and the power transformer an unknown strategy or method; a pipeline steps that cannot transform or predict; a grid search unknown fields or types; the label binarizer unknown label types; Interp1d fewer than 2 points or unequal lengths; class numbers beyond the classes; unknown optimizer names; matrix views and operations with unfit dimensions. After a refused fit or batch the model predicts as before and can be fitted again. Reading a truncated or inconsistent network description returns an error.",
  over=["inputs", "configurations", "histories"], quant="all values in and out of each domain, whatever was fitted before",
  why="Tests use valid settings only; a dropped or shifted bound, or state written before the check, shows only with an invalid call in the middle of a history.",
  files=["neural_network/basemlp64.go", "neural_network/basemlp32.go", "neural_network/unmarshal.go", "neural_network/general.go", "linear_model/logistic.go", "naive_bayes/naivebayes.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/unsupervised.go", "neighbors/nearest_centroid.go", "cluster/kmeans.go", "cluster/dbscan.go", "gaussian_process/gpr.go", "gaussian_process/kernels/kernels.go", "svm/svm.go", "preprocessing/discretization.go", "preprocessing/data.go", "preprocessing/label.go", "pipeline/pipeline.go", "model_selection/search.go", "interpolate/interpolate.go", "metrics/classification.go", "base/optimizers.go", "base/matrix.go"],
  mech=[("validateHyperparameters and the other argument checks", "all packages")],
  tech="property-based testing of generated valid and invalid calls, boundary values included, with a before/after comparison of the fitted model", note="one fault per call; shapes up to 9 rows and 3 features; X and Y of different lengths and predictions with another number of features are not covered")
p(id="C42", title="Every predicter is a pure function of its settings, training data and input",
  statement="For every predicter (least squares, ridge, Bayesian ridge, elastic nets and lassos, logistic regression, naive Bayes, neighbour and centroid models, k-means, support vector machines, Gaussian process, networks, pipelines, grid search), predictions do not depend on how the matrices are stored (compact, window, interface-only), on which rows are predicted together, on what it had been fitted on earlier, on what is done to clones or to the original later, or on what the caller does with its training matrices and with returned predictions once a call has returned. A clone of a fitted predicter has its type and predicts like it. No fit or prediction changes the matrices it was given.",
  over=["inputs", "histories", "configurations"], quant="all predicters, data, layouts, row groupings, refits, clone histories and later changes of the caller's matrices; the same random stream where one is used",
  why="Tests fit once on compact matrices and never touch them again; a kept reference or a reused buffer shows only in a longer history.",
  files=["linear_model/Base.go", "linear_model/ridge.go", "linear_model/bayes.go", "linear_model/coordinatedescent.go", "linear_model/logistic.go", "naive_bayes/naivebayes.go", "neighbors/unsupervised.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go", "cluster/kmeans.go", "svm/svm.go", "svm/svr.go", "gaussian_process/gpr.go", "neural_network/multilayer_perceptron.go", "neural_network/basemlp64.go", "pipeline/pipeline.go", "model_selection/search.go"],
  mech=[("Fit, Predict, PredicterClone", "all packages")],
  tech="property-based metamorphic testing of generated histories (refits, clones, row groups, overwritten caller matrices) over storage layouts", note="10 to 160 rows, up to 7 features, up to 3 outputs; a model that draws random numbers is given the same stream again, and support vector machines their zero Gamma, which fitting replaces as documented")
