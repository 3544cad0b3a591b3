#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

p("C01", "Every case is routed to exactly one leaf, by value and never by accident",
  "For any tree and any data set, a case goes left at a node iff its value satisfies the node's splitter (number at most the threshold; category one of the left labels), right if it is present and does not, and to the missing branch if it is missing; it reaches exactly one leaf, or none only when its value is missing at a node without a missing branch. "
  "Leaf listing, leaf partition and voting all report that same leaf. The route depends only on the case's own values by name and label, not on the order or multiplicity of cases, the order of features, how categories are numbered, or labels the tree never saw; data without a feature counts as missing it.",
  ["inputs"], "all trees (any shape, numeric, categorical, with and without missing branches), all data sets, all orderings of cases, features and category codes",
  "Tests route a handful of fixed data sets; none permutes cases, relabels categories, or compares the different traversals with each other.",
  ["tree.go", "splitter.go", "node.go", "densecatfeature.go", "densenumfeature.go"],
  [("Splitter.Split partitions a case list in three", "splitter.go"), ("Recurse / VoteCases / GetLeaves / Partition", "node.go, tree.go")],
  ["Tree.Vote, Tree.VoteCases, Tree.GetLeaves, Tree.Partition, Splitter.Split"])

p("C02", "The coded split used in training and the saved splitter route identically",
  "The split found during training, applied in its internal form to any list of training cases, sends every case to the same side as the readable splitter that is stored in the tree and the saved forest. "
  "Both forms partition the list without loss: the left, right and missing groups are disjoint, together are the whole list, and reordering the list in place only permutes it.",
  ["inputs"], "all numeric, binary, small, large and very large categorical features, all splits the search can return or a caller can construct, all case lists including missing values and duplicates",
  "Tests check counts for one or two hand-made splits and never compare the two representations case by case.",
  ["densecatfeature.go", "densenumfeature.go", "splitter.go", "featureinterfaces.go"],
  [("Feature.Split, SplitPoints and DecodeSplit", "densenumfeature.go, densecatfeature.go"), ("Splitter.Split", "splitter.go")],
  ["Feature.BestSplit, Feature.Split, Feature.SplitPoints, Feature.DecodeSplit"])

p("C03", "Grown trees respect the leaf size, depth, candidate and structure contract",
  "In a grown tree every internal node has a splitter on one of the candidate features and both children, no leaf has children, no path is longer than the depth limit, and every child a training case list is split into holds at least the minimum leaf size of the node's non missing training cases; a missing branch exists only when asked for and only where training cases are missing (a jungle node with several parents is trained on the cases of all of them). "
  "Every leaf's prediction is the target's prediction for exactly the training cases that reach it. The result depends on nothing left over from an earlier use of the same tree or allocation objects.",
  ["inputs", "histories", "configurations"], "all data sets, targets, candidate lists, leaf sizes, depth limits and option combinations, and all sequences of reuse of trees and allocations",
  "Tests grow forests and look only at accuracy on three data sets; structure, depth, leaf size and reuse are never asserted.",
  ["tree.go", "featurematrix.go", "forrest.go", "splitallocations.go"],
  [("Tree.Grow and Node.CodedRecurse", "tree.go, node.go"), ("BestSplitAllocs reuse", "splitallocations.go")],
  ["Tree.Grow, GrowRandomForest"])

p("C04", "The split search reports the true impurity decrease and finds the best split",
  "For every feature, case list and target, the impurity decrease a split search reports equals, up to rounding, the parent's impurity minus the case-weighted impurity of the groups the returned split actually produces (missing values counted as their own group on both sides of the comparison), and both sides hold at least the minimum leaf size. "
  "Numeric searches (values closer than 1e-7 counting as equal) and searches over at most five categories (ten with RandomSearch) return a split no allowed split beats; a feature with no allowed split that decreases impurity, among the present values as well as overall, yields no split, and the extra-random and the iterative or random many-category searches promise only the first sentence.",
  ["inputs"], "all features, case lists, minimum leaf sizes and targets with a split impurity (Gini, squared error, absolute error, entropy, cost weighted variants)",
  "Tests check a few hand-computed splits; optimality and the reported value are quantified over all partitions of all inputs.",
  ["densenumfeature.go", "densecatfeature.go", "l1target.go", "entropytarget.go"],
  [("BestNumSplit, BestCatSplit, BestBinSplit and the iterative searches", "densenumfeature.go, densecatfeature.go")],
  ["Feature.BestSplit"])

p("C05", "Candidate features are each tried fairly and constant features accounted for",
  "Searching a node for its best splitter only permutes the candidate list, tries each candidate at most once, stops after the requested number of non-constant candidates or when candidates run out, and returns the best split among those tried, whatever number was requested relative to the list's length (when forced, it draws on until one candidate is not constant). "
  "Features found constant at a node stay set aside for the whole subtree below it and are returned to the pool for its siblings, so no feature that could split a node is ever withheld from it and, growing depth first, no known constant is tried again.",
  ["inputs", "histories"], "all candidate lists, requested counts (also larger than the list), force and vetting modes, and all sequences of nested searches",
  "One test runs one search on one matrix with all candidates; the accounting spans recursive histories.",
  ["featurematrix.go", "tree.go", "sampeling.go"],
  [("BestSplitter's sampling loop and nConstants", "featurematrix.go"), ("the constant count on the growth stack", "tree.go")],
  ["FeatureMatrix.BestSplitter, SampleFirstN"])

p("C06", "Incremental impurity agrees with impurity computed from scratch",
  "For every target, moving cases between the left and right groups in any order and updating the running impurity gives, up to rounding, the same value as computing the impurity of the resulting groups from scratch; so does computing impurity from counts already in the allocations. "
  "The documented definition is what is computed: Gini for plain categories, information entropy for the entropy target, squared error for numbers, and cost weighting where costs are given.",
  ["inputs", "histories"], "all targets, all case groups and all sequences of moves from right to left",
  "Tests compare two code paths at one or two points for a few targets; histories of moves and cost settings are not covered.",
  ["densecatfeature.go", "densenumfeature.go", "entropytarget.go", "dentropytarget.go", "wrftarget.go", "adacosttarget.go", "NPtarget.go", "l1target.go", "ordinaltarget.go"],
  [("UpdateSImpFromAllocs / MoveCountsRtoL / ImpFromCounts", "all target files")],
  ["Target.SplitImpurity, Target.UpdateSImpFromAllocs, Target.Impurity"])

p("C07", "A saved forest reads back as the same forest",
  "Writing any forest and reading it back yields the same number of trees with the same targets, weights, intercept and shape, the same splitters and predictions at every node, and missing branches where they were, provided names and labels hold no quotes or new lines and category labels no colons (a negative weight means none). "
  "The read-back forest gives every case, seen or unseen, the same votes as the original.",
  ["inputs"], "all forests expressible in memory, including missing branches, extreme thresholds, weights, intercepts, one-sided category sets and unusual but legal names and labels",
  "The round trip test covers one fixed forest and compares a few fields; missing branches, weights and odd values are not in it.",
  ["forestwriter.go", "forestreader.go", "tree.go", "doc.go"],
  [("ForestWriter.WriteForest/WriteTree/WriteNodeAndChildren", "forestwriter.go"), ("ForestReader.ReadForest/ReadTree, ParseRfAcePredictorLine", "forestreader.go")],
  ["NewForestWriter, NewForestReader"])

p("C08", "The forest reader finds every tree, tree by tree or in concatenated files",
  "Reading a forest file tree by tree delivers the same trees as reading it whole; a file of concatenated forests, each after the first starting with its header, delivers them one after another without losing or merging trees, wherever one ends and with or without a final newline. "
  "End of input is reported once everything has been delivered, and a malformed line (a node outside a tree or without its parent, an unparsable number, a field that is no key=value pair, an unclosed quote, an unknown kind of line) is reported as an error rather than silently dropping or altering what follows.",
  ["inputs", "histories"], "all sequences of reads over all concatenations of forest files, including truncated and malformed ones",
  "The one reader test reads one well formed file once.",
  ["forestreader.go", "applyforest/applyforest.go"],
  [("ForestReader.ReadTree with Peek lookahead", "forestreader.go")],
  ["ForestReader.ReadForest, ForestReader.ReadTree"])

p("C09", "Ballot boxes tally plurality, weighted mean and weighted sum of real votes only",
  "A categorical ballot box returns a label with the greatest total vote weight, a numerical box the weighted mean and a sum box the weighted sum of the votes cast for a case, whatever the order of the votes with weights of zero or more; a case with no votes is reported as missing (as zero by a sum box). "
  "The categorical error is, averaged over the classes present, the share of cases of the class not predicted as it (a case without votes is not), the numerical one the mean squared error (or R-squared) over the cases with a known value that received votes, and tallying never changes the votes.",
  ["inputs", "histories"], "all multisets of votes with weights over all cases and all orders of casting and tallying",
  "Tests only reach the boxes through whole-forest accuracy.",
  ["catballotbox.go", "numballotbox.go", "sumballotbox.go", "voter.go", "utils.go"],
  [("CatBallotBox, NumBallotBox, SumBallotBox", "catballotbox.go, numballotbox.go, sumballotbox.go"), ("RunningMean", "utils.go")],
  ["Vote, Tally, TallyNum, TallyError, TallySquaredError, TallyR2Score"])

p("C10", "Concurrent voting and accumulation lose nothing and never crash",
  "Votes cast, means accumulated and co-occurrences counted from any number of goroutines at once, interleaved with tallies, give the same final result as the same operations one after another. "
  "No interleaving loses an update, tears a read, races or crashes.",
  ["schedules"], "all interleavings of concurrent Vote, Tally, Add and WeightedAdd calls on one box, mean list or counter",
  "Tests are single threaded or use a few goroutines without the race detector or any oracle for lost updates.",
  ["catballotbox.go", "numballotbox.go", "sumballotbox.go", "utils.go", "catmap.go", "leafcount/leafcount.go"],
  [("per box and per case locks", "catballotbox.go, numballotbox.go"), ("RunningMean.lock, SparseCounter.mutex", "utils.go")],
  ["Vote, Tally, RunningMean.Add, SparseCounter.Add"])

p("C11", "growforest finishes and delivers exactly the requested trees on any core count",
  "For any number of cores, trees and any documented mode except multiboosting (plain, boosted, out of bag, progress reporting, testing on training data), growforest terminates and the forest it saves holds exactly the requested number of complete trees, none lost, duplicated or interleaved. "
  "Every reported out-of-bag or test result is the tally (the plain weighted mean or plurality, also when boosting) of exactly those trees, and with a fixed seed and one core the output is the same on every run.",
  ["schedules", "configurations"], "all worker schedules, core counts below, equal to and above the number of trees, and all option combinations",
  "No test runs the command at all; library tests grow trees on one goroutine.",
  ["growforest/growforest.go"],
  [("tree channel, wait group, recycling channel and the trees-started counter", "growforest/growforest.go")],
  ["growforest -rfpred, -oob, -oobpreds, -selftest, -test"])

p("C12", "Out-of-bag results use only trees that did not train on the case",
  "Out-of-bag predictions and error count, for each case, every tree whose training sample excluded that case and no tree whose sample included it; a case that was in every bag, or reached no leaf, has no out-of-bag prediction, and a case whose target is missing is in no bag. "
  "Each tree counts with its own weight and with the votes of its own leaves.",
  ["inputs", "schedules", "configurations"], "all bagging modes (plain, sample sizes, balanced, balanced by, unbagged), data with missing target or feature values, and all worker schedules",
  "Out-of-bag accounting exists only in the command, which no test runs.",
  ["growforest/growforest.go", "tree.go", "catballotbox.go", "numballotbox.go"],
  [("per tree in-bag marking and out-of-bag case list", "growforest/growforest.go"), ("Tree.VoteCases", "tree.go")],
  ["growforest -oob, -oobpreds"])

p("C13", "Training samples have the requested size, source and balance",
  "A bootstrap sample has exactly the requested number of cases, each drawn from the cases whose target is known and each able to be drawn more than once; drawing the first n of a list permutes the list, gives n distinct entries and never yields those set aside at its end (a draw that hits one yields nothing). "
  "A balanced sampler gives each class the same chance whatever its share of the data, a doubly balanced one draws strata at the rate of the data and within each gives every class present the same chance; neither ever draws a case from the wrong class or stratum or with a missing target, and both cope with empty classes and strata.",
  ["inputs", "histories"], "all case lists, sample sizes, class distributions (including empty and missing classes) and random draws",
  "One test checks one permutation property at one size; balance and missing targets are not covered.",
  ["sampeling.go", "growforest/growforest.go"],
  [("SampleWithReplacment, SampleFirstN, BalancedSampler, SecondaryBalancedSampler", "sampeling.go")],
  ["SampleWithReplacment, SampleFirstN, BalancedSampler.Sample, SecondaryBalancedSampler.Sample"])

p("C14", "Matrices read from AFM, ARFF and libSVM say what the file says",
  "Parsing an AFM (either orientation), ARFF or libSVM file yields exactly the file's features, types, case labels and values, with missing tokens and blanks as missing values and every data line counted, with or without a final newline; the three formats of the same table yield the same table. "
  "Writing a matrix in a format (and converting one with toafm) and parsing it back yields the same table for everything the format can express: AFM tells types by the prefixes of names, ARFF has no case labels, libSVM no names, missing values or trailing zero columns and a target that is numeric if its first value has a decimal point.",
  ["inputs"], "all tables over numeric and categorical features, missing values, any header naming, both AFM orientations, and all selections of cases written",
  "Tests parse one small example per format and write none but AFM.",
  ["featurematrix.go", "arff.go", "libsvm.go", "densenumfeature.go", "densecatfeature.go", "utils/toafm/main.go"],
  [("ParseAFM, ParseARFF, ParseLibSVM and the matching writers", "featurematrix.go, arff.go, libsvm.go")],
  ["ParseAFM, ParseARFF, ParseLibSVM, WriteCases, WriteArffCases, WriteLibSvm, toafm"])

p("C15", "Copies are independent and read-only operations leave their input alone",
  "A copied feature or matrix column holds the same values, missing marks and labels as the original, and later changes to either never show in the other. "
  "Writing, encoding, wrapping as a target, voting, splitting and growing a tree leave the data they are given unchanged (only the caller's index lists may be permuted).",
  ["inputs", "histories"], "all features and matrices and all sequences of copying followed by reads and modifications of either side",
  "No test modifies a copy or compares inputs before and after an operation.",
  ["densenumfeature.go", "densecatfeature.go", "featurematrix.go", "arff.go", "libsvm.go", "gradboosttarget.go", "gradboostclasstarget.go", "catmap.go"],
  [("Feature.Copy, ShuffledCopy, CopyInTo", "densenumfeature.go, densecatfeature.go"), ("EncodeToNum, OneHot, writers", "densecatfeature.go, featurematrix.go, libsvm.go")],
  ["Feature.Copy, EncodeToNum, OneHot, Write*, New*Target, Tree.Grow"])

p("C16", "Numeric and one-hot encodings represent the same table",
  "Encoding to numbers and one-hot encoding keep every numeric feature and every case, and represent each categorical feature so that two cases agree on the encoded columns exactly when they had the same category; every one-hot indicator is true exactly for the cases holding its category (a feature of at most two categories stays one column of its own name). "
  "Missing values stay missing and no feature disappears, whatever its number of categories.",
  ["inputs"], "all matrices, category counts from one upwards, and missing patterns",
  "No test calls either encoding with missing values or few categories.",
  ["densecatfeature.go", "featurematrix.go", "utils/nfold/main.go"],
  [("EncodeToNum and OneHot", "densecatfeature.go, featurematrix.go")],
  ["FeatureMatrix.EncodeToNum, FeatureMatrix.OneHot, nfold -onehot"])

p("C17", "Missing values are tracked through every mutation and imputed from the rest",
  "After any sequence of setting, appending, clearing, copying and imputing values, a value is missing exactly if its last setting was a missing token, a value that is not a number for a numeric feature, or an explicit mark; values are what was last set, the count agrees with the marks and the has-missing answer never denies one. "
  "Imputation removes every missing mark, gives every formerly missing entry the mean (numeric) or a most frequent category of the present values, and changes no present value; a numeric feature without any present value is left alone.",
  ["histories", "inputs"], "all sequences of operations on numeric and categorical features",
  "Tests set a few values by hand; the state machine over sequences is not explored.",
  ["densenumfeature.go", "densecatfeature.go", "catmap.go", "featureinterfaces.go", "featurematrix.go"],
  [("Missing / HasMissing / PutMissing / PutStr / Append / Put / ImputeMissing", "densenumfeature.go, densecatfeature.go")],
  ["Feature.PutStr, Append, PutMissing, IsMissing, MissingVals, ImputeMissing, Mode, Mean"])

p("C18", "Gradient boosting keeps residual plus accumulated prediction equal to the target",
  "At every point of gradient boosted regression, each training case's residual equals its target value minus the intercept and minus the learning rate times the predictions of the trees boosted so far; for classification (the positive and another class present) the same holds for the pseudo-residuals of the log-odds. "
  "Hence the saved forest, applied as a sum with its intercept and weights, predicts training cases with exactly the error the residuals show, and training changes neither the original data nor which cases have a known target.",
  ["histories", "inputs"], "all data sets with missing target and feature values, learning rates, tree shapes and numbers of rounds",
  "Tests only check that boosted accuracy on one data set clears a threshold.",
  ["gradboosttarget.go", "gradboostclasstarget.go", "growforest/growforest.go", "forrest.go"],
  [("GradBoostTarget.Boost/Update, GradBoostClassTarget", "gradboosttarget.go, gradboostclasstarget.go")],
  ["NewGradBoostTarget, Boost, growforest -gbt"])

p("C19", "Adaptive boosting keeps a weight distribution and really reweights every round",
  "After every round the case weights are non-negative, sum to one and, for the plain classifier when every case with a known class reached a leaf and the error lies between zero and one half, put half of the weight on the cases the last tree itself predicted wrong (cost boosting then multiplies by the costs); the tree's own weight is the log odds of its weighted error being right, for numeric targets the log of largest over weighted error. "
  "Every boosting target that is selected is actually boosted after each tree, the tree's weight is the one saved with it, and a round with no error or no better than chance neither crashes nor makes any weight not a number.",
  ["histories", "inputs"], "all sequences of trees (including perfect and useless ones) over all data sets and costs",
  "Tests call one boosting target once; histories and extreme rounds are not covered.",
  ["adaboosttarget.go", "adacosttarget.go", "numadaboostingtarget.go", "forrest.go", "growforest/growforest.go", "featureinterfaces.go"],
  [("AdaBoostTarget.Boost and siblings, the BoostingTarget interface test", "adaboosttarget.go, forrest.go, growforest.go")],
  ["Boost, GrowRandomForest, growforest -adaboost"])

p("C20", "Reported feature importance accounts for exactly the splits that were made",
  "The importance of a feature is the mean and the count over exactly the splits in the grown trees that use it, each contributing its impurity decrease once; the per-tree columns divide by the number of trees, respectively of trees using the feature, and the reported depth is the mean over trees using it of the depth of the shallowest split on it, zero at the root. "
  "Features never used report zero uses.",
  ["inputs", "schedules"], "all forests, cores, importance modes (with contrasts, ace) and features including those used at the root",
  "The importance test only checks which feature ranks first on one data set.",
  ["tree.go", "featurematrix.go", "utils.go", "growforest/growforest.go"],
  [("importance RunningMeans and the depth-used vector", "tree.go, growforest/growforest.go")],
  ["Tree.Grow's importance and depth outputs, growforest -importance"])

p("C21", "leafcount reports exactly how often cases share leaves and cross branches",
  "For every pair of cases the leaf file holds exactly the number of trees, over all forests given, in which the two cases reach the same leaf; the branch and split outputs count, for each case, feature and threshold, exactly the tree nodes the case passes that split on it, including one where it is dropped because its value is missing. "
  "The counts do not depend on the number of threads.",
  ["inputs", "schedules"], "all forests, data sets with missing values, and thread counts",
  "No test runs leafcount.",
  ["leafcount/leafcount.go", "tree.go", "utils.go"],
  [("GetLeaves and SparseCounter", "leafcount/leafcount.go, tree.go, utils.go")],
  ["leafcount -leaves -branches -splits"])

p("C22", "nfold splits the cases into disjoint, complete and stratified folds",
  "For every matrix and number of folds, each case (when stratified, each whose target is known) is in exactly one test fold and in the training file of every other fold, fold sizes differ by at most one (per class when stratified), and rows are written unchanged in every output format. "
  "The encoding, imputation (which may impute the target, too) and blacklist options change only what they say they change.",
  ["inputs", "configurations"], "all data sets, class distributions, fold counts (dividing the number of cases or not) and output options",
  "No test runs nfold.",
  ["utils/nfold/main.go", "featurematrix.go", "arff.go", "libsvm.go"],
  [("fold assignment loops", "utils/nfold/main.go")],
  ["nfold -train -test"])

p("C23", "applyforest predictions are the tally of the saved forest's votes",
  "For any saved forest and any data set, the prediction written for each case is the tally of the votes of all trees of the forest for that case: weighted plurality for categories, weighted mean for numbers, intercept plus weighted sum (and its logistic transform when asked) for additive forests, those with an intercept other than zero or when asked, in case order; asking for mean or mode always gives those. "
  "A case no tree votes for is reported as missing (as the intercept when additive), the vote file agrees with the predictions, and data sets with features reordered, added, or with unseen categories give the same predictions.",
  ["inputs", "configurations"], "all forests and data sets and all combinations of prediction options",
  "No test runs applyforest.",
  ["applyforest/applyforest.go", "tree.go", "catballotbox.go", "numballotbox.go", "sumballotbox.go"],
  [("the vote loop and ballot box selection", "applyforest/applyforest.go")],
  ["applyforest -preds -votes -mean -mode -sum -expit"])

p("C24", "Only eligible features are ever split on and contrasts permute real values",
  "The target, blacklisted features, features matched by the block pattern, and features not matched by the include pattern are never used by any tree of the forest, in any mode; every other feature is eligible. "
  "Artificial contrasts and shuffles hold, missing marks included, exactly a permutation of the original feature's values, with every value able to land anywhere, leave the original untouched, and are never written where real features are expected.",
  ["inputs", "configurations"], "all feature names, lists and patterns, numbers of contrasts and random draws",
  "No test covers the selection; contrast tests only check lengths.",
  ["growforest/growforest.go", "featurematrix.go", "densenumfeature.go", "densecatfeature.go"],
  [("candidate construction", "growforest/growforest.go"), ("AddContrasts, ContrastAll, Shuffle, ShuffledCopy", "featurematrix.go")],
  ["growforest -blacklist -blockRE -includeRE -nContrasts -contrastall -permute -shuffleRE"])

p("C25", "Sorting cases by value sorts, keeps pairs together and touches nothing else",
  "Sorting a list of cases with their values leaves the values in non-decreasing order, keeps every case with its own value, loses and duplicates nothing, and never touches elements beyond the sorted slice. "
  "This holds for every length and input order, including all-equal, sorted, reversed and adversarial inputs.",
  ["inputs"], "all lengths (across the switches between insertion, quick and heap sort) and all orders",
  "Tests sort a few random and one short input.",
  ["sortby/sortby.go", "sortablefeature.go"],
  [("SortBy's introsort", "sortby/sortby.go")],
  ["sortby.SortBy"])

p("C26", "Each target predicts what it is defined to predict for the cases of a leaf",
  "The prediction of a group of cases is a most frequent category (weighted by class weights, by the regret matrix, or by alpha for the positive class where a target has them; costs of adaptive boosting don't count), the mean of the known values for numeric targets, and the rank-based equivalent for ordinal ones; for density or transductive targets it is as documented. "
  "For groups with a known case it depends only on the cases in the group, never on case order, absent categories or earlier calls, and computing it changes nothing. "
  "Cases of unknown value don't count for plain, entropy, weighted, boosted and numeric targets (other targets only get known cases).",
  ["inputs", "histories"], "all targets, weights and groups of cases including groups of one and groups with ties",
  "Tests call one prediction for a few targets on one group.",
  ["densecatfeature.go", "densenumfeature.go", "wrftarget.go", "regrettarget.go", "NPtarget.go", "l1target.go", "ordinaltarget.go", "hdistancetarget.go", "adacosttarget.go", "dentropytarget.go", "gradboosttarget.go"],
  [("FindPredicted of every target", "all target files")],
  ["Target.FindPredicted"])

p("C27", "The forest growforest saves is the one its options ask for",
  "Sizes mean what they say: a leaf size, sample or number of features given with a point is that share, rounded up, of the cases with a known target or of the eligible features (those kept, after a selection), any other positive number is a count, and everything else means the default (4 cases for numeric targets, 1 for others and a third of the cases for boosting; all cases; the square root, rounded up). "
  "Grown without bagging, growforest saves exactly the requested number of trees, each splitting all cases with a known target only on features that are neither the target nor blacklisted, within that leaf size and the given depth, with missing branches only if asked for, every leaf predicting the chosen target's prediction (plain, entropy, cost, disutility, weighted, Neyman-Pearson, Hellinger, transduction, density, absolute error, ordinal) for exactly the cases reaching it, imputed if asked for. "
  "When every feature is tried at every node, a leaf is left only where no allowed split of any feature decreases the chosen target's impurity.",
  ["inputs", "configurations", "schedules"], "all training tables, targets, option combinations and numbers of cores",
  "No test runs the growforest command or any combination of its options; the few library tests check accuracy on three data sets.",
  ["growforest/growforest.go", "utils.go", "tree.go"],
  [("option handling, target wrapping and the grow loop", "growforest/growforest.go"), ("ParseAsIntOrFractionOfTotal", "utils.go")],
  ["growforest -rfpred"])
p("C28", "The scikit export holds the forest that is saved",
  "growforest -scikitforest writes exactly as many trees as the forest it saves has, in the same order, on any number of cores, also after boosting, and none of the rehearsals of artificial contrasts. "
  "Each exported tree is an array in which every node but the root is the child of exactly one node before it, a leaf has no children, and following left and right children from the root gives the saved tree without its missing branches: the same splits by the column of the feature in the data and, for numerical features, the same threshold. "
  "The reported number of nodes, capacity and depth are those of the array.",
  ["inputs", "configurations", "schedules"], "all training tables, targets, option combinations and numbers of cores",
  "No test writes or reads a scikit forest.",
  ["sklearn_tree.go", "growforest/growforest.go"], [("BuildScikitTree", "sklearn_tree.go"), ("NewScikitTree", "sklearn_tree.go"), ("recording trees in the grow loop", "growforest/growforest.go")],
  ["growforest -scikitforest -rfpred"])
p("C29", "Splits are judged out of bag and against a shuffled target on request",
  "With evaloob a split found in the bag counts, in its selection and in the reported importance, for the decrease of impurity (or the score) it has on the cases the tree did not train on whose target is known, whatever the target; every split made is an improvement there, and a feature that tells the target is split on. "
  "With vet it counts for that less the decrease of the best split the same feature makes of the same judging cases (out of bag with evaloob, the node's otherwise) once the target's values have been shuffled among them. "
  "Of the splits found, the one with the best such decrease is made, if it is any improvement.",
  ["inputs", "configurations"], "all training tables, targets and samples, with either option or both",
  "No test compares the decrease of a judged split with anything; the options are only seen not to crash.",
  ["featurematrix.go", "growforest/growforest.go", "tree.go"], [("FeatureMatrix.BestSplitter", "featurematrix.go"), ("evalcases in the grow loop", "growforest/growforest.go")],
  ["FeatureMatrix.BestSplitter", "growforest -evaloob -vet -importance"])
p("C90", "Artificial contrasts select features by Welch's test",
  "Welch's test reports the t value, degrees of freedom, mean of the first group and one sided p-value that the two groups' means and variances define, within floating point accuracy, unless both groups are constant. "
  "growforest -ace compares each feature's importance over the requested number of forests with that of a contrast of its own, a permutation of its values shuffled anew for each forest, and reports exactly those p-values and means; with a cutoff the last forest splits only on, and counts exactly, the features whose p-value is under it and whose mean importance is positive.",
  ["inputs", "histories"], "all pairs of groups of two or more numbers; all training tables, numbers of forests and cutoffs",
  "A unit test compares two samples with published values; no test runs growforest with contrasts.",
  ["stats/stats.go", "growforest/growforest.go"], [("Ttest, MeanAndVar", "stats/stats.go"), ("the ACE loop", "growforest/growforest.go")],
  ["stats.Ttest", "growforest -ace -importance -cutoff"],
  hook="the importances and contrasts of each forest, told by growforest built with the tag verif")
p("C91", "Random draws have the chances their scheme defines",
  "Bootstrap samples, subsamples without replacement, candidate features, shuffles, contrast features, vetting targets random cuts and random divisions of many categories hit every member (or order) of their population equally often; balanced samples draw a class equally and then a case of it equally, and balancing within strata draws strata at their rate. "
  "Members that are set aside or have no target are never taken and do not change the chances of the others. "
  "Successive draws, successive trees and the trees of different cores are independent of each other.",
  ["inputs", "histories", "schedules"], "samplers, candidate searches, shuffles and contrasts of every shape over all random streams; forests grown on one or several cores",
  "Tests look at the size and support of a few samples; a biased draw passes them, and no single sample can show it.",
  ["sampeling.go", "featurematrix.go", "densenumfeature.go", "densecatfeature.go", "splitallocations.go", "growforest/growforest.go"],
  [("BalancedSampler.Sample", "sampeling.go"), ("SampleFirstN", "sampeling.go"), ("SampleWithReplacment", "sampeling.go"), ("FeatureMatrix.BestSplitter", "featurematrix.go"), ("AddContrasts", "featurematrix.go"), ("NewBestSplitAllocs", "splitallocations.go")], ["Chance*", "SampleMC"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        n = len([s for s in x["statement"].replace("R-squared", "").split(". ") if s.strip()])
        assert n <= 3, (x["id"], n)
        f.write(json.dumps(x) + "\n")
print(len(P))
