#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=(),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))

p("C01","sortby sorts the keyed section, keeps pairs, touches nothing else",
 "After sorting a list of case indexes by an accompanying list of values, the values covering the cases are in non-decreasing order and every case is still paired with the value it had, with nothing lost or duplicated. Values beyond the number of cases are left untouched, and the sort never panics or loops, whatever the values.",
 ["inputs"],"every length (small insertion-sort ranges, the quicksort/pivot regime and heapsort fallback) and every assignment of values, including ties, infinities and already sorted or reversed data",
 "Tests sort a handful of fixed and random lists; sortedness over all orderings and tie patterns is a statement over every input, and the hand-inlined pivot and heap code is only reached for particular value patterns.",
 ["sortby/sortby.go","sortablefeature.go"],[("hybrid sort with inlined swaps","sortby/sortby.go SortBy"),("SortableFeature Load/Sort","sortablefeature.go")],["cases and values after SortBy"])
p("C02","Applying a split partitions the cases exactly and consistently",
 "Splitting a set of cases by a numeric or categorical split puts every case in exactly one of left, right or missing, keeping repeats: missing cases in missing, cases with value at most the threshold (or category listed for the left) in left, the rest in right. The slice-returning split, the in-place split points and the decoded (named) splitter agree on the outcome, also for machine-int and big-integer category sets, and the input list stays a permutation of itself.",
 ["inputs"],"all case lists with repeats and in any order, all values, missing masks, thresholds and category subsets within the bounds",
 "Unit tests apply a few hand-written splits; that three separately written partition loops and the decoder agree for every case order and missing pattern is a universal claim.",
 ["densenumfeature.go","densecatfeature.go","splitter.go"],[("three-way in-place partition","DenseNumFeature.Split/SplitPoints, DenseCatFeature.Split/SplitPoints, Splitter.Split"),("DecodeSplit","densenumfeature.go, densecatfeature.go")],["l, r, m and the reordered cases"])
p("C03","Best numeric split: reported decrease is real, best and respects leafSize",
 "When the search for a numeric split reports a decrease, applying the returned split to the same cases gives two sides of at least leafSize cases each whose impurity decrease is the reported one, and no other threshold that respects leafSize does better. When no admissible threshold gives a decrease above the minimum, none is reported.",
 ["inputs"],"all feature values (with ties and near ties), target values and leaf sizes within the bounds, for classification and regression targets",
 "Tests check the best split of a few fixed data sets; the agreement between the position evaluated during the sweep and the threshold returned has to hold for every value pattern.",
 ["densenumfeature.go","splitallocations.go","sortablefeature.go"],[("sorted sweep with incremental impurity and midpoint threshold","DenseNumFeature.BestNumSplit")],["codedSplit, impurityDecrease, then Split"])
p("C04","Best categorical split: reported decrease is real, exhaustive search is best",
 "When a categorical split search (binary, exhaustive, iterative, random or big-integer variant) reports a decrease, applying the returned category set to the same cases gives two sides of at least leafSize cases whose decrease is the reported one. The exhaustive and binary variants return a split no other category subset beats.",
 ["inputs"],"all category assignments, target values, leaf sizes and random draws within the bounds",
 "Tests look at a few fixed features; subset enumeration, the one-sided in-place partition and the random search all have to be right for every assignment.",
 ["densecatfeature.go"],[("BestBinSplit, BestCatSplit, BestCatSplitIter, BestCatSplitBig, BestCatSplitIterBig","densecatfeature.go")],["bestSplit, impurityDecrease, then Split"])
p("C05","Missing values never leak into split search and are charged as a third branch",
 "The value stored behind a missing entry never influences which split is found or how it is scored. When the feature has missing cases the reported decrease is the parent's impurity minus the size-weighted impurity of left, right and missing cases; a feature whose cases are all missing reports no usable split.",
 ["inputs"],"all missing masks, stored garbage behind missing entries, values and targets within the bounds",
 "Tests use one or two fixed missing patterns; non-interference of hidden values is a two-run property over all masks and garbage.",
 ["densenumfeature.go","densecatfeature.go"],[("non-missing filtering and decrease rescaling","DenseNumFeature.BestSplit, DenseCatFeature.BestSplit")],["BestSplit results for two features equal outside missing entries"])
p("C06","Candidate search returns the best feature drawn; candidates stay a permutation",
 "Searching for a node's splitter over candidate features with any mTry and any random draws never fails, keeps the candidate list a permutation of itself, and returns the highest decrease among the candidates it examined; with mTry covering all candidates that is the best over all of them. Features counted as constant offer no split of the node's cases and are kept at the end of the list, and a pure node reports no split. Vetting lowers a plain target's decrease by the one the same candidate has for the target shuffled among the node's cases.",
 ["inputs","configurations"],"all random draw sequences, mTry from 1 past the number of candidates, any constant features, with force on and off",
 "Which candidates are examined depends on random draws and constants found on the way; tests run one pseudo-random sequence.",
 ["featurematrix.go"],[("sampling without replacement with constants moved right","FeatureMatrix.BestSplitter")],["bestFi, bestSplit, impurityDecrease, nConstants, candidates"])
p("C07","Incremental split impurity equals impurity computed from scratch",
 "For every target type, the impurity obtained by moving cases one batch at a time from right to left equals the impurity computed from scratch for the resulting sides. So a numeric sweep scores each candidate position exactly as a direct evaluation would.",
 ["inputs","histories"],"all target values, costs and weights, and all sequences of batches moved within the bounds, for Gini, entropy, cost-weighted, density, regret, ordinal, L1, L2, weighted-RF and boosting targets",
 "The incremental and direct formulas are separate code per target; tests compare them on at most one target and one sequence.",
 ["densecatfeature.go","densenumfeature.go","entropytarget.go","dentropytarget.go","wrftarget.go","regrettarget.go","hdistancetarget.go","l1target.go","ordinaltarget.go","adaboosttarget.go","numadaboostingtarget.go","NPtarget.go"],[("UpdateSImpFromAllocs vs SplitImpurity","all Target implementations")],["return values of both"])
p("C08","Impurity and error measures follow their documented definitions",
 "Gini is one minus the sum of squared class fractions, variance impurity is the sum of squared deviations from the mean, entropy, weighted Gini, regret, boosting and Hellinger measures and the mean, mode, error and span of the non-missing cases are the documented functions of the cases given. They depend only on the multiset of cases, so reordering cases never changes them beyond rounding.",
 ["inputs"],"all case multisets (with repeats), values, categories and missing masks within the bounds",
 "Tests compare a few constants; the definitions must hold for all inputs.",
 ["densecatfeature.go","densenumfeature.go","entropytarget.go","wrftarget.go","l1target.go"],[("Gini/Impurity/Mean/Mode/Error/Span","densecatfeature.go, densenumfeature.go")],["returned measure"])
p("C09","A leaf predicts the documented statistic of its training cases",
 "A regression leaf predicts the mean of its cases' target values, a classification leaf a category that no other category outvotes, and weighted, cost-sensitive and boosting targets the value their weighting defines. The prediction depends only on the cases at the leaf and always parses back to the value that was computed.",
 ["inputs"],"all case multisets, target values, weights and costs within the bounds, for every target type",
 "Tests check one or two leaves per target; the claim is for all leaves.",
 ["densecatfeature.go","densenumfeature.go","wrftarget.go","regrettarget.go","gradboosttarget.go","ordinaltarget.go","numadaboostingtarget.go"],[("FindPredicted per target","*target.go, dense*feature.go")],["FindPredicted"])
p("C10","Grown trees respect leafSize, depth, impurity and predict their own cases",
 "A tree grown from any sample of cases has only leaves whose prediction is the target's prediction for exactly the sampled cases reaching them, at least leafSize sampled cases on each left and right side of every split, no node deeper than maxDepth, and splits only on candidate features. This also holds when a tree object is grown again after an earlier growth, and growing never fails for any random draws.",
 ["inputs","histories","configurations"],"all small data sets, samples with repeats, random draws, leafSize, maxDepth, mTry, missing-branch on and off, and repeated growth of one tree",
 "Tests grow forests from one data set and check aggregate error; structural invariants for every data set and draw are not sampled.",
 ["tree.go","node.go","featurematrix.go"],[("Tree.Grow closure and CodedRecurse","tree.go, node.go"),("BestSplitter","featurematrix.go")],["the tree after Grow, walked node by node"])
p("C11","Every case reaches one leaf and gets one vote, whichever way it is routed",
 "Passing a data set through a tree sends each case down exactly one path, so voting casts exactly one vote per case with the tree's weight, and partition and leaf listings contain each case exactly once, except cases whose value is missing at a node without a missing branch, which get none. Routing by coded splits, by named splitters after codes are stripped, and via a matrix whose features and categories are in a different order give the same result.",
 ["inputs","programs"],"all trees up to the bound, all case values and missing masks, both routing modes",
 "Tests vote with a few trees on one data set; the routing code paths must agree on every tree and input.",
 ["node.go","tree.go","splitter.go"],[("Node.Recurse, Tree.Vote/VoteCases/Partition/GetLeaves/StripCodes","node.go, tree.go")],["votes per case, leaves"])
p("C12","Writing a forest and reading it back preserves every prediction",
 "A forest written in the forest file format and read back has the same number of trees, target, weights, intercept and node structure - splitters with the same feature, threshold or category set, left, right and missing children and leaf predictions - and therefore predicts the same for every case.",
 ["inputs","programs"],"all trees up to the bound, every threshold, weight and intercept value, feature and category names drawn from an alphabet that includes the format's own punctuation where the format allows it",
 "The one round-trip test covers two fixed trees without missing branches, weights or unusual names.",
 ["forestwriter.go","forestreader.go"],[("ForestWriter.WriteTree/WriteNodeAndChildren","forestwriter.go"),("ForestReader.ReadTree/ReadForest/ParseRfAcePredictorLine","forestreader.go")],["trees read back"])
p("C13","The forest reader accepts every documented forest file, including joined ones",
 "Any sequence of forest files in the documented format, concatenated in order, is read as the trees they contain, in order and with none dropped, merged or invented, with or without a final newline and with double-quoted fields containing separators. The reader never panics on such input.",
 ["inputs"],"all files made of up to the bounded number of headers, trees and nodes, with optional fields, quoting and missing final newline",
 "Tests read one literal file; the parser is a hand-written line and field splitter whose behaviour depends on every byte.",
 ["forestreader.go"],[("ReadTree peek loop and ParseRfAcePredictorLine","forestreader.go")],["trees and errors returned"])
p("C14","Feature matrix (AFM) text round-trips and reads the same in both orientations",
 "Writing any selection of cases of a feature matrix as tab-separated text and reading it back gives the same case labels, feature names, types, missing entries and values in the same order. The same table read in features-as-rows or features-as-columns orientation yields the same matrix, and the name lookup always points at the feature of that name.",
 ["inputs"],"all matrices up to the bound, every finite numeric value, category and label strings over an alphabet including quotes, spaces, tabs and line feeds (carriage returns excepted), all missing masks and case selections",
 "Tests parse fixed snippets; writer and reader must agree on every cell content.",
 ["featurematrix.go","densenumfeature.go","densecatfeature.go"],[("WriteCases, ParseAFM, LoadCases, ParseFeature","featurematrix.go")],["the matrix parsed back"])
p("C15","ARFF input yields the declared attributes and every data row",
 "Reading an ARFF file yields one feature per declared attribute, in order, numeric for numeric/real attributes and categorical otherwise, with one case per data row and the row's values, '?' being missing; comments and blank lines are ignored and keywords are case-insensitive.",
 ["inputs"],"all files with up to the bounded number of attributes and rows, keyword case, comments, blanks and cell values",
 "One fixed file is tested.",
 ["arff.go"],[("ParseARFF","arff.go"),("LoadCases","featurematrix.go")],["parsed matrix"])
p("C16","LibSVM files read completely and written files read back to the same numbers",
 "Reading a LibSVM file yields one case per non-empty line, with the target and every listed index set to its value and unlisted indexes zero, whether or not the file ends in a newline. Writing any selection of cases of a matrix and reading it back gives the same target and encoded feature values, and writing leaves the caller's data unchanged.",
 ["inputs"],"all sparse tables up to the bound, any order of new indexes across lines, any values, all case selections, trailing newline or not",
 "Tests read one fixed file; padding of late indexes and zero suppression depend on every combination.",
 ["libsvm.go"],[("ParseLibSVM, WriteLibSvm, WriteLibSvmCases","libsvm.go"),("EncodeToNum","featurematrix.go")],["parsed matrix, caller's matrix after writing"])
p("C17","Copies and encodings are faithful, independent and never alter their source",
 "Copying a feature, copying into another, numeric encoding and one-hot encoding give features with the same values, missing entries and missing flag as their source, where an encoded indicator is set exactly for the cases of its category. Later changes to the result - values, missing entries, new categories, imputation, shuffling - never show in the source or in sibling encodings, nor the other way round.",
 ["inputs","histories"],"all features up to the bound and all single mutations of the copy or the original",
 "Aliasing bugs appear only for particular sequences of copy and mutation; tests use copies once and do not look back at the source.",
 ["densecatfeature.go","densenumfeature.go","featurematrix.go"],[("Copy, CopyInTo, EncodeToNum, OneHot","dense*feature.go, featurematrix.go")],["source and copy after mutation"])
p("C18","Missing-value markers are recognised everywhere, and only they are",
 "An empty field and the markers ?, NA, NaN and null in any letter case are read as missing for numeric and categorical features alike, both when appending and when overwriting an entry; every other valid value is stored, is not missing and reads back equal. A feature reports having missing values whenever an entry is missing.",
 ["inputs","histories"],"all strings over the marker alphabet up to the bound, all letter cases, any sequence of appends, overwrites and missing-puts within the bound",
 "Tests try one or two markers; letter-case and put/append combinations are not covered.",
 ["densenumfeature.go","densecatfeature.go","catmap.go"],[("Append, PutStr, PutMissing, Put","dense*feature.go"),("CatToNum","catmap.go")],["IsMissing, MissingVals, GetStr"])
p("C19","Imputation fills exactly the missing entries with the mean or mode",
 "Imputing replaces every missing entry by the mean (numeric) or a most frequent category (categorical) of the entries that were present, changes no other entry, and leaves no entry and no flag marked missing.",
 ["inputs"],"all values, categories and missing masks with at least one present entry within the bounds",
 "One or two masks are tested.",
 ["densenumfeature.go","densecatfeature.go","featurematrix.go"],[("ImputeMissing","dense*feature.go, featurematrix.go")],["feature after imputation"])
p("C20","Shuffling permutes values with their missing marks, uniformly and only there",
 "Shuffling a feature, or selected cases of it, rearranges (value, missing) pairs among the selected positions without losing any and without touching others, and different random draw sequences give different rearrangements so that all are equally likely. Artificial contrasts append shuffled copies under a new name that the lookup resolves, and never change the original features.",
 ["inputs"],"all random draw sequences, all features and case selections within the bounds",
 "Tests check one random shuffle; bijectivity between draws and permutations needs all draws.",
 ["densenumfeature.go","densecatfeature.go","featurematrix.go"],[("Shuffle, ShuffleCases, ShuffledCopy","dense*feature.go"),("AddContrasts, ContrastAll","featurematrix.go")],["feature after shuffle"])
p("C21","Samplers return the requested number of valid, correctly distributed cases",
 "Sampling returns exactly the requested number of case indexes, all in range: with replacement every draw is a uniform choice over all cases; balanced sampling draws every class present equally often and only its own non-missing cases; sampling balanced within a second feature draws that feature's classes at their own rate and, within each, the target classes present equally often; neither fails when a class or combination has no cases; sampling the first n of a list is a uniform permutation prefix that keeps the list a permutation; known constants at its end use up tries, as if drawn without replacement, but are never returned.",
 ["inputs"],"all draw sequences, class assignments including empty ones, sizes within the bounds",
 "Random tests check frequencies loosely on data in which every class is populated.",
 ["sampeling.go","utils.go"],[("SampleWithReplacment, BalancedSampler, SecondaryBalancedSampler, SampleFirstN","sampeling.go, utils.go")],["returned samples"])
p("C22","Ballot boxes tally weighted votes correctly and score as documented",
 "A numeric box returns the weighted mean of the votes for a case, a categorical box a category with the largest total weight, a sum box the weighted sum; numeric and categorical boxes report NA for a case without votes, and a sum box zero. The squared error averages over the cases that are known and voted on; the balanced error averages, over the categories that known cases have, the rate of known cases not predicted to be of their own category. Neither the order of votes nor that of cases influences any of them, ties between categories aside.",
 ["inputs","histories"],"all vote sequences with any weights including zero, all features with missing entries within the bounds, every map iteration order",
 "Tests tally a few votes for fully known features; zero weights, absent votes and empty classes are not reached.",
 ["catballotbox.go","numballotbox.go","sumballotbox.go","utils.go"],[("Vote/Tally/TallyError","*ballotbox.go"),("RunningMean.WeightedAdd","utils.go")],["Tally, TallyError"])
p("C23","Voting, running means and sparse counters are safe under concurrent use",
 "Any number of goroutines may vote, tally, add to running means and count in sparse counters at the same time: no data race, no lost update, no deadlock, and the final tallies equal those of some sequential order.",
 ["schedules"],"all interleavings of a bounded number of goroutines and operations on the same and on different cases and categories",
 "Tests are sequential or too short to hit the interleavings.",
 ["catballotbox.go","numballotbox.go","sumballotbox.go","utils.go","catmap.go"],[("per-case mutexes, RunningMean.mutex, SparseCounter.mutex","catballotbox.go, numballotbox.go, sumballotbox.go, utils.go")],["data races, final tallies"])
p("C24","Boosting updates are the documented ones and reach growing and voting",
 "Gradient boosting starts from the mean (or log odds) as intercept and subtracts from each case's residual the learning rate times the prediction of its leaf, for two classes on the scale of the log odds; adaptive boosting multiplies the weight of cases unlike the mode of their leaf by exp(a) and of the others by exp(-a), times costs if given, where a = log((1-e)/e)/2 for weighted error e is the tree's weight, and analogously with the norm of the deviation for numbers; it keeps weights normalised, leaves them as they are when the error is zero or no better than chance, and missing targets take no part. Growing a forest boosts the target with every tree and records the weight and the intercept.",
 ["inputs","histories"],"all partitions, predictions and targets within the bounds, for every boosting target",
 "Tests check only that total error shrinks on one data set.",
 ["gradboosttarget.go","gradboostclasstarget.go","adaboosttarget.go","adacosttarget.go","numadaboostingtarget.go","forrest.go"],[("Boost","*boost*target.go, adacosttarget.go"),("BoostingTarget dispatch","forrest.go, growforest/growforest.go")],["residuals/weights after Boost"])
p("C25","growforest grows the requested forest and reports honest out-of-bag error",
 "The forest growing tool writes exactly the requested number of trees (fewer only when boosting stops as nothing is left to learn), each grown from its own sample of the cases whose target is known and splitting only on candidate features; without boosting or special targets every leaf predicts the mean or mode of the sampled cases it holds. Options select what they name: with the same draws the trees are those the library grows for that target with these settings. Out-of-bag votes for a case come only from trees not trained on that case, and the reported test-set and out-of-bag error equals the error of voting with the written trees and their weights accordingly. The result does not depend on thread scheduling beyond the order of trees.",
 ["configurations","schedules","inputs"],"number of trees and cores, bagging, boosting and testing options, random draws and schedules within the bounds",
 "The tool's main loop has no tests at all.",
 ["growforest/growforest.go"],[("grow closures, OOB voting, testing loop","growforest/growforest.go")],["forest file, vote boxes, printed error"])
p("C26","applyforest predicts each case with the whole forest and the right rule",
 "Applying a forest file to a data set prints one line per case with its label, the prediction obtained by voting all trees with their weights (sum for boosted forests plus intercept, mean or mode otherwise), and the actual value when the data set has the target; the same rule results from the programming interface.",
 ["inputs","configurations"],"all forests and data sets within the bounds, each voting mode",
 "The tool has no tests.",
 ["applyforest/applyforest.go"],[("main","applyforest/applyforest.go")],["prediction output"])
p("C27","leafcount statistics equal the true leaf co-occurrence counts for any threads",
 "Leaf counting reports, for every case pair, in how many trees the two cases share a leaf, and for every case how often each feature split it, and records every split made on each feature, summed over all forests given, independent of the number of threads.",
 ["inputs","schedules"],"all forests and data sets within the bounds, all interleavings of the worker threads",
 "The tool has no tests.",
 ["leafcount/leafcount.go","utils.go"],[("worker goroutines and SparseCounter","leafcount/leafcount.go, utils.go")],["written counts"])
p("C28","Cross-validation folds are disjoint, cover all cases and are stratified",
 "The fold tool writes, for every fold, a training and a testing file that are disjoint and together contain every case once (when it stratifies by a target, every case whose class is known); the testing sets are disjoint across folds and together contain every case, folds are balanced to within one case per class (or in size, without stratifying), and all files of all formats hold the cases' own values.",
 ["inputs","configurations"],"case counts, fold counts, class assignments and shuffles within the bounds",
 "The tool has no tests.",
 ["utils/nfold/main.go"],[("main fold assignment","utils/nfold/main.go")],["cases written per file"])
p("C29","Sparse counters report the exact sum of everything added",
 "A sparse counter reports for every pair of keys exactly the sum of the values added under it and lists no pair that was never added; running means report the exact (weighted) mean and count of what was added.",
 ["inputs","histories"],"all sequences of additions within the bounds",
 "Tests add two or three constants.",
 ["utils.go"],[("SparseCounter.Add/WriteTsv, RunningMean.Add/WeightedAdd/Read","utils.go")],["WriteTsv output, Read"])
p("C30","Counts given as a number, fraction or root of the total parse to a sane value",
 "Parameters such as mTry or leafSize given as a decimal integer parse to that integer, given with a decimal point to that fraction of the total rounded up, which is at least one for a positive fraction of a positive total; empty and malformed text parses to zero and nothing causes a failure.",
 ["inputs"],"all strings over digits and dot up to the bound and all totals within the bound",
 "Only a few constants are exercised.",
 ["utils.go"],[("ParseAsIntOrFractionOfTotal","utils.go")],["parsed value"])
p("C31","Exported scikit-learn style tree arrays describe the same tree",
 "The flattened scikit-learn representation built from a tree with numeric splits has as many nodes and levels as the tree, child indexes under which every node but the root is the child of exactly one earlier node and leaves have none, and features and thresholds that route every case to the node standing for the leaf it reaches in the tree.",
 ["inputs","programs"],"all trees and data sets within the bounds",
 "Not tested beyond one grown tree.",
 ["sklearn_tree.go","growforest/growforest.go"],[("BuildScikitTree","sklearn_tree.go")],["flattened arrays"])
p("C32","Welch's t statistic and p-value agree with the definition",
 "The p-value attached to importance scores is the one-sided Welch test of two samples that are not both constant: the statistic and degrees of freedom are those of the definition, the p-value is the upper tail of Student's t distribution there, so it lies in [0,1] and swapping the samples complements it.",
 ["inputs"],"all samples",
 "Tests compare a few values.",
 ["stats/stats.go"],[("Ttest","stats/stats.go")],["returned p"])
p("C33","Importance scores describe the forest that was grown",
 "The importance file of the forest growing tool has one line per feature, and its numbers are those of the forest grown: how many splits use the feature, the mean decrease of the target's impurity over them, that decrease summed per tree and per tree that uses the feature, how many trees use it, and the mean over those trees of the depth of its shallowest split. With artificial contrasts each feature is reported with its mean score over the forests and the p-value of its scores against its contrast's, and a cutoff grows the last forest from exactly the significant features.",
 ["inputs","configurations","schedules"],"data sets, options, draws and schedules within the bounds",
 "No test looks at importance files.",
 ["growforest/growforest.go","tree.go","utils.go"],[("importance recording and writing, ACE","growforest/growforest.go"),("Grow, GrowJungle","tree.go")],["importance file, written forest"])
p("C34","The conversion tool keeps every value of a data set",
 "Converting a data set of any supported format to an annotated feature matrix writes every case under its label and every feature that is not blacklisted with its typed name, each holding the value it had, missing ones included; the target is never blacklisted. Anonymising numbers the labels, features and categories one to one with the target first, and changes nothing else. Converting to LibSVM writes each case's target and its other features' values, imputed and encoded.",
 ["inputs","configurations"],"data sets, formats, blacklists and targets within the bounds",
 "The tool has no tests.",
 ["utils/toafm/main.go","featurematrix.go"],[("main","utils/toafm/main.go"),("StripStrings, WriteCases, LoadAFM","featurematrix.go")],["written file"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
