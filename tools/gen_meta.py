"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ML, BU, CL, RG, PC, UT, SP, DS = ("mlpaper/%s.py" % s for s in ("mlpaper", "boot_util", "classification", "regression", "perf_curves", "util", "sciprint", "data_splitter"))
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(
        dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None),
        )
    )


I, H, CF = "inputs", "histories", "configurations"

prop("C01", "Error bars are clipped to a-priori limits, never below min_EB",
     "Clipping an error bar for an estimate with known theoretical limits returns min(max(EB, min_EB), max(upper - mu, mu - lower)): never smaller than the requested minimum, never larger than the distance to the far limit (unlimited when the estimate is NaN), and NaN exactly when the error bar is NaN. With no limits given the error bar is returned unchanged. Inconsistent limits (lower above upper, estimate outside them, min_EB negative, infinite or more than half the range) are rejected.",
     [I], "all extended-real mu, EB >= 0, lower, upper, min_EB", "tests sample a few random finite values; the boundary, infinite and NaN combinations are not enumerated",
     [ML, UT], [("clip_EB", ML), ("clip_chk", UT)])
prop("C02", "Mean, error bar and p-value entry points agree with the chosen method",
     "For every sample inside its limits and every method, the mean/error-bar, test and combined entry points report the sample mean, the error bar of the chosen method at the requested confidence clipped to the limits (at least min_EB), and the p-value in [0, 1] of the chosen method; the combined entry point equals the two separate ones. Defaults are the t method, 95% confidence and no limits. Samples outside the limits and unknown method names are rejected.",
     [I, CF], "all sample sizes, samples, limits, confidences, min_EB, methods", "tests call the front ends on a few random samples and only check their own sub-functions",
     [ML, UT], [("get_mean_and_EB, get_test, get_mean_EB_test", ML), ("clip_EB", ML), ("clip_chk", UT)])
prop("C03", "Degenerate samples never give a confident conclusion",
     "A sample with fewer than two points or any infinite value always yields a p-value of exactly 1 and an uninformative error bar (infinite, or the full known range / distance to the far limit when limits are known), for the t, Bernstein and bootstrap methods and for every entry point. A sample containing NaN is rejected by all of them.",
     [I, CF], "all samples of size 0 or 1, all samples with an infinite or NaN entry, all methods and limits", "tests draw regular samples of moderate size; few degenerate cases, none with limits",
     [ML], [("t_EB, t_test, bernstein_EB, bernstein_test, boot_EB, boot_test, _boot_EB_and_test", ML), ("get_mean_and_EB, get_test, get_mean_EB_test", ML)])
prop("C04", "Student-t error bar and t-test: exact values and duality",
     "The t error bar is the Student-t quantile with n-1 degrees of freedom at (1+confidence)/2 times the standard error (sample standard deviation with n-1, over sqrt(n)), and the t-test p-value is the two-sided tail probability of the t statistic; for a zero-variance sample p is 1 if its mean is 0 and 0 otherwise. The test rejects at level 1-confidence exactly when the interval mean +- error bar excludes 0.",
     [I], "all finite samples of any length, all confidences in (0, 1)", "tests compare against scipy on random samples; constant samples and the duality for all confidences are not covered",
     [ML], [("t_EB", ML), ("t_test", ML)])
prop("C05", "Empirical Bernstein error bar and test: bound formula and duality",
     "The Bernstein error bar is std*sqrt(2 ln(3/d)/n) + 3 R ln(3/d)/n with d = 1-confidence, R = upper-lower and std the population (n) standard deviation, and the Bernstein p-value is the smallest level, capped at 1, whose bound around the mean excludes 0. Hence the test rejects at level d exactly when the interval at confidence 1-d excludes 0. An unbounded or empty range gives p = 1.",
     [I], "all samples within any finite or infinite range, all confidences", "tests check duality on random data only at sampled confidences",
     [ML], [("bernstein_EB", ML), ("bernstein_test", ML)])
prop("C06", "Bootstrap interval primitives: weights, percentiles, error bars, p-values",
     "Bootstrap weights are per-replicate case counts of a uniform resample, each replicate's counts summing to the number of cases, raised to epsilon where smaller. For any replicates, the percentile interval is the pair of order statistics at floor(a(n-1)) and ceil((1-a)(n-1)) with a = (1-confidence)/2 (outward rounding), the basic interval is its reflection about the original estimate, and the error bar is the larger distance of the basic interval's ends from the original estimate, so that original +- error bar covers it. NaN replicates are rejected. The bootstrap significance of a reference value is twice the smaller of the two fractions of replicates at or beyond it, capped at 1, and is below 1-confidence whenever the reference lies outside the percentile interval.",
     [I], "all numbers of cases and replicates, all replicate values (with ties, infinities, NaN), all confidences", "tests check a few random configurations of fixed shapes",
     [BU], [("boot_weights, confidence_to_percentiles, percentile, basic, error_bar, significance", BU)])
prop("C07", "Bootstrap error bar and test of a mean use one consistent resample",
     "For any finite sample of at least two points, the bootstrap error bar and p-value of the mean are the error-bar and significance (against 0) of the weighted means over one set of n_boot case resamples, with the sample mean as original estimate, and the combined routine uses the same resamples for both. p is in [0, 1], the error bar is nonnegative and finite, and p is below 1-confidence whenever the percentile interval excludes 0.",
     [I, H], "all samples, confidences, numbers of replicates and all outcomes of the resampling", "tests see a few random streams",
     [ML, BU], [("_boot_EB_and_test, boot_EB, boot_test", ML), ("boot_weights, error_bar, significance", BU)])
prop("C08", "Loss summary table: every cell is the statistic of its own column",
     "For every loss table, method and metric the summary has the mean of that method's losses and an error bar; without pairwise CIs the error bar is that of the method's own losses within the metric's limits, with pairwise CIs it is that of the paired loss differences to the reference method; the p-value is always that of the paired differences to the reference. The reference method's own p-value is NaN, and with pairwise CIs its error bar too (and only these). Rows are the methods, columns the metrics x (mean, error, p), missing limits mean unlimited, and the input table is not modified.",
     [I, CF], "all loss tables (any methods, metrics, row counts), reference, confidence, method, limits", "tests use random tables with one layout",
     [ML], [("loss_summary_table", ML)])
prop("C09", "Classification losses: Bayes decision and proper scoring rules",
     "For every label vector and (log) predictive distribution: the hard decision minimises the expected loss under the prediction and its loss is the loss-matrix entry of (true label, decision), defaulting to zero-one loss; log loss is minus the log probability of the true label; Brier loss is the squared distance to the one-hot truth; spherical loss is minus the normalised probability of the truth. With rescaling, Brier and spherical losses are 0 for a certain correct prediction and 1 for the uniform one. Empty inputs and inputs whose shapes, label types or label values do not fit are rejected.",
     [I], "all numbers of cases and labels, all label vectors, all log probability matrices (including log 0), all loss matrices", "tests compare with loops on random small matrices",
     [CL, UT], [("hard_loss_decision, hard_loss, log_loss, brier_loss, spherical_loss, shape_and_validate", CL), ("one_hot", UT)])
prop("C10", "Unnormalised predictions cannot cheat: loss tables normalise each row",
     "Normalising log predictions gives, per row, values that exponentiate to a distribution summing to one, differ from the input by a per-row constant only, and leave already normalised rows unchanged. The classification loss table holds for every metric, method and test case exactly the metric evaluated on that method's own normalised predictions (or the given ones when they are declared normalised), so scaling a method's probabilities never changes its losses. The reported columns are all metric x method pairs and inputs are unchanged.",
     [I], "all prediction tables (any methods, labels, cases), labels, metric dictionaries", "tests check a random table against the same helper functions",
     [CL, UT], [("loss_table", CL), ("normalize", UT)])
prop("C11", "Regression losses and loss table",
     "For every target vector and Gaussian prediction: squared loss is (y-mu)^2, absolute loss |y-mu|, and log loss minus the Gaussian log density with that mean and standard deviation. The regression loss table holds for every metric, method and case exactly the metric on that method's own mean and std, aligned by case, whatever the column order. Empty inputs, mismatched shapes, non-finite values and standard deviations that are not positive are rejected.",
     [I], "all numbers of cases, targets, means, standard deviations > 0, method sets and metric dictionaries", "tests compare with scipy on random tables",
     [RG], [("square_loss, abs_loss, log_loss, shape_and_validate, loss_table", RG)])
prop("C12", "ROC curve: exact weighted counts at every distinct threshold",
     "For every binary labelling, score vector and positive weighting, the curve counts at each distinct score, in decreasing order, the total weight of negatives (false positives) and positives (true positives) with score at or above it, starting from zero counts. ROC points are these counts divided by the totals, going monotonically from (0, 0) to (1, 1); tied scores move together. If a class is absent its counts are a tiny fixed multiple (1e-10) of the other class's, so that the ROC is the diagonal rather than NaN. Each weight row is counted independently; weights that are not positive and finite, and non-finite scores, are rejected.",
     [I], "all label/score/weight vectors of any length with any ties; many weight columns", "tests compare to sklearn on random vectors with limited ties",
     [PC], [("_binary_clf_curve, _add_pseudo_points, roc_curve", PC)])
prop("C13", "Precision-recall and precision-recall-gain curves",
     "For every labelling, scores and weights, the recall-precision curve has recall tp/P nondecreasing from 0 to 1 and precision tp/(tp+fp) in [0, 1] at each threshold (recall 0 carries the first threshold's precision), and the precision-recall-gain curve is its image under the gain transform (x - pi)/((1 - pi) x) with pi the weighted positive rate: recall gain clipped to be at least 0 and nondecreasing from 0 to 1, precision gain 1 - P fp/(N tp), at most 1 and minus infinity before the first true positive. Absent classes are handled without NaN.",
     [I], "all label/score/weight vectors", "tests compare to sklearn on random vectors",
     [PC], [("recall_precision_curve, prg_curve, _binary_clf_curve", PC)])
prop("C14", "Curve area, step functions, interpolation and de-duplication",
     "The area of a curve is the left step sum ('previous', empty steps count 0 whatever the height) or the trapezoid integral ('linear') of its points, other kinds being rejected, and evaluating a step function at any grid point returns the value at the last knot at or before it (the initial value before the first knot). Interpolating a curve onto a grid agrees with the same step/linear convention, including at the knots; removing duplicate x values keeps the last y of each group; strict cumulative maximum returns the smallest strictly increasing sequence of floats that is nowhere below the input. Unsorted or NaN knots are rejected, and so are grid points before the first knot when there is no initial value.",
     [I], "all knot vectors (sorted, with ties and infinities) and grids of any length", "tests compare with scipy on random grids",
     [UT], [("area, eval_step_func, _interp1d, unique_take_last, cummax_strict", UT)])
prop("C15", "Curve bootstrap: estimate, interval and p-value of a curve summary",
     "The curve bootstrap reports the area (or summary) of the unweighted curve, its bootstrap error bar and the significance against the reference area, using the same resample weights for every reported quantity; it also reports the curve evaluated at each grid point (100 points over [0, 1] by default) with pointwise percentile bootstrap limits at the requested confidence. Each replicate is the curve computed with that replicate's case weights. The reference is a number or reference predictions evaluated on the same replicates; with pairwise CIs the error bar is that of the difference to the reference. NaN predictions are rejected.",
     [I, H], "all labellings, scores, confidences, numbers of replicates and resampling outcomes", "tests check few random streams and shapes",
     [CL, BU, PC, UT], [("curve_boot, check_curve", CL)])
prop("C16", "Curve and overall summary tables are assembled per method and metric",
     "In the curve summary table every method x curve cell is computed from that method's own scores: the area of its curve, its bootstrap error bar (of the difference to the reference method with pairwise CIs) and its p-value against the reference method's area; the reference's p-value is NaN, and with pairwise CIs its error bar. The curve dump has the curve of every method x curve pair. The overall summary table is exactly the loss summary columns joined with the curve summary columns for the same methods, every metric once, inputs unchanged.",
     [I, CF], "all prediction tables, curves, metric dictionaries, references", "tests run one random table",
     [CL, ML], [("curve_summary_table, summary_table", CL), ("loss_summary_table", ML)])
prop("C17", "Rounded results keep the right digits for mean, error and p-value",
     "Rounding a results table gives, per cell, an error of at most the requested number of significant digits rounded up (never understated), a mean rounded half-up to the same last decimal place as its error, and a p-value rounded up to the requested number of decimals. When the error is zero or not finite the mean keeps the default number of significant digits; an error that rounds to more than the metric's limit becomes infinite; NaN stays NaN. Cells are matched by column name whatever the column order, and the output has the input's rows and columns. Negative errors, p-values outside [0, 1] and digit counts below one are rejected.",
     [I, CF], "all finite and non-finite means, errors >= 0, p-values in [0, 1], digit settings, limits and column orders", "tests compare a few random cells with the same Decimal calls",
     [SP], [("decimalize, create_decimal, decimal_eps", SP)])
prop("C18", "Printed estimates and p-values equal the numbers they show",
     "The string printed for a mean and error at a given power-of-ten shift reads back as exactly the shifted mean, with the error in parentheses in units of the mean's last printed digit, keeps every digit of the mean and no more, and is in standard notation (thousands separators, leading zero, no exponent). Means strictly beyond the given limits print as the corresponding inequality with the shifted limit, non-finite means as their configured text, and a p-value of at most one unit in its last place prints as that unit with a less-than sign. Shifts that would need digits the mean does not have, errors of another precision or negative, and p-values outside [0, 1] are rejected.",
     [I, CF], "all Decimal means/errors/p-values of matching precision, all shifts, limits and non-finite formats", "tests round-trip random decimals of moderate size",
     [SP], [("print_estimate, print_pval, digit_str, decimal_to_dot", SP)])
prop("C19", "Common exponent shift is optimal and respects the step size",
     "The admissible shifts of a column are the multiples of the step size that leave no number's last digit before the decimal point and, where possible, bring the leading digit of at least one number to the point (otherwise only the largest such multiple). The chosen shift is an admissible one that minimises the longest printed entry, counted without separators, and the smallest in magnitude of those; an empty column is not shifted. Non-finite means, step sizes below one and lists of different lengths are rejected.",
     [I, CF], "all lists of Decimals and step sizes", "tests brute force a few random lists",
     [SP], [("get_shift_range, find_shift, floor_mod, ceil_mod, decimal_to_dot", SP)])
prop("C20", "Formatted tables are aligned, complete and carry the right unit headers",
     "In the formatted table every entry is the printed form of its own cell at its column's common shift: zero if no shifting is requested, otherwise the optimal one for the means within the limits. Padded entries of a column have the same number of characters from the decimal point on, so that the points align when right aligned. Rows are those of the input, with an estimate and a p column per metric. Headers show exactly the power of ten the values were multiplied by, or the SI prefix of the unit they are then shown in, with the metric's unit, in plain text and TeX. The one-call formatter equals rounding, formatting and rendering composed with the same options, and inputs are not modified.",
     [I, CF], "all results tables, shift steps, limits, unit dictionaries and prefixes", "tests check few random tables",
     [SP], [("format_table, pad_num_str, find_last_dig, adjust_headers, table_to_string, just_format_it", SP)])
prop("C21", "Benchmarking: each method is fitted on train data and judged on test data only",
     "Prediction tables contain for every method exactly what that method, fitted on the training data only, predicts for the test inputs, in order: log probabilities per label, floored at min_log_prob and renormalised per row, or mean and at-least-min_std std for regression. Predictions of the wrong shape and inconsistent train/test inputs are rejected, and checkpointing never changes results. The built-in baseline predicts the training label frequencies (training mean and std for regression) on every test case. The one-call benchmark equals prediction, loss table and summary composed with the same arguments.",
     [I, CF, H], "all train/test sets, method dictionaries and options", "tests run one or two small fits",
     [CL, RG], [("get_pred_log_prob, just_benchmark, JustNoise", CL), ("get_gauss_pred, just_benchmark, JustNoise", RG)])
prop("C22", "Data splits are disjoint in every split feature and respect their order",
     "A data frame is partitioned by each split feature's values: training rows are exactly those selected in all split features, test rows those selected in none, the remaining rows are unused, and row order, index and contents are kept. Random splits draw a subset of the unique values of the requested rounded-up size; ordered splits take the smallest unique values, of the requested rounded-up number but at least one, and linear splits the values up to the point at that fraction between minimum and maximum, so train values always precede test values. Truthfully declaring a feature sorted or unique changes nothing. NaN values, invalid fractions, missing features and empty frames or splits are rejected, and input frames are not modified.",
     [I, CF, H], "all frames, features, fractions, split kinds and random outcomes", "tests check a few random frames",
     [DS], [("split_df, random_split_series, ordered_split_series, linear_split_series, rand_subset, rand_mask, index_to_series", DS)])
prop("C23", "Lagged features align each row with the value lag steps before",
     "The lagged frame has, for every requested lag and selected feature, a column whose value in each row is that feature's value the given number of strides earlier in row order (missing where no such row exists), with lag 0 all the original columns. Row index and order are kept, columns are labelled by the original label plus a last level 'lag' holding L0, L1, and so on, and the input frame is unchanged.",
     [I, CF], "all frames, numbers of lags, strides and feature subsets", "no test covers it",
     [DS], [("build_lag_df", DS)])
prop("C24", "Tie-breaking noise never changes the order of distinct values",
     "Adding the tie-breaking noise to any finite vector keeps the strict order of every pair of distinct values, changes no value by more than half the smallest gap between distinct values (nor by more than half the given maximum), keeps the shape and leaves the input unmodified.",
     [I, H], "all finite vectors with any gaps and ties, all noise outcomes", "tests check random vectors",
     [UT], [("epsilon_noise", UT)])

PROVED = {}
for line in open(os.path.join(HERE, "tools", "levels.txt")):
    line = line.rstrip("\n")
    if line and not line.startswith("#"):
        k, lvl, note = line.split("|", 2)
        PROVED[k] = (lvl, note)

TECH = {"proof": "contract-based deductive verification of the unmodified source: weakest-precondition style symbolic execution, obligations discharged by z3/cvc5",
        "exploration": "contracts on the real code, checked by bounded and run-time contract checking (labelled bounded)",
        "other": "contract-based deductive verification (part of the obligations proved by z3/cvc5), remaining contracts bounded / run-time checked"}

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --setup", checks=[], not_applicable=[])
    for p in P:
        i = p["id"]
        if i in PROVED:
            lvl, note = PROVED[i]
            man["checks"].append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py %s" % i, thorough_cmd="/opt/venv/bin/python check.py %s --thorough" % i,
                                      technique=TECH[lvl], level=lvl, level_note=note))
        else:
            man["not_applicable"].append(dict(property=i, reason="contracts for this property are not built yet"))
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
