"""Source of properties.jsonl and MANIFEST.json: run  python3 tools/props.py  from /verif."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(
        dict(
            rec=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=files,
                    mechanism=[dict(name=a, where=b) for a, b in mech],
                    **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                    observe_at=observe,
                    hook_needed=None,
                ),
            ),
            technique=technique,
            note=note,
        )
    )


COMMON = " Explores generated workloads, not all inputs; trusts numpy/scipy arithmetic and the reference in rv/ref.py and the check."

prop(
    "C01", "Qn scale is the exact order statistic of the pairwise differences",
    "For every finite univariate sample of at least two observations, the Qn scale equals the k-th smallest of all pairwise "
    "absolute differences, with h = floor(n/2)+1 and k = h(h-1)/2, times the small-sample factor and the normal consistency factor "
    "when these are switched on. The location equals the chosen location function of the sample. Values that are missing and "
    "ignored do not take part.",
    ["inputs", "configurations"], "all samples (tied, rounded, shifted, contaminated, integer), sizes, and correction flags",
    "Tests compare a handful of fixed samples; the fast selection has data-dependent branches that only show on ties, on particular sizes and on rounding.",
    ["robpy/univariate/qn.py", "robpy/utils/median.py"],
    [("fast selection of the k-th pairwise difference", "robpy/univariate/qn.py:Qn._calculate"), ("weighted median", "robpy/utils/median.py:weighted_median")],
    ["Qn.fit(...).scale", "Qn.fit(...).location"],
    "runtime oracle: brute-force order statistic watches every fit of a generated workload",
    "Every observed fit is decided exactly up to 1e-9 relative." + COMMON,
)
prop(
    "C02", "Univariate MCD is the optimal subset plus one reweighting step",
    "For every univariate sample and admissible subset size, location and scale are the reweighted estimates of a subset of h "
    "observations with the smallest variance among all subsets of that size, with the documented rule for h and the consistency "
    "factors at both stages when switched on. With all observations selected they are the mean and standard deviation. "
    "Inadmissible subset sizes are rejected.",
    ["inputs", "configurations"], "all samples, all subset sizes given as None, integer or fraction",
    "Tests use a few samples and default settings; optimality is a statement over all subsets.",
    ["robpy/univariate/mcd.py"],
    [("scan of contiguous subsets", "robpy/univariate/mcd.py:UnivariateMCD._get_raw_estimates"), ("reweighting", "robpy/univariate/mcd.py:UnivariateMCD._reweighting"), ("subset size", "robpy/univariate/mcd.py:UnivariateMCD._set_h_size")],
    ["UnivariateMCD.fit(...).location", "UnivariateMCD.fit(...).scale"],
    "runtime oracle: exhaustive subset enumeration and reference reweighting over generated workloads",
    "Ties between optimal subsets are accepted either way." + COMMON,
)
prop(
    "C03", "Tau, one-step M and wrapping estimators equal their defining formulas",
    "The tau estimator, the Huber, cellwise and general one-step M-estimators and the wrapping estimator return, for every "
    "univariate sample and choice of constants, the location and scale that their published one-step definitions prescribe from the "
    "median and MAD (or univariate MCD) start. When the starting scale is zero the scale is zero and the location stays finite.",
    ["inputs", "configurations"], "all samples including those where a majority coincides, all tuning constants",
    "Tests pin rounded values on one or two samples, so wrong constants or branches for outlying and tied observations stay hidden.",
    ["robpy/univariate/tau.py", "robpy/univariate/onestep_m.py", "robpy/utils/rho.py"],
    [("tau", "robpy/univariate/tau.py:Tau._calculate"), ("one-step M", "robpy/univariate/onestep_m.py:OneStepM._calculate"), ("hyperbolic tangent weights", "robpy/univariate/onestep_m.py:OneStepWrapping")],
    ["location and scale of each fitted estimator"],
    "runtime oracle: closed-form reference watches every fit of a generated workload",
    "Decides each observed fit to 1e-7 relative." + COMMON,
)
prop(
    "C04", "Univariate estimators are equivariant, robust and refuse missing values",
    "Every univariate location-scale estimator transforms correctly when the sample is permuted, shifted, rescaled or negated. "
    "Any minority of the observations may be moved anywhere without carrying the location away, exploding the scale or making it zero; for normal data the scales are "
    "consistent (except the cellwise one-step M, whose published constant is kept). Missing values and multivariate input raise an "
    "error unless missing values are explicitly ignored, and reading results before fitting raises a not-fitted error.",
    ["inputs", "configurations"], "all samples, all affine maps, every contamination of a minority",
    "A test samples one contamination or none; breakdown and equivariance quantify over all of them.",
    ["robpy/univariate/base.py", "robpy/univariate/qn.py", "robpy/univariate/mcd.py", "robpy/univariate/tau.py", "robpy/univariate/onestep_m.py"],
    [("input policy", "robpy/univariate/base.py:RobustScale.fit"), ("estimators", "robpy/univariate/*.py:_calculate")],
    ["location, scale and exceptions of fit"],
    "metamorphic runtime monitor: transformed and contaminated executions compared online",
    "Bounds for contaminated fits are generous (60 times the range of the clean part)." + COMMON,
)
prop(
    "C05", "FastMCD and DetMCD report a converged h-subset and coherent estimates",
    "After fitting, the reported subset has exactly the documented number h of distinct observations and its reported mean, "
    "covariance and determinant are those of these observations; a further concentration step lowers the determinant by less than the "
    "tolerance. Location and covariance follow from it by the consistency correction and reweighting that were requested. A "
    "fraction or size of all observations gives the classical mean and covariance, and inadmissible sizes are rejected.",
    ["inputs", "configurations"], "all data sets, subset sizes as None, integer or fraction, partitions, correction and reweighting flags",
    "Tests look at a few data sets with fixed seeds and rounded numbers; convergence and coherence hold per data set and configuration.",
    ["robpy/covariance/mcd.py"],
    [("C-steps until convergence", "robpy/covariance/mcd.py:FastMCD.calculate_covariance, DetMCD.calculate_covariance"), ("subset size", "robpy/covariance/mcd.py:_get_h"), ("consistency and reweighting", "robpy/covariance/mcd.py:_correct_covariance")],
    ["best_subset, location_, covariance_ of the fitted estimator"],
    "runtime oracle: recomputation of subset, C-step fixed point and reweighting after every fit",
    "Observations on the reweighting cutoff (1e-7) are left open." + COMMON,
    [("best_subset", "the h-subset with the lowest determinant found", "robpy/covariance/mcd.py")],
)
prop(
    "C06", "The MCD estimators find the low-determinant subset and resist outliers",
    "On data sets small enough to enumerate, FastMCD attains (up to a small factor) and no fit ever falls below the smallest "
    "covariance determinant over all h-subsets. FastMCD is never clearly worse than a few random starts, and DetMCD ends no higher than "
    "concentration from any of its six published deterministic starts. When up to 40% (DetMCD: 30%) of the observations are far outliers, the "
    "selected subset contains none of them and location and covariance stay those of the clean observations. FastMCD is affinely "
    "equivariant and DetMCD is equivariant under shifts, rescaling and reordering of the variables.",
    ["inputs", "configurations"], "all data sets, all placements of a minority of outliers, all nonsingular transformations",
    "Optimality is over all subsets and robustness over all contaminations; tests sample one.",
    ["robpy/covariance/mcd.py"],
    [("random and deterministic starts", "robpy/covariance/mcd.py:_get_initial_subsets, _get_initial_best_subsets"), ("selection of the best subset", "robpy/covariance/mcd.py:calculate_covariance")],
    ["best_subset, location_, covariance_"],
    "runtime oracle: subset enumeration, planted outliers and transformed executions",
    "FastMCD within a factor 1.2 of the enumerated optimum and 1.1 of plain random starts; DetMCD no worse than concentrating each of its six published starts." + COMMON,
)
prop(
    "C07", "OGK equals its published definition in every configuration",
    "For every data set, number of iterations and pair of location and scale functions, the OGK location and covariance equal those of "
    "the orthogonalised Gnanadesikan-Kettenring definition; with reweighting they are the mean and covariance of the observations "
    "whose robust distance is below the documented cutoff.",
    ["inputs", "configurations"], "all data sets, iterations, functions and quantiles",
    "Tests use the default configuration on one data set.",
    ["robpy/covariance/ogk.py"],
    [("orthogonalisation and back transformation", "robpy/covariance/ogk.py:OGK.calculate_covariance")],
    ["location_, covariance_"],
    "runtime oracle: independent OGK implementation watches every fit",
    "Scale functions that make the second step arbitrary (exact principal components) are used with one iteration." + COMMON,
)
prop(
    "C08", "Wrapping and Kendall covariances equal their definitions",
    "The wrapping transformation is linear within the inner corner, follows the tanh part up to the outer corner and is constant beyond, per "
    "column, for all constants and location and scale functions, and rescaling restores location and scale; a column without scale stays "
    "finite. The wrapping covariance and correlation are the classical ones of the rescaled wrapped data, and the Kendall correlation is "
    "the tie-corrected pair count, with Qn scales in the covariance.",
    ["inputs", "configurations"], "all data sets (ties, constant columns, outliers) and constants",
    "Tests compare a few transformed numbers; corner points, ties and configurations are not covered.",
    ["robpy/preprocessing/utils.py", "robpy/covariance/wrapping.py", "robpy/covariance/kendall.py"],
    [("wrapping function", "robpy/preprocessing/utils.py:wrapping_transformation"), ("Kendall", "robpy/covariance/kendall.py:KendallTau")],
    ["wrapping_transformation(...)", "covariance_, correlation_"],
    "runtime oracle: independent formulas and explicit pair counting watch every call",
    "Observations on a corner point (1e-9) are left open." + COMMON,
)
prop(
    "C09", "All covariance estimators share one contract",
    "Every fitted covariance estimator offers a finite location and a symmetric covariance with positive variances (positive "
    "definite except Kendall), a precision that is its inverse, and distances that belong to these estimates. The same values in "
    "a DataFrame with any index or in another memory layout give the same result, reordered variables (and, for the deterministic "
    "estimators, reordered observations) give the reordered result. Missing or infinite values are rejected by the estimators that do not support them.",
    ["inputs", "configurations"], "all estimators, data sets, containers and orders",
    "Tests check shapes and a few values per estimator on one container and order.",
    ["robpy/covariance/base.py", "robpy/covariance/mcd.py", "robpy/covariance/ogk.py", "robpy/covariance/wrapping.py", "robpy/covariance/kendall.py", "robpy/covariance/cellmcd.py", "robpy/utils/distance.py"],
    [("common fit", "robpy/covariance/base.py:RobustCovariance.fit"), ("distances", "robpy/utils/distance.py:mahalanobis_distance")],
    ["location_, covariance_, get_precision(), mahalanobis(), exceptions"],
    "runtime contract monitor and metamorphic executions (containers, layouts, orders)",
    "Column order is not judged for CellMCD, which updates its columns one after the other." + COMMON,
)
prop(
    "C10", "CellMCD predictions, residuals and imputations belong to its estimates",
    "After every CellMCD fit, the prediction and conditional standard deviation of each cell are the conditional mean and deviation "
    "given the other unflagged cells of its row under the reported location and covariance, including rows with one or no unflagged "
    "cell. X_imputed keeps unflagged cells unchanged and holds predictions in flagged and missing cells, residuals are missing exactly "
    "for missing cells and are otherwise the standardised differences rescaled per variable.",
    ["inputs", "configurations"], "all data sets, all patterns of missing and flagged cells",
    "The formulas branch on the pattern of every row; tests see few patterns and rounded numbers.",
    ["robpy/covariance/cellmcd.py", "robpy/utils/general.py"],
    [("predictions per pattern", "robpy/covariance/cellmcd.py:_make_predictions"), ("back transformation", "robpy/covariance/cellmcd.py:calculate_covariance")],
    ["predictions, conditional_stds, X_imputed, residuals, W"],
    "runtime oracle: every cell of every fit is recomputed from the reported estimates",
    "Columns with a residual on the wrapping cutoff are left open." + COMMON,
)
prop(
    "C11", "CellMCD flags cells by its objective under its constraints and is robust",
    "From its initial estimates, CellMCD performs the published C-steps: flags, location and covariance equal those of that iteration, "
    "the objective never increases, every column keeps at least h unflagged cells, missing cells and cells beyond three scales are flagged, and "
    "the smallest eigenvalue on the standardised scale respects its bound; the quantile steers flagging. Far outlying cells are "
    "flagged and leave location, covariance and imputed data those of the regular cells. Rescaling, shifting and reordering the data maps the "
    "fit accordingly, and inadmissible data or settings are rejected.",
    ["inputs", "configurations", "histories"], "all data sets with outlying and missing cells, all settings of alpha, quantile, crit, steps and eigenvalue bound",
    "The iteration path depends on data and settings; tests fix one data set and look at rounded results.",
    ["robpy/covariance/cellmcd.py", "robpy/covariance/initial_ddcw.py", "robpy/covariance/utils/cellmcd_utils.py", "robpy/covariance/utils/alter_covariance.py"],
    [("C-steps", "robpy/covariance/cellmcd.py:_C_steps_until_convergence, _C_step, _update_W"), ("initial estimate", "robpy/covariance/initial_ddcw.py:InitialDDCW"), ("objective", "robpy/covariance/utils/cellmcd_utils.py:objective_function")],
    ["W, location_, covariance_, exceptions"],
    "runtime oracle: reference C-step trace, constraint monitor, planted cells, transformed executions",
    "Fits with a decision within 1e-7 of a cutoff are left open; the initial estimates are checked against their own definition on top of DDC." + COMMON,
)
prop(
    "C12", "DDC equals its definition; fit, predict and impute agree",
    "For every data frame with missing or infinite cells, the DDC locations, scales, robust correlations, slopes, predictions, deshrinkage, "
    "standardised residuals, flagged cells and flagged rows equal those of the published steps with the given quantile, minimal correlation and scale estimator. "
    "Predict on the training data repeats the fitted flags, on new rows each row is judged on its own by the same rules, and impute "
    "replaces exactly missing (and, if requested, flagged) cells by predictions while index and columns stay.",
    ["inputs", "configurations", "histories"], "all data frames, missing patterns, indices and settings",
    "Tests compare a few numbers on one data set; branches for missing neighbours, isolated variables and new data are not reached.",
    ["robpy/outliers/ddc.py"],
    [("fit", "robpy/outliers/ddc.py:DDC.fit"), ("weights and predictions", "robpy/outliers/ddc.py:_get_predicted_values"), ("prediction and imputation of new data", "robpy/outliers/ddc.py:predict, impute")],
    ["all fitted attributes, results of predict and impute"],
    "runtime oracle: cell-by-cell reference implementation watches fit, predict and impute",
    "Data with a value within 1e-9 of a cutoff are left open. Known finding: imputed values are rounded to three decimals." + COMMON,
)
prop(
    "C13", "DDC finds deviating cells, spares regular ones, and is invariant",
    "Cells that contradict the correlated cells of their row are flagged even when they are not marginally outlying, their predictions "
    "follow the regular cells, outlying rows are flagged, and for normal data the share of flagged cells is near its nominal level. Flags and "
    "residuals do not change under shifts, positive or negative rescaling of a variable, reordering of rows and columns, or another index. "
    "Use before fit, text columns, nearly discrete columns and a wrong number of columns are rejected; a row without values is harmless.",
    ["inputs", "configurations"], "all contamination patterns, affine maps and orders",
    "Detection and invariance quantify over contaminations and transformations; tests sample one.",
    ["robpy/outliers/ddc.py"],
    [("cellwise flags", "robpy/outliers/ddc.py:_cellwise_outliers"), ("rowwise flags", "robpy/outliers/ddc.py:_rowwise_outliers"), ("input checks", "robpy/outliers/ddc.py:_check_data_conditions")],
    ["cellwise_outliers_, row_outliers_, standardized_residuals_, exceptions"],
    "runtime monitor: planted cells and metamorphic executions",
    "Detection is judged for deviations of at least 8 conditional standard deviations." + COMMON,
)
prop(
    "C14", "FAST-LTS ends in a concentrated low-loss subset with the prescribed scale",
    "After every fit, the reported subset has the documented number h of distinct observations, the raw fit is least squares on it, and no "
    "further C-step lowers its loss; the loss is the optimum (within a small factor) where all subsets can be enumerated and never "
    "clearly above that of random starts. Raw scale, reweighting cutoff, reweighted fit and scale follow the documented factors. "
    "alpha = 1 gives least squares, and alpha outside [0.5, 1] is rejected.",
    ["inputs", "configurations"], "all data sets with outliers and leverage points, all alpha, numbers of starts and steps, given starts",
    "Concentration and optimality are statements over all subsets; tests compare a few fitted numbers.",
    ["robpy/regression/lts.py"],
    [("C-steps", "robpy/regression/lts.py:_apply_C_steps_untill_convergence"), ("scale and reweighting", "robpy/regression/lts.py:FastLTSRegression.fit"), ("correction factors", "robpy/regression/lts.py:get_correction_factor, get_correction_factor_reweighting, get_consistency_factor")],
    ["predict, scale, best_h_subset"],
    "runtime oracle: recomputed concentration, enumeration of subsets and reference factors on every fit",
    "Within a factor 1.2 of the enumerated optimum and 1.05 of 25 random starts; n >= 2p + 2." + COMMON,
)
prop(
    "C15", "S-regression solves its M-scale and weighted least squares equations",
    "With the scale iterated to convergence, the reported scale solves the M-scale equation of the residuals for the chosen loss and "
    "constant, the fit is a fixed point of the weighted least squares step, and neither perturbed coefficients nor other fits have a smaller "
    "M-scale; with default settings the scale is close to that. Without intercept the fit goes through the origin, and any new rows "
    "(single, constant columns) are predicted by the same linear function.",
    ["inputs", "configurations"], "all data sets, loss constants, intercept choices and starts",
    "Tests compare fitted coefficients on one or two data sets; the defining equations are never evaluated.",
    ["robpy/regression/s.py", "robpy/utils/rho.py"],
    [("I-steps", "robpy/regression/s.py:SRegression._i_step"), ("M-scale", "robpy/regression/s.py:SRegression._get_scale"), ("loss", "robpy/utils/rho.py:TukeyBisquare")],
    ["predict, scale"],
    "runtime oracle: defining equations and minimality evaluated on every fit",
    "Minimality is sampled (20 perturbations, 22 other fits per case)." + COMMON,
)
prop(
    "C16", "MM-regression solves its estimating equations with the initial scale",
    "For every data set, initial estimator and loss, the MM fit keeps the scale of the initial estimator, solves the estimating equations "
    "including that of the intercept, does not increase the loss of the initial fit and is a local minimum of it; with a limited number of iterations the "
    "iterates and their count are those of iteratively reweighted least squares.",
    ["inputs", "configurations", "histories"], "all data sets, initial estimators, losses, numbers of iterations",
    "Tests compare a fit with one reference; the equations and other starts are not covered.",
    ["robpy/regression/mm.py", "robpy/utils/rho.py"],
    [("reweighting iterations", "robpy/regression/mm.py:MMRegression.fit")],
    ["predict, scale, n_iter"],
    "runtime oracle: estimating equations and recomputed iterates on every fit",
    "Equations solved to 1e-5 (relative to the norm of the features)." + COMMON,
)
prop(
    "C17", "Robust regression resists gross outliers and fits exact majorities exactly",
    "For LTS, S and MM-regression: with any gross outliers (vertical, leverage, clustered, of any size) in up to 40% of the rows, the "
    "coefficients stay within a bounded number of standard errors of least squares on the regular rows, the scale stays near "
    "that of the regular errors, and the outliers have large standardised residuals, however far they are moved. If a majority lies "
    "exactly on a hyperplane, that hyperplane is returned with a scale of (nearly) zero, and the fit ends. On normal data the scale is consistent and the "
    "fit is close to least squares.",
    ["inputs", "configurations"], "all contamination patterns and magnitudes, estimators and initial estimators",
    "Breakdown is a statement over all contaminations; tests have one or two contaminated samples.",
    ["robpy/regression/lts.py", "robpy/regression/s.py", "robpy/regression/mm.py"],
    [("LTS search", "robpy/regression/lts.py:FastLTSRegression"), ("S iterations", "robpy/regression/s.py:SRegression"), ("MM iterations", "robpy/regression/mm.py:MMRegression.fit")],
    ["predict, scale"],
    "runtime monitor: fits under generated contamination judged against least squares on the regular rows",
    "Bounds: 12 standard errors, scale within a factor 0.4 to 3, outliers at least 50 standard deviations times their leverage away." + COMMON,
)
prop(
    "C18", "Regression fits are equivariant and independent of the data container",
    "Regression, scale and affine transformations of the data transform predictions and scale of LTS, S and MM accordingly. The same "
    "values given as array, DataFrame, Series, column, integers, in another memory layout or with another index give the same fit. "
    "outlier_map returns and draws the residuals of the fit, standardised as asked, distances of the features, and the thresholds asked for, "
    "also for a single feature.",
    ["inputs", "configurations"], "all data sets, transformations, containers and options",
    "Metamorphic relations between two executions; tests compare with fixed numbers only.",
    ["robpy/regression/base.py", "robpy/regression/lts.py", "robpy/regression/s.py", "robpy/regression/mm.py"],
    [("input conversion", "robpy/regression/base.py:_convert_input_to_array"), ("diagnostic plot", "robpy/regression/base.py:RobustRegression.outlier_map")],
    ["predict, scale, returned and drawn values of outlier_map"],
    "runtime monitor: metamorphic pairs of executions and recomputed diagnostic plot",
    "A transformed fit may end in another solution of equal loss (within 1%)." + COMMON,
)
prop(
    "C19", "Robust PCA returns an orthonormal basis with coherent scores and outlier map",
    "After every fit of ROBPCA or spherical PCA, the components are orthonormal, their number is the one asked for or the smallest that "
    "explains the requested share, scores, projections and inverse transform are the linear algebra of components and location, and location, components and "
    "variances are those of the documented definition (h-subset of least outlying points, orthogonal-distance step, final MCD; spatial signs). "
    "The outlier map shows score and orthogonal distances with their cutoffs. DataFrames and more columns than rows are accepted.",
    ["inputs", "configurations"], "all data sets including singular and wide ones, numbers of components, alpha, final step",
    "Tests check a few fitted values on two data sets; algebra and definition must hold for each fit.",
    ["robpy/pca/base.py", "robpy/pca/robpca.py", "robpy/pca/spca.py"],
    [("ROBPCA", "robpy/pca/robpca.py:ROBPCA.fit"), ("spherical PCA", "robpy/pca/spca.py:PCALocantore.fit"), ("outlier map", "robpy/pca/base.py:RobustPCA.plot_outlier_map")],
    ["components_, location_, explained_variance_, transform, project, inverse_transform, plot_outlier_map"],
    "runtime oracle: recomputed definition and algebraic invariants on every fit",
    "Stahel-Donoho outlyingness and FastMCD are taken from robpy (C29, C05)." + COMMON,
)
prop(
    "C20", "Robust PCA is equivariant and recovers the subspace of the regular data",
    "Rotating, reflecting, shifting or rescaling the data transforms location, components and distances accordingly. With gross orthogonal or score "
    "outliers (up to 38% for ROBPCA with alpha 0.5, 20% with 0.75, 15% for spherical PCA), the subspace, centre and explained variance stay those of "
    "the regular data, orthogonal outliers exceed the orthogonal cutoff, score outliers the score cutoff, and regular observations mostly "
    "neither. On normal data the variances are consistent.",
    ["inputs", "configurations"], "all rotations, shifts, scales and contaminations",
    "Equivariance and breakdown quantify over transformations and contaminations; tests sample one.",
    ["robpy/pca/robpca.py", "robpy/pca/spca.py", "robpy/utils/outlyingness.py", "robpy/utils/median.py"],
    [("ROBPCA", "robpy/pca/robpca.py:ROBPCA.fit"), ("spherical PCA", "robpy/pca/spca.py:PCALocantore.fit"), ("cutoff", "robpy/pca/base.py:get_od_cutoff")],
    ["components_, explained_variance_, plot_outlier_map"],
    "runtime monitor: metamorphic pairs and contaminated executions judged against the true subspace",
    "Outliers at least 12 standard deviations away." + COMMON,
)
prop(
    "C21", "RobustScaler standardises each column by its own robust location and scale",
    "After fit, locations_ and scales_ hold, for each column, the location and scale of the chosen estimator on that column alone (missing values left "
    "out when allowed, an error otherwise); transform subtracts and divides by them, honouring with_centering and with_scaling, on old and new data; "
    "inverse_transform undoes it; affinely changed columns give the same scaled data up to sign; the estimator handed in is not fitted.",
    ["inputs", "configurations"], "all data sets, estimators, flags and containers",
    "A relation between columns, new data, inverse and estimator for every input; tests have one matrix.",
    ["robpy/preprocessing/scaling.py", "robpy/univariate"],
    [("fit", "robpy/preprocessing/scaling.py:RobustScaler.fit"), ("transform and inverse", "robpy/preprocessing/scaling.py:RobustScaler.transform")],
    ["locations_, scales_, transform, inverse_transform"],
    "runtime oracle: independent per-column fits, round trip and metamorphic copies",
    "Columns with a positive robust scale." + COMMON,
)
prop(
    "C22", "A fitted power transformation is its lambda map, increasing and inverted",
    "For every fitted RobustPowerTransformer, transform equals the Box-Cox or Yeo-Johnson formula at the fitted lambda with the fitted standardisation before "
    "and after, on training and new data; it is non-decreasing; inverse_transform returns the original values wherever the inverse is well "
    "conditioned; values beyond the range of the map are moved to 95% of the bound; data that Box-Cox cannot take are refused, and auto then "
    "uses Yeo-Johnson.",
    ["inputs", "configurations"], "all samples, methods, lambdas (also at and next to 0, 1, 2), standardisation",
    "Branches around lambda 0, 1, 2 and the range bounds hold over a continuum of lambdas and values.",
    ["robpy/preprocessing/transfo.py", "robpy/preprocessing/utils.py"],
    [("maps and inverses", "robpy/preprocessing/transfo.py"), ("transform", "robpy/preprocessing/transfo.py:RobustPowerTransformer.transform")],
    ["transform, inverse_transform, lambda_rew"],
    "runtime oracle: independent formula, order and round-trip monitor on every transformation",
    "Inverse judged where the error propagated through the derivative stays below 1e-4 of the data." + COMMON,
)
prop(
    "C23", "Lambda is the reweighted maximum likelihood estimate and resists outliers",
    "fit of RobustPowerTransformer gives the lambda of reweighted maximum likelihood: first estimate by the rectified transformation and the robust normality objective, "
    "then nsteps of maximum likelihood on observations within the quantile; the standardisation after it is mean and standard deviation of those "
    "observations. The search range is extended until lambda is inside. Up to 10% far outliers on either side hardly move lambda; normal data sent through the inverse "
    "map give the true lambda; rescaling (and for Yeo-Johnson shifting and reflecting) leaves the fit unchanged; auto takes the method of the lower objective.",
    ["inputs", "configurations"], "all samples, methods, quantiles, steps, ranges and contaminations",
    "The estimate is defined by optimisation over a continuum; tests compare two fitted numbers.",
    ["robpy/preprocessing/transfo.py", "robpy/utils/rho.py", "robpy/univariate/onestep_m.py"],
    [("fit", "robpy/preprocessing/transfo.py:RobustPowerTransformer.fit"), ("reweighting", "robpy/preprocessing/transfo.py:RobustPowerTransformer._reweighted_max_likelihood_robust")],
    ["lambda_rew, location_post, scale_post, transform"],
    "runtime oracle: independent computation of the estimate, recovery and metamorphic monitors",
    "The first optimum is the local one found by scipy's bounded minimiser." + COMMON,
)
prop(
    "C24", "DataCleaner drops exactly what its options name and leaves the rest untouched",
    "DataCleaner drops exactly the columns that are non-numeric, have too few distinct values, a scale at or below the threshold, equal the row numbers, or have too many missing "
    "values, and the rows with too many missing values, in the order the options say; infinite values count as missing. Every remaining value, its label "
    "and order are those of the input, which is not changed. The report names the dropped columns and rows of the last transform, for each reason. Decisions about types, "
    "distinct values and scale are those of the fit, also for later data.",
    ["inputs", "configurations", "histories"], "all frames of mixed column types, index labels, options, and sequences of transforms",
    "The rules interact (order of missing-value steps, dtypes, repeated labels, later frames); tests check single rules on one frame.",
    ["robpy/preprocessing/data_cleaner.py"],
    [("fit", "robpy/preprocessing/data_cleaner.py:DataCleaner.fit"), ("transform", "robpy/preprocessing/data_cleaner.py:DataCleaner.transform")],
    ["transform, dropped_columns, dropped_rows"],
    "runtime oracle: every cleaning run compared with a model in plain Python",
    "Unique column names; skipped where a row-number column changes missing fractions." + COMMON,
)
prop(
    "C25", "Fitting and applying have no side effects and ignore how numbers are stored",
    "For every estimator and function of robpy: inputs, parameters (nested estimators included), global random generators, floating-point, warning, printing, logging (root) and environment settings and open figures are the same after the "
    "call as before; read-only inputs work; results do not share memory with the inputs, and overwriting inputs or results afterwards changes nothing; the memory order, strides, byte order, integer dtypes (unsigned and small ones too) and "
    "data frames give the results of the plain float array.",
    ["inputs", "configurations", "histories"], "all estimators and functions, data sets, memory layouts, dtypes and containers",
    "Aliasing and dtype faults show only for some layouts or after a later write; unit tests pass fresh C-ordered float arrays.",
    ["robpy"],
    [("estimators", "robpy/univariate"), ("covariance", "robpy/covariance"), ("regression", "robpy/regression"), ("PCA", "robpy/pca"), ("preprocessing", "robpy/preprocessing"), ("utilities", "robpy/utils")],
    ["inputs, parameters, global state, results before and after"],
    "runtime monitor: snapshots of inputs, parameters and process-wide state around every call, poisoned buffers, layout pairs",
    "Other memory orders are compared with a tolerance." + COMMON,
)
prop(
    "C26", "A fit depends on its data and parameters, not on what happened before",
    "For every estimator: after any history of fits on other data, failed fits, applications to other data, switched parameters, and fits of other instances (also ones that share parameter objects), a fit gives exactly the results of a fresh "
    "estimator with the same parameters; fitting other instances, clones or copies changes no fitted estimator; results and arrays taken from a fit stay as they are when the instance is fitted again; copies and pickles of a fitted estimator give its results. Parameters a fit chooses itself are chosen anew.",
    ["histories"], "all sequences of fits, failures, applications, copies and other instances",
    "State left behind matters only in particular sequences; unit tests fit a fresh object once.",
    ["robpy"],
    [("estimators", "robpy/univariate"), ("covariance", "robpy/covariance"), ("regression", "robpy/regression"), ("PCA", "robpy/pca"), ("preprocessing", "robpy/preprocessing"), ("DDC", "robpy/outliers/ddc.py")],
    ["results of every estimator after random histories"],
    "runtime monitor: random operation histories, exact comparison with a fresh estimator",
    "Seeded or deterministic estimators. Known findings: ROBPCA, PCALocantore (n_components=None) and RobustPowerTransformer (method=auto) keep the first choice." + COMMON,
)
prop(
    "C27", "Estimators used from several threads give the results of sequential use",
    "When several threads fit and use their own estimators at once (equal or different classes, shared data, shared parameter objects), or apply one fitted estimator to their own data, every thread gets exactly the results "
    "of the same calls made one after the other, and the shared estimator stays as it was.",
    ["schedules"], "all interleavings of fits and applications in several threads",
    "Module-level or shared mutable state goes wrong only under particular interleavings; tests are single-threaded.",
    ["robpy"],
    [("estimators", "robpy/univariate"), ("covariance", "robpy/covariance"), ("regression", "robpy/regression"), ("PCA", "robpy/pca"), ("preprocessing", "robpy/preprocessing"), ("DDC", "robpy/outliers/ddc.py")],
    ["results per thread, thread switches at lines of robpy"],
    "runtime monitor: forced thread switches at random lines, exact comparison with sequential execution",
    "CPython with the GIL; drawing figures and DataCleaner.transform on a shared instance are outside." + COMMON,
)
prop(
    "C28", "Distances, matrix helpers, weighted median and losses equal their definitions",
    "mahalanobis_distance is the affine invariant distance of each row; inverse_submatrix inverts the submatrix for every index set in the order given; truncated_covariance raises eigenvalues to the minimum and "
    "keeps eigenvectors and larger eigenvalues; covariance_to_correlation is free of units; weighted_median is the smallest observation that has more than half of the weight up to it; Tukey's and Huber's rho and psi equal their formulas, "
    "even and odd, psi the derivative of rho. Arguments stay unchanged.",
    ["inputs"], "all matrices, index sets, samples with ties, weights, tuning constants and arguments",
    "Index orders, ties, exact halves and thresholds form a continuum; tests have one example each.",
    ["robpy/utils", "robpy/covariance/utils"],
    [("distance", "robpy/utils/distance.py:mahalanobis_distance"), ("submatrix", "robpy/utils/general.py:inverse_submatrix"), ("weighted median", "robpy/utils/median.py:weighted_median"), ("losses", "robpy/utils/rho.py"), ("truncation", "robpy/covariance/utils/alter_covariance.py")],
    ["values of the functions"],
    "runtime oracle: independent definitions and identities on every call",
    "Condition numbers below 1e7." + COMMON,
)
prop(
    "C29", "The L1-median is optimal; Stahel-Donoho is the maximum over data directions",
    "l1median minimises the sum of Euclidean distances (to 1e-5 of it), also with ties, coinciding observations, collinear data and one variable (the median); it is orthogonally equivariant and bounded under 40% outliers. "
    "stahel_donoho gives, for each observation, the largest |projection - median| / MAD over random directions through pairs of observations (or orthogonal to hyperplanes through n_points): every draw is such a direction, enough draws "
    "reach the maximum over all; no NaN for coinciding observations; seeds decide; far outliers are the most outlying.",
    ["inputs", "configurations"], "all samples, dimensions, numbers of points, directions and seeds",
    "Optimality and reach of the random directions hold for all data; tests compare a few rounded values.",
    ["robpy/utils/median.py", "robpy/utils/outlyingness.py"],
    [("L1-median", "robpy/utils/median.py:l1median"), ("outlyingness", "robpy/utils/outlyingness.py:stahel_donoho")],
    ["values of the functions"],
    "runtime oracle: independent minimiser, and complete enumeration of the directions of small samples",
    "n_points is 2 or the number of variables; columns of comparable units for l1median (convergence is slow otherwise)." + COMMON,
)
prop(
    "C30", "Every fit ends, with numbers or an error",
    "On any finite data - constant, binary, duplicated, rounded, collinear, badly scaled, far outliers, few observations, exact fits - every estimator and function returns results without NaN or raises an exception within a bounded "
    "number of loop iterations; ordinary data in other units, rounded or with an offset are never refused.",
    ["inputs"], "all finite data, however degenerate",
    "Endless loops come from rare patterns of ties and rounding that no sampled test meets.",
    ["robpy"],
    [("Qn search", "robpy/univariate/qn.py"), ("MCD iterations", "robpy/covariance/mcd.py"), ("i-steps", "robpy/regression/s.py:SRegression.fit"), ("C-steps", "robpy/regression/lts.py"), ("L1-median", "robpy/utils/median.py:l1median")],
    ["loop iterations inside robpy, results, exceptions"],
    "runtime monitor: loop iterations counted through sys.monitoring under hostile workloads",
    "Bound of 300 000 iterations for at most 80 observations. RobustScaler columns without scale are outside." + COMMON,
)
prop(
    "C31", "The adjusted boxplot has medcouple fences and draws what it returns",
    "For every sample adjusted_boxplot returns, per variable, the median, the quartiles and whisker ends at the exponential medcouple fences of Hubert and Vandervieren (exp(-4 MC), exp(3 MC) to the right skewed side, mirrored to "
    "the left), limited to the data; the drawn boxes, whiskers, caps and fliers are those numbers and exactly the observations outside the whiskers, labelled by variable, on the given axes; "
    "results follow shifts, scaling, reflection and reordering; plot=False draws nothing.",
    ["inputs"], "all samples (skewed either way, ties, outliers, constants), containers and figure options",
    "Fences depend on the sign of the medcouple, ties with the median and the extremes, which sampled tests barely meet.",
    ["robpy/univariate"],
    [("fences", "robpy/univariate/adjusted_boxplot.py:adjusted_boxplot"), ("container", "robpy/univariate/adjusted_boxplot.py:BoxplotResults")],
    ["returned boxes and the artists of the axes"],
    "runtime oracle: medcouple by its definition over all pairs; artists read back from the axes",
    "At least four observations." + COMMON,
)
prop(
    "C32", "Data set loaders give the published data in the documented form, always",
    "load_telephone, load_stars, load_animals, load_topgear and load_glass give, at every call and from any working directory, the complete published data: shape, names, values, missing cells, types, container chosen by as_frame, "
    "description; changing one result reaches no later one; categorical features are exactly the non-numeric columns; the data work with the estimators as documented (known outliers are found).",
    ["histories", "inputs"], "all sequences of loads, modifications of results, and containers",
    "Shared results and wrong cells show only after particular histories or in particular cells.",
    ["robpy/datasets"],
    [("loaders", "robpy/datasets")],
    ["the loaded objects"],
    "runtime monitor: random call histories, comparison with an independent parse and fingerprints of the published values",
    "Published values are checked as fingerprints of the pinned files, whose telling entries were compared with the literature." + COMMON,
)
prop(
    "C33", "Parameters follow scikit-learn's protocol and estimators work in its tools",
    "get_params names the constructor's parameters with the values given (defaults as in the signature); constructor, set_params and clone give estimators with the same results, also when a fitted one is changed and changed back; every "
    "parameter is used. Pipelines (also supervised), ColumnTransformer, cross-validation, grid search, fit_transform and score (coefficient of determination, with weights) give exactly the results of the same steps by hand; the scaler and the PCAs name their output features, as get_feature_names_out and as columns of frames asked for with set_output.",
    ["configurations", "histories"], "all parameter values and compositions",
    "Parameters can be swapped, cached or ignored for particular values or after a fit; tests use defaults and call estimators alone.",
    ["robpy"],
    [("regression", "robpy/regression/base.py"), ("covariance", "robpy/covariance/base.py"), ("PCA", "robpy/pca/base.py"), ("scaling", "robpy/preprocessing/scaling.py"), ("cleaning", "robpy/preprocessing/data_cleaner.py")],
    ["parameters and results"],
    "runtime monitor: random parameters by different ways, exact comparison; tools against the same steps by hand",
    "Univariate estimators and DDC have no get_params: constructors only." + COMMON,
)
prop(
    "C34", "Diagnostic plots draw the fitted quantities, cutoffs, names and colours",
    "distance_distance_plot draws classical against robust Mahalanobis distances with chi-square cutoffs and the line of equality; cell_MCD_plot draws, for its five types, residuals, predictions and data of the chosen variables, "
    "thresholds at the quantile, the tolerance ellipse, and names exactly the points beyond the annotation thresholds; DDC.cellmap shows for the chosen rows and columns the residuals in the documented colours (blue low, neutral within 2.5, "
    "red high, clipped), names and, if asked, the original values. Data and estimator stay unchanged.",
    ["inputs", "configurations"], "all data with missing cells, variables, zooms, quantiles, names and plot types",
    "A wrong index, threshold or axis shows only when the drawn artists are compared with the fit; tests only call the functions.",
    ["robpy/covariance", "robpy/outliers/ddc.py"],
    [("distance-distance plot", "robpy/covariance/base.py:RobustCovariance.distance_distance_plot"), ("cell plots", "robpy/covariance/cellmcd.py:CellMCD.cell_MCD_plot"), ("annotation, ellipse", "robpy/covariance/utils/cellmcd_visualization_utils.py"), ("cellmap", "robpy/outliers/ddc.py:DDC.cellmap")],
    ["artists of the figures (points, lines, texts, colours)"],
    "runtime oracle: artists read back from the figures and compared with independently computed quantities",
    "cellmap's own colours need vmax_clip above 2.5. Outlier maps belong to C18-C20." + COMMON,
)
prop(
    "C35", "Adjusted settings are announced; verbosity changes the messages only",
    "An alpha too small for the subset size (FastMCD, DetMCD, UnivariateMCD, CellMCD, ROBPCA, FastLTS) is announced by a warning that names the value used, and nothing is announced otherwise; inverse power transformations log exactly when "
    "they replace values beyond the range, with the replacement; DataCleaner logs the true counts. The fit is the same at every verbosity (DDC's verbose included), no record below the level and no output above INFO appears, progress bars included, "
    "and messages are written once however many estimators were created.",
    ["inputs", "configurations", "histories"], "all estimators with a verbosity, sample sizes, dimensions, alphas as fractions and counts",
    "Announcements depend on rounding of n, p and alpha, and repeated messages on earlier instances; tests do not look at messages.",
    ["robpy"],
    [("subset sizes", "robpy/covariance/mcd.py:FastMCD._get_h"), ("regression", "robpy/regression/lts.py:FastLTSRegression.fit"), ("PCA", "robpy/pca/robpca.py:ROBPCA.fit"), ("bounds", "robpy/preprocessing/transfo.py:RobustPowerTransformer._handle_bounds"), ("loggers", "robpy/utils/logging.py:get_logger"), ("DDC", "robpy/outliers/ddc.py:DDC.fit")],
    ["log records, warnings, standard streams and results per level"],
    "runtime monitor: log records, warnings and streams captured at every level and compared with the adjustments computed by hand",
    "Instances of one class share a logger: its level is that of the last one created." + COMMON,
)
