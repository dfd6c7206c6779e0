"""Writes /verif/properties.jsonl (kept as a script so that ids, texts and anchors stay together)."""
import json
from pathlib import Path

S = "src/chainconsumer/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state="", observe=""):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                    "state": [{"name": x.strip(), "meaning": x.strip()} for x in state.split(",") if x.strip()], "observe_at": [observe], "hook_needed": None},
    })


prop("C01", "A consumer is an ordered, name-keyed collection of chains",
     "A consumer holds at most one chain per name: adding a taken name or removing or fetching an absent one is refused and changes nothing, and every other operation affects only the consumer and the name it was given. Names, look-ups, summaries, max posteriors, comparisons, diagnostics, tables and plots all follow the chains present, in the order they were added. The plot configuration and truths in force are the ones set last on that consumer, and no history on one consumer is visible in another.",
     ["histories"], "every sequence of add / add marker / remove / get / set operations on any number of consumers, accepted or refused",
     "Unit tests run two or three fixed sequences on one consumer; the order and isolation claims are about all histories, including refused calls in the middle.",
     ["chainconsumer.py"], [("add_chain", "chainconsumer.py"), ("remove_chain", "chainconsumer.py"), ("add_marker", "chainconsumer.py")],
     "consumer._chains, _truths, _global_chain_override, plotter config", "get_names, get_chain, summaries, tables and figures after each call")
prop("C02", "Every chain setting resolves as override, then user, then automatic",
     "In any figure and summary, each setting of a chain has the value the consumer-wide override gives it, else the value the user gave that chain, else (for shading, shade transparency, sigma levels and colour) the automatic value for the chains currently loaded, else the documented default. Resolution depends only on what is set at that moment: adding or removing other chains or replacing the override re-resolves everything, whichever subset of chains is drawn, and never alters the stored chains. Values such as false, zero or the default itself count as set when the user or the override gives them.",
     ["histories", "inputs"], "every combination of user settings, overrides and loaded chains (including more than four, where shading turns off) and every history of changing them",
     "The resolved value depends on four sources and on the number of other chains; tests sample a few settings with one or two chains.",
     ["chainconsumer.py", "base.py", "chain.py"], [("_get_final_chains", "chainconsumer.py"), ("_apply_if_not_user_set", "chain.py"), ("get_user_specified_dump", "base.py")],
     "user-specified field sets of chains and override", "artists of plotter.plot figures; analysis.get_summary")
prop("C03", "Automatic colours follow the palette and are the same everywhere",
     "The k-th loaded chain without a colour of its own is drawn in the k-th palette colour, however many chains have explicit colours between them and whichever subset of chains or kind of plot is drawn. The first 88 automatic colours are pairwise distinct and the palette repeats after that. Chains with an explicit colour always keep it and take no palette slot.",
     ["histories", "inputs"], "every mixture and order of coloured and uncoloured chains and markers, any subset drawn, every kind of plot",
     "Depends on the whole collection and on the subset drawn; tests look at one plot with one or two chains.",
     ["chainconsumer.py", "color_finder.py"], [("_get_final_chains", "chainconsumer.py"), ("next_colour", "color_finder.py")],
     "order of chains, colour of each", "line, contour, scatter, text and legend colours of figures")
prop("C04", "Plots, tables, summaries and diagnostics are pure observations",
     "Asking for any plot, table, summary, comparison or diagnostic never changes what any later call returns: the same chains, truths, configuration and override always give the same answer, whatever was asked before and however that state was reached. No call modifies the user's dataframe, the stored chains, the truths, the configuration or the caller's argument lists. Chains shared by several consumers are unaffected by what the other consumers do.",
     ["histories", "schedules"], "every interleaving of queries and state changes on one or several consumers",
     "A mutation leak shows only in a later, different query; tests call each query once on a fresh object.",
     ["chainconsumer.py", "plotter.py", "analysis.py", "comparisons.py", "diagnostic.py"],
     [("_get_final_chains", "chainconsumer.py"), ("_sanitise", "plotter.py"), ("get_summary", "analysis.py")],
     "all consumer, chain and module state", "digests of figures, tables and results; digests of inputs")
prop("C05", "Exactly the well-formed chains are accepted",
     "Building a chain is refused when the samples are empty or contain a non-finite value in any column, a weight is zero or negative, a renamed weight column or the colour parameter is missing, a column name is not text, the row count is not a multiple of the walkers, a bounded setting is out of range, or multimodal is combined with a statistic other than HDI; otherwise it is accepted. An accepted chain carries the user's rows unchanged in order and values (mean-shifted parameters aside, whose weighted mean becomes zero while weights and posteriors stay), unit weights when none were given, and HDI as default statistic exactly when multimodal (MAX otherwise).",
     ["inputs"], "every dataframe, position of the offending value, column and combination of settings",
     "Tests place one defect at one position each; acceptance is a predicate over all inputs.",
     ["chain.py"], [("_validate_model", "chain.py"), ("_copy_df", "chain.py")], "samples dataframe", "Chain(...) outcome; chain.samples, weights, statistics")
prop("C06", "Weights, posteriors and colour parameters are never parameters",
     "The parameters of a chain are its columns except the weight column, the posterior column and the reserved weight and posterior names in any capitalisation; when a cloud coloured by a column is drawn that column is not plotted either. Parameter order is the dataframe order, and over several chains the order of first appearance. Plots, summaries, tables, max posteriors and covariances use exactly these parameters unless columns are requested explicitly.",
     ["inputs"], "every set and order of column names, capitalisations, weight and posterior column choices and colour settings",
     "Tests use one conventional naming; the rule quantifies over names and roles.",
     ["chain.py", "plotter.py"], [("data_columns", "chain.py"), ("plotting_columns", "chain.py"), ("_sanitise_columns", "plotter.py")],
     "column names and roles", "data_columns, plotting_columns, summary keys, axis labels, table headers")
prop("C07", "Weights mean repetition, and only their ratios matter",
     "A sample with integer weight w counts exactly like w copies of the sample with weight one, in every summary statistic, marginal curve, contour and axis extent. Multiplying all weights by a constant or reordering the rows (weights and posteriors along with them) changes no summary, curve, contour, extent, covariance, information criterion or max posterior. Every such result takes the weights into account.",
     ["inputs"], "every weighted sample set, weight scale and row order",
     "A relation between pairs of runs over arbitrary data; tests compare single runs to constants.",
     ["analysis.py", "helpers.py", "chain.py", "comparisons.py"], [("_get_smoothed_histogram", "analysis.py"), ("get_extents", "helpers.py"), ("get_smoothed_histogram2d", "helpers.py")],
     "samples and weights", "summaries, figures, covariances, criteria for related pairs of chains")
prop("C08", "Summary statistics have their defining properties",
     "For every chain and parameter: cumulative bounds sit where the smoothed marginal has (1-area)/2, 1/2 and (1+area)/2 of its mass; mean uses the same outer bounds with their midpoint; max-central the same outer bounds with the density peak; max gives the peak and an equal-density interval around it holding the requested area, or no bounds when there is none; HDI gives the narrowest interval holding at least the area with the centre halving its mass. Lower, centre and upper are in order (the max-central peak aside) and inside the padded data range, whatever the weights, binning, smoothing, gridding, power or KDE. Each chain uses its own statistic, area and settings.",
     ["inputs"], "every sample set, weight vector, area in (0,1), statistic and density setting",
     "Tests check a few well-known distributions to a few per cent; the definitions apply to all inputs.",
     ["analysis.py"], [("get_parameter_summary_max", "analysis.py"), ("get_parameter_summary_hdi", "analysis.py"), ("get_parameter_summary_cumulative", "analysis.py"), ("get_summary", "analysis.py")],
     "marginal density and its cumulative", "analysis.get_summary")
prop("C09", "Multimodal summaries report the disjoint high-density bands",
     "For a multimodal chain the summary of a parameter with several separated modes is the ordered list of disjoint bands where the density exceeds one common threshold, together holding the requested area, each with its centre at its own highest density; with a single band it is the ordinary HDI bound. Every band is shaded in the marginal plot and listed in order in its title and in the LaTeX table. Non-multimodal chains never report bands.",
     ["inputs"], "every mixture (number, weights, widths and separation of modes), area and plot orientation",
     "Tests use one bimodal mixture; bands are a function of the whole density.",
     ["analysis.py", "plotter.py"], [("get_parameter_hdi_intervals", "analysis.py"), ("get_parameter_multimodal_bounds", "analysis.py"), ("_plot_bars", "plotter.py")],
     "density bands", "get_summary, fills and titles of figures, tables")
prop("C10", "Parameter text states the bound correctly to its printed digits",
     "Reading back the text of a bound gives centre and errors that agree with the bound to within half a unit of the last printed digit (with any power of ten applied), with two significant digits on the smaller non-zero error and the same number of decimals everywhere. A plus-minus form is used exactly when both errors print the same; otherwise upper error is the superscript and lower error the subscript. Bounds with a missing limit give an empty text, several bounds are listed in order one per line with their index, and labels and dollar wrapping never change the numbers.",
     ["inputs"], "every bound of finite numbers at any magnitude and ratio of errors, any list of bounds, label and wrap option",
     "Rounding and exponent boundaries are dense in the inputs; tests pin about twenty strings.",
     ["analysis.py"], [("get_parameter_text", "analysis.py"), ("_format_single_bound", "analysis.py")], "bound", "analysis.get_parameter_text")
prop("C11", "LaTeX tables say exactly what the summaries and matrices say",
     "The summary table has one row per chain and one column per unblinded parameter (or transposed), in consumer order, each cell being that chain's own formatted bound, and the blank fill exactly where the chain lacks the parameter. Covariance and correlation tables print each matrix entry rounded to two decimals under the right labels. Every table row has as many cells as the column specification, header and labels come from the configuration, caption and label appear verbatim, and the saved file equals the returned text.",
     ["inputs"], "every set of chains with differing parameters, requested columns, labels, captions and options",
     "Tests compare whole strings for a couple of fixed tables.",
     ["analysis.py", "helpers.py"], [("get_latex_table", "analysis.py"), ("_get_2d_latex_table", "analysis.py"), ("get_latex_table_frame", "helpers.py")],
     "summaries and matrices", "returned LaTeX and saved file")
prop("C12", "Blinded parameters never show their values",
     "No plot or summary table shows any number derived from a blinded parameter: its axes carry no tick labels (major or minor, linear or log), no title, annotation or offset text states its value, and it is absent from the summary table. Moving or rescaling the data of a blinded parameter changes no text anywhere in any figure or summary table. Unblinded parameters keep their ticks and annotations.",
     ["inputs"], "every choice of blinded parameters (or all), every plot kind, layout, scale and data",
     "Absence of a leak is a statement about all texts of all figures and about pairs of runs.",
     ["plotter.py", "analysis.py"], [("_sanitise_blinds", "plotter.py"), ("_get_triangle_figure", "plotter.py"), ("get_latex_table", "analysis.py")],
     "blind configuration", "all texts of figures and tables")
prop("C13", "AIC, BIC and DIC follow their formulas and the table follows them",
     "For each chain with the needed inputs, AICc, BIC and DIC equal their published formulas (best log posterior, free parameters, data points; for DIC the weighted mean deviance and the deviance at the sample nearest the weighted mean), reported relative to the smallest of the chains that have one, which is zero. Chains lacking an input have no value and do not disturb the others. The comparison table lists every such chain once in the requested order, with the requested columns, each value to one decimal in its own column.",
     ["inputs"], "every set of chains with and without posteriors, free parameters and data counts, any weights, and every table option",
     "Tests use one or two chains with hand-computed constants.",
     ["comparisons.py"], [("aic", "comparisons.py"), ("bic", "comparisons.py"), ("dic", "comparisons.py"), ("comparison_table", "comparisons.py")],
     "log posteriors, weights, counts", "comparison.aic/bic/dic/comparison_table")
prop("C14", "Covariance and correlation are the weighted estimates",
     "The covariance matrix is the weighted unbiased sample covariance of the requested columns in the requested order, symmetric with non-negative diagonal, and the correlation matrix is it divided by the standard deviations, with unit diagonal and entries within [-1, 1]. By default the columns are the chain's parameters, never its weights or posteriors. A single column gives a one by one matrix.",
     ["inputs"], "every sample set, weight vector and choice or order of columns", "Tests use one or two matrices with unit weights.",
     ["chain.py"], [("get_covariance", "chain.py"), ("get_correlation", "chain.py")], "samples and weights", "Named2DMatrix results")
prop("C15", "The max posterior point is the best sample, and markers sit where put",
     "The max posterior of a chain is the highest log posterior in it and the parameter values of that very row, whatever the dataframe index, row order, weights or duplicates, and chains without posteriors have none. In plots a chain drawn as a point is drawn once per parameter pair at exactly that row's values with its marker style, size and transparency, and is absent from panels whose parameters it lacks. A marker is drawn exactly at the location it was given.",
     ["inputs"], "every dataframe index, ordering and posterior column, every marker location and parameter subset",
     "Tests use a default index and one maximum position.",
     ["chain.py", "analysis.py", "plotting/contours.py", "chainconsumer.py"], [("max_posterior_row", "chain.py"), ("get_max_posterior_point", "chain.py"), ("plot_point", "plotting/contours.py")],
     "posterior column", "get_max_posterior_point, get_max_posteriors, scatter positions")
prop("C16", "Dividing a chain splits it into its walkers without loss",
     "Dividing a chain with n walkers gives n chains in walker order, each holding an equal consecutive block of the rows with all columns, weights and posteriors, so that their concatenation is the original. Each walker keeps the settings of the parent except name, colour and walker count, is named after the parent and its index, and behaves like any other chain. Chains with one walker and gridded chains are refused.",
     ["inputs"], "every chain length, walker count, dataframe index and settings", "Tests divide one chain into a few walkers and check lengths.",
     ["chain.py"], [("divide", "chain.py")], "samples, walkers", "list of chains returned by divide")
prop("C17", "Convergence diagnostics implement their statistics",
     "Gelman-Rubin passes exactly when, for every parameter, the Gelman-Rubin ratio over the chain's walkers, the square root of ((n-1)/n W + B/n + B/(mn)) / W for m walkers of n steps with mean within-walker variance W and B/n the variance of the walker means, differs from one by less than the threshold. Geweke passes exactly when the normality test of the z-scores comparing the first and last fractions of each walker has a p-value above the threshold. Several chains give each chain's own verdict under its name and pass overall exactly when all do; weights and posteriors are never treated as parameters.",
     ["inputs"], "every number of walkers, parameters, chain length, drift and threshold, any selection of chains",
     "Tests use one converged and one unconverged chain.", ["diagnostic.py"], [("gelman_rubin", "diagnostic.py"), ("geweke", "diagnostic.py")],
     "walker means and variances", "TestResult")
prop("C18", "The triangle plot puts every parameter pair in its place",
     "For n requested parameters the triangle plot has the marginals on the diagonal (unless disabled) and, in row i and column j below it, the pair with the j-th parameter horizontal and the i-th vertical, over exactly the extents of those parameters, log scaled exactly where asked; panels above are empty. The outer bottom and left axes carry the configured label and the ticks of their parameter; inner axes and the flipped marginal (flip applies to exactly two parameters with histograms, and turns the second marginal on its side) carry none. Each chain contributes to a panel exactly when it has the panel's parameters.",
     ["inputs"], "every number of parameters, histogram, flip, log, extent and label configuration, and chains with differing parameters",
     "Tests only check that plotting does not fail or compare a few images.", ["plotter.py", "plotting/contours.py"],
     [("_get_triangle_figure", "plotter.py"), ("plot", "plotter.py"), ("plot_surface", "plotting/contours.py")], "plot configuration", "axes of the figure")
prop("C19", "Truths are drawn at their values, on the right axis, in every plot",
     "In every kind of plot, each truth appears in each panel exactly for the parameters it gives: a line perpendicular to the parameter's axis at the truth value, or in two-parameter panels where both values are known and a marker style is set, a marker at that point instead. Lines and markers have the truth's own colour, style, width, transparency and order; zero is a value like any other. Panels of parameters a truth does not give show nothing of it, and truths given as a dictionary or a series are equivalent.",
     ["inputs"], "every set of truths with partial locations, values including zero and negatives, styles and plot kinds including flipped panels",
     "Tests check that plots with a truth do not fail.", ["plotting/truth.py", "plotter.py", "truth.py"],
     [("plot_truths", "plotting/truth.py"), ("_plot_walk_truth", "plotter.py"), ("plot_distributions", "plotter.py")], "truth locations", "lines and scatters of figures")
prop("C20", "Marginal curves are the density and the shading is the summary",
     "Each marginal curve or histogram is non-negative, covers the chain's data and is that chain's weighted density: the density normalised to unit area, raised to the chosen power and multiplied by the relative height, for plain, smoothed, gridded and KDE chains, in every kind of plot with marginals. When shading is on, the shaded span is exactly the chain's summary interval, under the curve; when it is off or there is no interval nothing is shaded. The annotated title is the formatted summary of that parameter and appears exactly when summarising and shading are on, the parameter is not blinded and a single chain is drawn with contours.",
     ["inputs"], "every chain, density setting, statistic, orientation and plot kind with marginals",
     "Tests never look at the curve.", ["plotter.py", "plotting/contours.py", "analysis.py"],
     [("_plot_bars", "plotter.py"), ("plot_dist", "plotting/contours.py"), ("_get_smoothed_histogram", "analysis.py")], "marginal density", "lines, step patches, fills and titles")
prop("C21", "Contours enclose the probability of their sigma levels",
     "For every pair of parameters and every sigma of a chain, the region inside the corresponding contour holds the probability of that many sigmas (of a one-dimensional normal, or of a two-dimensional one when so configured) of the chain's smoothed weighted density (exactly that of the drawn cells for gridded and unsmoothed chains, within a few per cent for smoothed ones), and higher levels enclose lower ones. Contour and fill colours, transparency, line style, width and labels are those of the chain. The horizontal and vertical parameter are never exchanged.",
     ["inputs"], "every sample set, weights, sigmas and density setting", "Tests never look at contour levels.",
     ["plotting/contours.py", "helpers.py"], [("plot_contour", "plotting/contours.py"), ("get_smoothed_histogram2d", "helpers.py"), ("_convert_to_stdev", "plotting/contours.py")],
     "joint density", "contour sets of figures")
prop("C22", "Automatic extents show all chains, explicit extents are obeyed",
     "Without explicit extents, every axis of a parameter spans at least the central mass (all but a ten-thousandth in each tail, or about a twentieth in the error bar summary; a thousandth at the very end, or a light outermost one of a handful of distinct values, may be left out, and limits are found to a two-thousandth of the range) of every drawn chain that has it, the exact range of gridded chains and every plotted point, and no more than the range of the drawn chains. With explicit extents for a parameter, that axis has exactly those limits in every kind of plot. Chains that are not drawn, and columns that are not requested, have no influence.",
     ["inputs"], "every combination of chains, weights, markers, grids and explicit extents", "Tests check one or two data sets.",
     ["plotter.py", "helpers.py"], [("_get_parameter_extents", "plotter.py"), ("get_extents", "helpers.py"), ("_get_custom_extents", "plotter.py")], "data ranges", "axis limits")
prop("C23", "Sampler results are translated completely and in order",
     "A chain made from an emcee sampler, a numpyro run or an arviz dataset contains every kept draw exactly once, each parameter's values under its own name with all parameters of a draw in one row, honouring thinning and discarding. Name filters keep exactly the named variables, or exclude exactly the negated ones; mixing both is refused and an empty or absent filter keeps all. Remaining arguments become settings of the chain.",
     ["inputs"], "every number of walkers, steps, variables, thin, discard and name filter", "Tests use one sampler run each.",
     ["chain.py"], [("from_emcee", "chain.py"), ("from_numpyro", "chain.py"), ("from_arviz", "chain.py"), ("_filter_var_names", "chain.py")], "sampler draws", "chain.samples")
prop("C24", "The KDE is the truncated matched elliptical Gaussian estimate",
     "At every point the kernel density estimate equals the weighted sum, over the training points within the truncation radius in the metric of their weighted covariance (or the nearest few when there are fewer), of a Gaussian of that distance whose width is the bandwidth factor times the reference width for that many points and dimensions. It is non-negative, linear in the weights' scale, and unaffected by affine changes of the data. The chain's bandwidth setting is that factor in one and two dimensions.",
     ["inputs"], "every training set, weights, dimension, factor, truncation and evaluation point", "Tests compare two points of one data set.",
     ["kde.py", "helpers.py", "analysis.py"], [("MegKDE.__init__", "kde.py"), ("MegKDE.evaluate", "kde.py")], "training points and weights", "MegKDE.evaluate")
prop("C25", "Colours are read, scaled and formatted faithfully",
     "Every accepted colour input (hex, palette name, alias, or rgb sequence) becomes the hex colour it denotes, hex codes are kept, and formatting a formatted colour changes nothing; anything else is refused. Scaling a colour multiplies each channel by the factor, clamped to the valid range, and always yields a valid six-digit hex colour. Colour maps give the requested number of valid colours.",
     ["inputs"], "every colour input and scale factor", "Tests check a handful of colours.", ["color_finder.py"],
     [("format", "color_finder.py"), ("scale_colour", "color_finder.py"), ("get_colormap", "color_finder.py")], "palette", "colors.format, colors.scale_colour")
prop("C26", "Walk plots show every step of every chain in order",
     "The walk plot has one row for the posterior (when asked for and some chain has one), one for the weights (when asked for) and one per parameter, and shows in each the values of every chain having it against the step number, in the chain's own colour; a walk of over a hundred thousand steps is evenly thinned and numbered as shown. The posterior is shown relative to its maximum, weights optionally as base-ten logarithms, the smoothed overlay is the running mean of the requested width, and the step axis covers the longest chain. Values are never reordered or mixed between chains.",
     ["inputs"], "every set of chains of different lengths and columns and every option", "Tests check that plotting does not fail.",
     ["plotter.py"], [("plot_walks", "plotter.py"), ("_plot_walk", "plotter.py")], "samples", "scatters and lines of the walk figure")
prop("C27", "The legend names exactly the drawn chains in their own style",
     "A legend appears exactly when configured, or by default when more than one chain is drawn, in the configured panel; it lists exactly the drawn chains that are to be labelled, once, in order, each with its own name, colour, line style and marker, and coloured text when configured. Each colour parameter in use gets one colour bar with its label, and none appears otherwise. Legend options given by the user are passed on.",
     ["inputs"], "every set of chains, subset drawn and legend configuration", "Tests check artists of one or two chains.",
     ["plotter.py"], [("get_artists_from_chains", "plotter.py"), ("plot", "plotter.py")], "chains and configuration", "legend artists and colour bars")
prop("C28", "Saved files and global matplotlib settings are handled as asked",
     "Every file name given to a plot or table is written with a non-empty file of that content and nothing else is written; without a file name nothing is. Saving never changes the returned figure, and figures are saved at the configured resolution and size. The text settings of matplotlib follow the configuration while plotting and restoring returns exactly those in force when the consumer was created.",
     ["histories", "inputs"], "every file name list, plot kind, dpi, figure size and sequence of plots and restores", "Tests save one file.",
     ["plotter.py", "analysis.py"], [("_save_fig", "plotter.py"), ("set_rc_params", "plotter.py"), ("restore_rc_params", "plotter.py")], "file system, rcParams", "files, rcParams, figure size")
prop("C29", "Results follow a change of units and of origin",
     "Replacing a parameter x by a*x+b with a positive moves and scales its summary bounds, max posterior, marginal curve and extents accordingly and leaves every other parameter, its contour probabilities, correlations, diagnostics and information criteria unchanged; reflecting it (a negative) swaps lower and upper bounds. Renaming a parameter or a chain, or adding an unrelated chain or parameter, changes only the names. No result depends on the magnitude of the values.",
     ["inputs"], "every data set, positive or negative scale, shift and renaming", "A relation between pairs of runs over arbitrary data.",
     ["analysis.py", "helpers.py", "chain.py"], [("_get_smoothed_histogram", "analysis.py"), ("get_extents", "helpers.py"), ("get_covariance", "chain.py")], "samples", "results for related pairs of chains")
prop("C30", "Distribution and summary plots show the right marginal in each cell",
     "The distribution plot has one panel per parameter in order, wrapped as asked, with unused panels blank and every contour chain's marginal in each panel of a parameter it has; the summary plot has one row per drawn chain, starting with its name, and one column per parameter titled with its label. Each cell shows that chain's marginal (or, as error bar, its centre and bounds) for that parameter and nothing where the chain lacks it. All cells of a parameter share its extents and vertical scale, which fits its tallest curve.",
     ["inputs"], "every set of chains with differing parameters, column wrap and error bar option", "Tests check that plotting does not fail.",
     ["plotter.py"], [("plot_distributions", "plotter.py"), ("plot_summary", "plotter.py")], "chains and columns", "axes of the figures")
prop("C31", "Point clouds draw real samples, evenly thinned, coloured by their own row",
     "A cloud consists of samples of the chain only, in order and evenly spaced through it, starting with the first, about as many as requested (all of them when fewer exist). With a colour parameter each point has the colour value of its own row, on the chain's colour map; otherwise all have the chain's colour. The cloud lies behind the contours of its chain.",
     ["inputs"], "every chain length, requested number of points, colour parameter and parameter pair", "Tests check that plotting does not fail.",
     ["plotting/contours.py"], [("plot_cloud", "plotting/contours.py")], "samples", "scatter collections of the figure")

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
