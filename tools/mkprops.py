#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing the table)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIT = "qetpy/core/_fitting.py"
NSMB = "qetpy/core/_of_nsmb.py"
IV = "qetpy/core/_iv.py"
IBIS = "qetpy/core/_ibis.py"
NOISE = "qetpy/core/_noise.py"
BD = "qetpy/core/didv/_base_didv.py"
DD = "qetpy/core/didv/_didv.py"
DP = "qetpy/core/didv/_didv_priors.py"
CUT = "qetpy/cut/_cut.py"
SIM = "qetpy/sim/_sim.py"
UT = "qetpy/utils/_utils.py"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), level_note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, state=state, level_note=level_note))

# ------------------------------------------------------------- optimum filters
prop("F01", "Single-pulse optimum filter is the weighted least-squares optimum",
     "For any trace, template, two-sided noise PSD, sample rate, coupling and template normalisation, the single-pulse optimum filter (fixed time or free time) returns an amplitude and chi-square equal to the PSD-weighted least-squares fit of the circularly shifted template at the returned time. With a free time, the returned time is the one with the smallest chi-square among exactly the bins the delay window (inside or outside, any centre, any length) and pulse-direction constraint allow; when no bin is allowed the no-pulse answer (zero amplitude, no-pulse chi-square) is returned, and invalid window arguments raise ValueError. Sub-bin interpolation replaces the time by the vertex of the parabola through the chi-square of the best bin and its two circular neighbours when the best bin is a local minimum, which is within half a bin, and otherwise keeps the best bin; amplitude and chi-square are then those of the parabolas through the same three bins.",
     ["inputs", "configurations"],
     "all trace lengths (even/odd), templates, PSDs, couplings, normalisations, delay windows (length, centre, inside/outside), direction constraints, interpolation on/off",
     "Existing tests compare a handful of numbers for one seeded trace and one template; they reach no odd lengths, no edge windows, no empty windows, no off-centre windows combined with outside-window searches.",
     [FIT], [("window/argmin selection", FIT), ("frequency-domain amplitude and chi2", FIT)],
     ["OptimumFilter.ofamp_nodelay", "OptimumFilter.ofamp_withdelay", "ofamp"])
prop("F02", "Two-pulse optimum filters fit the sum of two pulses exactly",
     "For any trace and any given first pulse (amplitude, time, on or off the sample grid), the iterative pile-up fit returns the second pulse amplitude and time that minimise the PSD-weighted residual over the allowed bins, and the reported chi-square is the chi-square of the trace minus both pulses. The stationary pile-up fit returns the joint least-squares amplitudes of a pulse fixed at the unshifted time and one at the returned time, with the chi-square of that two-pulse residual, for every allowed bin including a coincident second pulse.",
     ["inputs", "configurations"],
     "all traces, first-pulse amplitudes/times (grid and off-grid, positive and negative), windows, direction constraints, couplings, both the object and the function interface",
     "Tests check one seeded trace with a fixed first pulse; times that are not exactly representable, off-grid times, windows touching the coincident bin are never exercised.",
     [FIT], [("pile-up amplitude and chi2 assembly", FIT)],
     ["OptimumFilter.ofamp_pileup_iterative", "OptimumFilter.ofamp_pileup_stationary", "ofamp_pileup", "ofamp_pileup_stationary"])
prop("F03", "Baseline-aware optimum filter is blind to the trace baseline",
     "The optimum filter that co-fits a baseline returns, with an unconstrained window, the joint least-squares pulse amplitude and time for pulse plus constant, with the chi-square of that residual. With a constrained window it returns the best fit in the allowed bins with the baseline held at the unconstrained best fit. Adding any constant to the trace changes neither the amplitude, the time nor the chi-square.",
     ["inputs", "configurations"],
     "all traces, baselines, PSDs (finite DC value), couplings, windows, direction constraints",
     "One seeded trace is tested, without comparing to a joint fit and without varying the baseline.",
     [FIT], [("joint pulse/baseline normal equations", FIT)],
     ["OptimumFilter.ofamp_baseline"])
prop("F04", "Optimum-filter results do not depend on call history",
     "Any sequence of fit, chi-square and resolution calls and signal replacements on one optimum-filter object gives, at every step, exactly the value a freshly built object with the current signal gives for that call.",
     ["histories", "inputs"],
     "all interleavings of the object's methods with arbitrary arguments and signal updates",
     "Tests construct an object and call methods in one fixed order with one update; cached intermediate results make other orders a different code path.",
     [FIT], [("lazy caches reset on signal update", FIT)],
     ["every public OptimumFilter method"],
     state=[dict(name="cached filtered signal / chi2 arrays", meaning="lazily computed per-signal intermediates", where=FIT)])
prop("F05", "Function and object interfaces agree, batched equals trace by trace",
     "The function-style optimum filters return the same amplitude, time, chi-square and resolution as the object-style filters on the same inputs. Where a function accepts an array of traces (with scalar or per-trace amplitudes and times), each output element equals the result for that trace alone.",
     ["inputs", "configurations"],
     "all traces/batches (1..N traces), couplings, normalisations, windows",
     "Tests only compare each interface to recorded numbers and never batch.",
     [FIT], [("duplicate implementations of the same fit", FIT)],
     ["ofamp", "ofamp_pileup", "ofamp_pileup_stationary", "chi2lowfreq", "chi2_nopulse", "OptimumFilter"])
prop("F06", "Optimum filters recover scaled shifted templates and scale correctly",
     "A trace that is an exact scaled, circularly shifted template is fitted with that amplitude and shift and zero chi-square (AC coupling: up to an arbitrary constant offset). Scaling the trace scales amplitudes linearly and chi-square quadratically, rotating the trace in time shifts only the fitted time, scaling the PSD leaves amplitudes unchanged and divides chi-square, and the quoted amplitude and time resolutions equal the inverse square root of the corresponding Fisher information. Integral normalisation rescales amplitude and amplitude resolution by the template integral and changes nothing else.",
     ["inputs", "configurations"],
     "all templates, amplitudes, shifts, scale factors, PSDs, sample rates, couplings, normalisations",
     "Tests have a single template, amplitude and sample rate.",
     [FIT], [("Fourier normalisation conventions", FIT)],
     ["OptimumFilter", "ofamp", "energy_resolution", "time_resolution"])
prop("F07", "Partial chi-squares are consistent with the full fit",
     "The low-frequency chi-square of a fit equals the PSD-weighted residual power over the frequencies at or below the cutoff: it is non-negative, non-decreasing in the cutoff, equals the chi-square of the fit when the cutoff covers all frequencies, and equals the no-pulse chi-square for zero amplitude. The no-pulse chi-square is the PSD-weighted power of the trace.",
     ["inputs", "configurations"],
     "all traces, templates, PSDs, amplitudes, (fractional) times, cutoffs on and off the frequency grid, couplings, both interfaces, batches",
     "Tests check one value.",
     [FIT], [("frequency mask and residual", FIT)],
     ["chi2lowfreq", "chi2_nopulse", "OptimumFilter.chi2_lowfreq", "OptimumFilter.chi2_nopulse"])
prop("F08", "Non-linear pulse and muon-tail fits are self-consistent and recover truth",
     "The pulse models with one to four poles have the documented time-domain shape and the matching Fourier transform, for either amplitude convention. Fitting a noiseless model pulse recovers its parameters to numerical precision from a nearby starting point, and for any fitted trace the reported chi-square, covariance and errors are those of the returned parameters, which lie within the requested bounds and are no worse than the starting guess. The same holds for the thermal muon-tail fit.",
     ["inputs", "configurations"],
     "all pulse parameters, number of poles, amplitude conventions, error scales, PSDs, guesses and bounds",
     "Tests fit one pulse per pole count and check that numbers are close to recorded values.",
     [FIT], [("pole models, residual weighting, covariance", FIT)],
     ["OFnonlin", "MuonTailFit"])
# ------------------------------------------------------------- NSMB
prop("N01", "Multi-background optimum filter is the joint least-squares optimum",
     "For any trace, signal template and any number (including one) of background templates, the joint signal-plus-backgrounds filter returns, at the time it selects, the PSD-weighted least-squares amplitudes of all templates and the chi-square of that residual; the selected time minimises chi-square among exactly the delay bins it was asked to search (for every window asked for). The zero-frequency PSD value is replaced by that of the first non-zero frequency. The backgrounds-only fit returns the corresponding least-squares background amplitudes and chi-square.",
     ["inputs", "configurations"],
     "all traces, templates, numbers of backgrounds, trace lengths, PSDs, delay windows",
     "Tests run one recorded data set.",
     [NSMB], [("P matrix / filter matrices / chi2 over delays", NSMB)],
     ["of_nsmb_setup", "of_nsmb", "of_nsmb_getPt", "of_nsmb_getiP", "of_mb"])
prop("N02", "Polarity-constrained background fits respect the polarity and stay optimal",
     "When background (and signal) polarity constraints are requested, every returned amplitude has the requested sign or is zero, the reported chi-square is that of the returned amplitudes at the returned time, and it is never smaller than the unconstrained optimum. When the unconstrained solution already satisfies the constraints the constrained fit returns it.",
     ["inputs", "configurations"],
     "all traces, templates, polarity combinations and delay windows",
     "Tests use one data set and one polarity vector.",
     [NSMB], [("iterative clamping of wrong-sign amplitudes", NSMB)],
     ["of_nsmb_con", "of_mb"])
prop("N03", "Background template builders produce the documented template sets",
     "For any trace length and background choice, the background-template builders return templates of the documented count, length and shape (flat, linear slope over the trace, shifted pulses at the documented spacing) for both the time- and frequency-domain outputs, which are transforms of one another.",
     ["inputs", "configurations"],
     "all trace lengths, pulse templates, background counts, window parameters and sample rates",
     "Tests call each builder for one trace length.",
     [NSMB], [("template construction", NSMB)],
     ["get_slope_dc_template_nsmb", "maketemplate_ttlfit_nsmb"])
# ------------------------------------------------------------- IV / IBIS
prop("I01", "IV analysis recovers the circuit behind synthetic IV data",
     "For IV data computed from a biased TES circuit with known shunt, parasitic and normal resistances and current offset, the IV analysis recovers those values, the current, resistance and power of every bias point and their uncertainties, independent of whether data are given for one channel or many. Input order of leading axes maps one-to-one to output order.",
     ["inputs", "configurations"],
     "all circuits, bias grids, point counts, offsets, errors, array shapes",
     "Tests analyse one recorded data set.",
     [IV], [("line fits to SC/normal branches, circuit equations", IV)],
     ["IV.calc_iv", "IV.fit_rload_rn"])
prop("I02", "IbIs analysis recovers the circuit behind synthetic IbIs data",
     "For current-versus-bias data computed from a TES circuit with known shunt, parasitic and normal resistances, offsets and branch boundaries, the IbIs analysis recovers the parasitic and normal resistance, both offsets, and the current, resistance and power of every point, with or without fitting the superconducting branch. Each channel is analysed independently of the others.",
     ["inputs", "configurations"],
     "all circuits, bias grids, branch windows, offsets, numbers of channels and points",
     "Tests analyse one recorded data set.",
     [IBIS], [("branch line fits, intersection, circuit equations", IBIS)],
     ["IBIS.analyze"])
prop("I03", "Reported IV and IbIs uncertainties follow first-order error propagation",
     "The uncertainties the IV and IbIs analyses report for fitted and derived quantities equal the first-order propagation of the input errors through the formulas that define those quantities (the quantities that enter one formula being treated as independent), scale linearly with the input errors, and are never negative or complex.",
     ["inputs", "configurations"],
     "all circuits and input error sizes",
     "Tests compare a few recorded numbers.",
     [IV, IBIS], [("hand-written Jacobians", IBIS)],
     ["IV.calc_iv", "IBIS.analyze"])
# ------------------------------------------------------------- noise
prop("S01", "PSD estimation conserves power and folds consistently",
     "The two-sided PSD of any set of traces integrates to their mean power (Parseval), is the average of the single-trace PSDs, scales quadratically with the traces, is insensitive to trace order and circular time shifts, and its folded version is the one-sided PSD with the same total power for even and odd lengths. Frequencies match the discrete Fourier bins of the record.",
     ["inputs", "configurations"],
     "all trace sets, lengths, sample rates, folding on/off",
     "Tests check that one seeded noise run gives a PSD near a constant.",
     [NOISE], [("FFT normalisation and folding", NOISE)],
     ["calc_psd", "foldpsd"])
prop("S02", "Generated noise has the requested spectrum",
     "Noise generated from a PSD has the requested shape and number of traces, is real, its estimated PSD converges to the requested PSD at every frequency (including the DC and highest bin), and it scales with the square root of the PSD; the same random state gives the same noise. A PSD with infinite DC yields zero-mean traces and the caller's PSD is left unmodified.",
     ["inputs", "configurations"],
     "all PSDs, lengths (even/odd), sample rates, numbers of traces, seeds",
     "Tests generate one white noise set.",
     [NOISE], [("spectral colouring of white noise", NOISE)],
     ["gen_noise"])
prop("S03", "Multi-channel noise object: spectra, cross spectra and decorrelation agree",
     "For any multi-channel noise record, the real and imaginary spectra sum to the total spectrum, the total spectrum of a channel is the one-sided PSD of that channel, the cross-spectral matrix is Hermitian with non-negative power on its diagonal, correlation coefficients are bounded by one and are one on the diagonal, uncorrelated noise never exceeds the total noise, and results survive saving and loading. Channel order and channel scaling act on the outputs as expected.",
     ["inputs", "histories"],
     "all numbers of channels, traces, lengths, sample rates, channel names",
     "Tests do not exercise the multi-channel noise object at all beyond construction.",
     [NOISE], [("PSD/CSD/correlation computation", NOISE)],
     ["Noise"])
# ------------------------------------------------------------- cuts
prop("C01", "Outlier removal is self-consistent, order-independent and terminates",
     "Every iterative outlier-removal routine terminates on any finite data, its final mask is a fixed point (kept points lie within the requested number of deviations of the kept mean, rejected ones outside), the returned mean and deviation are those of the kept points, and permuting, shifting or positively scaling the data permutes, shifts or scales the outcome accordingly. Skewness-based removal keeps a contiguous range of values, removing the extreme farther from the median in the direction of the skewness until the requested skewness or the iteration limit is reached.",
     ["inputs"],
     "all finite data sets incl. ties, constant data, heavy tails, multi-dimensional data and covariance-based removal",
     "Tests run on one seeded normal sample.",
     [CUT], [("iteration to a fixed point", CUT)],
     ["iterstat", "itercov", "removeoutliers"])
prop("C02", "Trace-quality cuts compose and reject what they claim to reject",
     "Each automatic trace cut (pile-up, slope, baseline, chi-square, muon) returns a boolean per trace, the combined cut is contained in each stage applied in order, clean traces survive while traces with gross pile-up, slope, baseline or shape anomalies are rejected, and repeating the cut gives the same answer. Unknown removal algorithms and invalid arguments raise ValueError and the input traces are left unmodified.",
     ["inputs", "configurations"],
     "all trace sets, anomaly placements, cut options and algorithms",
     "Tests only check the total number of passing traces for one seeded set.",
     [CUT], [("sequential cut pipeline", CUT)],
     ["autocuts", "pileupcut", "slopecut", "baselinecut", "chi2cut", "get_muon_cut"])
# ------------------------------------------------------------- dIdV
prop("D01", "dI/dV models and parameter conversions are mutually consistent",
     "Complex admittance is the reciprocal of complex impedance for one, two and three pole models, both match the documented closed forms and are Hermitian in frequency, and converting between small-signal (TES) parameters and fit parameters and back is the identity. Reported fall times are the exponential decay times of the response (roots of the model's poles).",
     ["inputs"],
     "all physical parameter sets of the one-, two- and three-pole models, all frequencies",
     "Tests evaluate one parameter set.",
     [BD, DD, DP], [("closed-form impedance/admittance", BD), ("parameter conversion", DD)],
     ["complexadmittance", "compleximpedance", "squarewaveresponse", "DIDV fit results"])
prop("D02", "Simulated square-wave response equals the exact Fourier sum",
     "The simulated response to a square-wave bias equals the sum of its harmonics filtered by the model admittance, is periodic with the bias period, scales linearly with the bias amplitude, is that of a wave which is low for the requested fraction (duty cycle) of each period and then high, depends on the times only through their spacing, and averages to zero over a period.",
     ["inputs", "configurations"],
     "all parameter sets, pole counts, sample rates, frequencies, duty cycles, offsets, amplitudes, lengths",
     "Tests use one response per model.",
     [BD], [("harmonic spectrum, inverse FFT", BD)],
     ["squarewaveresponse", "squarewaveguessparams"])
prop("D03", "dI/dV trace processing uses whole periods and deconvolves exactly",
     "Processing keeps the largest whole number of square-wave periods for every record length, sample rate and frequency, its offset, mean trace and spread are those of the kept samples of the traces that pass, and the measured admittance of noiseless traces equals the model admittance at the odd harmonics. Processing twice gives the same result as processing once.",
     ["inputs", "histories", "configurations"],
     "all record lengths, frequencies, sample rates, numbers of traces, half-period phase flags, repeated processing",
     "Tests use one record whose period divides it exactly and process once.",
     [BD], [("period truncation, deconvolution, jackknife", BD)],
     ["DIDV.processtraces", "DIDVPriors.processtraces", "DIDV.dofit"])
prop("D04", "dI/dV fits recover the parameters that generated the data",
     "Fitting noiseless (or nearly noiseless) square-wave responses of a one-, two- or three-pole model whose decay times are short against the bias period, with ordinary or prior-informed fits, recovers the admittance at all fitted frequencies, the zero-frequency admittance, the fall times and the time offset, and small-signal parameters when the bias point (TES and parasitic resistance) is supplied; results are stored and returned per pole count, and loading a stored result reproduces it.",
     ["inputs", "histories"],
     "all physical parameter sets, noise seeds, pole counts, prior choices, orders of fits",
     "Tests fit a single seed and parameter set per model.",
     [BD, DD, DP], [("frequency-domain least squares with bounds/priors", DD)],
     ["DIDV", "DIDVPriors", "didvinitfromdata"])
# ------------------------------------------------------------- sim
prop("M01", "TES noise model: components, referrals and totals agree",
     "For any TES small-signal parameters and positive frequencies, load, TES, thermal-fluctuation and readout noise are non-negative, the total current and power noise are the sums of their components, every power-referred component equals the current-referred one divided by the squared power-to-current responsivity, impedance quantities match the two-pole dI/dV model, and evaluation at explicit frequencies equals evaluation at stored ones. The energy resolution of a current PSD is the optimum-filter one for one- and two-sided PSDs, in any order of the frequencies. Noise amplitudes follow the documented temperature, resistance and readout scalings.",
     ["inputs", "configurations"],
     "all small-signal parameters, temperatures, resistances, inductances, frequencies, SQUID parameters",
     "Tests evaluate energy resolution for one parameter set.",
     [SIM], [("closed-form noise terms", SIM)],
     ["TESnoise", "loadfromdidv", "energy_res_estimate"])
# ------------------------------------------------------------- utils
prop("U01", "Array helpers: shifts, templates, offsets, monotone and positive fills",
     "Shifting an array moves values by exactly the requested number of bins (by linear interpolation for fractional shifts of one-dimensional arrays) and fills the rest; templates peak at one and start at the requested bin; the offset of traces averages exactly the largest whole number of periods; made-decreasing curves are non-increasing and agree with the running minima of the input; positive filling leaves positive values untouched and replaces the rest by interpolation; slopes are least-squares slopes.",
     ["inputs"],
     "all arrays, shifts (integer, fractional, beyond the ends), fill values, lengths, frequencies",
     "Tests use a few fixed arrays.",
     [UT], [("array helpers", UT)],
     ["shift", "make_template", "calc_offset", "make_decreasing", "fill_negatives", "slope"])
prop("U02", "Resampling makes the sample rate an integer multiple of the drive",
     "For any integer sample rate and signal-generator frequency, the resampling factors are positive integers for which the resampled rate is an integer multiple of the generator frequency, they are trivial exactly when no resampling is needed, and resampled data have the matching length, rate and (band-limited) content. Non-integer rates raise ValueError.",
     ["inputs"],
     "all integer rate/frequency pairs, data shapes and axes",
     "Tests check a few pairs.",
     [UT], [("prime factorisation of the rate ratio", UT)],
     ["resample_factors", "resample_data"])
prop("U03", "Power, energy and bias-point helpers obey the TES circuit equations",
     "Converting current to power follows the bias circuit, absorbed energy is the integrated power deficit relative to the baseline for any batch shape, sampling description and baseline choice, the muon-based offset recovers the offset and bias point of a synthetic saturated pulse, and thermal conductance and its error follow the power-law balance and first-order error propagation.",
     ["inputs", "configurations"],
     "all circuits, traces, batch shapes, baseline windows, sampling descriptions, covariances",
     "Tests use one trace per helper.",
     [UT], [("circuit equations", UT)],
     ["powertrace_simple", "energy_absorbed", "get_offset_from_muon", "estimate_g"])
prop("U04", "Filtering and alignment act at the requested frequency and lag",
     "Low-pass filtering is linear, zero-phase, leaves constants unchanged and attenuates a tone at the requested cutoff to one half for any sample rate and order. Aligning traces recovers the relative lags of shifted copies of a waveform and shifting by them superimposes the traces, for the requested sample rate and filter cutoff.",
     ["inputs", "configurations"],
     "all sample rates, cutoffs, orders, lags, trace counts, waveforms",
     "Tests use the default sample rate and cutoff.",
     [UT], [("filter design and cross-correlation", UT)],
     ["lowpassfilter", "align_traces"])
# ------------------------------------------------------------- cross-cutting
prop("P01", "Analysis calls leave the caller's arrays untouched",
     "No analysis entry point (filters, fits, noise, cuts, IV/IbIs, dI/dV, simulation, helpers) modifies the traces, templates, PSDs, parameter arrays or windows it is given, so repeating a call with the same arguments gives the same result; the only exception is the helper documented to fill its input in place.",
     ["inputs", "histories", "configurations"],
     "all entry points, option combinations and repeated calls",
     "Tests build fresh arrays for each call and never compare them afterwards.",
     [FIT, NSMB, IV, IBIS, NOISE, BD, CUT, SIM, UT], [("defensive copies", "qetpy")],
     ["all public entry points"])
prop("G01", "Plots show the stored data of the selected channels, fits and points",
     "Every plotting method and function draws exactly the stored quantities in the units of its labels, for exactly the selected channels, temperatures, pole fits or channel pairs ('all', one number, a list or an array): measured curves, error bars equal to the stored errors, fit curves and legend values equal to the model at the fitted parameters. Nothing is drawn before the calculation it shows. When saving is requested exactly the documented file is written where it was asked for, and neither the object nor the arrays given are changed by drawing.",
     ["inputs", "configurations"],
     "all objects, selections, options of the plots, saved or shown, fits present or absent",
     "Tests draw each plot at most once and never look at what was drawn.",
     ["qetpy/plotting/_noise_plotting.py", "qetpy/plotting/_iv_plotting.py", "qetpy/plotting/_ibis_plotting.py", "qetpy/plotting/_fitting_plotting.py", "qetpy/plotting/_of_nsmb_plotting.py", "qetpy/core/didv/_plot_didv.py", NOISE, IV, IBIS],
     [("curves drawn from the attributes of the object", "qetpy/plotting/")],
     ["Noise.plot_*", "compare_noise", "plot_noise_sim", "IV.plot_*", "IBIS.plot_*", "DIDV.plot_*", "fit_falltimes(lgcplot)", "of_nsmb*(lgcplot)"])

prop("H01", "Analyses do not influence each other",
     "Any number of analysis objects and calls (optimum filters, pulse and background fits, noise, IV, IbIs and dI/dV objects, noise models, cuts, helpers) can be alive at once and be used in any order: every step of each gives the result it gives when the analysis is run by itself, results that were handed out do not change when further analyses run, and process-wide settings (floating-point error handling, warning filters, working directory, plot and print settings) are left as they were.",
     ["histories", "schedules", "inputs"],
     "all sets of analyses on data of the same or different shapes, all interleavings of their steps",
     "Tests use one object at a time and look at each result once.",
     [FIT, NSMB, IV, IBIS, NOISE, BD, "qetpy/core/didv/_didv.py", CUT, SIM, UT], [("object state", "qetpy")],
     ["all public classes and entry points"])

prop("R01", "Results depend on the values given, not on how they are stored",
     "Every analysis entry point gives the same result for the same values: arrays of integers (also the 16 bit integers of a digitizer for raw traces), of single precision or of another byte order give what the array of doubles gives (single precision up to its rounding); numbers may be Python ints, floats or numpy scalars and flags True/False or numpy booleans; where array_like is documented, lists and tuples do.",
     ["inputs", "configurations"],
     "all public entry points, each array and number argument, all element types that hold the values exactly",
     "Tests pass doubles only.",
     [FIT, NSMB, IV, IBIS, NOISE, BD, CUT, SIM, UT], [("accumulators and buffers hold doubles whatever the type of the input", "qetpy")],
     ["all public entry points"])

prop("Q01", "Options left out act as documented, and arguments by position as by name",
     "At every public entry point (functions, constructors, methods, plots) leaving an optional argument out is the same as giving its documented default, whatever the other arguments are, and arguments given by position in the documented order are the same as by name: the same numbers, figures and files. Functions and the methods they mirror have the same defaults where both document them.",
     ["inputs", "configurations"],
     "all public entry points, all subsets of omitted, positional and named arguments, all values of the others",
     "Tests give each entry point one fixed set of arguments.",
     [FIT, NSMB, IV, IBIS, NOISE, BD, "qetpy/core/didv/_didv.py", "qetpy/core/didv/_didv_priors.py", "qetpy/core/didv/_plot_didv.py", CUT, SIM, UT, "qetpy/plotting/_noise_plotting.py", "qetpy/plotting/_iv_plotting.py"],
     [("signatures", "qetpy"), ("forwarding of the options", "qetpy")],
     ["all public entry points"])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], state=list(p["state"]),
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        path = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
        if os.path.exists(path):
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"bash run.sh {p['id']} quick",
                thorough_cmd=f"bash run.sh {p['id']} thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique="property-based testing (Hypothesis generators, shrinking) against an independent reference oracle",
                level="exploration",
                level_note=p["level_note"] or "Generated-input search only: shows no violation on the cases generated (counts in the evidence file), not absence. Trusts numpy/scipy and the reference oracle in checks/."))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=dict(guard="QETPY_VERIF", enable="no hooks: the checks use only the public API of the code in /repo", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="All checks run through run.sh -> lib/harness.py; see DESIGN.md. Known findings: known_findings.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
