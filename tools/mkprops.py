#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
U = "spafe/utils/"; B = "spafe/fbanks/"; F = "spafe/features/"; Q = "spafe/frequencies/"
ALLF = [F+x for x in ("mfcc.py","lfcc.py","bfcc.py","gfcc.py","ngcc.py","msrcc.py","psrcc.py","pncc.py","cqcc.py","rplp.py","lpc.py")]
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [], observe_at=observe or [], hook_needed=None)))

p("C01", "Hz <-> mel/Bark/ERB conversions are exact inverses",
  "For every supported conversion approach, converting a frequency f >= 0 Hz (f > 0 for the logarithmic Zwicker scale) to mel, Bark or ERB and back returns f, up to floating-point rounding. Converting a scale value in the image of the forward map to Hz and back returns that value.",
  ["inputs","configurations"], "all real frequencies in the domain, all nine approach names, scalars and (mel, ERB) arrays",
  "The tests check the inverse only for ERB at 15 integers; the mel and Bark tests compare each function with itself.",
  [U+"converters.py"], [("closed-form forward/backward formulas per approach", U+"converters.py")],
  ["hz2mel","mel2hz","hz2bark","bark2hz","hz2erb","erb2hz"])
p("C02", "Scale conversions are strictly increasing and follow the published formula",
  "Each Hz-to-scale and scale-to-Hz conversion equals its published closed form (O'Shaughnessy and Lindsay mel; Glasberg ERB; Wang, Tjomov, Schroeder, Terhardt, Zwicker and Traunmueller Bark, the last with its low- and high-end corrections). Consequently f1 < f2 implies scale(f1) < scale(f2) on the non-negative (Zwicker: positive) frequencies, and an unknown mel approach is rejected with KeyError.",
  ["inputs","configurations"], "all real frequencies, every pair f1 < f2, all approach names",
  "No test states any value of a mel or Bark conversion; a wrong constant or a non-monotone branch passes.",
  [U+"converters.py"], [("closed-form formulas", U+"converters.py")], ["hz2mel","mel2hz","hz2bark","bark2hz","hz2erb","erb2hz"])
p("C03", "Framing yields exactly the overlapping slices and never reads past the signal",
  "Framing a 1-D signal of N samples with frame length L = trunc(win_len*fs) and hop H = trunc(win_hop*fs) (H >= 1, L <= N) returns floor((N-L)/H)+1 frames of length L where frame i, sample j is signal[i*H+j], together with L, and it reads no memory outside the signal. The frames are a copy: changing them does not change the signal. Framing raises ParameterError exactly when win_len < win_hop.",
  ["inputs","configurations"], "all signals, sampling rates and window settings with 1 <= H and L <= N",
  "Three window settings on one ramp are tested, and only the frame length and a no-cropping inequality are asserted; contents, count and out-of-bounds strides are not.",
  [U+"preprocessing.py"], [("frame arithmetic and validation", U+"preprocessing.py framing"), ("strided view", U+"preprocessing.py stride_trick")], ["framing","stride_trick"])
p("C04", "Every extractor applies pre-emphasis exactly as configured",
  "Pre-emphasis with coefficient a maps x to y with y[0]=x[0] and y[t]=x[t]-a*x[t-1]. For every feature extractor and spectrogram, enabling pre-emphasis with coefficient a gives the same result as applying that filter with the same a to the signal first and disabling pre-emphasis; with pre-emphasis disabled the coefficient has no effect.",
  ["inputs","configurations"], "all signals, all coefficients a, all extractors (MFCC, IMFCC, LFCC, BFCC, GFCC, NGCC, MSRCC, PSRCC, PNCC, CQCC, LPC, LPCC, PLP, RPLP and the five spectrograms)",
  "The filter is checked on one ramp with 0.97; extractors are never run with another coefficient, so one that ignores its argument passes.",
  [U+"preprocessing.py"]+ALLF, [("pre_emphasis filter", U+"preprocessing.py"), ("pre_emph / pre_emph_coeff parameters", F)], ["all extractors"])
p("C05", "Every extractor applies the requested window to every frame",
  "Windowing multiplies every frame, sample by sample, by the numpy window of the requested name (Hanning, Bartlett, Kaiser with beta 14, Blackman, Hamming). In every frame-based extractor, with non-overlapping windows and no pre-emphasis, choosing window type T gives the same result as choosing Hamming on the signal whose samples were multiplied, frame position by frame position, by T/Hamming. Omitting the window is the same as asking for 25 ms frames every 10 ms with a Hamming window.",
  ["inputs","configurations"], "all signals, frame lengths and window types, all extractors",
  "Windowing is only checked for the sign of two samples, and extractors are only ever run with the default window, so an extractor that drops the window or its type passes.",
  [U+"preprocessing.py"]+ALLF, [("windowing", U+"preprocessing.py"), ("window parameter", F)], ["windowing","all extractors"])
p("C06", "Filter banks have one row per filter, one column per bin, and validate bounds",
  "Every filter-bank constructor (mel, inverse mel, linear, Bark, gammatone) raises ParameterError exactly when low_freq < 0 or high_freq > fs/2. For every other valid request (nfilts >= 1, nfft >= 2, 0 <= low_freq < high_freq, high_freq defaulting to fs/2 when omitted) it returns, without any error, an nfilts x (nfft//2+1) matrix and nfilts centre frequencies.",
  ["inputs","configurations"], "all nfilts, nfft (even and odd), fs, bands, scales and approaches, with high_freq given or omitted",
  "Each constructor is tested for one nfilts/nfft/band; odd FFT sizes, one filter, an omitted high_freq and other approaches are not reached.",
  [B+x for x in ("mel_fbanks.py","linear_fbanks.py","bark_fbanks.py","gammatone_fbanks.py")], [("bounds checks and matrix allocation", B)], ["mel_filter_banks","inverse_mel_filter_banks","linear_filter_banks","bark_filter_banks","gammatone_filter_banks"])
p("C07", "Mel and linear filters are the triangles spaced evenly on their scale",
  "With edges e_0 < ... < e_{nfilts+1} evenly spaced on the mel (resp. Hz) scale from low_freq to high_freq and the matrix columns at nfft//2+1 evenly spaced frequencies from low_freq to high_freq, row j is scale_j times the triangle that rises linearly from 0 at e_j to 1 at e_{j+1} and falls to 0 at e_{j+2}. All weights therefore lie in [0, scale_j] and vanish outside (e_j, e_{j+2}), and the returned centre frequencies are e_1 .. e_nfilts, strictly increasing, on the bank's own scale.",
  ["inputs","configurations"], "all nfilts, nfft, fs, bands, scalings and mel approaches",
  "The tests assert only the shape of one bank; no weight is ever checked.",
  [B+"mel_fbanks.py", B+"linear_fbanks.py", U+"converters.py", U+"filters.py"], [("slope masks and slopes", B+"mel_fbanks.py mel_filter_banks_helper")], ["mel_filter_banks","linear_filter_banks"])
p("C08", "Bark filters follow Hermansky's critical-band curve",
  "The critical-band weight at Bark distance d is 0 below -1.3 and above 2.5, 10^(2.5(d+0.5)) on [-1.3,-0.5], 1 on (-0.5,0.5) and 10^(0.5-d) on [0.5,2.5]; it always lies in [0,1]. Row j of the Bark bank holds scale_j times that weight of the distance between column i's frequency i*fs/(nfft+1) and the j-th of nfilts centres evenly spaced in Bark from low_freq to high_freq, for the columns from floor((nfft+1)*low_freq/fs) up to but excluding floor((nfft+1)*high_freq/fs), and 0 in the other columns (a single filter has its centre at low_freq and no such column).",
  ["inputs","configurations"], "all distances, nfilts, nfft, fs, bands, scalings and Bark approaches",
  "Only the shape of one bank is tested.",
  [B+"bark_fbanks.py", U+"converters.py"], [("critical-band curve", B+"bark_fbanks.py Fm"), ("bin loop", B+"bark_fbanks.py bark_filter_banks")], ["Fm","bark_filter_banks"])
p("C09", "Gammatone filters are ERB-spaced and each peaks at exactly its scale factor",
  "The gammatone centre frequencies are (high+c)*((low+c)/(high+c))^((nfilts-j)/nfilts) - c with c = 9.26449*24.7 for j = 0..nfilts-1: they start at low_freq, increase strictly, stay below high_freq, and are reported converted to ERB. Every weight is non-negative, no weight in row j exceeds scale_j, and the largest equals scale_j; up to that normalisation row j is the magnitude response of the fourth-order gammatone filter whose bandwidth is 1.019*2*pi*((fc/9.26449)^order + 24.7^order)^(1/order).",
  ["inputs","configurations"], "all nfilts, nfft, fs, bands, orders and scalings",
  "Only the shape of one bank is tested.",
  [B+"gammatone_fbanks.py", U+"converters.py", U+"filters.py"], [("centre frequencies", B+"gammatone_fbanks.py generate_center_frequencies"), ("row normalisation and response", B+"gammatone_fbanks.py")], ["gammatone_filter_banks","generate_center_frequencies","compute_gain"])
p("C10", "The scale option multiplies filter rows by the documented ramp and nothing else",
  "The scaling vector for n filters is (1/n, 2/n, ..., 1) for ascendant, (1, ..., 2/n, 1/n) for descendant and all ones for constant; any other name is rejected with KeyError. For mel, linear, Bark and gammatone banks the matrix for a scaling equals the constant-scaling matrix with row j multiplied by the j-th entry; the inverse mel bank uses the opposite ramp. The centre frequencies do not depend on the scaling.",
  ["inputs","configurations"], "all filter counts, scalings, bank families and band parameters",
  "The tests pass each scale name through but assert only shapes.",
  [U+"filters.py"]+[B+x for x in ("mel_fbanks.py","linear_fbanks.py","bark_fbanks.py","gammatone_fbanks.py")], [("scale_fbank", U+"filters.py")], ["scale_fbank","all banks"])
p("C11", "The inverse mel bank is the mel bank mirrored along the frequency axis",
  "Entry (j, k) of the inverse mel bank equals entry (j, nfft//2 - k) of the mel bank built with the same parameters and the opposite scaling direction. Its j-th centre frequency is the mel value of low_freq + high_freq - f where f is the mel bank's j-th centre in Hz, and high_freq defaults to fs/2 when omitted.",
  ["inputs","configurations"], "all nfilts, nfft, fs, bands, scalings and mel approaches, high_freq given or omitted",
  "Only the shape of one bank with an explicit band is tested.",
  [B+"mel_fbanks.py"], [("row reversal", B+"mel_fbanks.py inverse_mel_filter_banks")], ["inverse_mel_filter_banks","imfcc"])
p("C12", "Spectrograms are the filter bank applied to the frame power spectrum",
  "Each of the mel, linear, Bark and ERB spectrograms returns S (frames x nfilts) and M (frames x nfft//2+1) where M[t,k] is the magnitude of bin k of the nfft-point FFT of windowed frame t and S[t,m] = sum over k of M[t,k]^2/nfft * bank[m,k]; with a non-negative bank S >= 0. Column k of the bank is thus the weight given to frequency k*fs/nfft. A bank supplied by the caller is used as is, and supplying the bank that would have been built (same nfilts, nfft, fs, band, scale, approach) gives the same result as supplying none.",
  ["inputs","configurations"], "all signals, banks, FFT sizes (even/odd, shorter or longer than the frame), bands, scales and windows",
  "The spectrograms are never checked by value; supplied banks are compared only for one band with the default scale and approach.",
  [F+x for x in ("mfcc.py","lfcc.py","bfcc.py","gfcc.py")], [("spectrogram pipelines", F)], ["mel_spectrogram","linear_spectrogram","bark_spectrogram","erb_spectrogram"])
p("C13", "Every feature matrix is frames x coefficients, and too few filters are rejected",
  "For every valid request each cepstral extractor returns, without error, one row per frame (floor((N-L)/H)+1; CQCC: that number times the resampling ratio, truncated) and exactly the requested number of coefficients per row (CQCC: at most the number of constant-Q pitches). MFCC, IMFCC, LFCC, BFCC, GFCC, NGCC, MSRCC, PSRCC, PNCC, PLP and RPLP raise ParameterError exactly when more coefficients than filters are requested or when the filter bank they have to build rejects its band; CQCC raises it exactly when high_freq > fs/2; all of them raise it when win_len < win_hop.",
  ["inputs","configurations"], "all signal lengths, window settings, coefficient counts, filter counts, FFT sizes and options",
  "The tests use one signal and one or two coefficient counts; other lengths, FFT sizes, a single frame and omitted options are not reached.",
  ALLF, [("num_ceps slicing, parameter checks", F)], ["all extractors"])
p("C14", "Cepstra are the truncated orthonormal DCT of the documented compression",
  "With no lifter, normalisation or energy option, row t of MFCC, IMFCC, LFCC, NGCC and BFCC is the first num_ceps coefficients of the orthonormal DCT of the requested type of log(zero-replaced filter energies) of frame t - for BFCC after the intensity-loudness law - while GFCC uses the cube root and MSRCC the power gamma of the filter energies, and PSRCC the power gamma of the filtered FFT phases in degrees folded into [0, 360). Zero values are replaced by machine epsilon just before the logarithm (for BFCC after the intensity-loudness law) and just before the power in MSRCC and PSRCC. Asking for fewer coefficients returns a prefix of the longer rows.",
  ["inputs","configurations"], "all signals, banks, DCT types, coefficient counts and gamma values",
  "No test compares any cepstrum with its definition; they compare two runs of the same function.",
  [F+x for x in ("mfcc.py","lfcc.py","bfcc.py","gfcc.py","ngcc.py","msrcc.py","psrcc.py")]+[U+"preprocessing.py"], [("compression and DCT steps", F), ("zero_handling", U+"preprocessing.py")], ["mfcc","imfcc","lfcc","ngcc","bfcc","gfcc","msrcc","psrcc","zero_handling","intensity_power_law"])
p("C15", "The energy option replaces only the first coefficient by the log frame energy",
  "With use_energy, no lifter and no normalisation, coefficient 0 of each row is the natural log of the frame's total spectral power (sum over the nfft//2+1 bins of |FFT|^2/nfft, zero replaced by machine epsilon). Every other coefficient is the same as without use_energy.",
  ["inputs","configurations"], "all signals and parameters, for MFCC, IMFCC, LFCC, BFCC, GFCC, NGCC, MSRCC and PSRCC",
  "The tests compare the energy column with the energy column of an identical second call.",
  [F+x for x in ("mfcc.py","lfcc.py","bfcc.py","gfcc.py","ngcc.py","msrcc.py","psrcc.py")], [("use_energy blocks", F)], ["eight extractors"])
p("C16", "Liftering follows its formula and is applied to the finished cepstra",
  "Liftering leaves the cepstra unchanged when the lifter is 0 or above 10, multiplies coefficient i by i^lift (coefficient 0 by 1) for 0 < lift <= 10, and by 1 + (L/2)*sin(pi*(i+1)/L) with L = trunc(-lift) for lift <= -1. Every cepstral extractor called with a lifter and no normalisation returns exactly the liftered version of what it returns without a lifter.",
  ["inputs","configurations"], "all cepstral matrices, all lifter values, all extractors with a lifter option",
  "Only three lifter values on one 10x2 matrix and one signal are tested; the exponential lifter's result is computed but never compared in the unit test.",
  [U+"cepstral.py"]+ALLF, [("lifter_ceps", U+"cepstral.py")], ["lifter_ceps","all extractors"])
p("C17", "Normalisation follows its formula, is applied last, and really normalises",
  "For a matrix that is not constant, mvn is (x - column mean)/overall std, ms is x - column mean, vn is x/overall std and mn is (x - overall mean)/(max - min); so mvn and ms give zero-mean columns, vn gives overall standard deviation 1, mn gives overall mean 0 and range 1. Every extractor called with a normalisation returns exactly the normalised version of what it returns without one, lifter included.",
  ["inputs","configurations"], "all non-constant matrices, the four normalisations, all extractors",
  "The unit test re-implements the formula on one 1-D vector to one decimal; extractors are tested on one signal with two of the four names.",
  [U+"cepstral.py"]+ALLF, [("normalize_ceps", U+"cepstral.py")], ["normalize_ceps","all extractors"])
p("C18", "Finite input, silence included, never yields NaN or inf in the cepstra",
  "For every finite signal, including all-zero signals and frames, and every non-negative filter bank, the logarithms, powers and divisions inside MFCC, IMFCC, LFCC, BFCC, GFCC, NGCC, MSRCC, PSRCC, PNCC and CQCC are only ever applied where they are defined, so the unnormalised features are finite (in real arithmetic, barring overflow).",
  ["inputs"], "all finite signals, in particular signals with silent frames or bands with zero energy",
  "All tests use one speech recording in which no filter energy is exactly zero.",
  [F+x for x in ("mfcc.py","lfcc.py","bfcc.py","gfcc.py","ngcc.py","msrcc.py","psrcc.py","pncc.py","cqcc.py")]+[U+"preprocessing.py"], [("zero_handling before log/power", F)], ["ten extractors"])
p("C19", "Deltas are the slope-weighted differences over the window with replicated edges",
  "For window size w with h = floor(w/2), the delta at row r, column t is the sum over k = -h..h of k * x[r, clamp(t+k)], where clamp repeats the first and last columns at the edges. The result has the shape of the input; constant rows give zero and adding a constant to a row changes nothing.",
  ["inputs","configurations"], "all matrices with at least one column and all window sizes w >= 0",
  "One small matrix with two window sizes is tested to one decimal.",
  [U+"cepstral.py"], [("deltas", U+"cepstral.py")], ["deltas"])
p("C20", "LPC solves the autocorrelation normal equations of each windowed frame",
  "For each windowed frame, with r the frame's autocorrelation at lags 0..p (p = order-1), the returned row is a = (1, phi) where phi is the inverse of the symmetric Toeplitz matrix of r[0..p-1] applied to -r[1..p], and the returned error is |r[0]*a[0] + ... + r[p]*a[p]|. The results are computed in floating point whatever the sample type of the signal, have order columns, and one row per frame.",
  ["inputs","configurations"], "all signals (integer samples included) whose frames have a non-singular autocorrelation matrix, all orders not exceeding the frame length",
  "The tests check only the number of columns.",
  [F+"lpc.py"], [("Toeplitz solve and error", F+"lpc.py __lpc_helper"), ("frame loop", F+"lpc.py lpc")], ["lpc","lpcc"])
p("C21", "LPC cepstra satisfy the LPC-to-cepstrum recursion",
  "Converting coefficients a[0..p-1] and error e to n cepstra gives c[0] = log(e) (zero replaced by machine epsilon) and, for 1 <= m < n, c[m] = a[m] + sum over k = 1..m-1 of (k/m)*c[k]*a[m-k], where a[j] counts as 0 for j >= p; every n >= 1 is accepted. Without lifter and normalisation, LPCC is that conversion applied to each frame's LPC coefficients and error.",
  ["inputs","configurations"], "all coefficient vectors, errors e >= 0, orders and numbers of cepstra",
  "The tests check only the number of columns.",
  [F+"lpc.py"], [("recursion", F+"lpc.py lpc2lpcc"), ("frame loop", F+"lpc.py lpcc")], ["lpc2lpcc","lpcc"])
p("C22", "PNCC stages compute Kim and Stern's recursions, causally in time",
  "Medium-time power is the (2M+1)-point sum over the available neighbouring frames divided by 2M+1; the asymmetric filter starts at 0.9 of the first frame and then moves with weight lambda_a when the input is not below the previous output and lambda_b otherwise; temporal masking keeps a running peak decayed by lambda_t and replaces frames below it by mu_t times the previous peak; weight smoothing averages R/Q over the channels within N of l; mean-power normalisation divides by the running mean started at 0.0001. Apart from the medium-time average no stage lets a later frame influence an earlier one, and each stage keeps the matrix shape and maps non-negative input to non-negative output.",
  ["inputs","configurations"], "all non-negative matrices, any number of frames and channels, all filter constants in their ranges",
  "The only PNCC assertion in the suite is the number of columns.",
  [F+"pncc.py"], [("stage functions", F+"pncc.py")], ["medium_time_power_calculation","asymmetric_lowpass_filtering","temporal_masking","weight_smoothing","mean_power_normalization","asymmetric_noise_suppression_with_temporal_masking","pncc"])
p("C23", "RASTA filtering treats each row on its own and blanks its first four values",
  "The RASTA filter returns a matrix of the input's shape whose row i depends on row i of the input only: the first four values of each row are 0 and the rest are the output of the pole-0.94 RASTA filter started from the state reached on those four values. PLP is the LPC cepstrum of the inverse FFT of the loudness-compressed Bark spectrum of each frame, and RPLP the same after RASTA filtering of the log spectrum.",
  ["inputs","configurations"], "all matrices with at least four columns, all signals and parameters",
  "The RASTA filter is tested only for existing; PLP and RPLP only for their number of columns.",
  [U+"filters.py", F+"rplp.py"], [("per-row filter state", U+"filters.py rasta_filter"), ("PLP pipeline", F+"rplp.py")], ["rasta_filter","plp","rplp"])
p("C24", "YIN reports the first sub-threshold lag's local minimum, or unvoiced",
  "The difference function at lag t is the sum of (x[j]-x[j+t])^2 over the frame and the normalised difference is 1 at lag 0 and d(t)*t/(d(1)+...+d(t)) after. The reported period is 0 when no lag in [tau_min, tau_max) is below the threshold, and otherwise the first local minimum reached by descending from the first such lag; it always lies in [tau_min, tau_max). Per hop the tracker reports pitch fs/period (0 if unvoiced), the normalised difference at that period (its minimum if unvoiced), and the time of the frame start.",
  ["inputs","configurations"], "all frames, thresholds, lag ranges, signals and window settings whose frames are at least tau_max long",
  "The only assertion is that the result is not None.",
  [Q+"fundamental_frequencies.py"], [("difference and CMND functions", Q+"fundamental_frequencies.py"), ("lag search", Q+"fundamental_frequencies.py get_pitch")], ["compute_difference","compute_cmnd","get_pitch","compute_yin"])
p("C25", "Dominant frequency is the true frequency of the strongest FFT bin of each frame",
  "Without the optional band-pass filter there is one dominant frequency per frame, and it is b*fs/nfft rounded to three decimals, where b is the first bin among 0..nfft//2 with the largest power in the nfft-point FFT of the windowed frame. It therefore lies in [0, fs/2], and asking for positive frequencies only removes nothing.",
  ["inputs","configurations"], "all signals, sampling rates, FFT sizes and windows",
  "The only assertion is that the result is not None.",
  [Q+"dominant_frequencies.py"], [("peak bin to Hz", Q+"dominant_frequencies.py")], ["get_dominant_frequencies"])
p("C26", "Functions neither modify their arguments nor remember earlier calls",
  "No public function of the library changes an array or window object passed to it, and no call changes what a later call returns: equal arguments give equal results in any order of calls. Results that the caller may change do not alias internal state.",
  ["inputs","histories"], "all public functions, all arguments, all sequences of calls",
  "Tests never compare an argument before and after a call, and each test calls with one parameter set per process order.",
  ["spafe/utils/","spafe/fbanks/","spafe/features/","spafe/frequencies/"], [("functions without module state; copies before in-place updates", "spafe/")], ["all public functions"])
p("C27", "The constant-Q transform analyses geometrically spaced pitches inside the band",
  "The transform has one row per pitch f0*2^(i/B), i = 0..octaves*B-1, that lies in [low_freq, high_freq] and whose window ceil(Q*fs/f), Q = q_rate/(2^(1/B)-1), is at most nfft, and one column per frame. Row k is the FFT of the (zero-padded or truncated) frame multiplied by the conjugate of the thresholded FFT of that pitch's centred, windowed, 1/N_k-scaled exponential and summed over bins, divided by nfft. CQCC is the DCT over pitches of the resampled-in-time log power of that transform.",
  ["inputs","configurations"], "all frames, sampling rates, bands, octave and bin counts that leave at least one pitch",
  "The transform is tested only for existing; CQCC only for its shape.",
  [U+"spectral.py", F+"cqcc.py"], [("pitch selection and kernel", U+"spectral.py"), ("CQCC pipeline", F+"cqcc.py")], ["compute_constant_qtransform","cqt_spectrogram","cqcc"])
p("C28", "Spectral descriptors follow their formulas and ignore the signal's level",
  "The centroid of order i is the magnitude-weighted mean of the i-th powers of the bin frequencies, which are |fftfreq(n, 1/fs)| for a spectrum of n bins; skewness and kurtosis are the weighted third and fourth central moments divided by the third and fourth power of the order-2 centroid; spread is the square root of the weighted second central moment; flatness is the geometric over the arithmetic mean; flux is the p-norm of successive magnitude differences; roll-off is the given fraction of the total magnitude. The collected feature set reports exactly these single numbers for the signal's spectrum, and centroid, skewness, kurtosis, spread and flatness do not change when the spectrum is multiplied by a positive constant.",
  ["inputs","configurations"], "all spectra with non-zero magnitude sum, all sampling rates, orders, p and fractions",
  "Tests assert that 12 values exist and are not None.",
  [F+"spfeats.py"], [("descriptor functions", F+"spfeats.py")], ["spectral_centroid","spectral_skewness","spectral_kurtosis","spectral_spread","spectral_flatness","spectral_flux","spectral_rolloff","extract_feats"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
