#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

FEAT = "spafe/features/"
UT = "spafe/utils/"
FB = "spafe/fbanks/"
FR = "spafe/frequencies/"

prop("C01", "Framing yields exactly the complete, hop-aligned windows of the signal",
"""Splitting a signal into frames returns exactly the complete windows of the signal that start at multiples of the hop,
in order, each an unaltered contiguous slice of it: no window is missing, partial, padded or taken from outside the signal.
The reported frame length is the window duration times the sampling rate with the fraction dropped, and the hop is obtained the same way.""",
["inputs", "configurations"], "every signal at least one window long, every sampling rate, every window length >= hop >= 1 sample",
"Tests frame one 2.6 s recording with a handful of window/hop pairs and check shapes or a single reassembly; off-by-one effects need particular length/hop residues.",
[UT + "preprocessing.py"], [("framing", UT + "preprocessing.py"), ("stride_trick", UT + "preprocessing.py")],
["framing", "stride_trick"])

prop("C02", "Pre-emphasis is x[n]-a*x[n-1], and extractors honour the requested coefficient",
"""Pre-emphasis with coefficient a turns a signal x into y with y[0]=x[0] and y[n]=x[n]-a*x[n-1].
Every extractor that offers pre-emphasis gives, with it switched on at any coefficient, the result it gives with it switched off on the already pre-emphasised signal;
and with pre-emphasis off the coefficient has no effect.""",
["inputs", "configurations"], "every signal, every coefficient in [0, 1], every extractor (all spectrograms and cepstral, linear-prediction and constant-Q features)",
"Tests only use the default coefficient 0.97 and only look for NaNs or shapes, so a coefficient that is ignored, or filtered with a wrong boundary, is invisible.",
[UT + "preprocessing.py", FEAT + "mfcc.py", FEAT + "lfcc.py", FEAT + "bfcc.py", FEAT + "gfcc.py", FEAT + "ngcc.py", FEAT + "msrcc.py", FEAT + "psrcc.py", FEAT + "pncc.py", FEAT + "lpc.py", FEAT + "rplp.py", FEAT + "cqcc.py"],
[("pre_emphasis", UT + "preprocessing.py"), ("pre_emph/pre_emph_coeff arguments", FEAT)], ["pre_emphasis", "every extractor's return value"])

prop("C03", "Window tapers are the standard ones and every extractor honours the window",
"""Windowing multiplies every frame, sample by sample, by the symmetric hanning, bartlett, kaiser (beta 14), blackman or hamming taper of the frame length.
Every extractor uses the length, hop and taper of the window it is given, and giving no window is the same as giving a 25 ms hamming window with 10 ms hop.""",
["inputs", "configurations"], "every frame length >= 1, every taper, every extractor and every window description",
"Tests run each taper once on one frame length; whether an extractor really applies the requested taper, hop and length to every frame is never compared with anything.",
[UT + "preprocessing.py", FEAT + "*.py"], [("windowing", UT + "preprocessing.py"), ("SlidingWindow", UT + "preprocessing.py")],
["windowing", "every extractor's return value", "dominant frequencies"])

prop("C04", "Hz<->mel/bark/ERB conversions are monotone inverses of each other",
"""For every named conversion approach, converting a frequency to the mel, bark or ERB scale and back returns the original frequency, and converting in the other order likewise.
Each conversion is strictly increasing in frequency and follows its published formula; scalars and (where supported) arrays give the same values.""",
["inputs", "configurations"], "every frequency in the audible/sampled range, every approach name",
"Tests check a few tabulated points or only the default approach; the non-default approaches are never round-tripped.",
[UT + "converters.py"], [("hz2mel/mel2hz, hz2bark/bark2hz, hz2erb/erb2hz", UT + "converters.py")], ["converter return values"])

prop("C05", "Mel and linear banks are unit triangles with edges equally spaced on the scale",
"""A mel (linear) filter bank of N filters over [low, high] consists of triangles whose N+2 edge points are equally spaced in mel (in Hz) from low to high:
filter j is 0 outside its edges, rises linearly in Hz to 1 at its centre and falls linearly to 0, evaluated at the FFT bin frequencies k*fs/nfft, k = 0..nfft/2.
The returned centre frequencies are exactly the N interior edge points, for every mel conversion approach.""",
["configurations"], "every filter count, FFT size (even or odd), sampling rate, band 0 <= low < high <= fs/2, mel approach",
"Tests build a few banks and check min/max or the shape; slopes, overlap and centres for general bands, odd FFT sizes and the second mel approach are never compared.",
[FB + "mel_fbanks.py", FB + "linear_fbanks.py"], [("mel_filter_banks_helper", FB + "mel_fbanks.py"), ("linear_filter_banks", FB + "linear_fbanks.py")], ["mel_filter_banks", "linear_filter_banks"])

prop("C06", "The inverse-mel bank is the mel bank mirrored within its band",
"""The inverse-mel bank for a band has at frequency f, filter by filter, the weight the mel bank for the same parameters has at low+high-f (evaluated at the FFT bin frequencies), so it is dense at high frequencies where the mel bank is dense at low ones.
Its i-th centre frequency is the mel value of low+high minus the mel bank's i-th centre in Hz; asking for ascending (descending) filter weights scales it so that the filters ascend (descend) with increasing frequency, and an omitted upper limit means half the sampling rate.""",
["configurations"], "every filter count, FFT size, sampling rate, band, mel approach, scaling",
"Tests pass one explicit band and look at value ranges only; with the documented default upper limit the function was never called.",
[FB + "mel_fbanks.py"], [("inverse_mel_filter_banks", FB + "mel_fbanks.py")], ["inverse_mel_filter_banks"])

prop("C07", "Bark bank has the critical-band masking curve at bark-equidistant centres",
"""The centre frequencies of a bark filter bank of two or more filters are equally spaced in bark from the lower to the upper band limit.
At each FFT bin i inside the band (taken at i*fs/(nfft+1) Hz), a filter's weight is 1 within half a bark of its centre, 10^(2.5(d+0.5)) on the lower skirt down to d=-1.3, 10^(-(d-0.5)) on the upper skirt up to d=2.5, and 0 elsewhere, d being the bark distance of the bin from the centre; bins outside the band are 0.
This holds for every bark conversion approach.""",
["configurations"], "every filter count, FFT size, sampling rate, band, bark approach",
"Tests check extremes of a few default banks; skirts, band limits and non-default approaches are never compared with the definition.",
[FB + "bark_fbanks.py", UT + "converters.py"], [("Fm", FB + "bark_fbanks.py"), ("bark_filter_banks", FB + "bark_fbanks.py")], ["bark_filter_banks", "Fm"])

prop("C08", "Gammatone bank has unit-peak 4th-order gammatone responses at ERB centres",
"""The gammatone filter bank's centre frequencies are equally spaced on the ERB-rate (Glasberg-Moore) scale over the requested band, ascending, and returned in ERB units.
Filter j is the magnitude response over FFT bins 0..nfft/2 of the 4th-order gammatone filter with that centre and the bandwidth 1.019 ERB of the given order, normalised so that its largest weight is 1.
All weights are finite and lie in [0, 1].""",
["configurations"], "every filter count, FFT size, sampling rate, band, ERB order",
"Tests check the extremes of a few banks; centre spacing, peak positions, bandwidth and the order parameter are never compared.",
[FB + "gammatone_fbanks.py"], [("generate_center_frequencies", FB + "gammatone_fbanks.py"), ("compute_gain", FB + "gammatone_fbanks.py"), ("gammatone_filter_banks", FB + "gammatone_fbanks.py")], ["gammatone_filter_banks", "generate_center_frequencies"])

prop("C09", "The scale option multiplies filter i by exactly i/N, (N-i+1)/N or 1",
"""For every kind of filter bank, the ascending (descending) option multiplies the i-th of N filters of the constant-scaled bank by i/N ((N-i+1)/N) and leaves centre frequencies alone; the constant option leaves all weights unscaled.
For the inverse-mel bank the ramp runs in the opposite filter order, because its filters are listed from high to low frequency.
Every feature extractor that takes the scale option gives the same result as when handed the correspondingly scaled bank.""",
["configurations"], "every bank kind and extractor, filter count, scaling name",
"Tests only check that scaled banks are bounded; the exact factors, their order and whether extractors forward the option are not compared.",
[UT + "filters.py", FB + "*.py", FEAT + "*.py"], [("scale_fbank", UT + "filters.py")], ["bank functions", "extractors with scale"])

prop("C10", "Invalid parameters raise the library's parameter error; valid ones never do",
"""Asking any extractor for more coefficients than filters, any filter bank (directly or through an extractor that builds one) for a negative lower limit or an upper limit above half the sampling rate, or for a window shorter than its hop, raises the library's parameter error, which is one of the library's own error classes; constant-Q extractors likewise reject an upper limit above half the sampling rate.
Parameters at or inside those limits, including the exact limits themselves (coefficients equal to filters, band 0 to fs/2, window equal to hop), are never rejected.""",
["inputs", "configurations"], "every extractor and bank, every combination of valid and invalid limits including exact boundary values",
"Tests try one invalid value per parameter on default configurations; boundary-valid values and combinations over all extractors are not tried.",
[UT + "exceptions.py", FB + "*.py", FEAT + "*.py", UT + "preprocessing.py"], [("ParameterError", UT + "exceptions.py"), ("guards at the top of banks and extractors", FB)], ["exceptions raised by public functions"])

prop("C11", "Spectrograms are the filter bank applied to the frames' power spectrum",
"""The mel, bark, ERB and linear spectrograms return one row per frame whose entries are the bank's weighted sums of |FFT|^2/nfft of the pre-emphasised, windowed frame, with the bank belonging to the given filter count, FFT size, rate, band, scaling and conversion approach.
The second returned value is the magnitude spectrum of those frames over bins 0..nfft/2.""",
["inputs", "configurations"], "every signal, sampling rate, window, FFT size (smaller, equal or larger than the frame, even or odd) and bank parameters",
"Tests inspect shapes or run on a single file with default parameters; no test compares spectrogram values with the definition.",
[FEAT + "mfcc.py", FEAT + "lfcc.py", FEAT + "bfcc.py", FEAT + "gfcc.py"],
[("mel_spectrogram", FEAT + "mfcc.py"), ("linear_spectrogram", FEAT + "lfcc.py"), ("bark_spectrogram", FEAT + "bfcc.py"), ("erb_spectrogram", FEAT + "gfcc.py")], ["the four spectrogram functions"])

prop("C12", "MFCC, IMFCC, LFCC and NGCC are the DCT of the log filter-bank energies",
"""MFCC, inverse-MFCC, LFCC and NGCC (without post-processing) equal, frame by frame, the first requested coefficients of the orthonormal DCT, of the requested type, of the natural log of the power-spectrum energies in the mel, inverse-mel, linear and gammatone bank respectively.
Energies that are exactly zero are replaced by machine epsilon before the log, and every bank parameter the caller passes is the one used.""",
["inputs", "configurations"], "every signal and every valid parameter combination",
"Tests assert absence of NaN, shapes or self-consistency for a parameter grid on one recording; values are never compared with an independent pipeline.",
[FEAT + "mfcc.py", FEAT + "lfcc.py", FEAT + "ngcc.py"], [("mfcc/imfcc", FEAT + "mfcc.py"), ("lfcc", FEAT + "lfcc.py"), ("ngcc", FEAT + "ngcc.py")], ["mfcc", "imfcc", "lfcc", "ngcc"])

prop("C13", "BFCC, GFCC, MSRCC and PSRCC apply their documented compression before the DCT",
"""Frame by frame and without post-processing, BFCC is the orthonormal DCT of the log of the cube-root equal-loudness-weighted bark energies, GFCC the DCT of the cube root of gammatone energies, and MSRCC the DCT of the mel energies raised to gamma.
PSRCC is the DCT of the mel-weighted FFT phases (degrees in [0, 360)) raised to gamma.
Each returns the first requested coefficients and uses every bank parameter the caller passes.""",
["inputs", "configurations"], "every signal, gamma, and valid parameter combination",
"Tests assert absence of NaN or shapes for a parameter grid on one recording; compression exponents and phase handling are never compared.",
[FEAT + "bfcc.py", FEAT + "gfcc.py", FEAT + "msrcc.py", FEAT + "psrcc.py"], [("bfcc, intensity_power_law", FEAT + "bfcc.py"), ("gfcc", FEAT + "gfcc.py"), ("msrcc", FEAT + "msrcc.py"), ("psrcc", FEAT + "psrcc.py")], ["bfcc", "gfcc", "msrcc", "psrcc"])

prop("C14", "Post-processing options compose: truncate, energy, lifter, then normalise",
"""For every cepstral extractor, requesting fewer coefficients returns the leading columns of the result with more, switching the energy option on replaces only the first column by the log of the frame's spectral energy, and lifter and normalisation equal applying the public lifter and normalisation functions, in that order, to the result without them.
The options are independent: any combination equals applying them one after another.""",
["inputs", "configurations"], "every extractor, signal and combination of coefficient count, energy flag, lifter value (negative, 0, 1..10, larger) and normalisation",
"Tests toggle options one by one and check that outputs differ or are finite; combinations and exact composition are not compared.",
[FEAT + "*.py", UT + "cepstral.py"], [("tail of every extractor", FEAT), ("lifter_ceps, normalize_ceps", UT + "cepstral.py")], ["mfcc", "imfcc", "lfcc", "bfcc", "gfcc", "ngcc", "msrcc", "psrcc", "pncc", "cqcc", "lpcc", "plp", "rplp"])

prop("C15", "A precomputed filter bank is used verbatim in place of the built-in one",
"""Passing an extractor the bank that the matching bank function returns for the same parameters gives the same features as letting the extractor build it.
Passing any other bank of the right shape makes the extractor use that bank's weights as they are, regardless of the band, scaling or approach arguments, and never alters it.""",
["inputs", "configurations"], "every extractor accepting a bank, every bank (built-in or arbitrary non-negative), every signal",
"Tests pass one default bank to one or two extractors; equality with the built-in path and verbatim use of arbitrary banks are not checked in general.",
[FEAT + "*.py"], [("fbanks argument", FEAT)], ["every extractor with a fbanks argument"])

prop("C16", "Scaling the signal's amplitude changes features in the known way",
"""Multiplying the signal by g>0 multiplies spectrograms by g^2, constant-Q coefficients by g, GFCC by g^(2/3) and MSRCC by g^(2*gamma); it only shifts the 0th coefficient of the log cepstra (MFCC, IMFCC, LFCC, NGCC, CQCC with DCT type 2, LPCC), and leaves PSRCC, LPC coefficients, pitch, dominant frequency and the shape-type spectral statistics unchanged.
LPC error energies scale by g^2 and the spectral magnitude statistics by g (variance by g^2).""",
["inputs", "configurations"], "every signal without exactly silent bands, every gain, every listed extractor",
"A relation between two runs at different levels; tests use one recording at one level.",
[FEAT + "*.py", FR + "*.py"], [("extractor pipelines", FEAT)], ["return values of the listed extractors"])

prop("C17", "Features are local in time: a frame's row depends only on that frame's samples",
"""With pre-emphasis and normalisation off, row i of every frame-wise extractor equals the single row obtained from just that frame's samples; hence dropping whole hops from the front shifts rows, appending samples never changes earlier rows, and rows do not depend on how long the signal is.
Pitch and dominant-frequency tracks have the same property, and PNCC rows depend only on frames up to two ahead of them.""",
["inputs", "configurations"], "every signal, window, hop, split point and extractor",
"A relation between runs on different excerpts; tests only process one whole recording.",
[FEAT + "*.py", FR + "*.py", UT + "preprocessing.py"], [("per-frame processing", FEAT)], ["rows of extractor outputs"])

prop("C18", "Digital silence never turns features into NaN or infinity",
"""For a signal that is wholly or partly exact digital silence, every spectrogram, cepstral, linear-prediction and constant-Q extractor returns only finite numbers and raises nothing.
Pitch and dominant-frequency tracks report 0 Hz for silent frames.""",
["inputs", "configurations"], "every signal containing silent stretches at any position, every extractor and parameter combination (normalisation off)",
"The only recording used by the tests has no digital silence.",
[FEAT + "*.py", UT + "preprocessing.py", FR + "*.py"], [("zero_handling", UT + "preprocessing.py")], ["extractor return values"])

prop("C19", "Calls are pure: inputs untouched, results independent of call history",
"""No public function modifies the arrays, lists or window objects it is given, and the result of a call depends only on its arguments: it is the same whatever calls were made before, in whatever order, and even if the caller overwrote arrays that earlier calls returned.
Calling twice with the same arguments gives the same values.""",
["histories", "inputs"], "every sequence of public calls with shared signals, banks and windows, interleaved with the caller overwriting results",
"Tests call each function on fresh data and never check inputs or compare results across histories.",
["spafe"], [("absence of module state and in-place writes", "spafe")], ["arguments and results of all public functions"])

prop("C20", "Sample type and container do not change results",
"""A signal gives the same features whether its samples arrive as 16- or 32-bit integers, single or double precision floats, big- or little-endian, contiguous or strided or read-only arrays, or a plain list, provided the values are the same.
In particular integer input neither overflows nor is rounded on the way.""",
["inputs", "configurations"], "every integer-valued signal up to full 16-bit scale, every extractor, every container",
"Tests feed one int16 recording; equality with the same values in another representation is never checked.",
[FEAT + "*.py", FR + "*.py", UT + "preprocessing.py"], [("promotion to float in pre_emphasis/windowing", UT + "preprocessing.py")], ["extractor return values"])

prop("C21", "PNCC follows the power-normalised pipeline stage by stage",
"""PNCC equals the DCT of the 1/15-power of: gammatone band powers, medium-time averaging over 5 frames, asymmetric noise suppression with temporal masking, weight smoothing over up to 9 neighbouring channels including the channel itself and both ends, and running mean-power normalisation.
Each public stage function computes its documented recurrence for every input matrix, with the first frame initialised as documented and later frames never influencing earlier ones beyond the averaging span.""",
["inputs", "configurations"], "every signal and parameter combination; every non-negative frame-by-channel matrix for the stage functions",
"Tests assert finiteness and shape for one recording; the recurrences are never compared with a model.",
[FEAT + "pncc.py"], [("medium_time_power_calculation, asymmetric_lowpass_filtering, temporal_masking, weight_smoothing, mean_power_normalization", FEAT + "pncc.py")], ["pncc and its stage functions"])

prop("C22", "LPC coefficients are the least-squares predictor of each windowed frame",
"""For each frame, the linear-prediction coefficients start with 1 and solve the autocorrelation normal equations of the pre-emphasised, windowed frame, so no other filter of that length has a smaller prediction-error energy, and the resulting filter is minimum phase.
The returned error is that minimal error energy, non-negative and at most the frame's energy.""",
["inputs", "configurations"], "every signal, order, sampling rate and window",
"Tests check shape/finite values on one recording; optimality and the error value are never verified.",
[FEAT + "lpc.py"], [("__lpc_helper, lpc", FEAT + "lpc.py")], ["lpc"])

prop("C23", "LPCC are the cepstrum of the all-pole model, led by the log prediction error",
"""The conversion from prediction coefficients to cepstral coefficients returns the log of the error term followed by the power-series cepstrum of the all-pole filter 1/A(z), for any number of cepstral coefficients, below, equal to or above the number of prediction coefficients.
The LPCC extractor returns exactly this for each frame's coefficients and error.""",
["inputs", "configurations"], "every stable prediction polynomial, error and cepstrum length; every signal, order and window for the extractor",
"Tests only assert finiteness on one recording and the conversion is never called with differing lengths or compared with a cepstrum.",
[FEAT + "lpc.py"], [("lpc2lpcc, lpcc", FEAT + "lpc.py")], ["lpc2lpcc", "lpcc"])

prop("C24", "PLP and RASTA-PLP follow bark energies, RASTA, loudness, all-pole cepstrum",
"""PLP equals the all-pole cepstrum (log error first) of the magnitude inverse FFT of the cube-root equal-loudness-weighted bark energies of each windowed frame; RASTA-PLP additionally passes the log bark energies through the RASTA filter and back before loudness weighting.
The RASTA filter maps each row independently of all other rows by y[n]=0.94*y[n-1]+(2x[n]+x[n-1]-x[n-3]-2x[n-4])/10 with the first four outputs zero.""",
["inputs", "configurations"], "every signal, order, bank parameters, window; every matrix for the RASTA filter",
"Tests assert finiteness on one recording; neither the pipeline nor row independence of the filter is compared with anything.",
[FEAT + "rplp.py", UT + "filters.py"], [("__rastaplp, plp, rplp", FEAT + "rplp.py"), ("rasta_filter", UT + "filters.py")], ["plp", "rplp", "rasta_filter"])

prop("C25", "The constant-Q transform correlates frames with geometrically spaced atoms",
"""The constant-Q transform has one row per analysis frequency f0*2^(k/bins-per-octave) that lies within the octave count and band limits and whose constant-Q window fits the FFT size, and one column per frame.
With zero threshold, an entry is the inner product of the zero-padded frame with the centred, tapered complex exponential of that frequency and constant Q; a positive threshold only drops kernel spectrum values not exceeding it.""",
["inputs", "configurations"], "every set of frames, sampling rate, FFT size, octaves, bins per octave, band, base frequency, Q rate, taper, threshold leaving at least one row",
"Tests check the shape of one transform; frequencies, Q and values are never compared with the definition.",
[UT + "spectral.py", FEAT + "cqcc.py"], [("compute_constant_qtransform", UT + "spectral.py"), ("cqt_spectrogram", FEAT + "cqcc.py")], ["compute_constant_qtransform", "cqt_spectrogram"])

prop("C26", "CQCC are the DCT of the time-resampled log constant-Q power",
"""CQCC equal the first requested coefficients of the orthonormal DCT, of the requested type, over constant-Q rows of the natural log of the squared magnitude of the constant-Q spectrogram for the same parameters, exact zeros being replaced by machine epsilon.
The log spectrogram is first Fourier-resampled along time to (number of frames times the resampling ratio, fraction dropped) rows; ratio 1 leaves it as it is.""",
["inputs", "configurations"], "every signal and valid parameter combination including the resampling ratio",
"Tests assert shapes and finiteness for a grid on one recording; values are not compared.",
[FEAT + "cqcc.py"], [("cqcc", FEAT + "cqcc.py")], ["cqcc"])

prop("C27", "Normalisation, lifter, delta and zero-handling helpers compute what they state",
"""Cepstral normalisation subtracts per-column means (mean- and mean-variance types) and/or divides by the overall standard deviation, or maps to (x-mean)/(max-min) overall; the lifter multiplies column i by i^L for L in 1..10 (column 0 unchanged), by 1+(|L|/2)sin(pi(i+1)/|L|) for negative L and leaves the matrix alone otherwise.
Deltas are the odd-symmetric regression sum of k*x[t+k] over the half-width, rows edge-padded, separately per row and of unchanged shape; zero handling replaces exactly the zeros by machine epsilon and nothing else.""",
["inputs", "configurations"], "every matrix, normalisation name, lifter value and delta width",
"Tests check a mean or a shape on one matrix; per-column behaviour, negative lifters and edge handling are not compared.",
[UT + "cepstral.py", UT + "preprocessing.py"], [("normalize_ceps, lifter_ceps, deltas", UT + "cepstral.py"), ("zero_handling", UT + "preprocessing.py")], ["normalize_ceps", "lifter_ceps", "deltas", "zero_handling"])

prop("C28", "Dominant frequency is the location of each frame's spectral maximum in Hz",
"""The dominant-frequency track has one value per frame: the frequency in Hz (bin number times sampling rate over FFT size, rounded to 3 decimals) of the largest-magnitude bin of the windowed, optionally band-passed frame, always between 0 and half the sampling rate.
For a frame holding one steady tone, a few main-lobe widths away from 0 and half the sampling rate, that value lies within one FFT bin of the tone.""",
["inputs", "configurations"], "every signal, sampling rate, FFT size, window, and band-pass setting",
"Tests run one recording and check shape/type; no tone of known frequency is compared.",
[FR + "dominant_frequencies.py"], [("get_dominant_frequencies", FR + "dominant_frequencies.py")], ["get_dominant_frequencies"])

prop("C29", "YIN reports the first dip of the cumulative-mean-normalised difference",
"""For each analysis frame the reported pitch is the sampling rate divided by the lag found by YIN: the first lag in the searched range whose cumulative-mean-normalised difference is below the threshold, followed down to the bottom of that dip, or 0 when there is none; the harmonic rate is the function's value at that lag (its minimum when unvoiced) and times are frame starts in seconds, frames starting at every multiple of the hop strictly before the last position at which a window fits.
A steady sinusoid whose period lies in the range is reported with a lag within one sample of a multiple of its period; no lag outside the searched range is ever reported. The third track is the sampling rate over the lag of the function's global minimum when that exceeds the shortest lag, else 0.""",
["inputs", "configurations"], "every signal, sampling rate, window, hop, frequency range, threshold",
"Tests run one recording and only check types or shapes.",
[FR + "fundamental_frequencies.py"], [("compute_difference, compute_cmnd, get_pitch, compute_yin", FR + "fundamental_frequencies.py")], ["compute_yin and its stages"])

prop("C30", "Spectral summary features are the stated statistics of the magnitude spectrum",
"""The spectral feature extractor returns real numbers: centroid and spread are the magnitude-weighted mean and root-mean-square deviation of the one-sided frequency axis (equally spaced from 0 to fs/2 Hz), skewness and kurtosis the weighted 3rd and 4th central moments over the cube and 4th power of the weighted second raw moment; entropy is that of the magnitude spectrum as a probability mass, in units of its maximum; flatness is the geometric over arithmetic mean; roll-off is the first bin where the cumulated magnitude reaches 85 %; flux is the norm of successive magnitude differences.
Mean, rms, standard deviation and variance are those of the magnitude spectrum.
Centroid lies in [0, fs/2], flatness and entropy in [0, 1].""",
["inputs", "configurations"], "every non-silent signal, sampling rate and FFT size",
"Tests only check that keys exist or values are not None for one recording.",
[FEAT + "spfeats.py"], [("extract_feats and the spectral_* functions", FEAT + "spfeats.py")], ["extract_feats", "spectral_* functions"])

prop("C31", "Rescaling the time axis consistently rescales or preserves results",
"""Declaring the same samples to be at c times the sampling rate, with all durations divided and all frequencies multiplied by c, leaves LFCC, linear spectrograms, LPC, LPCC and constant-Q features unchanged.
Dominant frequency, pitch, spectral centroid and spread are multiplied by c, and YIN times are divided by c.""",
["inputs", "configurations"], "every signal, configuration and factor c (powers of two, so that arithmetic is exact)",
"A relation between runs at different declared rates; tests use one rate.",
[FEAT + "lfcc.py", FEAT + "lpc.py", FEAT + "cqcc.py", FEAT + "spfeats.py", FR + "*.py"], [("use of fs", FEAT)], ["lfcc", "linear_spectrogram", "lpc", "lpcc", "cqt_spectrogram", "cqcc", "get_dominant_frequencies", "compute_yin", "extract_feats"])

prop("C32", "A filter's weights sit at the FFT bins of the frequencies it is centred on",
"""Column k of every filter bank refers to the FFT bin at k*fs/nfft: each filter's largest weight lies within about one bin of its centre frequency (two to three bins for the flat-topped bark filters, one bin plus a quarter ERB for gammatone), and filters give no weight to bins clearly outside the requested band (for the banks with finite support).
Consequently a steady tone at a filter's centre, clearly separated from the neighbouring centres, excites that filter most in the corresponding spectrogram.""",
["inputs", "configurations"], "every bank kind, filter count, FFT size, rate and band wide enough to hold the filters",
"Tests use the full band or only look at value ranges, so a bank whose columns do not correspond to FFT bins is not noticed.",
[FB + "*.py"], [("frequency axis of each bank", FB)], ["bank functions", "spectrogram functions"])

prop("C33", "Plots show the given data on the right axes and leave the data alone",
"""The spectrogram plot shows 10*log10 of the magnitudes relative to their maximum, clipped below at the dynamic range, with the given time/frequency extent and the first row at the bottom; the feature plot shows the feature matrix transposed with the first coefficient at the bottom.
The filter-bank plot draws one curve per filter over the reference frequencies, marks every centre on request, and labels the second axis with the same positions converted to the bank's scale.
No plot alters its input, and given titles and labels appear.""",
["inputs", "configurations"], "every matrix, axis limits, dynamic range, bank type and option",
"Tests call the plot functions once and only check that no exception is raised.",
[UT + "vis.py"], [("show_fbanks, show_spectrogram, show_features, tick_function", UT + "vis.py")], ["matplotlib figure contents"])

prop("C34", "Every extractor returns one row per complete frame and the requested columns",
"""For every valid configuration, each cepstral extractor returns a real matrix with one row per complete frame of the signal and exactly the requested number of coefficients, spectrograms one column per filter (and magnitudes one per bin 0..nfft/2), LPC one coefficient vector and one error per frame.
Noise-like signals with energy in every band give only finite values.""",
["inputs", "configurations"], "every extractor, signal length, window, hop, FFT size, filter and coefficient count, sampling rate",
"Tests check shapes on one recording and a small grid.",
[FEAT + "*.py"], [("extractor pipelines", FEAT)], ["shapes of extractor outputs"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
