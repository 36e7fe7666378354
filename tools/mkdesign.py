#!/usr/bin/env python3-vt
"""rewrites the part of DESIGN.md below the marker line from the theorem registry and the notes here (run by hand)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("VF_REPO", "/repo")
from vf import run, harness
run.load()
NOTES = {
 "C01": "Exp/log identities are discharged by the normaliser and by z3 with instantiated monotonicity/inverse axioms; each scale is a case. Floats: only the native round trip (relative tolerance) sees rounding.",
 "C02": "Closed forms are written independently in the theorem; strict monotonicity is proved over the reals from the closed form, piecewise for Traunmueller.",
 "C03": "The `as_strided` read is an obligation: every address lies inside the signal's buffer for every N, L, H. `framing` is proved exception-exact (`raises_iff`).",
 "C04": "`pre_emphasis` against its difference equation; every extractor as a relational postcondition over two calls (filter inside = filter before, coefficient ignored when off, default 0.97).",
 "C05": "`windowing` against the five numpy windows (uninterpreted); the extractors through their full formula with the requested window, and the default window as a relational postcondition.",
 "C06": "`raises_iff` for the bounds, shapes, freedom from exceptions for all nfilts, nfft, bands; Bark conversions enter through their contract (C01, C02). Bark bins that fall exactly on a rounding border are excluded (real arithmetic).",
 "C07": "Element formula of the triangle, weights in [0, scale], support, ordering of the centres.",
 "C08": "`Fm` and the bank element by element, through the contract of hz2bark/bark2hz; the loop over filters and bins is summarised, not unrolled.",
 "C09": "Proportionality of a row to the gammatone response (cross-multiplied, so no division by the peak), non-negativity, maximum exactly 1; centres in closed form.",
 "C10": "`scale_fbank` formula and KeyError, and every bank against its constant-scale version (relational).",
 "C11": "Relational against `mel_filter_banks` with mirrored column and opposite ramp, centres included.",
 "C12": "Full formula frames -> FFT -> power -> bank, given and built banks. KNOWN FINDING: see below.",
 "C13": "Shape and `raises_iff` for the eight filter-bank extractors plus LPCC, PLP, RPLP, PNCC, CQCC. LPC-type extractors need non-singular autocorrelation (silence raises LinAlgError: precondition); CQCC needs at least one pitch and one resampled row.",
 "C14": "Full formula with the DCT as an uninterpreted function of (type, length, norm, index, row).",
 "C15": "Relational over two calls plus the energy formula.",
 "C16": "`lifter_ceps` formula for all four regimes; each extractor relationally.",
 "C17": "`normalize_ceps` formula and its consequences (zero mean, unit deviation) as lemmas; each extractor relationally.",
 "C18": "Definedness obligations (log of positive, power of non-negative or non-zero, non-zero divisor) of the complete extractor, silence included. PLP/RPLP/LPCC are excluded in the statement (matrix inverse).",
 "C19": "`lfilter` as its difference equation; formula with clamped columns; invariance lemma.",
 "C20": "`__lpc_helper` against the normal equations (matrix inverse uninterpreted: the proved postcondition is that phi is inv(toeplitz(r[:-1])) applied to -r[1:]), `lpc` per frame.",
 "C21": "Course-of-values recursion: equality of the loop's recurrence and the specification's by induction.",
 "C22": "Each stage against its recursion by induction over frames; causality follows from the recursion; non-negativity by a separate induction.",
 "C23": "`lfilter`/`lfilter_zi` as difference equations with initial state; PLP/RPLP rows through the LPC contracts.",
 "C24": "`fftconvolve` as the convolution sum; the two nested while loops of `get_pitch` through least-index (`first`) summaries. Preconditions: w_len >= tau_max >= 1, non-zero cumulative difference (a silent frame gives NaN, outside the definedness obligations; checked natively).",
 "C25": "argmax as first maximal index. The Butterworth option is outside the statement.",
 "C26": "Every write is checked against an ownership tag of the buffer (input, default argument, module constant, fresh); results must not carry an internal tag. Stateful caching introduced by a change shows up as a write to module state. The native check replays calls in different orders and compares each with the same call made in a fresh process.",
 "C27": "Pitch selection through index-selection functions (`sel`) with the lemma that a mask which is upward closed selects a tail; kernel and transform element by element; CQCC through the contract of the transform.",
 "C28": "Formula of each descriptor; level independence relationally; `extract_feats` collected values. KNOWN FINDING: see below.",
}
MARK = "<!-- generated below by tools/mkdesign.py -->"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read().replace("@@PROPS@@", MARK)
head = s.split(MARK)[0]
out = ["## How each property is decided\n"]
for l in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(l)
    c = d["id"]
    out.append("### %s %s\n" % (c, d["title"]))
    out.append(NOTES[c] + "\n")
    seen = {}
    for th in harness.REGISTRY.get(c, []):
        b = th.name.split("[")[0]
        seen.setdefault(b, [th.doc, 0])[1] += 1
    for b, (doc, n) in seen.items():
        out.append("* `%s`%s: %s" % (b, " (%d cases)" % n if n > 1 else "", doc))
    out.append("")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
open(p, "w").write(head + MARK + "\n\n" + "\n".join(out))
