"""Writes MANIFEST.json from the table below (run by hand when a property is added): python3 tools/manifest.py"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = "Generated-input search, no proof: it holds on every case which was generated, not on all. "
T = {
    # id: (deciding method, note)
    "C01": ("property-based testing: differential against an independent convolution with initial state", "Trusts numpy.convolve. Real coefficients with complex signals are outside of the property."),
    "C02": ("property-based testing: differential against the recursive difference equation", "Trusts scipy.signal.lfilter. Tolerance scales with the magnitude of the output; ill-conditioned cases are counted as trivial."),
    "C03": ("property-based testing: metamorphic relation over partitions of a signal into calls", "Compares the code with itself across partitions; C01, C02, and C08 to C19 relate outputs to independent models."),
    "C04": ("property-based testing: metamorphic and model-based relation on reset histories", "The reset of ComplexBandpassFilter and of IIR filters with zero state gain is undefined and not claimed."),
    "C05": ("property-based testing: validity predicate over generated design parameters", "Well conditioned domain: orders and frequencies for which the window can realize the constraint, stated in the generator."),
    "C06": ("property-based testing: validity predicate and differential against analogue prototypes", "Well conditioned domain stated in the generator; trusts scipy prototypes (besselap, buttap, cheb1ap)."),
    "C07": ("property-based testing: differential against the transfer function, and steady state measurement", "Delay is compared away from the extreme bins and from response zeros, where it is undefined."),
    "C08": ("property-based testing: exact polynomial oracle and enumeration of the table", "Rational arithmetic oracle for polynomials."),
    "C09": ("property-based testing: differential against a running sum, impulse invariants", "Weights are written down independently of the code."),
    "C10": ("property-based testing: model-based histories against a scalar reference model", "The limit is compared at a strict inequality exactly as documented."),
    "C11": ("property-based testing: model-based histories against exact phase accumulation", "Phase accumulation uses exact rational sums."),
    "C12": ("property-based testing: model-based histories against the LMS recursion, convergence relation", "Trusts an FFT based analytic signal oracle."),
    "C13": ("property-based testing: model-based histories against the recursion, convergence relation", "Angles are compared modulo 2 at the branch cut."),
    "C14": ("property-based testing: differential against a direct windowed DFT per block", "Tolerance grows with block length, as the recursion does."),
    "C15": ("property-based testing: polynomial oracle and metamorphic relations", "Cubic reproduction is claimed in the interior only."),
    "C16": ("property-based testing: model-based histories with an exact rational time base", "Outputs whose branch index is within rounding of a tie may use either branch."),
    "C17": ("property-based testing: sliding window reference model over histories", "Ties of magnitude accept any element of equal magnitude."),
    "C18": ("property-based testing: closed form window oracle, domain enumeration", "Closed forms are written independently of scipy.signal.get_window."),
    "C19": ("property-based testing: reference model over observation histories, history invariants", "Ties accept any maximal replacement."),
    "C20": ("property-based testing: Mahalanobis reference, metamorphic relations on training data", "Rows whose distances are equal within tolerance may be ranked either way. Determinant and prior terms are not part of the property, because the documentation does not claim them."),
    "C21": ("property-based testing: validity of rankings and one component differential", "Trusts scikit-learn's mixture fit."),
    "C22": ("property-based testing: direct DFT oracle and round trip", "Interior window zeros are excluded from recovery, as stated."),
    "C23": ("property-based testing: direct periodogram oracle and scaling relation", "Positive strides only."),
    "C24": ("property-based testing: round trip, reference cascade and filter bank invariants", "One known finding (multi-level reconstruction of styles other than Haar) is listed in known-findings.txt and replayed."),
    "C25": ("property-based testing: round trip, projection oracle, linearity", "None beyond floating point tolerance."),
    "C26": ("property-based testing: pole and zero mapping oracle, metamorphic relations", "Poles are generated apart from each other and from singularities of the mapping."),
    "C27": ("property-based testing: stateful request histories against a loopback server", "Loopback network; the server records raw requests. Trusts requests for transport."),
    "C28": ("property-based testing: stateful histories against a delivery model; generated concurrent schedules", "Thread interleavings are sampled with a short switch interval, not enumerated."),
    "C29": ("property-based testing: round trip over generated instances, independent decoding", "Equality is structural, with NaN equal to itself."),
    "C30": ("property-based testing: checkpoint inserted in generated histories, differential against the original", "Serial is exercised through its public interface only."),
    "C31": ("property-based testing: histories with caller interference, interleaved and threaded instances", "Arrays assigned to properties may be kept by reference; the polyphase bank is shared by design."),
    "C32": ("property-based testing: metamorphic relation over representations", "float32 and complex64 carry exactly representable values, within 1e-4."),
    "C33": ("property-based testing: boundary generation, histories with rejected operations against a control", "NaN and values of a wrong type are not claimed."),
}


def main():
    checks = [
        dict(
            property=k, quick_cmd=f"./check {k}", thorough_cmd=f"./check {k} --tier thorough", evidence_file=f"evidence/{k}.json",
            technique=v[0], level="exploration", level_note=COMMON + v[1],
        )
        for k, v in sorted(T.items())
    ]  # fmt: skip
    with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") as fin:
        ids = {json.loads(line)["id"] for line in fin}
    assert ids >= set(T), sorted(set(T) - ids)
    m = dict(
        version=1,
        setup_cmd="./check --selftest",
        checks=checks,
        not_applicable=[dict(property=k, reason=NOT[k]) for k in sorted(ids - set(T))],
        notes="No hooks: every check observes the public interface of the package imported from /repo's working tree. See DESIGN.md.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fout:
        json.dump(m, fout, indent=1)
        fout.write("\n")


NOT = {}

if __name__ == "__main__":
    main()
