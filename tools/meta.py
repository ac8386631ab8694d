#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, spec, note, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                           "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None},
                  _spec=spec, _note=note))


NOTEST = "The only existing test is a demonstration program without assertions that passes when it ends with status 0; "

prop("C01", "Tapped delay line returns exactly the last n samples in order",
     "For every line length n >= 1, initial value and history of insertions, flushes and re-setups, the delayed sample at every index 0..n-1 is the sample inserted that many steps ago (the initial or flush value before that), and the oldest, most recent, at-index and subscript accessors agree with it. Subscript -1 is the oldest sample, any other subscript outside the line is NaN, and no access leaves the storage the user supplied.",
     ["inputs", "histories", "configurations"], "all lengths n >= 1 and all finite histories of insert / flush / setup with all sample values",
     NOTEST + "it inserts one short sequence into one line of one length.",
     ["src/include/tdl.hpp", "src/tdl.cpp"], [("circular buffer with wrap-around of write and read positions", "src/tdl.cpp")],
     ["TDL", "TDLRing", "TDLMC", "TDLTrace"],
     "TLC shows on every history up to length 7 (n<=4) that the ring buffer implements the abstract shift register; those same histories and random histories up to n=100 (quick) / 500 (thorough) are executed in the real class under AddressSanitizer and every recorded event must be a step of the specification.",
     state=[("rb", "most recent position", "tdl"), ("wr", "oldest position", "tdl")], observe=["tdl::operator[]", "tdl::getOldest", "tdl::getRecent", "tdl::getAtIndex"])
prop("C02", "Bit-field operations touch exactly the addressed bits of the field",
     "For every field size, index, width 1..32 and value, set/clear/toggle/write and the n-bit and float reads and writes change exactly the addressed bits and return exactly the bits a bit-vector would hold (the part of an item beyond the end of the field is not stored and reads as zero), and dump copies the first n bytes of the field and nothing else. A request whose first bit lies outside the field, whose width is not 1..32, or that is made on an unset field is refused without changing any bit and without touching memory outside the storage.",
     ["inputs", "histories", "configurations"], "all field sizes, all indexes/widths (including out of range ones) and all operation histories",
     NOTEST + "it performs one sequence on one field size.",
     ["src/include/bitfield.hpp", "src/bitfield.cpp"], [("slot/mask arithmetic", "src/bitfield.cpp"), ("index range guards", "src/bitfield.cpp")],
     ["BitField", "BitFieldMC", "BitFieldTrace"],
     "The bit-vector specification is explored exhaustively on small fields; generated and random histories on fields of 1..300 bits run in the real code under AddressSanitizer with the complete field contents logged after each operation and compared by TLC.",
     observe=["bitfield::readBit", "bitfield::readUINTn", "bitfield::dump"])
prop("C03", "CRC equals the parametrised polynomial remainder for any message",
     "For every width (8, 16, 32), polynomial, initial value, input/output reflection, final xor and non-empty message of any length, the computed CRC equals the bit-serial polynomial-division definition, using only the low width bits of the parameters. Every named variant is the generic computation with its published parameters, and a null or empty message or an unknown mode gives zero.",
     ["inputs", "histories", "configurations"], "all messages of all lengths, all parameter sets of widths 8/16/32, all named variants",
     NOTEST + "the CRC unit is barely exercised with fixed data.",
     ["src/include/crc.hpp", "src/crc.cpp"], [("shift register update per byte with reflection", "src/crc.cpp")],
     ["CRC", "CRCMC", "CRCTrace"],
     "TLA+ bit-serial polynomial division is the oracle; that the register computes the GF(2) remainder and detects bursts is model checked for small registers, and the catalogue is anchored at the published check values; the real implementation is replayed on every named variant and on random parameter sets and messages (lengths 0 to >65536).")
prop("C04", "fp16 arithmetic is the correctly rounded exact result or overflow",
     "For all Q16.16 operands, addition, subtraction, multiplication and division (and their compound-assignment, increment and decrement forms) give the exact rational result rounded to the nearest representable value, ties away from zero, and the overflow marker exactly when that is not representable or the divisor is zero. Comparisons order values as the real numbers they denote.",
     ["inputs"], "all pairs of 32-bit raw operands",
     NOTEST + "it prints a handful of fp16 expressions.",
     ["src/include/fp16.hpp", "src/fp16.cpp"], [("overflow detection in add/sub/mul/div", "src/fp16.cpp")],
     ["FP16", "FP16Alg", "FP16Trace"],
     "A scaled-down fixed-point machine is model checked exhaustively against exact rationals; boundary-directed and random 32-bit operands are executed in the real code and each result must be the one exact rational arithmetic determines.")
prop("C05", "fp16 conversions, rounding and text output are exact",
     "For every value, conversions from and to int, float and double, floor, ceil, rounding, absolute value and negation give the mathematically determined value (nearest, ties away from zero, where rounding is needed), and a result that is not representable is the overflow marker. The decimal text with d digits (0..5) is the correctly rounded value, with sign, or the word overflow for the marker, and the named constants and literals are the nearest representable values.",
     ["inputs"], "all 32-bit raw values, all int / float / double inputs, all decimal counts",
     NOTEST + "it prints some values.",
     ["src/include/fp16.hpp", "src/fp16.cpp"], [("scaling and rounding on conversion", "src/fp16.cpp"), ("digit generation", "src/fp16.cpp")],
     ["FP16", "FP16Alg", "FP16Trace"],
     "Exact-rational oracle in TLA+; boundary lattice plus random values through the real code.")
prop("C06", "fp16 elementary functions stay within a stated error of the true function",
     "For every representable argument in the domain, sqrt, exp, log, log2, sin, cos, tan, atan, atan2, asin, acos, sinh, cosh, tanh and pow return a value within a small fixed bound (a few LSB, 0.0035% for the exponentials, 0.0104 rad for the inverse trigonometric functions) of the true real function, with the correct sign and quadrant. Arguments outside the domain of sqrt and the logarithms give the overflow marker, the exponentials saturate, and angle wrapping and degree/radian conversion return an equivalent angle in the stated interval.",
     ["inputs"], "all 32-bit raw arguments (pairs for atan2, pow)",
     NOTEST + "it prints some values at hand picked arguments.",
     ["src/fp16.cpp"], [("series / CORDIC-like evaluation with range reduction", "src/fp16.cpp")],
     ["FP16", "FP16Alg", "FP16Trace"],
     "The oracle computes the functions with 60+ bits in the Num module; bounds were set from the algorithms (listed in DESIGN.md) and hold over the sampled lattice and random arguments.")
prop("C07", "Integral and derivative states implement the selected quadrature rule",
     "For every input history and selected method the integral state returns the running quadrature of that rule (rectangular, trapezoidal, Simpson, quadratic) and the derivative state the selected difference quotient, starting from the given initial condition. The stored sample history advances by exactly one per update when update is requested and not otherwise.",
     ["inputs", "histories", "configurations"], "all input sequences, step sizes, methods, initial conditions",
     NOTEST + "states are only used indirectly.",
     ["src/include/numa.hpp", "src/numa.cpp"], [("state x[3] and rule formulas", "src/numa.cpp")],
     ["Numa", "NumaMC", "NumaTrace"],
     "Exactness of the rules on polynomials is model checked; random histories of the real class are matched step by step to the rule with float tolerance.")
prop("C08", "Recursive smoothing filters follow their difference equation",
     "For every accepted configuration and every input history each recursive filter (first and second order low pass, exponentially weighted, scalar Kalman, double exponential, adaptive linear) returns the value its recurrence determines from the samples since the last start, the first sample initialising its memory. A constant input passes unchanged (except through the forecasting double exponential filter) and the first order, exponentially weighted and Kalman filters never leave the range of their inputs.",
     ["inputs", "histories", "configurations"], "all sample histories, all accepted parameters, sizes and window/weight arrays",
     NOTEST + "it never runs the smoothers against a reference.",
     ["src/include/smoother.hpp", "src/smoother.cpp"], [("recurrences", "src/smoother.cpp")],
     ["Smoother", "SmootherMC", "SmootherTrace"],
     "Laws are model checked on all short histories; the same histories and long random ones run in the real filters and each output must be the recurrence applied to the observed history, within a rounding tolerance.")
prop("C09", "Window smoothing filters depend exactly on the last n samples",
     "For every window length and input history the moving-average, outlier-removal and Gaussian window filters return the mean / replacement / weighted sum of exactly the last n samples (the first sample filling the window initially), and the O(1) variants return what the O(n) variants return. No access leaves the user supplied window.",
     ["inputs", "histories", "configurations"], "all window lengths, thresholds and sample histories",
     NOTEST + "it never runs the smoothers against a reference.",
     ["src/include/smoother.hpp", "src/smoother.cpp"], [("window shift / circular window with running sum", "src/smoother.cpp")],
     ["Smoother", "SmootherMC", "SmootherTrace"],
     "As C08, with windows allocated exactly and guarded by AddressSanitizer.")
prop("C10", "Smoother setup validates, and reset or re-setup forgets all history",
     "For every filter kind, setup succeeds exactly for parameters in the documented ranges with non-null storage, and a refused setup leaves the running filter working as before. After reset or a new setup the filter behaves exactly like a freshly configured one fed with the same samples.",
     ["inputs", "histories", "configurations"], "all interleavings of setup (valid and invalid), reset and samples, for every filter kind",
     NOTEST + "no reset or refused setup occurs in it.",
     ["src/include/smoother.hpp", "src/smoother.cpp"], [("init flag", "src/smoother.cpp"), ("parameter guards", "src/smoother.cpp")],
     ["Smoother", "SmootherMC", "SmootherTrace"],
     "Random interleavings of valid/invalid setups, resets and samples of every filter kind, judged by the same specification.")

exec(open(os.path.join(V, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta2.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 run_check.py %s quick" % p["id"], "thorough_cmd": "python3 run_check.py %s thorough" % p["id"],
                   "technique": "TLA+ specification (%s) checked with TLC; spec behaviours replayed in the real code and recorded traces validated by TLC" % ", ".join(p["_spec"]),
                   "level": "model_checking", "level_note": p["_note"] + " Trusted: TLC, the exact-rational operators of Num.java, the driver's logging."} for p in P if p["id"] not in [n["property"] for n in NA]],
       "not_applicable": NA, "notes": "No hooks: the drivers use the public API only, so no guard is needed. Known findings and fixed defects: KNOWN_FINDINGS.txt."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
