#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after adding a check)."""
import json
import os

DEC = ("trace validation: recorded calls of generated decoders are behaviours of the TLA+ decoder machine (XdrDecoder/Trace), judged by TLC")
NOTES = {
    "C01": (DEC, "Every token of the decoded value is matched by TLC against the TLA+ decoder machine, for catalogued, enumerated (XdrAtlas) and random specifications, for encoded values and for behaviours enumerated from the specification (XdrGen); bounded by what is generated. Trusts rustc, TLC and the walker that prints values."),
    "C02": (DEC, "wire_size() of every decoded value is compared by TLC with the machine's size of the same value and with the bytes consumed. Bounded by the generated specifications and values."),
    "C03": (DEC, "Both families, trailing bytes, offsets inside larger allocations, compared by the judge for every generated input. Bounded by the generated inputs."),
    "C04": (DEC, "Any panic, abort or hang of a decoder on any generated input is a violation: every prefix, steered and random words, long chains, sweeps of whole word ranges (XdrSweep; all 2^32 words of some places in thorough). Bounded by the generated inputs. Stack use per list link is a recorded finding."),
    "C05": (DEC, "Accept/InvalidLength is decided by the machine for maxima (max-1, max, max+1, 2^31, 2^32-1), sweeps of length and count words (XdrSweep) and every prefix of generated encodings. Bounded by the generated inputs."),
    "C06": (DEC, "Error variants and the selected arm are decided by the machine for every label and member and for undeclared values; sweeps of discriminant, enum, bool and marker words (XdrSweep; all 2^32 of some in thorough). Bounded by the generated inputs."),
    "C08": (DEC, "Each opaque payload's offset in the input is a token; the machine says where it must be. Bounded by the generated inputs."),
    "C09": (DEC, "Bytes requested are counted by a global allocator and compared with a linear bound for hostile counts, including sweeps of count words (XdrSweep). Bounded by the generated inputs."),
}
NOTES["C10"] = ("model-based test generation: every behaviour TLC enumerates from the TLA+ reader contracts is replayed into the readers, results compared",
    "Exhaustive over the bounded inputs of XdrReaders (buffer shapes, counts, maxima, paddings, word classes) for each public reader, and over all 2^32 words for the boolean; bounded in buffer length.")
NOTES["C12"] = ("trace validation: the TLA+ grammar machine (XdrGrammar) reads each text and TLC compares every declaration with what Ast shows",
    "The oracle is the PEG as data plus the meaning of each declaration, run by TLC over printed specifications in several layouts; bounded by the generated specifications.")
NOTES["C14"] = ("model-checked oracle: the TLA+ grammar machine decides accepted/rejected for each text; outcomes of Ast::new and generate are judged by TLC",
    "Corner constructs, token- and character-level mutations, random sentences, long and deep texts; panics, crashes, hangs and accepted-though-rejected texts are violations. Bounded by the generated texts.")
NOTES["C07"] = ("trace validation: the items of each generated module and what rustc says of it are read by a TLA+ ledger machine (XdrApi) that knows what every declaration owes",
    "Catalogued and random specifications under five derive lines/editions; a program naming every field, variant, element type and trait is compiled against each module. Bounded by the generated specifications; trusts rustc and syn.")
NOTES["C11"] = ("model-checked history machine (XdrPure): TLC enumerates sessions of calls, threads, layouts and orders; each is replayed on the library and outputs compared as the machine requires",
    "Every layout and order of a session must give the same items, every repeat the same bytes, in fresh processes, on a shared Generator and from threads. Bounded by the enumerated sessions and generated specifications.")
NOTES["C13"] = ("exhaustive model checking of the marking machine against reachability (XdrGenerics), and replay of every graph into Ast::generics() and the generated items",
    "All dependency graphs over at most four declarations, random ones to 40; forms of mention, names and orders of each graph are sampled (more in thorough).")
NOTES["C15"] = ("model-based testing: TLC enumerates command lines from the TLA+ machine of the binary (XdrCli); each is run and its output compared with what the library returns",
    "All argument lists of up to three files over the kinds of file the machine knows; real specification texts are sampled.")
LEVEL = {}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks = [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "python3 bin/check.py --thorough " + p,
               "technique": t, "level": LEVEL.get(p, "model_checking"), "level_note": n} for p, (t, n) in sorted(NOTES.items())]
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks,
         "not_applicable": [{"property": "C%02d" % i, "reason": "check under construction"} for i in range(1, 16) if "C%02d" % i not in NOTES],
         "notes": "The specification is in spec/ (TLA+, checked with TLC). No hooks in /repo: every check uses the public API and the binary."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
