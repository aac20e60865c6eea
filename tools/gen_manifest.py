#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks, properties.jsonl and the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from wt.checks import REGISTRY
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LA = "static analysis: the grammar-building code is abstractly interpreted into graph expressions, which are analysed as lazy automata over character classes"
AI = "static analysis: path-sensitive interprocedural abstract interpretation of the Python source"
TECH = {
 "C01": (AI + ", must-facts at every return of load", "Every path of load through all callees, symbolic file contents; loops unrolled twice; every library call may fail."),
 "C02": (AI + ", dependence analysis through injective operations, per-file fingerprint coverage", "All six constructors with symbolic options; every grammar module and named data file separately."),
 "C03": (AI + ", typestate of files and directories (written, synced, renamed)", "publish/recover_residuals with directory listings of up to two entries; each library call may fail."),
 "C04": (AI + ", lock typestate with automatically computed method effect summaries", "build_fst for all six pipelines over summaries of the bundle's methods; lock() with every library failure."),
 "C05": (AI + ", descriptor typestate", "Every public operation of the bundle on the POSIX and the Windows branch, each library call may fail."),
 "C06": (AI + ", path-provenance and no-follow must-facts at each file-system effect", "Every public operation; POSIX branch; directory listings of up to two entries."),
 "C07": (AI + ", event-order typestate over method effect summaries", "build_fst for all six pipelines, every combination of cache_dir/overwrite/lookup outcomes."),
 "C08": (AI + ", escaping-exception analysis over contents of unknown shape", "Every path of load, recover_residuals and remove_invalid; decoders may raise all their errors; shapes of parsed JSON are unknown until tested."),
 "R01": (AI + ", effect analysis: what a query writes to state that outlives it", "tag, verbalize, normalize, normalize_with_mapping of all six pipelines; graphs are opaque terms; two queries in a row."),
 "R02": (AI + " with a domain of string-automaton terms", "Every constructor/option of the six pipelines; texts are symbolic; graph construction is followed, graph contents are not."),
 "R03": (AI + " with symbolic best-path lists and a typestate of the distinct-output stream", "Path lists unrolled to a few entries; graphs opaque."),
 "R04": (AI + ", must-facts at every normal return of the mapped query", "Every path of normalize_with_mapping and its callees up to the graph operations; graphs opaque."),
 "T01": ("static analysis: character-class abstract interpretation of the parser to a fixpoint, in lockstep with a reference automaton of the wire format", "All streams of any length: characters abstracted to classes derived from the parser's own comparisons; loop states explored to a fixpoint. Blank-only streams are left undecided (both outcomes allowed)."),
 "T02": (AI + ", symbolic serialisation compared with the reference layout; span offsets as linear sums of lengths", "Values symbolic; tokens with up to 3 (thorough 5) fields over listed and unlisted keys, streams of up to 3 (thorough 5) tokens. An escaping function not recognised as a character substitution is folded on constants of up to 3 characters."),
 "L01": (AI + " with argparse modelled by its documented semantics; option tables compared with constructor signatures", "All six direction/language pairs, every spelling of every option; arguments symbolic; abbreviations of options are argparse's own and not examined."),
 "T03": (LA + "; the tagged language is parsed symbolically with the parser's grammar, and values are followed through the verbalizer to a fixpoint", "Whole language of each pipeline's tagger, values of any length; quick: default options of all six pipelines, thorough: every option combination. Weights are ignored: every reading counts, also one that never wins."),
 "G01": (LA + "; character-provenance analysis of the whole tagging transducer", "All paths of all six taggers (default options; thorough: every combination); provenance window of three characters read but not yet written."),
 "G02": (LA + "; inclusion of the reordered tagged language in the verbalizer's domain, by antichains", "Every token form, every value, every place in the stream, unbounded length; quick: default options, thorough: every option combination. Weights are ignored."),
 "G03": (LA + "; universality of the tagger's domain, identity of the last-resort rule, constant costs read off the classifier expression", "All texts of any length without U+0000; quick: default options, thorough: every option combination."),
 "G04": (AI + ": ownership analysis at every in-place graph operation and attribute store; graph expressions compared across construction histories", "All constructor code reached by the six pipelines; histories of one earlier pipeline (all ordered pairs, plus every single option flipped; thorough: every option combination)."),
 "D01": (AI + " collecting every resource each builder opens; lints over those files, the packaging patterns and the import graph", "All option combinations of all six pipelines; the packaging rules of pyproject.toml as setuptools documents them."),
 "G05": (LA + "; the graphs built with and without each option are restricted to probe languages and compared", "All options of the four option-taking pipelines: the defaults, each single flip and all flipped (thorough: every combination). Weights are not compared."),
 "D02": (AI + " to find the tables the grammars open and how; lints over every row with an independent reading of Chinese, Japanese and English numerals", "Every row of every table whose two columns both denote numbers, over all option combinations of all six pipelines."),
 "L02": (AI + ", output stream typestate over symbolic lines", "Streams of six lines whose middle is unknown and whose ends hold every line ending and visible blanks; the processor is opaque and may fail at every line."),
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    na = json.load(open(os.path.join(HERE, "tools", "not_applicable.json"), encoding="utf-8"))
    checks, out_na = [], []
    for p in props:
        pid = p["id"]
        if pid in REGISTRY:
            t, n = TECH[pid]
            checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                           "technique": t, "level": "other", "level_note": n})
        else:
            out_na.append({"property": pid, "reason": na.get(pid, "no check has been built for this property yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": out_na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
