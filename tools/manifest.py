"""Writes MANIFEST.json."""
import json
TRUST = ("Exhaustive only within the model's bounds; the real code is judged on the executions explored. Trusted: TLC, the Go "
         "toolchain, the JSON recorder and the Unicode data files in spec/data.")
N = {
 'C01': ("TLA+ width/escape model checked with TLC; recorded widths of the real code validated against it", "Model: all texts of up to 4 characters over 10 characters. Real code: every text over small alphabets up to a length, seeded, boundary and very long texts, both configurations."),
 'C02': ("TLA+ LRU cache model (TLC, all histories) and trace validation of long measuring histories", "Histories of up to several cache capacities with near-duplicates, empty, zero-width and huge texts."),
 'C03': ("TLA+ alignment model; recorded alignments validated by TLC", "All widths around the text width and extremes 0..65535 for generated texts."),
 'C04': ("TLA+ table state machine (TLC); behaviours generated from it replayed, recorded histories validated", "All histories of the bounded machine; random and TLC-simulated longer histories on the real tables."),
 'C05': ("TLA+ table state machine (TLC); behaviours generated from it replayed, recorded histories validated", "As C04, with the rows given and returned compared by the specification."),
 'C06': ("TLA+ header model (TLC); generated and exhaustive header cases validated", "Title/short-title/width combinations around each threshold."),
 'C07': ("TLA+ table state machine (TLC) with failing getters; replay and trace validation", "Every failing position of small tables; rows kept and compared after later operations."),
 'C08': ("TLA+ merge model (TLC); all small layouts enumerated by TLC replayed, recorded outputs validated", "All layouts of the bounded model and seeded larger ones."),
 'C09': ("TLA+ merge model (TLC); all small layouts enumerated by TLC replayed, recorded outputs validated", "All layouts of the bounded model and seeded larger ones."),
 'C10': ("TLA+ merge model (TLC); all small layouts enumerated by TLC replayed, recorded outputs validated", "Maximum widths from negative to huge."),
 'C11': ("TLA+ merge model (TLC); all small layouts enumerated by TLC replayed, recorded outputs validated", "Cell offsets computed by the specification from the bytes written."),
 'C12': ("TLA+ merge model (TLC); all small layouts enumerated by TLC replayed, recorded outputs validated", "Number of groups and group widths compared with the specified search."),
 'C13': ("TLA+ merge model with termination (TLC); extreme inputs driven with step/time limits and validated", "A run is only judged endless after many times the usual time and element accesses, twice."),
 'C14': ("TLA+ merge model with writer faults (TLC); every failing write replayed and validated", "Every write of each case made to fail, with none, part or all of the data accepted."),
 'C15': ("TLA+ merge model (TLC); all small layouts enumerated by TLC replayed, recorded outputs validated", "Byte-exact output and unchanged items."),
 'C16': ("TLA+ grapheme automaton (TLC, all short class sequences); iterator traces validated step by step", "Byte strings including invalid UTF-8."),
 'C17': ("TLA+ statement of GB3-GB13 model checked against a streaming automaton; real segmentation validated", "All class sequences up to length 5 (6 thorough); every code point's class; long runs."),
 'C18': ("TLA+ width rules evaluated by TLC against all code point widths recorded from the real code", "Exhaustive over all 1114112 code points and samples outside, four configurations."),
 'C19': ("TLA+ condition state machine (TLC); generated and recorded histories validated", "All histories of up to 6 (7) operations in the model; every code point compared after builds."),
 'C20': ("TLA+ cluster-sum model (TLC); recorded string widths validated", "Four configurations with and without lookup table, package-level and method."),
 'C21': ("TLA+ locale model (TLC); recorded decisions for enumerated locale names and variable combinations validated", "Names with newlines or non-ASCII letters are left out."),
 'C22': ("TLA+ start-up model (TLC); fresh processes started per environment and validated", "POSIX build only."),
 'C23': ("TLA+ cluster width rules; recorded step results validated by TLC", "Every code point alone, class sequences, runs, stepping from every position."),
 'C24': ("TLA+ model of threads sharing the cache (TLC, all interleavings); race-detector runs whose results TLC validates", "Schedules of the real code are sampled, with the race detector on; the model's are exhaustive."),
 'C25': ("TLA+ bounded cache model (TLC); live heap along histories of the real code validated against the bound", "Heap readings after forced collection, with a generous threshold."),
 'C26': ("TLA+ table state machine (TLC); behaviours generated from it replayed, recorded histories validated", "As C04, with columns, lookups and total widths compared after every operation."),
 'C27': ("TLA+ table state machine (TLC); behaviours generated from it replayed, recorded histories validated", "As C04, several tables and specifications observed after every operation."),
}
checks = [dict(property=k, quick_cmd='python3 check.py %s' % k, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % k,
               technique=t, level='model_checking', level_note=n + ' ' + TRUST) for k, (t, n) in sorted(N.items())]
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[],
               notes='Specification language: TLA+ (TLC). No hooks in /repo: the harness uses its public API. Repaired defects: known-findings.txt.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
