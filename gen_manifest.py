#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
DFS = "stateless model checking of the real code: exhaustive depth-first exploration of every choice sequence within the bounds, against a reference model"
BFS = "explicit-state model checking of the real code: exhaustive operation sequences with canonical-state pruning, lock-step with a reference model"
FLT = "exhaustive fault enumeration on the real code under a controlled explorer"
T = {
 "C01": (DFS, "Every sequence of a 5-value alphabet with every division into calls up to the bound, every next value after chosen histories, and all listed call shapes and signals are run and compared bit-exactly with a 16-bit model; longer recordings and other values are covered only through those families."),
 "C02": (DFS, "All levels, call shapes and signals listed; error bound checked on every sample. Trusts the families to reach each code path."),
 "C03": (DFS, "All buffer-size sequences to the depth bound on each recording, with sentinel-filled buffers."),
 "C04": (DFS, "All listed recordings crossed with all states at the moment of saving."),
 "C05": (DFS, "Every millisecond target of each recording (and far ones) after every short history."),
 "C06": (DFS, "All pairs and chains of the listed recordings and rewind methods; compared with a fresh codec, samples and files."),
 "C07": (DFS, "All short histories and growing recordings; bound compared with an actual save after each step."),
 "C08": (FLT, "Every prefix and every single changed byte of the listed files, and pairs of structural fields; memory limit and hang watch. Damage of three or more fields is not enumerated."),
 "C09": (DFS, "All lengths, channel counts and rates listed, judged by an independent RIFF parser."),
 "C10": (DFS, "All chunk sequences up to the bound, all fmt sizes and data lengths listed, built by an independent writer."),
 "C11": (DFS, "All operation sequences to the depth bound with argument menus around every boundary, lock-step with a vector-and-cursor model."),
 "C12": (FLT, "All sequences of transfer outcomes with up to the bound of deviations, all fixed split sizes, and every failing position."),
 "C13": (FLT, "Every prefix; every header byte with all 256 values; pairs of header fields."),
 "C14": (DFS, "The real binary on every listed set and order of inputs, level and thread count, in a scratch directory; the operating system's thread schedules inside one run are not controlled, only the number of workers."),
 "C15": (DFS, "Golden files of 0.1.3; an independent writer with every parameter and bookkeeping state; files written now read by an independent decoder."),
 "C16": (DFS, "Every frame of every explored recording is re-costed under all parameters from independently decoded samples."),
 "C17": (BFS, "All operation sequences to the depth bound from all 128 alignments over three backgrounds; every history of writes, reads, peeks, seeks, clears and serializations to the depth bound against a list of fields; the complete Rice table of values and parameters."),
 "C18": (DFS, "All interleavings of complete calls of two or three scripts, on one thread and on one thread per instance under a hand-off scheduler. Preemption inside a call: a call is preempted before each of its accesses to static memory (found by page protection and single-stepping; there are none on the current tree, so calls commute) by every other such call, and at every operation of a reader or writer."),
 "C19": (BFS, "All operation sequences to the bound with pruning, and all element counts around storage words."),
 "C20": (BFS, "All operation sequences to the bound with pruning for small capacities and key sets."),
 "C21": (BFS, "All operation sequences to the bound with pruning, including by-handle operations."),
 "C22": (BFS, "All operation sequences to the bound with pruning, all listed capacities."),
 "C23": (DFS, "Complete: all 65536 16-bit values and all 2^32 float bit patterns through a wav stream."),
 "C24": (DFS, "Complete cycle of the generator from every state; a grid of triples; all signal and kernel shapes and small contents, all pairs of lengths in the resampler, in the bound."),
 "C25": (DFS, "Every sequence of configuring steps from a menu of ten on a new codec, every one or two on a used codec after every rewind, and every placement of up to three repeated settings; compared with a codec configured directly."),
 "C26": (DFS, "Every legal history to the depth bound from a menu of eight calls, with every look at every place and one look everywhere, compared call by call with the history without looks."),
 "C28": (DFS, "Every sequence of recordings and foreign data to the length bound from the listed menu, saved into and loaded from one stream under three transfer sizes; every listed position inside existing content."),
 "C29": (DFS, "Every listed shape of recording and call, each at six or more doubling sizes; steps are counted by instrumentation of every basic block plus copied bytes. A doubling may cost at most 2.8 times as much, so work that grows with a power below about 1.5 in the sizes explored passes."),
 "C30": (DFS, "Every history of the listed menus to the length bound, run in three builds (with checks, for release, on wasm32 under node) through the public interface and compared step by step; the tool's release build against the one with checks on the listed inputs. Other 32-bit and big-endian targets are not run; a damaged file may be taken by wasm32 where 64-bit builds refuse it."),
 "C31": (DFS, "Every history of the small menus runs in Miri (bounds, initialisation, alignment, validity, aliasing by Stacked Borrows), every one of the larger menus in a native build with AddressSanitizer. What Miri does not support is not explored; the command line tool is not part of it (it has no unsafe code and runs no threads of its own)."),
 "C27": (DFS, "Every cycle of calls to the length bound from a menu of twelve, repeated 36 times; recordings of all listed shapes, measured by a counting allocator on the exploring thread. The constants of proportion are generous."),
}
LEVEL = {"C08": "fault_enumeration", "C12": "fault_enumeration", "C13": "fault_enumeration"}
checks = []
for k, (tech, note) in sorted(T.items()):
    checks.append({"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
                   "evidence_file": f"evidence/{k}.json", "technique": tech, "level": LEVEL.get(k, "model_checking"), "level_note": note})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(mc_hooks)", "enable": "RUSTFLAGS=\"--cfg mc_hooks\"", "source_commits": hook},
     "checks": checks, "not_applicable": [],
     "notes": "Replay a violation with ./check.sh Cxx --replay FILE. Known findings and fixes: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
