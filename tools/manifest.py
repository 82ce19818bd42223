#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "stateless model checking of the real code: exhaustive enumeration within stated bounds against an independent reference model"
note = {
"C01": ("exhaustive enumeration of encoding choices within bounds; each execution of the real decoder compared with the encoded PCM", "Every combination named in the evidence was decoded by the real code and equalled the encoded samples. Trusts the harness encoder (written from the format description, cross-checked by an independent reference decoder and the repository's test files). Sample contents beyond the enumerated sequences and lattices are not covered."),
"C02": ("exhaustive enumeration of short inputs from many parser states, with overflow and debug checks on", "No panic, abort or endless reading on any enumerated input, with overflow checks, debug assertions and UB checks enabled, under a supervising process. Long arbitrary inputs are covered only as changes and continuations of structured prefixes."),
"C03": ("exhaustive enumeration of damage patterns (bursts, bytes, bit pairs, checksums) against a reference decoder", "For the victims listed in the evidence every damage of the stated shape is tried. Burst and single-bit detection carries over to other frames by linearity of the checksums, which all-contents families probe but do not prove."),
"C04": ("enumeration of every crash (cut) point over a set of streams and interfaces", "Every cut position of 237 streams covering every coding tool and metadata type, through all interfaces. Streams are small (up to 20 kB)."),
"C05": ("exhaustive enumeration of source schedules (how bytes are split over reads)", "All uniform splits, all pairs of cut points, all compositions of small inputs, all alignments to the internal buffer; results equal the expected ones. Schedules with three or more irregular cuts in long streams only as repeating patterns."),
"C06": ("fault enumeration: an error injected at every read of the source x kind x continuation", "Every read of every stream fails once, with 15 error kinds, transient and persistent. One fault per run (two in the byte-level families' retries)."),
"C07": ("differential exploration: all buffer shapes, two fillings of buffers and of fresh memory", "Equality of results under differing leftovers in buffers and freshly allocated memory, on well-formed, damaged-but-accepted and short arbitrary inputs. Memory poisoning covers heap memory, not the stack."),
"C08": ("exhaustive enumeration of call sequences against a cursor model", "All call sequences of the stated depth on 6 streams; iterators and accessors on 237 streams."),
"C09": ("exhaustive enumeration of coded numbers and stream shapes against exact arithmetic", "All coded-number lengths and power-of-two neighbourhoods in 36 bits, dense ranges, all block sizes. A reader re-created in the middle of a fixed-blocksize stream at its shorter last block is left out (the library has no way to know the stream's block size)."),
"C10": ("exhaustive enumeration of frame header bit patterns against a reference parser", "All values of each header field, all pairs of header bytes 1-2 and 3-4, all one- and two-bit changes. Codings that the format is ambiguous about (overlong numbers) are only required to be handled consistently."),
"C11": ("exhaustive enumeration of subframe headers and parameters against the rule table", "All header bytes, all parameters of every subframe type over a range of block sizes, defects planted in every channel position."),
"C12": ("exhaustive enumeration per field and pairwise against a reference parse", "All values of the smaller fields, all pairs of adjacent bytes, lattices for 24- and 36-bit fields."),
"C13": ("exhaustive enumeration of small comment blocks and their off-by-one variants against a reference parse", "All token sequences and structures within the stated bounds. Comments that are well formed only under a laxer reading of the format are left open."),
"C14": ("exhaustive enumeration of tag lists and lookups against a filter model", "All lists within the stated bounds over an alphabet chosen to include every boundary of ASCII case folding; every single character up to U+017F."),
"C15": ("exhaustive enumeration of metadata block sequences against a reference walk", "All sequences of up to 4 or 5 blocks over up to 18 kinds, alignments to the internal buffer."),
"C16": ("exhaustive enumeration of block sequences x options x truncation against a reference walk", "All sequences of up to 3 or 4 blocks over 12 kinds under all four options. Whether an ill-formed comment block is an error when tags were not asked for is left open."),
"C17": ("exhaustive enumeration of declared lengths and counts with a counting allocator", "Measured allocations of the real code stay within the stated bounds for every enumerated claim. Slack: 512 bytes for error values, 16 KiB for the reader's own input buffer."),
"C18": ("explicit exploration of the bit reader's state graph and of all call sequences to a depth against a bit list", "Every reachable reader state (bit offset x pending bits) x call x next bytes; sequences of up to 5 calls."),
"C19": ("exhaustive enumeration of call sequences x source schedules against a byte queue", "All call sequences to depth 5, all positions around internal buffer boundaries."),
"C20": ("exploration of all interleavings of two decoders: merges of calls, nesting in source reads, preemption-bounded threads under a controlled scheduler, interruption between machine instructions", "All merges of calls of two readers; decoding nested into each source read; two threads with up to 3 preemptions at source reads. A complete second decoding between every two instructions of the first for all pairs of 14 small inputs (single-stepping), also as the first two decodings of a process. Finer interleavings of both sides at instruction level are not explored."),
"C21": ("exhaustive enumeration of items x source schedules with a byte-counting source", "For every item of 237 streams the source is asked for no byte beyond it when bytes arrive one at a time or in the stated pieces."),
"C22": ("exhaustive enumeration of defects and faults x calls beyond the failure", "Every kind of defect at every byte, every failing read; 6 calls beyond. What follows a damaged frame is not compared in value."),
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    tech, ln = note[i]
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
        "technique": "stateless model checking of the real code: " + tech, "level": "fault_enumeration" if i in ("C04", "C06") else "model_checking", "level_note": ln})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": [], "notes": "No hooks in /repo: everything is driven through the public API. Repairs of genuine defects are listed in known_findings.jsonl."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
