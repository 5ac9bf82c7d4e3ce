#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below."""
import json, os
T = "TLA+ specification checked with TLC; "
CLAIMED = {
 "C01": (T + "transducer tables exported by TLC stepped against every call; trace validation", "TLC shows the specification's transducer equals RFC 4648 (bounded words, every byte pair); the transducer, complete for all states and bytes, is then the oracle for millions of real calls per codec and architecture (exhaustive per byte value and position, per 12-bit pair and lane, per 24-bit group, all lengths to a bound, sampled beyond). Assumes lengths beyond the bound behave as sampled; qemu stands in for ARM and s390x hardware."),
 "C02": (T + "all cut points and pending states replayed against the exported transducer; trace validation", "Model: all chunkings of all short words. Code: every 2-way cut of every length to a bound, all 3-way cuts of selected lengths, every pending state before every chunk length, random cuts; judged call by call. Bounded lengths."),
 "C03": (T + "encoder x decoder product proved by exhaustive search; exported transducer against the real decoder", "The round trip is proved for the specification for all inputs (513 product states x 256 bytes). The code is bound to it by exhaustive character/position, quantum and padding sweeps per codec and architecture."),
 "C04": (T + "acceptance proved against the declarative grammar on bounded words; exported transducer against the real decoder", "All 256 byte values at every position of several lengths, all class strings after k valid quanta, random damage; per codec and architecture. Bounded lengths."),
 "C05": (T + "chunked decoding state machine; all chunkings replayed against the exported transducer; trace validation", "Model: all chunkings of all class words up to 7 characters. Code: the same and longer ones on every codec, every decoder state before every chunk length."),
 "C06": (T + "closed states are absorbing (action property); every way of closing and continuing replayed", "Model: action property on all histories in bounds. Code: every closing character from every phase followed by every character, long continuations, re-initialisation, per codec."),
 "C07": (T + "process-wide selection as a spec variable; call sequences with codec switches between calls replayed and trace-validated", "Random call sequences with a random codec per call, hostile inputs on all codecs; bounded sequences."),
 "C08": (T + "every CPUID/XCR0 configuration on a model of the choice, exported to and replayed on emulated CPUs", "Model: all combinations of the CPU's and the operating system's feature bits x compiled-in codecs, with broken variants refuted. Code: the real choice executed with CPUID and XGETBV emulated by trapping, one process per configuration, and on qemu's CPU models; the codec entered is observed at the linker. The leaf structure beyond what the specification names (maximum leaf, hypervisor leaves) is sampled."),
 "C09": (T + "interleavings of concurrent first uses; every instruction-granular single-preemption schedule replayed on the real library by single-stepping", "Model: all interleavings of three threads at the accesses to the shared choice. Code: thread B runs wholly at every instruction boundary of thread A's calls (and, for pairs of calls, A continues inside B), outcomes compared with those the specification allows; plus stress. Sequentially consistent schedules; weak memory is outside the model."),
 "C10": (T + "thread interleavings of the parallel algorithm, old design refuted; parallel runs trace-validated against the serial transducer", "Model: all interleavings of 1-3 threads' parts on all class words of the instance sizes. Code: all class words and damage at every part boundary for 1-24 threads, real and lowered threshold, injected delays; validated against the serial specification."),
 "C11": (T + "capacity of each call computed from the exported transducer; guard pages on every buffer", "Every length to a bound x phase x content class x codec with guard pages on both sides, read-only source, canaries, heap wraps. Bounded lengths; memory that is only read inside mapped pages beyond the guard distance is not seen."),
 "C12": (T + "multi-handle state machine with isolation as an action property; random interleavings trace-validated", "Model: all interleavings of two handles in bounds. Code: random interleavings of up to six handles with copies and moves of the state structure."),
 "C13": (T + "wrapping transducer proved against its declarative definition, block pipeline with a nondeterministic kernel refining it; exported oracle and trace validation against real runs", "Model: all lengths to 11 bytes x widths 0..5 x all block splits and partial writes, with broken variants refuted. Code: every short length and width, lengths around full vector arrays and around the internal block, files and pipes, four architectures; runs beyond the bounds are sampled."),
 "C14": (T + "tokenising pipeline model-checked against filter-then-decode; exported oracle and trace validation against real runs", "Model: all class words to 5 characters x modes x block splits. Code: all class words to 5 characters, every byte value, damage at and next to internal block boundaries, more than a block of skipped characters; sampled beyond."),
 "C15": (T + "the pipeline under all kernel outcomes refines the I/O specification; TLC-exported kernel schedules replayed on the real tool by deciding its system calls; system-call traces validated", "Model: every partial, zero, interrupted or failed call with up to two faults, ten broken variants refuted. Code: all write schedules of depth 3 (thorough 4) and read schedules of depth 2 applied from several positions on, on 15 kinds of run, without relying on how the tool issues its writes; plus real full devices, limits, resets and refused memory."),
 "C16": (T + "argument vectors enumerated with their meanings on a getopt_long model and replayed on the real tool", "All vectors of up to 2 arguments over 42 tokens and of 3 over 26, with and without POSIXLY_CORRECT; vectors of four and more arguments are not covered."),
 "C17": (T + "all flag sequences on the selection state machine; exported selection relation and trace validation from a process's first call on", "Model: all sequences over eleven flag values on three builds. Code: every combination of the force flags as a process's first flags through each of four entry points, random sequences after; eleven builds with different codecs compiled in."),
 "C18": (T + "table contents derived from the code in TLA+; every entry of every table dumped from builds and generators judged by TLC", "Complete: every entry of every table of lib/tables, from builds of both byte orders and word sizes and as printed by the generators on and for both byte orders; the derivation is itself proved against RFC 4648 for all pairs of neighbouring sextets; in addition every entry is exercised through the codecs. Tables that no longer exist under their names are only seen through the codecs."),
 "C19": (T + "length arithmetic on digit sequences; probe lengths shown adequate by TLC against narrowed quantities; real calls of up to 8.6 GB judged by TLC", "Model: every way of narrowing one quantity of the length computation is noticed at the chosen lengths (scaled word size). Code: those lengths on every x86 codec, one-shot and chunked, and OpenMP; the contents repeat with a fixed period; other 64-bit architectures in the thorough tier only."),
}
NA = {}
def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                         technique=CLAIMED[p][0], level="model_checking", level_note=CLAIMED[p][1]) for p in props if p in CLAIMED],
         "not_applicable": [dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in CLAIMED],
         "notes": "No hooks in /repo: every observation is made at the public API, at the linker (wraps), at the system-call boundary or by single-stepping. Known findings: KNOWN_FINDINGS.txt."}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
