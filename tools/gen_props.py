#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

ENC = ["lib/lib.c", "lib/arch/*/codec.c", "lib/arch/*/enc_loop*.c", "lib/arch/*/enc_reshuffle*.c", "lib/arch/*/enc_translate.c",
       "lib/arch/generic/enc_head.c", "lib/arch/generic/enc_tail.c", "lib/tables/*.h"]
DEC = ["lib/lib.c", "lib/arch/*/codec.c", "lib/arch/*/dec_loop*.c", "lib/arch/*/dec_reshuffle.c", "lib/arch/generic/dec_head.c",
       "lib/arch/generic/dec_tail.c", "lib/tables/*.h"]
ST = [("base64_state.bytes", "position inside the current 3-byte group / 4-character quantum", "include/libbase64.h"),
      ("base64_state.carry", "bits of the last byte not written yet", "include/libbase64.h"),
      ("base64_state.eof", "decoder: open, waiting for the second '=', or closed", "include/libbase64.h")]

prop("C01", "One-shot encoding is the RFC 4648 encoding",
     "For every byte string, encoding it in one call yields exactly its RFC 4648 base64 text: standard alphabet, '=' padding, no line breaks, "
     "and a reported length of 4*ceil(n/3). This holds for every codec that is compiled in, on every supported architecture and byte order.",
     ["inputs", "configurations"], "all byte strings of any length and content x all codecs (plain 32/64-bit, SSSE3, SSE4.1, SSE4.2, AVX, AVX2, AVX512, NEON32, NEON64; assembly and intrinsics)",
     "The tests encode a handful of short strings and one fixed text; vector loops only err for particular sextets in particular lanes and lengths, which samples do not reach.",
     ENC, [("bulk loops per codec", "lib/arch/*/enc_loop*.c"), ("tail and final quantum", "lib/arch/generic/enc_tail.c, lib/lib.c")], ST, ["base64_encode"])
prop("C02", "Chunked encoding equals one-shot encoding",
     "Splitting an input into chunks of any sizes, empty ones included, never changes the encoded text: after each call the characters written so far are exactly those already determined by the input so far, "
     "and the finalising call adds the rest. Each call reports exactly the number of characters it wrote.",
     ["histories", "inputs"], "all inputs x all ways of cutting them into calls x all codecs",
     "The tests stream with a few fixed block sizes; a wrong carry or phase shows only for particular pending bits followed by particular chunk lengths.",
     ENC, [("phase and carry kept between calls", "lib/arch/generic/enc_head.c, enc_tail.c"), ("trailer", "lib/lib.c base64_stream_encode_final")], ST, ["base64_stream_encode", "base64_stream_encode_final"])
prop("C03", "Well-formed base64 decodes to its bytes (round trip)",
     "Decoding any well-formed base64 text succeeds and yields exactly the bytes it stands for, so decoding the encoding of any byte string gives that byte string back, with its exact length. "
     "Non-zero unused bits in a padded last quantum are accepted and ignored.",
     ["inputs", "configurations"], "all well-formed texts of any length x all codecs and architectures",
     "The tests round-trip a few texts; table and lane errors need particular characters at particular positions.",
     DEC, [("bulk loops per codec", "lib/arch/*/dec_loop.c"), ("tail", "lib/arch/generic/dec_tail.c")], ST, ["base64_decode"])
prop("C04", "One-shot decoding accepts exactly well-formed base64",
     "Decoding in one call reports success if and only if the text consists of whole 4-character quanta of alphabet characters with '=' padding only in the last one or two places of the last quantum. "
     "Any other character anywhere, misplaced, missing or surplus padding, or an incomplete quantum is reported as an error; bytes already decoded before the error are the true ones.",
     ["inputs", "configurations"], "all character strings of any length: each of the 256 values at each position, every padding shape, every length x all codecs",
     "The tests try seven bad characters and a few truncations; classification is done per codec with lookup tables and range tricks that can fail for a single byte value in a single lane.",
     DEC, [("validity classification in the bulk loops", "lib/arch/*/dec_loop.c"), ("padding state machine", "lib/arch/generic/dec_tail.c"), ("open quantum check", "lib/lib.c base64_decode")], ST, ["base64_decode"])
prop("C05", "Chunked decoding equals one-shot decoding",
     "Splitting a text into chunks of any sizes, empty ones included and also between padding characters, never changes what is decoded: the concatenated output, the point at which an error is reported, "
     "and whether the stream is complete depend only on the characters fed so far. Until the text can no longer become well formed every call reports success.",
     ["histories", "inputs"], "all texts, valid or not, x all ways of cutting them into calls x all codecs",
     "The tests cut valid text at fixed block sizes; interactions of phase, padding, errors and chunk boundaries are a state space they sample at a few points.",
     DEC, [("decoder state between calls", "lib/arch/generic/dec_head.c, dec_tail.c")], ST, ["base64_stream_decode"])
prop("C06", "A finished or failed decoding stream stays closed",
     "Once a decoding stream has seen its complete padding or any error, every further call on it reports an error and produces no bytes, whatever and however much is offered. "
     "Only initialising it again reopens it.",
     ["histories"], "all ways of finishing or failing x all continuations x all codecs",
     "The tests stop at the first error; what happens afterwards is a temporal property over histories.",
     DEC, [("closed marker in the stream state", "lib/arch/generic/dec_head.c, dec_tail.c")], ST, ["base64_stream_decode"])
prop("C07", "Codecs are interchangeable, even in the middle of a stream",
     "All codecs give identical outputs, lengths and verdicts for identical call sequences on identical inputs, malformed ones included. "
     "Because the codec is a process-wide choice, this also holds when another part of the program selects a different codec between two calls on an open stream.",
     ["histories", "inputs", "configurations"], "all call sequences x all assignments of codecs to calls",
     "The tests run each codec from start to end on its own and compare with fixed expectations.",
     ENC + DEC[1:], [("one state layout shared by all codecs", "include/libbase64.h, lib/arch/generic/*_head.c, *_tail.c")], ST, ["base64_stream_encode", "base64_stream_decode"])
prop("C08", "Run-time selection picks the best codec that is safe to run",
     "Without a forced codec, the library uses the most capable codec that is compiled in and that both the CPU and the operating system support, and falls back to the plain codec otherwise. "
     "It never enters a codec whose instructions or register state are not available, and encoding and decoding use the same choice. (On ARM the compiler's target settles what is available.)",
     ["configurations"], "all CPUID/XGETBV feature combinations x all sets of compiled-in codecs",
     "The tests run on one CPU, where one row of the decision table is exercised.",
     ["lib/codec_choose.c", "lib/lib.c", "cmake/config.h.in"], [("feature detection", "lib/codec_choose.c codec_choose_x86/arm")],
     [("codec", "process-wide pair of function pointers", "lib/lib.c")], ["codec entered by the first call"])
prop("C09", "Concurrent use gives the same results as sequential use",
     "Threads working on their own streams get the same results as if they ran alone, under every interleaving, also when several of them make the library's first use at the same moment. "
     "No call ever goes through an unset or inconsistent codec selection.",
     ["schedules"], "all interleavings of calls of two or more threads, first use included, at instruction granularity for one preemption",
     "The tests are single-threaded.",
     ["lib/lib.c", "lib/codec_choose.c", "lib/arch/*"], [("no shared mutable state but the codec selection", "lib/lib.c"), ("idempotent initialisation", "lib/lib.c base64_stream_*_init")],
     [("codec", "process-wide pair of function pointers, written by initialisation", "lib/lib.c")], ["results per thread"])
prop("C10", "The OpenMP build computes what the serial build computes",
     "With OpenMP enabled, encoding and decoding in one call give the same text, bytes, lengths and verdict as the serial library for every input and any number of threads. "
     "Malformed input is refused wherever the damage is, in particular at the boundaries between the threads' parts; a failed decode reports length 0 or true leading data, never garbage.",
     ["inputs", "configurations", "schedules"], "all inputs around and above the parallel threshold x all thread counts",
     "The OpenMP tests never use inputs above the threshold except the benchmark, and never damaged ones.",
     ["lib/lib_openmp.c", "lib/lib.c"], [("split into whole groups per thread", "lib/lib_openmp.c"), ("remainder decoded from the initial state", "lib/lib_openmp.c")], ST, ["base64_encode", "base64_decode"])
prop("C11", "Calls stay within the caller's buffers",
     "No call reads outside the given source range or modifies it, nor writes outside the room the result can need: encoding writes exactly the characters it reports, decoding n characters writes at most 3n/4 bytes. "
     "Calls neither allocate memory nor touch anything but the destination, the length and the stream's own state.",
     ["inputs", "histories", "configurations"], "all lengths, phases, contents (damaged ones included), codecs",
     "The tests use large static buffers without guards; vector loops read and write ahead of what they consume, and only specific lengths expose a step too far.",
     ENC + DEC[1:], [("round counts computed so that loads and stores stay inside", "lib/arch/*/enc_loop*.c, dec_loop.c")], ST, ["memory around src, out and the state"])
prop("C12", "Streams are independent values",
     "Any number of encoding and decoding streams can be used side by side in any order without influencing one another; initialising a stream makes its past irrelevant, "
     "whatever its memory held; and a stream can be moved or duplicated by copying its state, each copy continuing on its own.",
     ["histories"], "all interleavings of initialise, feed, finalise, copy and one-shot calls over several streams",
     "The tests use one stream at a time.",
     ["lib/lib.c", "include/libbase64.h", "lib/arch/generic/*"], [("all stream state in the caller's structure", "include/libbase64.h")], ST, ["all streaming calls"])
prop("C13", "The command-line tool encodes and wraps correctly",
     "Without options the tool writes the base64 encoding of its input broken into lines of 76 characters, each ended by a newline; -w sets another width and -w0 writes one unbroken line without a newline. "
     "No input byte is lost, duplicated or reordered whatever the input length, and the wrap column carries over between internal blocks; empty input gives empty output and exit status 0.",
     ["inputs", "configurations"], "all inputs and lengths (around multiples of the internal block size and of the width) x all widths",
     "No test runs the tool with -w or on more than one block.",
     ["bin/base64.c"], [("column counter across blocks", "bin/base64.c write_wrapped"), ("vectored output", "bin/base64.c iov_append, writev_retry")],
     [("col", "current output column", "bin/base64.c write_wrapped")], ["standard output", "exit status"])
prop("C14", "The command-line tool decodes what it should and reports errors",
     "With -d the tool writes the bytes its input stands for, ignoring newlines wherever they occur; with -i it ignores every character outside the alphabet and '=' (also together with -n), and with -n alone a newline is an error like any other. "
     "On malformed input it exits with status 1 and what it has written is a prefix of the correctly decoded data; an input that merely ends inside a quantum is decoded as far as it goes.",
     ["inputs", "configurations"], "all inputs x {default, -n, -i} x positions relative to internal blocks",
     "No test runs the tool with -i or -n, with newlines inside quanta or padding, or across blocks.",
     ["bin/base64.c", "lib/lib.c"], [("tokenising on newlines or garbage", "bin/base64.c decode, find_newline, find_garbage")], ST, ["standard output", "exit status"])
prop("C15", "The command-line tool never loses output silently",
     "Whatever the operating system does with each write (complete, partial, interrupted, failed) and each read (short, failed) while it encodes or decodes, the tool's output is the complete correct result with exit status 0, "
     "or it exits non-zero having written a prefix of it. No byte is duplicated, skipped or reordered by a retry, and partial or interrupted writes and short reads alone never make it fail.",
     ["fault_sequences", "crash_points"], "all sequences of outcomes of the write, writev and read calls and of memory allocation",
     "The tests never make a system call fail or return short.",
     ["bin/base64.c"], [("retry loops", "bin/base64.c writev_retry, write_stdout"), ("read error check", "bin/base64.c encode, decode")],
     [("iov, nvec", "what is still to be written", "bin/base64.c writev_retry")], ["bytes accepted by the kernel", "exit status"])
prop("C16", "Command-line options mean what the help says",
     "Options -d, -i, -n, -w, -h and their long forms, in any order, combination and spelling getopt allows, select the documented behaviour; the last -w wins, -h prints the help and exits 0. "
     "Unknown options, missing or invalid widths, more than one file, and files that cannot be opened give a message on standard error and exit status 1 with nothing on standard output; '-' or no file means standard input.",
     ["inputs", "configurations"], "all argument vectors over the option vocabulary up to three arguments",
     "No test covers option parsing.",
     ["bin/base64.c"], [("getopt loop", "bin/base64.c parse_opts, get_wrap")], [("config", "parsed options", "bin/base64.c")], ["standard output", "standard error", "exit status"])
prop("C17", "Forcing a codec uses that codec or reports it as missing",
     "Passing a codec flag to any initialising or one-shot call makes that very codec process the data, for encoding and decoding alike, and it stays selected until another flag is passed. "
     "If it is not compiled in, encoding produces zero bytes, decoding returns -1 with length 0, and open streams keep their state.",
     ["histories", "configurations"], "all sequences of calls x all flags (single, combined, unknown bits) x all builds",
     "The tests force codecs one at a time and only check that the output is right, which any codec would give.",
     ["lib/lib.c", "lib/codec_choose.c", "lib/codecs.h", "include/libbase64.h"], [("forced choice", "lib/codec_choose.c codec_choose_forced"), ("stubs", "lib/codecs.h")],
     [("codec", "process-wide selection", "lib/lib.c")], ["return value, length, codec entered"])
prop("C18", "The shipped lookup tables and their generators are right",
     "Every entry of every lookup table the library ships equals what the base64 code prescribes, for little- and big-endian targets alike, and the table generators in the repository reproduce the shipped tables. "
     "No character outside the alphabet has an entry that a decoder could take for data.",
     ["inputs", "configurations"], "all entries of all tables x both byte orders",
     "The tests read the tables through a few inputs on one byte order; the generators are never run.",
     ["lib/tables/tables.c", "lib/tables/tables.h", "lib/tables/table_dec_32bit.h", "lib/tables/table_enc_12bit.h", "lib/tables/table_generator.c", "lib/tables/table_enc_12bit.py"],
     [("generated headers", "lib/tables")], [], ["table contents", "generator output"])
prop("C19", "Sizes beyond 2 and 4 GiB are handled exactly",
     "On 64-bit targets inputs whose length, or whose output length, exceeds 2^31 or 2^32 bytes are encoded and decoded completely, with exact lengths, in one call or in chunks. "
     "No length is truncated, wrapped or rounded.",
     ["inputs", "configurations"], "all lengths around 2^31, 2^32 and their 4/3 and 3/4 multiples x all codecs",
     "The tests use inputs of at most a few hundred kilobytes.",
     ["lib/lib.c", "lib/lib_openmp.c", "lib/arch/*"], [("size_t arithmetic throughout", "lib/arch/*")], ST, ["reported lengths and contents"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
