#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run from /verif to rewrite both."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FQ = "src/fpfind/freqcd.c"
PT = "src/fpfind/lib/parse_timestamps.py"
PE = "src/fpfind/lib/parse_epochs.py"
UT = "src/fpfind/lib/utils.py"
FP = "src/fpfind/fpfind.py"
TG = "src/fpfind/lib/generate_freqcd_testcase.py"
GD = "src/fpfind/lib/generate_freqdetuneg2.py"
PL = "src/fpfind/fpplot.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "freqcd passes every event through exactly once, in order and promptly",
     "Every complete 8-byte event received on the input stream is written to the output exactly once, in order, with its ten low (detector and flag) bits unchanged, before the program waits for more input, however the bytes were split over reads and whether or not corrections are being read; an incomplete event at the end is not written. Without a correction (0, none given) timestamps are unchanged too, in both the standard and the legacy word order. When a wait, read or write fails the events written so far are still a prefix of what should have been written, and the program ends.",
     ["schedules", "inputs", "fault_sequences"],
     "every byte stream, every split of it into reads, every interleaving with correction reads, every point at which a system call fails or a write is cut short, both formats",
     "The tests run whole small files through the program once; they never control how reads are split, never fail a system call and never deliver corrections while events wait.",
     [FQ], [("partial event kept at the front of the buffer", "freqcd.c main loop: inbytespartial"), ("eventnum/outevents reset after the write", "freqcd.c end of main loop")],
     ["file descriptors 0/1, -i/-o files"])
prop("C02", "freqcd's corrected time is exact for any stream, chunking and rollover",
     "The timestamp written for an event equals the measured one plus the exact accumulated correction, i.e. the sum over all events so far of elapsed time times the correction in force times 2^-34, modulo 2^54, within two units plus one for each change of the correction. The bound does not grow with the number of reads, the number of events or elapsed time, and holds across any number of 54-bit rollovers of the input, for every correction in range, as long as events received together span less than one rollover period.",
     ["inputs", "schedules", "histories"],
     "every sequence of timestamps, every correction below 2^21, every division of the stream into reads, any number of rollovers",
     "The tests compare a handful of streams with an approximate oracle, in one read each; per-read rounding, rollover and long histories are not reached.",
     [FQ], [("tsref, tsfrac, tsoverflowcorr updated per read", "freqcd.c main loop")], ["-f", "output stream"])
prop("C03", "freqcd applies streamed corrections line by line, whole, in order, from then on",
     "Each newline-terminated decimal integer within range read from the correction stream (-F) replaces the correction, in order, and governs exactly the time after the last event processed before it arrived; time before that keeps the earlier correction. A value split over several reads counts as the whole value, a line that is not a value or is overlong is ignored without harming later lines, an unterminated value never takes effect, and after the stream ends the last correction stays in force and events continue to be processed.",
     ["schedules", "inputs", "histories"],
     "every sequence of lines, every split of their bytes over reads, every interleaving with events, end of the stream at any point",
     "The tests feed complete values with sleeps in between; they never split a value between reads, never mix invalid lines in, and cannot steer the interleaving.",
     [FQ], [("freqbuffer with freqbytespartial carried over", "freqcd.c correction reading")], ["-F FIFO", "output stream"])
prop("C04", "A correction that is malformed or out of range never takes effect",
     "freqcd accepts on the command line exactly the decimal integers whose correction is below 2^-13 in magnitude (below 2097152 in units of 2^-34, or with -d up to 1220703 in units of 0.1 ppb, wherever -d stands) and then applies that correction, decimal units being converted to within one unit of 2^-34. Any other text makes it fail before it creates, truncates or writes any output. On the correction stream, whose unit is always 2^-34, such values are ignored and the previous correction stays in force.",
     ["inputs", "configurations"],
     "every text given to -f, with and without -d in any position, and every line of the correction stream",
     "The tests use a few values well inside the range; values that overflow an int or a long, or the conversion of units, are not reached.",
     [FQ], [("readint", "freqcd.c readint"), ("range check", "freqcd.c main"), ("stream range check", "freqcd.c correction reading")],
     ["-f", "-d", "-F", "exit status"])
prop("C05", "Timestamp files read back exactly what was written, in every format",
     "Events written by write_a0/a1/a2 (and the streaming writers), in either word order and from any input resolution, read back with identical timestamps and detector patterns at 4 ps, at full 54-bit precision, for any number of events including none and one. The bytes on disk are those of the format: a1 one 64-bit word per event (timestamp<<10 + pattern), words swapped when legacy; a0 two lines of 8 hex digits, low word first; a2 one line of 16 hex digits. Readers return the same time in the resolution asked for, exactly when fractional and rounded down otherwise, and only the four detector bits as the pattern.",
     ["inputs", "configurations"],
     "every list of 54-bit timestamps and 4-bit patterns, every pair of format, word order, resolution and fractional flag, any bits in the six flag positions",
     "The tests check only the type of the output for one sample file each.",
     [PT], [("_consolidate_events", "parse_timestamps.py"), ("_format_timestamps", "parse_timestamps.py"), ("read_*/write_*", "parse_timestamps.py")],
     ["read_a0/a1/a2", "write_a0/a1/a2", "swrite_a0/a1/a2", "file bytes"])
prop("C06", "Streaming readers yield exactly the events of the whole file, in batches",
     "For every file and every positive batch size, the batches of sread_a0/a1/a2 concatenated equal what the corresponding in-memory reader returns, with the same options. No batch is empty or larger than the size asked for, all but the last are full, and the number of batches announced is the number yielded.",
     ["inputs", "configurations"],
     "every number of events, batch size, format, word order, resolution and fractional flag",
     "No test uses the streaming readers.",
     [PT], [("sread_a0/a1/a2", "parse_timestamps.py")], ["sread_a0/a1/a2"])
prop("C07", "Pattern and time filters select exactly the documented events",
     "get_pattern_mask selects exactly the events documented for its four modes (exact match, exact non-match, any bit in the mask, bits left after removing the mask, with no-detector events kept) and returns the documented patterns for them. get_timing_mask selects exactly the events whose time lies between start and end, both inclusive and in seconds, each bound optional, for timestamps in any resolution. Neither changes or reorders the other events.",
     ["inputs"],
     "all patterns and filter values with both flags; every sorted list of timestamps (with repeats, or empty) and every pair of bounds",
     "The tests do not run the filters; the docstring examples use one list.",
     [PT], [("get_pattern_mask", "parse_timestamps.py"), ("get_timing_mask", "parse_timestamps.py")],
     ["get_pattern_mask", "get_timing_mask"])
prop("C08", "parse_timestamps converts and filters files losslessly in any combination",
     "The parse_timestamps program writes a file, in the requested output format and word order, that contains exactly the events of the input file that pass the requested pattern and time filters, in order, with their full-resolution timestamps and the filtered patterns. The result does not depend on whether streaming or --inmemory processing is used, nor on the size of the file, and the input file is not modified.",
     ["inputs", "configurations"],
     "every input file, every combination of -A/-X/-a/-x, pattern and time filter options and --inmemory",
     "No test runs the command line program.",
     [PT], [("main, event_filter, inline_filter", "parse_timestamps.py")], ["parse_timestamps command line", "output file"])
prop("C09", "Statistics reports state the true counts, span and patterns",
     "The statistics printed for a timestamp file (parse_timestamps -p, print_statistics, print_statistics_stream) state the number of events, the events per detector channel, with several channels and with none, the start, end and duration, the integer event rate when the duration is positive, and the sorted set of patterns, as they are in the events left after filtering. In-memory and streaming reports agree for any division into batches, and files with no events, one event or no duration are reported, not refused.",
     ["inputs", "configurations"],
     "every list of events, every filter and both modes of processing",
     "No test prints statistics.",
     [PT], [("print_statistics, print_statistics_stream, print_statistics_report", "parse_timestamps.py")], ["standard output"])
prop("C10", "T1 epoch files read back exactly what was written, in every resolution",
     "Events written with write_T1 read back with read_T1 as the time within the epoch plus the low 17 bits of the epoch number (times 2^37 units of 4 ps), or the full epoch number when asked for, with the same detector patterns and order, under the file name of the epoch. Fractional results are exact (to the 64-bit precision of the number when the full epoch is asked for); others are exact when the resolution is that of the file and rounded down in coarser ones, for every epoch number. (An event of time, epoch bits and pattern all zero is the terminator and cannot be written.)",
     ["inputs", "configurations"],
     "every epoch number, list of 37-bit times and patterns (numbers, arrays or one for all), resolution, full-epoch and fractional flag",
     "The tests read a sample file back in a few modes.",
     [PE], [("write_T1, read_T1", "parse_epochs.py")], ["write_T1", "read_T1", "file bytes"])
prop("C11", "T2 and T4 epoch files decode to exactly the events they encode",
     "A T2 file of any bit widths, whose differences are packed most significant bit first with 0 escaping to a 32-bit difference and 1 terminating, is read by read_T2 as the exact running sum of the differences starting at the epoch, at 125 ps, converted to the requested resolution (exact if finer, exact to 64 bits if fractional, rounded down if coarser), with the detector bits of each event in order. read_T4 likewise returns the running sum of the index differences less two, and the detector bits.",
     ["inputs", "configurations"],
     "every list of differences and patterns, every pair of widths, epoch, resolution, full-epoch and fractional flag",
     "The tests read one sample T2 file in a few modes and no T4 file.",
     [PE], [("extract_bits", "parse_epochs.py"), ("read_T2, read_T4", "parse_epochs.py")], ["read_T2", "read_T4"])
prop("C12", "T3 key files are counted exactly into coincidence matrix, garbage and QBER",
     "read_T3 counts each of the entries announced in the header exactly once: an entry with a single detector on both sides adds to its element of the 4x4 coincidence matrix and to the good count, any other entry adds to the garbage count of each side that is not a single detector. The error rate is the share of the same-basis wrong coincidences among same-basis coincidences, to three decimals, or 0.5 if there are none, and zero padding at the end is never counted.",
     ["inputs"],
     "all 256 entry values, every number of entries and so every amount of padding",
     "No test reads a T3 file.",
     [PE], [("read_T3 decode table", "parse_epochs.py")], ["read_T3"])
prop("C13", "Damaged epoch files give an error, never wrong events or a hang",
     "If a T1, T2 or T4 file is cut short anywhere before the end of its terminator, announces a (nonzero) number of events different from what it holds, or ends T2/T4 data with a terminator whose detector bits are not zero, reading it ends with an error instead of returning. Reading any prefix of a valid file never returns events that differ from the whole file's and always terminates.",
     ["crash_points", "inputs"],
     "every valid file and every byte position at which it may be cut, every announced count",
     "The tests read intact files; the writers of such files run concurrently with the readers, so partial files occur in use.",
     [PE], [("count check, terminal base check", "parse_epochs.py read_T1/read_T2/read_T4"), ("extract_bits", "parse_epochs.py")], ["read_T1", "read_T2", "read_T4"])
prop("C14", "Epoch directories are matched and concatenated in order, without gaps",
     "get_first_overlapping_epoch returns the smallest epoch present in both directories, not before the requested first epoch, and the number of consecutive epochs from there present in both. get_timestamp returns the events of exactly the requested consecutive epochs in order, as nanoseconds that keep increasing across the 2^17 epoch wrap, and fails if one is missing or damaged.",
     ["inputs", "configurations"],
     "every pair of sets of epochs, first epoch, skip and number of epochs, including across the wrap",
     "No test reads epoch directories.",
     [UT], [("get_first_overlapping_epoch, get_timestamp", "utils.py")], ["get_first_overlapping_epoch", "get_timestamp"])
prop("C15", "Epoch names, numbers and dates convert consistently",
     "The epoch of a date (before the epochs end in 2043) is the number of whole periods of 2^32 x 125 ps in its whole seconds since 1970, as eight lower-case hex digits, exactly; the date of an epoch is the start of that epoch to the microsecond. Conversion of an epoch number to a name and back is the identity, and the epoch of the date of an epoch, taken to the next whole second, is never before it.",
     ["inputs"],
     "every date and every 32-bit epoch number",
     "The tests compare a few dates.",
     [PE], [("date2epoch, epoch2date, epoch2int, int2epoch", "parse_epochs.py")], ["date2epoch", "epoch2date", "epoch2int", "int2epoch"])
prop("C16", "Normalising and slicing timestamps keeps exactly the common window",
     "normalize_timestamps shifts all arrays by one common origin, the latest of their first events plus the skipped time, and keeps exactly the events at or after it in order, so that differences between arrays are preserved; with preserve_relative off each array first starts at its own first event. slice_timestamps keeps exactly the events in [start, start+duration), counted from start, or from the first event if there is no start; a window without events gives an empty array. Neither modifies its arguments.",
     ["inputs"],
     "every set of sorted arrays, skip, start and duration",
     "No test checks these functions.",
     [UT], [("slice_timestamps, normalize_timestamps", "utils.py")], ["normalize_timestamps", "slice_timestamps"])
prop("C17", "The correlation peak is the delay of the second clock against the first",
     "Binning wraps each event into exactly one bin by its time, and the cross-correlation of two event sets has at each index the number of pairs whose second event is that many bins later, modulo the number of bins. The delay reported for the histogram is the peak position expressed as the smaller of its two candidates in magnitude, positive when the second clock's events are later, the other candidate second, differing by the whole range (a delay of zero has no other candidate and is reported twice); correlation and delay are independent of a common shift by a whole number of bins. The height reported for the peak is in standard deviations of the half of the spectrum around it, the peak excluded.",
     ["inputs"],
     "every pair of event arrays, number of bins (even) and bin width",
     "The tests run two whole searches; sign, wrap and candidate order are not checked separately.",
     [UT], [("generate_fft, get_xcorr, get_timing_delay_fft, get_delay_at_index_fft", "utils.py")],
     ["generate_fft", "get_xcorr", "get_timing_delay_fft", "get_delay_at_index_fft", "get_top_k_delays_fft"])
prop("C18", "fpfind recovers the planted time and frequency offset within its resolution",
     "For two event streams containing common events, the second being t*(1+df)+dt plus noise, fpfind returns dt (referred to the common start) and df within the uncertainty of the final resolution, for every sign of either offset within the search range, with background events, losses and jitter present. The search range is: time offsets below half the buffer (bins times initial resolution) and below 10^8 ns, frequency offsets whose drift within one correlation spreads the peak over only a few bins and below 2^-13 beyond the precompensation. Swapping the streams' roles inverts the result accordingly.",
     ["inputs", "configurations"],
     "every dt within the search range, df within it, loss, noise and jitter with sufficient signal",
     "The tests use two fixed streams with one offset each.",
     [FP], [("time_freq refinement loop", "fpfind.py"), ("recursive relations", "fpfind.py")], ["fpfind command line", "fpfind()"])
prop("C19", "fpfind never reports a bogus or out-of-bounds result and always ends",
     "When the two streams have nothing in common, overlap too little, or are offset beyond the search limits, fpfind ends with an error and prints no result. A result it does print has a frequency offset below 2^-13 relative to the precompensation it was found at, and every search terminates, whatever the resolution and separation.",
     ["inputs", "configurations"],
     "every pair of uncorrelated or out-of-range streams, every parameter choice",
     "The tests contain no stream without a solution.",
     [FP], [("PeakFindingFailed conditions", "fpfind.py time_freq"), ("loop termination", "fpfind.py time_freq")], ["fpfind command line", "exit status"])
prop("C20", "Precompensations are tried in the documented order and the first success wins",
     "The list of precompensations contains the start value, then alternately each multiple of the step above and below it (or only increasing ones when ordered), each once, out to the last multiple not beyond the stop value (stop included, also for decimal values whose quotient is not exact in binary; a step of zero gives only no precompensation). The scan applies each one in list order to the target's clock, returns the total offset (precompensation included) of the first that succeeds, also when told to scan all, and reports failure only if none succeeds.",
     ["inputs", "configurations"],
     "every start, stop and step, both orders, every list of precompensations and streams",
     "No test enables precompensation.",
     [FP], [("generate_precompensations", "fpfind.py"), ("fpfind() loop", "fpfind.py")], ["generate_precompensations", "fpfind()", "fpfind -P"])
prop("C21", "fpfind's output options transform one and the same result consistently",
     "For the same input the sixteen -V outputs are all derived from one result: bit 0 gives the offsets seen from the other party (t' -> -dt/(1+df), f -> 1/(1+df)-1), bit 1 the frequency as an integer in units of 2^-34, bit 2 omits the time, bit 3 gives the time in 1/8 ns. The output is one line, frequency then time separated by a tab, and does not depend on verbosity, logging or whether options come from the command line or a configuration file.",
     ["configurations", "inputs"],
     "all sixteen option values on every input with a result, including results of zero and negative ones",
     "The tests use the default output only.",
     [FP], [("flag handling at the end of main", "fpfind.py")], ["fpfind -V"])
prop("C22", "Correcting with fpfind's result makes the clocks agree",
     "Applying the frequency found by fpfind (-V2) to the reference stream with freqcd, or the inverted one (-V3) to the target stream, leaves streams between which fpfind finds no remaining frequency offset beyond its resolution.",
     ["histories", "inputs"],
     "every pair of streams with a recoverable offset",
     "No test connects the two programs.",
     [FP, FQ], [("units and sign of the frequency", "fpfind.py main, freqcd.c")], ["fpfind | freqcd | fpfind"])
prop("C23", "generate_freqcd_testcase writes and lists exactly the requested events",
     "With -t it writes to the output one event per given timestamp, in order, truncated to 54 bits, with detector 1, in standard or legacy (-x) word order, replacing an existing output file. The prompt does the same for each number entered, ignoring words that are no numbers, until it is interrupted or its input ends. With an input file or '-' it prints each event's timestamp as a decimal number, in order, and leaves the input as it was and no temporary file behind, even if interrupted. No file but the output is changed.",
     ["inputs", "configurations"],
     "every list of timestamps, both word orders, files, standard input and prompt",
     "No test runs the generator.",
     [TG], [("get_event, main", "generate_freqcd_testcase.py")], ["generate_freqcd_testcase command line"])
prop("C24", "Raw timestamp files and epoch directories give the same fpfind answer",
     "The same pair of event streams given to fpfind as a1 files (in either word order) or as T2/T1 epoch directories over the same span yields the same offsets; skipping an initial duration or a number of epochs only moves the reference time, i.e. changes the time offset by the frequency offset times the skipped time.",
     ["configurations", "inputs"],
     "every pair of streams, division into epochs, skip, including across the 17-bit epoch wrap",
     "The tests check each input kind against one fixed data set.",
     [FP, UT, PE], [("main reading and normalising", "fpfind.py")], ["fpfind -t/-T", "fpfind -d/-D", "-e", "-z", "-Z", "-X"])

prop("C25", "Peak statistics and histograms describe the events they are computed from",
     "get_statistics takes as signal the bins within half the window (rounded up to bins) around the peak (the highest bin, or the bin of the delay given, negative delays counting from the end), cut at the ends of the histogram, and as background, on each side, the half of the remaining bins next to the signal; peak, mean, deviation, total, ratio to the mean, and significance (plain, raw and grouped by the signal's length) follow from these counts; results that need a background are None (the significance zero) without one. histogram_fft counts in bin k the pairs of events in the window given whose delay is k bins modulo the length, with the target's times corrected by the frequency given, and leaves the events passed unchanged. convert_histogram_fft puts the negative delays first without changing any count. get_top_k_delays_fft gives the k highest bins, highest first, with both delays each can stand for. g2 counts each pair of events in its time window with a delay below its longest delay once.",
     ["inputs", "configurations"],
     "every histogram and list of events, window, resolution, centre, duration, start and frequency",
     "The tests check the significance of one data set; they call none of these functions directly.",
     [UT, "src/fpfind/lib/g2_two_timestamps.py"], [("PeakStatistics, get_statistics", "utils.py"), ("histogram_fft", "utils.py"), ("g2", "g2_two_timestamps.py"), ("convert_histogram_fft, get_top_k_delays_fft", "utils.py")],
     ["get_statistics", "histogram_fft", "convert_histogram_fft", "get_top_k_delays_fft", "g2"])
prop("C26", "fpplot correlates exactly the chosen events, compensated as fpfind reports",
     "fpplot passes to the histogram the events of both sides from the files or epochs chosen (first epoch, number and skipped epochs), with the skipped duration counted from the first common event and no event beyond the duration given, the times of the target compensated by the time offset and then the frequency offset given; it plots that histogram with the width asked for and saves it. With the offsets fpfind prints for the same files the coincidences come together around zero. Its options may come from a configuration file, the command line going before; those of the other kind of source (durations skipped of epochs, epochs skipped of files) change nothing. It fails, and plots nothing, when epochs are missing.",
     ["inputs", "configurations"],
     "every pair of files or directories, skip, duration, epochs and offsets",
     "No test runs fpplot.",
     [PL, UT], [("reading and compensation", "fpplot.py plotter, main")], ["fpplot -t/-T", "fpplot -d/-D", "--time", "--freq", "--skip-duration", "--skip-epochs"])
prop("C27", "Detuned test data differs from its source by exactly the detuning",
     "generate_freqdetuneg2 leaves a reference file with all and only the events of detector 1 at their times and, for each detuning, a file of all and only the events of detector 4 with each time, counted from the first event, scaled by one plus the detuning, in order. detune() of any events, detector and detuning does that and adds the time offset.",
     ["inputs"],
     "every timestamp file, detector, detuning and offset, including times beyond 2^53 units",
     "No test runs the script.",
     [GD], [("detune", "generate_freqdetuneg2.py")], ["files left by generate_freqdetuneg2.py", "detune()"])

prop("C28", "fpfind runs exactly the search its options ask for",
     "An option's value is the one on the command line, else in the configuration file, else in the default file of the program, else the documented default; a flag is on if it is given in any of them. With a file or directory for each side, the search gets the events of exactly those files in the word order given, or of exactly as many epochs, from the first common one (or the first one from the one given on) plus those skipped, as window and separation need wherever in an epoch they begin, on the common origin, with the initial duration skipped in files and epochs skipped only whole; it gets the wraps, 2^order bins, resolutions, threshold, the separation in units of the whole correlation window, the precompensations asked for (none unless enabled) and whether to scan them all. Without both files, with epochs missing, for help or without any option no search is run and the exit status is an error; saving the options runs none either, and the file saved asks for the same search.",
     ["configurations", "inputs"],
     "every set of options, on the command line, in the configuration file and in the default file, in any order, over files and directories with any events",
     "The tests call fpfind with two fixed option lists; no test uses a configuration file, wraps, skips or the number of epochs read.",
     [FP, UT], [("option parsing, required epochs, separation, call of the search", "fpfind.py main")], ["fpfind command line", "fpfind()"])

prop("C29", "fpfind's log is a true account of the search behind its result",
     "With -vv the log tells, for every precompensation tried and in the order tried, the precompensation, each iteration of its search with its resolution, in the first one every peak with significance, delay and resolution and whether it was accepted (from the threshold on) or rejected (searched again at twice the resolution, up to 10 us), the delays and rates found and their running totals, and the outcome; with -v every outcome; without only interruptions. Peaks below the threshold are never accepted, delays and rates add up to the totals told, no search returns before the final resolution, the first offset told as found is the one printed, an exit without a result tells none, and after a result nothing more is tried unless all are to be. The log file has the messages of the standard error stream, and neither it nor the verbosity changes the output.",
     ["inputs", "configurations", "histories"],
     "every pair of streams, with and without a solution, every list of precompensations, threshold and verbosity",
     "The tests never look at the log.",
     [FP, "src/fpfind/lib/logging.py"], [("logger calls of time_freq() and fpfind()", "fpfind.py"), ("set_logfile, LoggingOverrideFormatter", "logging.py")], ["fpfind -v -L", "standard error of fpfind"])

prop("C30", "Epoch file headers are read exactly and contradictions are reported",
     "The header readers of T1, T2, T3 and T4 files return each field as it stands in the file, epochs and lengths as unsigned numbers, and refuse a file shorter than its header. Each of the following, and nothing else, gives a warning or error in the log, whether only the header or the whole file is read: a tag that is not of the kind read (in its short or long form), an epoch other than the one the file is named after (lower-case hexadecimal without leading zeros, whatever the directory), and, reading a T3 file, entries of other than 8 bits and a number of entries other than the announced one.",
     ["inputs"],
     "every header, file name and directory",
     "The tests read consistent files only and never look at warnings.",
     [PE], [("read_T1_header ... read_T4_header, checks of read_T3", "parse_epochs.py")], ["read_T1_header()", "read_T2_header()", "read_T3_header()", "read_T4_header()", "read_T1()", "read_T2()", "read_T3()", "read_T4()"])

prop("C31", "A program does its whole job or fails, says so, and harms nothing",
     "Every program of the package (fpfind, fpplot, parse_timestamps, generate_freqcd_testcase, freqcd) ends, without a crash. It ends with status 0 exactly when its options are in order, all its sources are there and undamaged, and its result was written; the result is then where it belongs. Otherwise its status is an error, there is a message on the standard error stream and, unless the program writes while it reads, nothing on the standard output. Its sources are never changed, but when a file is asked to be converted in memory onto itself; and when a wrong option, a missing source, or a destination that is itself the source makes plain from the start that the job cannot be done, what was at the destination is still there.",
     ["configurations", "fault_sequences"],
     "every program, every combination of missing, misplaced, empty or damaged sources, of destinations that are new, old, missing, directories, full or the source itself, and of wrong options",
     "The tests run programs on sound files only and never look at the exit status of a failing one.",
     [FP, PL, PT, TG, FQ], [("exit statuses, order of checks and opening of files", "main functions of all programs")], ["exit status, standard output and standard error of every program", "destination and source files"])

prop("C32", "The first call of freqcd compiles it and is a call of freqcd",
     "The script installed as freqcd is compiled by its first call and replaced by the program, and that call is one of the program: it has the output, files and exit status the program has with the same arguments, working directory, files and standard input, whether it is found by the search path, an absolute or relative name or a link, whatever characters are in the arguments and with spaces in paths, and freqcd_path in the package holds the place of the program. Calls at the same time all do so. If there is no compiler, it fails, or the place cannot be written to, the call ends with an error and a message, writes nothing to its output and makes no files. At every moment, even after calls were killed, there is either the whole script or the whole program in that place, so that later calls work. A call passes events on as they come and ends with the signal that ends the program, and _postinstall compiles the program to the place it is given, or else fails and leaves what was there.",
     ["schedules", "crash_points", "configurations", "histories"],
     "every history of calls, alone and at the same time, with working, failing and missing compilers, killed at any point; every way to name it, working directory and arguments",
     "No test calls the script: they compile freqcd.c themselves.",
     ["src/fpfind/freqcd", "src/fpfind/_postinstall"], [("place, compilation and replacement", "freqcd, _postinstall")], ["calls of the installed freqcd"])

prop("C33", "freqcd runs with exactly what the words of its call ask for",
     "Options of freqcd may come in any order, several letters may share a dash, the argument of -i, -o, -F and -f is the rest of the word or else the next word, whatever it looks like, the last of a kind counts, and a lone -- may end them. Events are then read from the file of -i or else the standard input, and written to the file of -o or else the standard output and nowhere else, in legacy format exactly with -x, corrected with the value of -f in units of 2^-34, or with -d of 0.1 ppb wherever that is given, from then on with the values in the file of -F. Any other call (an unknown option, a word that is no option, an argument that is missing, empty or no number, a file that is not there, or -h) ends with an error status and a message, and no event is written.",
     ["configurations", "inputs"],
     "every list of words, good and bad, in every order and grouping",
     "Tests use one option in one way; that a mistyped option is not silently left out with all that follow shows only on calls nobody writes into a test.",
     [FQ, "src/fpfind/lib/getopt.c"], [("options", "freqcd.c main, getopt")], ["calls of freqcd: events at every source and destination"])

prop("C34", "What the library answers depends on what it is given, not on earlier calls",
     "In a process that goes on calling the library's functions, every call answers what it would answer if it were the first: it depends on the values of the arrays and the contents of the files it is given at that time, and on its options, with those left out at their defaults. Calls before it change nothing, whether they succeeded or failed, whatever their options were, and whatever the caller did with what they returned; files that were rewritten meanwhile are read anew. No call changes arrays or files of its caller's other than the file it is told to write.",
     ["histories", "inputs"],
     "every history of calls, failures, changes in place and rewritten files in one process",
     "Tests call each function once or twice, on arrays they throw away; caches, arrays changed in place and state left by a failed call show only in long histories.",
     [UT, PT, PE, FP, TG], [("what outlives a call: module variables, default arguments, arrays of the caller", "all functions")], ["values returned, arrays and files after every call"])

prop("C35", "Streamed files are read, held and written a batch at a time",
     "The streaming readers hand out a file's events in order, in as many batches as they announce, each of the buffer size given but the last; when a batch is asked for, no more of the file has been read than the batches handed out and one ahead, whatever the size of the file and whichever other streams are read in between. The streaming writers and report take in a stream batch by batch: batches are written to the file before many others are asked for, and none is held after it. Converting a file with the program, with filters or without, therefore reads and writes at the same pace, and needs memory for a few batches only.",
     ["histories", "inputs"],
     "every interleaving of streams, file length, batch size",
     "Tests stream files smaller than a batch; a reader or writer that takes in the whole file gives the same events, and fails only with files larger than memory.",
     [PT], [("sread_a0/a1/a2, swrite_a0/a1/a2, print_statistics_stream, main", "streaming")], ["batches, bytes read, references held and bytes written, step by step"])

prop("C36", "Every log message reaches each of its logger's outputs once, whole and aligned",
     "After get_logger and set_logfile, in any order, for any names (one within another too) and however often, a message of at least the level last asked for appears exactly once on the standard error and in each file set for its logger before, in the order said, and nowhere else: not in the outputs of other loggers, not in those of the root logger; a message below the level appears nowhere. Each message is one line with time, level and place (or those given in their stead), then its text; details follow on the line, or, in outputs for human readers, below it in lines of their own, aligned behind the delimiter and further to the right, taking the first line where the text is empty. What one output shows does not depend on the others.",
     ["histories", "inputs"],
     "every history of loggers, levels, files and messages",
     "Tests do not look at logs; duplicated, missing or altered messages show only with several loggers or outputs and in histories of levels and files.",
     ["src/fpfind/lib/logging.py"], [("get_logger, set_logfile, LoggingOverrideFormatter, verbosity2level, label2level", "logging")], ["all lines of all outputs"])

prop("C37", "freqcd works for days: memory and files stay, and it sleeps when idle",
     "However many events and corrections have passed, valid ones, malformed ones, overlong ones and parts of them, freqcd holds no more memory and no more open files than after the first of each; it passes every whole event on and reads all corrections as long as its input goes on, also after its pipe of corrections has ended. While nothing arrives it uses practically no processor time, whatever has come before: a part of an event, an unfinished or overlong correction, the end of the corrections.",
     ["histories", "schedules"],
     "every history of arrivals, ends and pauses",
     "Tests run freqcd for a moment on a small file; leaks and busy waiting do not change what it writes, and show only in long runs and in pauses after particular arrivals.",
     ["src/fpfind/freqcd.c"], [("main loop: select, reads, buffers", "freqcd.c main")], ["memory, descriptors, processor time and events out after every step"])

NOTES = json.load(open(os.path.join(ROOT, "tools", "claims.json")))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        n = NOTES.get(p["id"])
        if n:
            checks.append({"property": p["id"],
                           "quick_cmd": f"python3 harness/run.py {p['id']}",
                           "thorough_cmd": f"python3 harness/run.py {p['id']} thorough",
                           "technique": n["technique"], "level": "model_checking",
                           "level_note": n["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check yet: its specification is still being written"})
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py",
         "checks": checks, "not_applicable": na,
         "notes": "TLA+ specifications in spec/, bound to the code by replaying TLC-generated behaviours and validating recorded behaviours with TLC; see DESIGN.md. No hooks in /repo are needed."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
