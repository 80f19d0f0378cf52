#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below.  Run by hand after editing; not by any check.

A property is claimed (gets a check) when checks/<id>.py exists; otherwise it is listed under not_applicable.
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


M = "mediagrains/"
GSF = M + "gsf.py"
GR = M + "grains/"

prop("C01", "GSF round trip loses nothing",
     "Every grain of every type (empty, event, audio, coded audio, coded video, video) written to a GSF file in format "
     "version 7, 8 or 9 is read back as a grain of the same type with identical identifiers, timestamps, rate, "
     "duration, timelabels, type-specific header fields and payload, in the order written, whenever the version can "
     "represent it. File-level metadata (identifier, creation time, tags, segments with their identifiers, counts, "
     "flows and tags) is read back unchanged too.",
     ["inputs", "configurations"],
     "every combination of up to N fields off a baseline over their boundary values, for all grain types, all three "
     "format versions, streaming and all-at-once writing",
     "The stable suite does not run the GSF tests at all; those that exist sample a handful of example grains, not the "
     "product of boundary values of all fields and versions.",
     [GSF], [("grain encoding", GSF + " GSFEncoderSegment"), ("grain decoding", GSF + " BaseGSFDecoderSession")],
     "bounded exhaustive enumeration of grain values (deviation-bounded) on the real encoder and decoder",
     "exhaustive within the enumerated field domains and deviation bound; values between boundaries are assumed alike")

prop("C02", "GSF bytes conform to the published format in both directions",
     "Every file the library writes is byte-for-byte a valid file of the documented block format: blocks nest exactly, "
     "sizes, counts and field encodings are as specified, and the file ends with the terminator; strings too long for their field are cut to the "
     "longest whole-character prefix that fits. Every valid file, "
     "including ones with blocks a reader does not know, fill blocks and extra trailing properties in any place the "
     "format allows, is read to exactly the grains and metadata it contains.",
     ["inputs", "configurations"],
     "all block trees with up to N insertions of unknown/fill blocks or extra properties at every allowed position, "
     "for every block kind and version; all enumerated grains written and strictly parsed",
     "A symmetric mistake in writer and reader passes every round-trip test; no test places unknown blocks "
     "exhaustively.",
     [GSF, "gsf_docs/gsf.md", "gsf_docs/ssb.md"],
     [("block walking", GSF + " SyncGSFBlock / AsyncGSFBlock"), ("size computation", GSF + " *_size_for_grain")],
     "explicit enumeration of format trees against an independent reference codec, both directions",
     "reference codec written from the format documents only; exhaustive within the insertion bound")

prop("C03", "Encoder accepts each grain exactly once and guards its header",
     "For every history of operations on an encoder (adding tags, segments, flows and grains before, during and after "
     "a dump, through the encoder, the open encoder or a segment), the file finally written contains each accepted "
     "grain exactly once, in its selected segment and in the order it was added, and every segment's stored grain "
     "count is exact (or marked unknown when the output cannot seek). An operation that can no longer take effect "
     "because the header has been written is rejected with an encode error and changes nothing, and no operation is "
     "silently dropped.",
     ["histories"],
     "all operation histories up to depth N over the encoder interface, in streaming, all-at-once, deprecated and "
     "asynchronous modes, on seekable and unseekable outputs",
     "Tests follow a few scripted sequences; interleavings of additions with dump phases are unbounded.",
     [GSF], [("dump state", GSF + " OpenGSFEncoderBase._active_dump"),
             ("segment choice", GSF + " OpenGSFEncoderBase._get_segment"),
             ("count patching", GSF + " OpenGSFEncoder._end_dump")],
     "explicit-state search over operation histories of the real encoder against an abstract encoder model",
     "bounded depth; the model's every step is compared with the implementation")

prop("C04", "All ways of writing and reading GSF agree",
     "For the same grains and metadata, synchronous, asynchronous, streaming and all-at-once writing produce files "
     "with the same content, identical except for segment counts that an unseekable output must leave unknown. For "
     "the same bytes, every reading interface (one-shot functions, decoder sessions, deprecated methods; synchronous "
     "or asynchronous; seekable or unseekable inputs; any short-read chunking of the transport) yields the same "
     "header and grains.",
     ["inputs", "configurations", "schedules"],
     "all pairs of enumerated file contents and writer/reader interfaces, all chunkings of the transport up to a bound",
     "Each interface is tested separately on one or two files; equivalence over all contents and chunkings is not.",
     [GSF, M + "utils/asyncbinaryio.py"], [("async blocks", GSF + " AsyncGSFBlock"), ("sync blocks", GSF + " SyncGSFBlock"),
                                           ("stream adapter", M + "utils/asyncbinaryio.py OpenAsyncStreamWrapper")],
     "exhaustive cross product of contents, interfaces and transport chunkings on the real code",
     "differential across interfaces and against the reference codec; bounded contents and chunkings")

prop("C05", "Data loading modes and segment filters only affect when data loads",
     "Whatever loading mode is chosen, and in whatever order grains are pulled from the reader and their data is "
     "accessed (including before later grains are read, repeatedly, or after the whole file has been read), the "
     "grains delivered are the same and data that is available is exactly the grain's own payload. Filtering by "
     "segment delivers exactly the grains of the chosen segments; skipped payloads read as absent with the header "
     "intact; leaving an asynchronous session completes, loading every still-unloaded grain in the mode that promises "
     "it and cancelling the loads in the other.",
     ["histories", "configurations"],
     "all interleavings of pulling the next grain, accessing any earlier grain's data and closing, up to the full "
     "length of the files, for every mode, filter and interface",
     "Tests read sequentially; arbitrary access orders against a shared stream position are not explored.",
     [GSF, M + "utils/iobytes.py", GR + "Grain.py"],
     [("deferred loading", GSF + " GSFAsyncDecoderSession.grains"), ("lazy bytes", M + "utils/iobytes.py IOBytes"),
      ("session exit", GSF + " GSFAsyncDecoderSession._kill_unused_lazy_loaders")],
     "explicit exploration of all pull/access/close histories on the real reader",
     "complete within the history bound and file set")

prop("C06", "A truncated GSF file yields an exact prefix or an error",
     "Reading a file that has been cut at any byte yields exactly the grains that were completely present before the "
     "cut, each with its exact metadata and payload, in order, and then either stops or raises the library's decode "
     "error; it never delivers a grain with partial or wrong data, never raises an unrelated error and always "
     "terminates. This holds for every reading interface, mode and format version (a reader told to skip payloads "
     "needs only a grain's header, and a one-shot function may raise the decode error instead of returning grains).",
     ["crash_points", "inputs"],
     "every cut position of every file in the file set, for every reader",
     "A crash or partial download can cut anywhere; tests cut nowhere or in a few places.",
     [GSF], [("end of file handling", GSF + " grains()"), ("short read detection", GSF + " read_uint/read_string")],
     "exhaustive enumeration of cut points on the real reader",
     "all cuts of the file set; lazily loaded payloads are checked on access")

prop("C07", "Malformed GSF files are rejected with the documented errors",
     "A file with a wrong signature, wrong file type, unsupported version, missing header, undecodable text or blocks "
     "in forbidden places raises the decode error documented for that defect (carrying the offending type or version), "
     "identically in the synchronous and asynchronous readers. No corruption of a single byte of a file's structure "
     "makes the reader loop forever, or fail with anything but a decode error. A decode error keeps its kind and all it "
     "carries when it is copied or pickled (as between processes).",
     ["inputs", "fault_sequences"],
     "every byte position of every structural header times a set of substitute values, plus every documented "
     "malformation",
     "Fault space is positions times values; tests have one example per documented error.",
     [GSF], [("signature check", GSF + " _decode_ssb_header"), ("tag check", GSF + " __enter__ / __aenter__")],
     "exhaustive single-fault injection into file bytes on the real readers",
     "single-byte faults over the substitute set, exhaustive in position")

prop("C08", "Concatenated GSF files read as one sequence",
     "Reading any concatenation of valid files (of any mix of format versions, with or without terminators) yields "
     "the grains of all of them in order, each decoded by its own file's version; the header a session first reports "
     "is the first file's, and, as a grain is delivered, that of the file the grain is from. With concatenation support switched off, through any reading interface, exactly the first "
     "file's grains are read, and a source is left after the terminator, where another decoder can read the next "
     "file.",
     ["inputs", "configurations"],
     "all concatenations of up to N files from a set covering versions, emptiness and terminators, for every reader "
     "and both settings",
     "Tests read one concatenated example.",
     [GSF], [("concatenation", GSF + " grains() have_concatenation"), ("option", GSF + " GSFDecoder.__init__")],
     "exhaustive enumeration of concatenations on the real readers", "bounded number of files per concatenation")

prop("C09", "Concurrent deferred loads never mix up payloads",
     "However tasks that pull grains and tasks that load deferred grain data are interleaved on one asynchronous "
     "reader, every grain's data is exactly its own payload, no grain is lost, duplicated or corrupted, and no task "
     "fails or blocks forever.",
     ["schedules"],
     "all interleavings, at every suspension point, of a reader task and up to N loader tasks",
     "The event loop picks one schedule per test run; the shared file position makes others wrong.",
     [GSF, M + "utils/asyncbinaryio.py", GR + "Grain.py"],
     [("out of order read", GSF + " _read_out_of_order"), ("single load", GR + "Grain.py __await__")],
     "stateless exploration of all task interleavings under a controlled scheduler on the real code",
     "all schedules of the bounded task sets at I/O suspension points")

prop("C10", "Asynchronous file objects behave like ordinary files",
     "Every history of reads, writes, seeks, truncations and position queries on the asynchronous in-memory file and "
     "the asynchronous wrappers gives the results, positions and final contents that an ordinary binary file would "
     "give (sized reads of the in-memory file report end of file instead of returning short data). The stream wrapper "
     "gives the same results for any chunking of the underlying stream, skips forward exactly, and refuses to move "
     "backwards.",
     ["histories", "schedules"],
     "all operation histories up to depth N with boundary arguments on each object; all chunkings of the stream",
     "No stable test exercises these classes beyond straight-line reads and writes.",
     [M + "utils/asyncbinaryio.py"], [("in-memory file", "OpenAsyncBytesIO"), ("stream", "OpenAsyncStreamWrapper")],
     "explicit-state search over operation histories against a file model, on the real objects",
     "bounded depth and argument sets")

prop("C11", "Lazily loaded bytes are indistinguishable from bytes",
     "A lazy byte sequence over a window of a seekable stream answers every operation it supports (length, truth, "
     "indexing, slicing, iteration, membership, comparison with bytes and with other lazy sequences, hashing, "
     "conversion, copying, pickling and all bytes methods) exactly as the real bytes would, whatever the order of operations, "
     "wherever the stream was positioned, however few octets it gives per read and whatever else moves it in between. "
     "The window is read at most once, only when contents are needed (not for length or representation), and the "
     "stream's position is always restored, even when reading fails.",
     ["histories", "inputs"],
     "all histories of bytes operations interleaved with stream movements up to depth N, all windows of the stream",
     "Tests call each operation once on a fresh object.",
     [M + "utils/iobytes.py"], [("lazy loader", "LazyLoader.__getattribute__"), ("read window", "IOBytes.__loadbytes")],
     "explicit-state search over operation histories against real bytes", "bounded depth and operation set")

prop("C12", "A grain's properties and metadata always agree",
     "For every grain type, every way of constructing it (keyword arguments, metadata dictionary, or the factory) and "
     "every history of attribute assignments, each public property equals the value last set, the metadata dictionary "
     "reflects it and can be serialised to JSON, unrelated properties are unchanged, and constructing a grain from "
     "that metadata gives an equal grain of the same type. Shallow, deep and pickled copies equal the original, also when its "
     "payload has yet to be loaded, and changing a deep copy never changes the original.",
     ["histories", "inputs"],
     "all assignment histories up to depth N over all settable properties and boundary values, per grain type and "
     "construction route",
     "Unit tests set each property once from one construction.",
     [GR + "Grain.py", GR + "VideoGrain.py", GR + "AudioGrain.py", GR + "CodedVideoGrain.py", GR + "CodedAudioGrain.py",
      GR + "EventGrain.py"],
     [("metadata storage", GR + "Grain.py Grain.meta"), ("factory", GR + "Grain.py GrainFactory")],
     "explicit-state search over assignment histories of real grains against a record model",
     "bounded depth, boundary values per property")

prop("C13", "List-like grain members behave as Python lists",
     "A grain's timelabels, video components and coded unit offsets obey list semantics: every history of index, slice, "
     "insert, delete, append, extend, in-place addition, removal, reversal, assignment, membership and iteration "
     "operations gives the same results and errors as on a plain list of the same items, also when the items come from "
     "the list itself or from another grain. Every change is visible through the grain's metadata, which stays "
     "serialisable as JSON, and through previously obtained views of the list, and in nothing else.",
     ["histories"],
     "all operation histories up to depth N with boundary indices and slices on each list-like member",
     "Tests use a few indices; slices, negative indices and deletions interact with bookkeeping.",
     [GR + "Grain.py", GR + "VideoGrain.py", GR + "CodedVideoGrain.py"],
     [("timelabels", "Grain.TIMELABELS"), ("components", "VideoGrain COMPONENT_LIST"),
      ("unit offsets", "CodedVideoGrain.UNITOFFSETS")],
     "explicit-state search over list operation histories against Python lists", "bounded depth and index set")

prop("C14", "Event grain payload and parsed data stay in step",
     "An event grain's binary payload is always the JSON form of its type, topic and event list, and assigning a "
     "payload replaces exactly those; after any history of payload assignments, list edits and item edits both views "
     "agree. Missing before or after values stay missing, and malformed payloads are rejected without changing the "
     "grain.",
     ["histories", "inputs"],
     "all edit histories up to depth N over payload assignment, item edits, list edits and property assignment",
     "Tests check single transitions.",
     [GR + "EventGrain.py"], [("payload getter/setter", "EventGrain.data"), ("item proxy", "EventGrain.DATA")],
     "explicit-state search over edit histories against a JSON model", "bounded depth")

prop("C15", "Frame and sample buffers are laid out exactly as the format says",
     "A video or audio grain created without data has, for every format, size and layout, a zero-initialised buffer "
     "whose component widths, heights, strides, lengths and offsets tile it exactly, without gaps or overlap, in the "
     "proportions the pixel or sample format defines. Supplying a buffer never copies or alters it and the reported "
     "length, expected length and component lengths agree with it.",
     ["inputs", "configurations"],
     "every pixel format times every small width, height and layout; every audio format times channel and sample "
     "counts",
     "Tests cover a few formats at one resolution; odd sizes, padding and rare formats are not.",
     [GR + "VideoGrain.py", GR + "AudioGrain.py", M + "cogenums.py"],
     [("video allocation", "VideoGrain.__init__"), ("format facts", "cogenums"),
      ("expected length", "expected_length")],
     "exhaustive enumeration of formats and sizes against an independent layout table",
     "all formats; sizes up to the bound")

prop("C16", "Array views and grain buffers are the same memory, correctly indexed",
     "Through an array-based video or audio grain, element (x, y) of a component (or sample, channel) view is exactly "
     "the bytes the format places at that pixel or sample of the buffer, and writing through either side is visible "
     "through the other, for every format and size that arrays support. No view reaches outside the buffer, deep "
     "copies share nothing, and the views of a copy (shallow, deep or pickled) are of its own buffer. Such a grain equals "
     "(==) exactly what has the same metadata and octets. (24-bit audio is presented widened to 32 bits, so its views "
     "hold the samples without being the buffer.)",
     ["inputs", "histories"],
     "every supported format and every small size, writing each element through the view and each byte through the "
     "buffer",
     "Tests index a couple of positions for a handful of formats.",
     [M + "numpy/numpy_grains/VideoGrain.py", M + "numpy/numpy_grains/AudioGrain.py"],
     [("component arrays", "_component_arrays_for_interleaved_422 etc"), ("channel arrays", "numpy AudioGrain")],
     "exhaustive enumeration of formats, sizes, elements and access directions",
     "all supported formats at sizes up to the bound")

prop("C17", "Pixel format conversion is exact where it can be",
     "Converting an array video grain between any two supported formats gives a grain of the requested format and the "
     "source's size and timing, leaves the source untouched, and puts at each pixel the value the formats define: "
     "repacking between layouts of the same depth and subsampling is lossless, raising depth keeps the old code in "
     "the top bits, lowering depth rounds to the nearest code and never wraps, halving chroma takes the mean of the "
     "samples it replaces and doubling it repeats them (where the subsampling divides the size), and colour conversion "
     "stays within one code of the Rec. 709 matrix and clamps to range. Conversions the library declares impossible "
     "are refused.",
     ["inputs", "configurations"],
     "every ordered pair of formats, every small size, and pixel values covering all codes at the extremes of each "
     "depth",
     "Tests convert fixed test patterns; wrap-around at code extremes and odd sizes are not reached.",
     [M + "numpy/convert.py", M + "numpy/numpy_grains/VideoGrain.py"],
     [("conversion registry", "VideoGrain.grain_conversion"), ("chained conversion", "convert.py"),
      ("rounding", "convert.py _unbiased_right_shift")],
     "exhaustive enumeration of format pairs, sizes and extreme pixel values against reference arithmetic",
     "all format pairs; sizes and value sets bounded")

prop("C18", "Grain comparison reports equality exactly",
     "Comparing two grains is true exactly when they agree in type, in ids, rate, duration, length, origin and sync "
     "timestamps and time labels, in every attribute listed for their type (attributes_for_grain_type) and in the "
     "bytes of the payload, apart from what the options excuse; each differing field is false at its path in the "
     "result. By default creation timestamps are excused, an exclusion excuses exactly the field it names (by either "
     "of its names), an expected difference is met exactly by such differences, and a PSNR option replaces the "
     "payload comparison. Payloads in different formats or types are not compared, and excluding an event field "
     "excuses the event's length too. A grain equals its copy; without expected differences, comparison is symmetric. "
     "Comparing never fails and never alters the grains.",
     ["inputs", "configurations"],
     "every pair of grains differing in up to N fields, of all type pairs, against every single option and pair of "
     "options",
     "Tests check example differences with example options, not every field and option combination.",
     [M + "comparison/_internal.py", M + "comparison/options.py", M + "comparison/psnr.py"],
     [("comparison tree", "_internal.py"), ("options", "options.py")],
     "exhaustive enumeration of grain pairs and option combinations against an equality oracle",
     "bounded number of differing fields and options")

prop("C19", "Comparing grain sequences pairs grains exactly",
     "Comparing two sequences of grains examines each pair of corresponding grains exactly once, in order; the "
     "verdict is true exactly when both have the same number of grains and all pairs compare equal under the "
     "options. It consumes no more than it must, always terminates, and handles empty or unequal-length sequences "
     "in every reporting mode without failing.",
     ["inputs", "histories"],
     "all pairs of sequences up to length N over a small grain alphabet, in every reporting mode",
     "Tests compare equal-length sequences or one mismatch.",
     [M + "comparison/_internal.py", M + "comparison/__init__.py"],
     [("iterator comparison", "GrainIteratorComparisonResult")],
     "exhaustive enumeration of sequence pairs", "bounded sequence length and alphabet")

prop("C20", "Pattern generators are deterministic and correctly timed",
     "Every pattern generator yields grains of the requested format and size whose timestamps start at the origin and "
     "advance exactly with the rate, with no drift for any rate; the same grain is produced for the same time whether "
     "reached by iteration, indexing or slicing in any order, by time or by count of grains. Audio tones are sample-continuous across grain "
     "boundaries, and the picture or waveform is the one the pattern defines.",
     ["inputs", "histories"],
     "all generators times formats, sizes, rates and access orders up to a bound",
     "Tests check the first few grains of one configuration.",
     [M + "patterngenerators/abc.py", M + "patterngenerators/audio/tone.py", M + "patterngenerators/video/colourbars.py",
      M + "patterngenerators/video/lumasteps.py", M + "patterngenerators/video/movingbaroverlay.py"],
     [("indexing", "abc.py GrainSource"), ("tone phase", "tone.py"), ("overlay", "movingbaroverlay.py")],
     "exhaustive enumeration of configurations and access orders against independent pattern formulas",
     "bounded configurations and grain indices")

prop("C21", "Essence is cut into grains identically however it arrives",
     "Wrapping a stream of raw frames, raw samples, H.264 or ADTS AAC yields grains whose payloads concatenate to the "
     "input (apart from stated headers), cut exactly at access-unit or grain boundaries, with correct sizes, key-frame "
     "flags, unit offsets and timestamps. The result does not depend on how the input is delivered in chunks, and an "
     "input that ends early yields the complete units before its end and terminates.",
     ["inputs", "schedules", "crash_points"],
     "all short unit sequences, all chunkings of the input into reads up to a bound, all cut positions, all parameter "
     "sets one or two deviations from the plainest, all short sequences of changing parameter sets",
     "Tests feed whole files in one piece.",
     [M + "utils/grain_wrapper.py", M + "utils/h264_grain_wrapper.py", M + "utils/h264_parser.py",
      M + "utils/adts_aac_grain_wrapper.py", M + "utils/adts_aac_parser.py"],
     [("access unit splitting", "H264GrainWrapper"), ("frame splitting", "ADTSAACGrainWrapper"),
      ("raw splitting", "GrainWrapper")],
     "exhaustive enumeration of unit sequences, chunkings and cuts on the real wrappers",
     "bounded sequence length; independent reference splitter")

prop("C22", "Command-line wrap and extract are inverse",
     "Wrapping raw essence into a GSF file with the command-line tools and extracting it again gives back the "
     "original bytes for every supported kind of essence, through files or pipes. The probe tool reports the header "
     "and grains actually present, for every valid file. Standard input opened with file_or_pipe reads and skips "
     "forwards as a file of the same bytes would, and refuses to go back; identifiers which are not given are "
     "generated afresh.",
     ["inputs", "configurations"],
     "all essence lengths around grain boundaries, all tool options and input/output kinds up to a bound",
     "The tools have no stable tests.",
     [M + "tools/wrap_in_gsf.py", M + "tools/extract_from_gsf.py", M + "tools/_file_or_pipe.py"],
     [("wrap", "wrap_in_gsf.py"), ("extract", "extract_from_gsf.py")],
     "exhaustive enumeration of inputs and options through the real entry points",
     "bounded input sizes and option sets")

prop("C23", "Grain timing is exact for every rate",
     "For every grain, the presentation range, final timestamp, normalised time, media rate and timing derived from "
     "sample counts follow exactly from its origin timestamp, rate, duration and type: consecutive grains of a flow "
     "abut with neither gap nor overlap, for every rate including fractional ones. Setting one timing property changes "
     "only what depends on it.",
     ["inputs"],
     "all grain types times boundary rates, durations, sample counts and long runs of consecutive grains",
     "Tests check one or two rates.",
     [GR + "Grain.py", GR + "AudioGrain.py", GR + "CodedVideoGrain.py"],
     [("timing properties", "Grain.presentation_origin_timestamp etc")],
     "exhaustive enumeration of timing values against rational arithmetic", "bounded value sets")

prop("C24", "PSNR values are the true signal-to-noise ratios",
     "The peak signal-to-noise ratio computed for two video or audio grains equals, per component or channel, the "
     "definition applied to the actual sample values, for every supported format and size, and is infinite exactly "
     "for identical components. It is symmetric, leaves both grains unchanged and refuses grains that cannot be "
     "compared.",
     ["inputs", "configurations"],
     "all supported formats and small sizes, errors placed at every element with extreme magnitudes",
     "Tests compare a few fixed patterns.",
     [M + "comparison/psnr.py"], [("psnr", "psnr.py compute_psnr")],
     "exhaustive enumeration of formats, sizes and error positions against a direct definition",
     "bounded sizes and error magnitudes")

prop("C25", "Test-data strategies draw only valid grains that match their arguments",
     "Every grain that can be drawn from the package's hypothesis strategies is a complete grain of the type asked "
     "for. Each argument the caller fixed, by value or by a strategy, is honoured; an argument left open takes only "
     "values documented for it (never an encoded, unknown or invalid format, offsets in order) and can take all of a "
     "small domain; one marked as not to be set takes its documented default. The data is all zeros and of the size "
     "the format implies; strategies that fill data in change nothing but the data and leave their template alone; "
     "and the grain survives being written to a GSF file and read back.",
     ["inputs", "configurations"],
     "every strategy and argument, given as a value, as a strategy, left open or not set, and every draw within a "
     "bound on the number of primitive choices that leave their default",
     "Tests use the strategies to make inputs and never check what they draw.",
     [M + "hypothesis/strategies.py"],
     [("strategies", "hypothesis/strategies.py _grain_strategy, strategy_for_grain_attribute"),
      ("data", "hypothesis/strategies.py grains_from_template_with_data")],
     "stateless exploration of the choice tree of each strategy under a primitive provider that enumerates a finite "
     "menu for every draw, with a bound on the number of choices that leave the default",
     "bounded deviations; finite menus for draws with large domains")

prop("C26", "A comparison's report is true of what was compared",
     "What the report of a comparison says is true. Each line is marked as the comparison it shows came out (true, "
     "false or excluded), and the text, the message and the lists of failing attributes and keys all cover the same "
     "parts. The path of each part leads to the values that were compared, both of which (or their difference) are "
     "shown where they differ, whatever the keys of mappings contain. For payloads, every position, value, count, "
     "length and similarity stated is right, including the first word which differs and the steps that turn one "
     "payload into the other; for sequences, the entry named is the first which differs. A copy of a result reports "
     "the same.",
     ["inputs", "configurations"],
     "every pair of short payloads over a small alphabet in every word format, with insertions, removals and partial "
     "words, and every pair of grains differing in up to N fields against options",
     "Tests look at whether comparisons are true, and hardly at what they say.",
     [M + "comparison/_internal.py", M + "comparison/options.py"],
     [("report", "ComparisonResult._str, msg, failing_attributes"), ("payloads", "DataEqualityComparisonResult"),
      ("sequences", "GrainIteratorComparisonResult")],
     "exhaustive enumeration of pairs of payloads, grains and sequences; every claim in the report is evaluated "
     "against the grains",
     "bounded payload lengths and numbers of differing fields")

prop("C27", "A failing output never passes for success; stopping leaves a prefix",
     "Whatever interface writes a GSF file, and however its output behaves, the file is never silently wrong. An "
     "output that takes its data in pieces still receives all of it. When any operation of the output fails, the error "
     "reaches the program in the call that was made or in a later one; if the failing operation wrote nothing and the "
     "program goes on, the file holds exactly the grains whose addition succeeded, and counts them right. At every "
     "moment of the writing, wherever the last write is torn, what is in the output reads as the head and the first "
     "of the grains in the order they were written, including all whose addition had been completed (in streaming "
     "use), and never as anything else. When a task that adds grains is cancelled, each grain is in the "
     "file whole or not at all, and the counts are right. The command-line tools end with an error when their output is full.",
     ["faults", "crash points", "inputs"],
     "every writing interface, every operation of the output failing, every octet at which the last write may be "
     "torn, every size of pieces a write may be taken in",
     "Tests write to memory, which takes everything and never fails.",
     [M + "gsf.py", M + "tools/wrap_in_gsf.py", M + "tools/extract_from_gsf.py", M + "utils/asyncbinaryio.py"],
     [("write loops", "gsf.py _write_fully"), ("order of writing", "gsf.py OpenGSFEncoder, OpenAsyncGSFEncoder"),
      ("counts", "gsf.py GSFEncoderSegment")],
     "fault injection at every operation and enumeration of all crash points with torn writes on the real encoders; "
     "every state left behind is read by six readers",
     "bounded numbers of grains; one fault, or all after it")

prop("C28", "A failing or interrupted read never becomes wrong data",
     "Whatever interface reads a GSF file, and whatever operation of its input fails, what has been delivered is the "
     "first of the grains of the file, each with its own content; the program is told of the failure as the failure of "
     "the input it is (not as a malformed file, nor as the file's end), and a load of deferred data that failed "
     "succeeds when it is made again once the input is well. Essence cut from an input that fails gives only whole "
     "grains, then the error. Cancelling a task that loads or pulls grains (as a timeout does) never gives another "
     "task, nor a later load, other data than the grain's own.",
     ["faults", "schedules", "cancellation points"],
     "every reading interface and loading mode, every operation of the input failing once or for good; every point at "
     "which a task may be cancelled, in every schedule within the bound on deviations",
     "Tests read from memory, which never fails, and cancel nothing.",
     [M + "gsf.py", M + "utils/asyncbinaryio.py", M + "utils/grain_wrapper.py",
      M + "utils/adts_aac_grain_wrapper.py", M + "utils/h264_grain_wrapper.py"],
     [("block ends", "gsf.py SyncGSFBlock.__exit__, AsyncGSFBlock.__aexit__"),
      ("loaders", "gsf.py GSFAsyncDecoderSession"), ("executor calls", "utils/asyncbinaryio.py wrap_in_executor")],
     "fault injection at every operation of the input of the real readers, and exploration of the schedules of the real "
     "asyncio code with a task cancelled at every point, its I/O going on as threads do",
     "bounded numbers of grains and deviations; one fault, or all after it")

prop("C29", "Streams are delivered as they arrive; streaming writers hold nothing back",
     "A grain of a GSF stream is delivered as soon as its last octet has arrived, and the end of a file as soon as its "
     "terminator has (when files do not follow one another), through every reading interface, loading mode and kind of "
     "live source: no reader waits for octets which come after what it is asked for, nor takes a pause for the end. "
     "The same holds of raw video, raw audio and AAC read as grains; H.264 gives only whole grains, in order. A "
     "streaming writer has handed a grain to its output, whole and readable, when the call that adds it returns, and when "
     "it asks a program that makes grains as it goes for the next one.",
     ["inputs", "arrivals"],
     "every number of octets having arrived of every file of a menu (all grain types, unknown blocks, several files), "
     "every reading interface, loading mode and source, in pieces of every size of a set; every call of every "
     "streaming writer",
     "Tests read complete files; a reader that blocks on a live feed, or a writer that holds the last grain back, "
     "passes them all.",
     [M + "gsf.py", M + "utils/asyncbinaryio.py", M + "utils/grain_wrapper.py",
      M + "utils/adts_aac_grain_wrapper.py", M + "tools/wrap_in_gsf.py"],
     [("blocks", "gsf.py SyncGSFBlock, AsyncGSFBlock"), ("streams", "utils/asyncbinaryio.py AsyncStreamWrapper"),
      ("essence", "grain_wrapper.py, adts_aac_grain_wrapper.py grains()"),
      ("progressive dumps", "gsf.py GSFEncoder")],
     "enumeration of every arrival state of a bounded stream against the real readers, over sources that report when a "
     "reader waits; the real streaming writers observed after every call",
     "a menu of files; sources that give what they have and wait only when they have nothing")

prop("C30", "Grains stand alone, and operations leave what they are given alone",
     "Grains made by the library (decoded, cut from essence, generated, converted, copied or made of the same "
     "arguments) share nothing that can be changed: whatever is done to one - its metadata, octets, components, time "
     "labels, properties or payload - the others stay as they were, so do those which the same source makes later, "
     "and so does the grain they were made from (but for what the AAC wrapper learns of its stream, and array grains, which are views of the grain they are given). Comparing, encoding, measuring, copying, printing and wrapping grains "
     "leave them unchanged.",
     ["inputs", "histories"],
     "every producer x every grain of it changed in every one of five ways (thorough: every two grains in every two "
     "ways), at once or later, the producer used again; every operation x every pair of a set of grains",
     "Tests look at one grain at a time, and seldom again at what they passed in.",
     [M + "grains/", M + "gsf.py", M + "comparison/", M + "patterngenerators/", M + "numpy/", M + "utils/"],
     [("templates", "utils/*_grain_wrapper.py copy.deepcopy"), ("generators", "patterngenerators/video/abc.py, still.py, "
      "audio/tone.py"), ("copies", "grains/Grain.py __deepcopy__")],
     "exhaustive enumeration of bounded histories of changes on the real grains, each compared with an undisturbed run",
     "three grains of each producer; one or two changed")

prop("C31", "Long streams take no more memory than short ones; unasked data stays unread",
     "Reading grain by grain (sessions and legacy decoder, every loading mode, filter and kind of source), streaming "
     "out, cutting essence into grains, generating patterns, comparing with only the last result kept, and the "
     "command-line tools hold a bounded number of grains: memory does not grow with the length of the stream. (Held "
     "for each grain may be: promises of deferred loads in an asynchronous session, and what the probe was asked to "
     "print.) From a seekable source the data of a grain is not read before it is asked for, not at all when nobody "
     "asks or the grain was filtered out, and asking for one grain reads no other's; a session told to load what it "
     "deferred may read it all as it is left.",
     ["histories", "inputs", "configs"],
     "every reader x source x filter, every streaming writer, wrapper, generator, comparison and tool x two lengths of "
     "stream x two sizes of grain; every deferring reader x filter x every ordered choice of grains asked for",
     "Tests use streams of a few small grains, and look at results, not at what is held or read.",
     [M + "gsf.py", M + "utils/", M + "tools/", M + "patterngenerators/", M + "comparison/"],
     [("deferred loading", "gsf.py GSFSyncDecoderSession, GSFAsyncDecoderSession"), ("lazy data", "utils/iobytes.py"),
      ("streaming writers", "gsf.py GSFEncoder")],
     "exhaustive enumeration of configurations and of bounded histories of loads on the real code, with a monitor of "
     "octets read and of peak traced memory",
     "streams of 6/18/36 grains of 64 kB and 100/300 of 0.8 kB; 3 grains (4 thorough) in every order asked for")

prop("C32", "Things used side by side, or from several threads, do not disturb each other",
     "Readers, writers, wrappers, generators, comparisons, conversions, grains and asynchronous files which share no "
     "object work together as each does alone: whatever went before in the process, whatever the interleaving of their "
     "steps in one thread, and wherever in the package one is interrupted while another thread does its work, every one "
     "of them comes to the same grains, octets, verdicts and reports.",
     ["schedules", "histories"],
     "every thing asked for (parameters of 10 sorts of calls) x after each which differs from it in one parameter; every "
     "pair of activities x interleavings of their steps; every activity x every line of the package it reaches "
     "x another activity done meanwhile by another thread",
     "Tests use one thing at a time; state kept in a module or class only shows at certain interleavings.",
     [M + "gsf.py", M + "utils/", M + "grains/", M + "numpy/", M + "comparison/", M + "patterngenerators/"],
     [("module and class state", "numpy/numpy_grains/, patterngenerators/, comparison/options.py"),
      ("sessions", "gsf.py")],
     "stateless exploration of the real code under a controlled scheduler (sys.settrace): all interleavings of steps "
     "within the bounds, and every schedule with one preemption at line granularity",
     "59 activities on three sets of values; up to 3 switches between steps (all orders in a family, thorough); one "
     "preemption, at the first (thorough: second) time each line is reached")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": ["public Python API"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./run %s" % p["id"],
                           "thorough_cmd": "./run %s --tier thorough" % p["id"], "technique": p["technique"],
                           "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check built yet (work in progress)"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "chmod +x run && /opt/venv/bin/python -c 'import mediagrains, numpy'",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks: the checks drive /repo's working tree through its public interfaces and import "
                            "it afresh from source on every run."}, f, indent=1)
        f.write("\n")


main()
