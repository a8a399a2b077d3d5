prop("C01", "The configuration gate accepts exactly the encodable configurations",
 "Validating a configuration succeeds only when every documented constraint holds: picture size, render size and aspect ratio, lookahead length, bit depth, frame rate and time base, tile counts, switch-frame interval, option combinations and, when a level is requested, that level's limits on size, rate and tiles. A configuration meeting a constraint is never refused with that constraint's error. An unbounded or reserved level restricts nothing it does not define.",
 ["configurations", "inputs"], "every value of every configuration field, including the extremes of the integer ranges",
 "the tests try a few dozen concrete configurations; a bound that is off by one, a missing case, an inverted comparison or an overflow only shows at values they do not use",
 ["src/api/config/mod.rs", "src/api/config/encoder.rs", "src/levels.rs"],
 [("Config::validate", "src/api/config/mod.rs"), ("level limit tables", "src/levels.rs"), ("InvalidConfig", "src/api/config/mod.rs")],
 "partitioned (cell-wise) abstract interpretation of the validator's MIR, inter-procedural",
 "Sound over-approximation per interval cell: a must-reject cell with no accepting path, a must-accept cell with no path to that error. Trusts the MIR dump, integer arithmetic without wrap-around in comparisons, opaque floating-point rounding.",
 observe=["return value of validate / new_context"])

prop("C02", "No encoder exists for a configuration that was not validated",
 "Every way of obtaining an encoder (plain context, channel, first-pass, second-pass, multi-pass and by-GOP channels) validates the very configuration it encodes before any worker is started or encoder state is built, and returns an error instead of an encoder otherwise. A constructor whose rate-control mode contradicts the configuration's pass settings refuses it with the rate-control mismatch error, and only then. The encoder is built from the validated settings, with the sample type wide enough for the bit depth.",
 ["programs", "configurations"], "every public constructor, every path through it, all combinations of pass settings",
 "tests only build encoders from valid configurations; a constructor that skips or reorders validation behaves identically on those",
 ["src/api/config/mod.rs", "src/api/channel/mod.rs", "src/api/channel/by_gop.rs"],
 [("Config::new_context / new_inner", "src/api/config/mod.rs"), ("Config::setup, new_*_channel", "src/api/channel/mod.rs"), ("new_by_gop_channel", "src/api/channel/by_gop.rs")],
 "typestate analysis over all constructor paths (MIR abstract interpretation)",
 "All paths of every constructor found by signature; struct literals of encoder types enumerated crate-wide. Trusts external crates not to build encoders.")

prop("C03", "The sequence header is exactly the AV1 syntax of the configuration",
 "For every accepted configuration the sequence header bytes follow the AV1 sequence_header_obu() syntax: every field is present exactly when the standard says so, in order and with its exact width, and carries the value the configuration implies (profile, level, tier, picture size, tools enabled, colour description, timing, film grain flag). Profile, tier, still-picture and tool flags are derived from the configuration consistently with each other, and trailing bits and the OBU size close the unit.",
 ["configurations", "inputs"], "every accepted configuration: all combinations of profile, bit depth, chroma sampling, colour description, level, timing, still picture and error resilience",
 "the tests decode a handful of streams; a field written in the wrong branch or with the wrong width only breaks the configurations that reach it",
 ["src/header.rs", "src/encoder.rs"],
 [("write_sequence_header_obu / write_color_config", "src/header.rs"), ("Sequence::new", "src/encoder.rs")],
 "lock-step grammar conformance by abstract interpretation of the writer's MIR",
 "The writer is executed abstractly against a hand-transcribed AV1 grammar; each written (width, value) must match on every path. Trusts the bit writer crate and the transcription of the standard.")

prop("C04", "Every frame header is exactly the AV1 syntax of the frame's coding state",
 "For every frame the encoder can code (key, intra-only, inter, switch, shown, hidden, re-shown) the uncompressed header follows the AV1 uncompressed_header() syntax: each field is present exactly when a decoder will read it, in order, with the exact width, and its value is the coding state the tiles were really coded with (quantizer, deltas, segmentation, loop filter, CDEF, restoration, references, transform and interpolation modes, tile layout, film grain). Values a decoder infers instead of reading are only used in frames whose coding state equals the inferred value.",
 ["configurations", "inputs"], "every frame type, reference setup, tile layout, quantizer and filter state and film-grain table",
 "the tests decode small clips with a few settings; conditional fields (chroma deltas, film grain, segmentation, switch frames, odd tile layouts) are mostly never reached",
 ["src/header.rs", "src/encoder.rs", "src/segmentation.rs"],
 [("write_frame_header_obu and its parts", "src/header.rs"), ("FrameInvariants", "src/encoder.rs")],
 "lock-step grammar conformance by abstract interpretation of the writer's MIR",
 "Per cell (frame type, tile layout, cdef bits, film-grain shape) every path of the writer must match the transcribed grammar. Trusts the transcription and the bit writer; value ranges of symbolic fields are not bounded.")

prop("C05", "Metadata units, OBU headers and variable-length codes are well formed",
 "Every metadata unit written (content light level, mastering display, ITU-T T.35) carries its exact type code, field order, widths and trailing bits, and its declared size equals the bytes that follow; every OBU header carries the standard type code and flags. The variable-length codes used in headers (unsigned LEB128, little-endian sizes, non-symmetric, sub-exponential and signed codes) decode back to exactly the value that was written.",
 ["inputs"], "every metadata payload and length, every encodable value of each code",
 "tests cover a few short values; multi-byte sizes and boundary values of the codes are not sampled",
 ["src/header.rs", "src/util/uint.rs"],
 [("write_sequence_metadata_obu / write_t35_metadata_obu", "src/header.rs"), ("ULEB128Writer, LEWriter, write_obu_header", "src/header.rs")],
 "grammar conformance plus exhaustive cell-wise abstract interpretation of the code writers",
 "Codes are decided per value class by abstract interpretation with constant folding; metadata by lock-step grammar. Trusts the bit writer crate.")

prop("C06", "Every packet is one well-formed temporal unit, sized and ordered",
 "Each packet's bytes start with exactly one temporal delimiter followed by the units of the frames it completes; a key frame carries the sequence header first and the configured HDR metadata, T.35 messages precede their frame, and nothing else is emitted or lost. Every OBU's size field equals the bytes that follow it, tile sizes are coded for all tiles but the last, and the frame header is written after the tiles are coded so that it describes their final state.",
 ["inputs", "histories", "configurations"], "every frame type, metadata combination, number of T.35 messages, tile layout and position in the stream",
 "the tests decode whole streams with tolerant parsers; ordering, stale delimiters or sizes that only differ with several tiles or metadata kinds go unseen",
 ["src/encoder.rs", "src/api/internal.rs", "src/header.rs"],
 [("encode_frame / encode_show_existing_frame / build_raw_tile_group", "src/encoder.rs"), ("finalize_packet, ContextInner::new", "src/api/internal.rs")],
 "abstract interpretation with byte buffers as abstract sequences",
 "All paths of the packet assembly yield exactly the expected item sequence. Trusts that a vector's length is the number of bytes written to it; tile payload bytes are opaque.")

prop("C07", "The container header repeats the sequence header's parameters",
 "Every container sequence header (plain context, channel, C API) is the AV1 codec configuration record: marker and version, then profile, level, tier, bit-depth, monochrome and subsampling fields in their exact positions and widths, a chroma sample position only for 4:2:0 and a zero presentation-delay field, each carrying what the in-band sequence header of the same encoder carries, and nothing else.",
 ["configurations"], "every accepted configuration and every way of obtaining the container header",
 "one test compares the bytes for the default configuration; a field taken from the wrong parameter agrees with it there",
 ["src/api/context.rs", "src/api/channel/data.rs", "src/encoder.rs"],
 [("container_sequence_header", "src/api/context.rs"), ("PacketReceiver::container_sequence_header", "src/api/channel/data.rs")],
 "lock-step grammar conformance by abstract interpretation of every writer's MIR",
 "Every public producer found by name; each written field must equal the term of the sequence parameters. Trusts the bit writer crate and the transcription of the record.")

prop("C08", "The send/receive status protocol holds from every encoder state",
 "From every state a frame is accepted exactly when the encoder is not flushing and, for a still picture, is the first; otherwise EnoughData is returned and nothing changes. A flush fixes the frame limit at the number of frames sent, is idempotent and never fails. receive_packet codes at most one frame per call and returns LimitReached exactly when all frames were delivered, NeedMoreData only while input is missing, NotReady only when rate control lacks pass data, Encoded for a hidden frame and a packet exactly for a shown one; a call that codes nothing leaves the queues and counters alone. Channel senders refuse input at their limit and count only what was sent.",
 ["histories", "schedules"], "every reachable combination of flushing state, still-picture mode, frame limit, counters, look-ahead fill, rate-control readiness and frame visibility",
 "tests drive a few send/receive sequences to completion; wrong statuses in states those sequences do not visit stay invisible",
 ["src/api/context.rs", "src/api/internal.rs", "src/api/channel/data.rs"],
 [("Context::send_frame / receive_packet / flush", "src/api/context.rs"), ("ContextInner::receive_packet / encode_packet", "src/api/internal.rs"), ("FrameSender, RcDataSender", "src/api/channel/data.rs")],
 "cell-wise abstract interpretation of the encoder front end's MIR against a protocol table",
 "All paths from each cell of the life-cycle state give the prescribed status, calls and state writes. Trusts the standard collections; that coding a frame terminates is not decided.")

prop("C09", "What is sent with a frame is delivered with that frame's packet",
 "The opaque data, the T.35 messages and the forced key frame request sent with a frame are filed under that frame's own number and under no other, whichever way the frame is passed. They are kept while the frame is re-ordered; the shown frame (and only it, never the hidden coding of the same picture) carries the T.35 messages, and the packet that shows the frame returns its opaque data exactly once. A call that returns no packet takes nothing from these queues, and nothing else in the encoder changes them.",
 ["histories", "inputs"], "every sequence of frames, any subset with parameters, every re-ordering and every way of passing frames",
 "one test sends a single T.35 message without re-ordering; metadata attached to the wrong frame, dropped or sent twice in a re-ordered stream is not observed",
 ["src/api/internal.rs", "src/encoder.rs", "src/api/util.rs"],
 [("ContextInner::send_frame / receive_packet / build_frame_properties", "src/api/internal.rs"), ("FrameInvariants::new_key_frame / new_inter_frame", "src/encoder.rs"), ("IntoFrame", "src/api/util.rs")],
 "abstract interpretation of the parameter queues (key/value flow) plus crate-wide ownership query",
 "All paths of send, plan and receive use the frame's own number as key; other writers are excluded crate-wide. Trusts BTreeMap; the C API's part is C18.")

prop("C10", "The coding order is a valid, complete GOP structure",
 "For every frame position in every mode (re-ordering or low latency, with or without multiple references and switch frames) the planner codes each input frame of a GOP before or when it is shown, shows every input exactly once and in order, re-shows a hidden frame from the very slot that holds it, never overwrites a hidden frame that is still to be shown, and refreshes exactly the slot the frame is filed in (all slots for key and switch frames, none for re-shown ones). Frames only reference filled slots of other pictures; inside a complete pyramid they can reference an earlier and a later one. A group cut short by the next key frame skips exactly the inputs at or after it, and the next GOP starts with that key frame immediately after the last remaining input.",
 ["inputs", "configurations", "histories"], "every output frame number, GOP length, position of the next key frame and inter configuration",
 "tests encode some dozen frames with default GOPs; a wrong slot, reference or order hint in a rarely cut group corrupts only those streams",
 ["src/api/internal.rs", "src/encoder.rs"],
 [("InterConfig", "src/api/internal.rs"), ("FrameInvariants::new_inter_frame / new_key_frame", "src/encoder.rs"), ("build_frame_properties", "src/api/internal.rs")],
 "abstract interpretation in a linear/congruence domain with induction over groups",
 "Every output position 24h+6r+k+1 (12h+r+1 in low latency) for all h, every truncation of a group, composed on an abstract slot state. Trusts frame numbers below 2^31 and the InterConfig constructor as sole source of the group shape.")

prop("C11", "Key frames are placed where the caller and configuration ask",
 "Frame 0 is a key frame; every later frame is considered exactly once, in order, and becomes a recorded key frame exactly when the caller forced it or the scene-change detector reports it. The next key frame after one at n is the first recorded key frame after n, but never later than n plus the maximum interval nor, unless the limit is ignored, than the frame limit. The configured minimum and maximum intervals reach the detectors unchanged, with 0 meaning no maximum. Nothing else adds or removes key frames.",
 ["inputs", "configurations", "histories"], "every interval setting, frame limit, forced frame and detector outcome",
 "tests force one key frame and use small intervals; boundaries (interval met exactly, forced next to detected, limit before interval) are barely sampled",
 ["src/api/internal.rs", "src/api/config/encoder.rs", "src/api/channel/by_gop.rs"],
 [("compute_keyframe_placement / next_keyframe_input_frameno", "src/api/internal.rs"), ("set_key_frame_interval", "src/api/config/encoder.rs")],
 "cell-wise abstract interpretation of the placement functions' MIR plus ownership query",
 "Comparison-only functions decided on every ordering of their inputs; all paths. Trusts the external scene-change crate.")

prop("C12", "Reference state and in-loop filters follow the decoding process",
 "After a frame is coded its final reconstruction (padded), probabilities, segmentation, loop filter state and order hint replace exactly the slots its refresh flags name, and that state, with recomputed sign biases, is handed to the following frames up to and including the next coded one, never past a key frame; trial encodes and the look-ahead leave no trace in it. Probabilities and segmentation start from the slot of the primary reference, or fresh without one; they end as the signalled tile's probabilities with counters reset, unless the frame-end update is disabled. Deblocking runs exactly when a luma level is non-zero, then cdef, then restoration, each only when enabled, both reading the deblocked picture.",
 ["inputs", "configurations", "histories"], "every refresh mask, primary reference, filter switch, level combination and pattern of following frames",
 "tests decode some streams of a few frames; state leaking from a trial encode, past a key frame or into a rarely used slot only mismatches in other streams",
 ["src/encoder.rs", "src/api/internal.rs"],
 [("update_rec_buffer, get_initial_cdfcontext / _segmentation, encode_tile_group", "src/encoder.rs"), ("ContextInner::encode_normal_packet, compute_lookahead_motion_vectors", "src/api/internal.rs")],
 "cell-wise abstract interpretation of state saving, hand-over, loading and filter order",
 "All 256 refresh masks, all kinds of three following frames, all filter switches; filter kernels are opaque. Trusts rayon to run a closure once per tile.")

prop("C13", "Two-pass rate control data survives the round trip and is validated",
 "A first-pass summary and every per-frame packet, written by one encoder and fed to another, are read back as exactly the values written (68-byte summary, 8-byte packets, fixed little-endian layout). A summary is accepted exactly when its magic and version match, it has at least one TU, no negative count or scale sum, no overflowing total and no more TUs than frames; a packet exactly when it has 8 bytes, a frame type up to show-existing, and is needed. A rejected packet changes no rate control state and leaves no bytes behind for the next one. The encoder hands out a placeholder first, then each frame's data once, then the summary; it is ready only when the first-pass data was taken and the second-pass data it needs was fed. The second-pass window counts each packet once when it enters and once when it leaves; trial encodes count nothing.",
 ["inputs", "histories"], "every field value, every byte string fed back, every order of calls",
 "tests round-trip a dozen small values; sign, width and boundary errors, malformed input and ring wrap-around are not reached",
 ["src/rate.rs", "src/api/context.rs", "src/api/config/rate.rs"],
 [("RCState::emit_* / parse_frame_data_packet / update_state", "src/rate.rs"), ("RCDeserialize::parse_*", "src/rate.rs"), ("Context::rc_receive_pass_data", "src/api/context.rs")],
 "bit-provenance analysis of writer and reader, path analysis of validation, cell-wise abstract interpretation of the protocol",
 "Every bit of every written byte and parsed field is traced; all accepting and rejecting paths. Rate model arithmetic (logarithms) is opaque.")

prop("C14", "Quantizers and filter strengths stay within their coded range",
 "For every rate control outcome, bit depth, chroma format and frame kind, the base quantizer index is 1 to 255, every plane's AC and DC index is at least 1 and within 63 of it, and the deltas carried in the header are exactly those differences. Table lookups clamp base plus delta to 0..255 in the table of the stream's bit depth, a block's index is base plus its active segment offset clamped likewise, and no segment offset brings the index below 1 (lossless is never entered by accident). Cdef damping is 3 to 6, cdef strengths below 64 and quantizer-derived loop filter levels 0 to 63.",
 ["inputs", "configurations"], "every table index, base index, offset and rounded float the choice can produce",
 "tests encode at a few quantizers; the extremes, where a delta overflows its field or a segment goes lossless, are never sampled",
 ["src/rate.rs", "src/encoder.rs", "src/segmentation.rs", "src/deblock.rs", "src/quantize/mod.rs"],
 [("QuantizerParameters::new_from_log_q", "src/rate.rs"), ("FrameInvariants::set_quantizers, get_qidx", "src/encoder.rs"), ("segmentation_optimize", "src/segmentation.rs"), ("deblock_filter_optimize", "src/deblock.rs"), ("dc_q, ac_q", "src/quantize/mod.rs")],
 "abstract interpretation to closed terms, exhaustive evaluation of the terms over their opaque inputs",
 "Exhaustive over all 256 x 256 index pairs per plane. Loop filter levels found by exhaustive search (slow presets) are not bounded here; the header writer's own assertion guards them. Logarithms are opaque.")

prop("C15", "The output depends on nothing but configuration and input",
 "Coding reads no clock, random source, process environment, file, thread identity, worker count, hash order or address, keeps no state across encoders (no mutable or interior-mutable static, no thread local), and branches on the CPU feature level only to pick kernels. The configured thread count only sizes the thread pool. Work done in parallel hands back its results in a fixed order and publishes nothing else while running, and polling a channel never steers the encoder.",
 ["inputs", "schedules", "histories"], "every function of the library crate, every schedule, every earlier or concurrent encode in the process",
 "tests run one encode on one machine; a result that depends on timing, thread count, earlier encodes or hash seeds passes most runs",
 ["src/encoder.rs", "src/deblock.rs", "src/api/config/mod.rs", "src/api/lookahead.rs", "src/cpu_features/mod.rs"],
 [("encode_tile_group, deblock_filter_frame, compute_motion_vectors", "src/encoder.rs"), ("Config::new_thread_pool", "src/api/config/mod.rs"), ("CpuFeatureLevel", "src/cpu_features/x86.rs")],
 "whole-crate effect analysis on resolved calls, statics and types",
 "Every external call in the crate classified. Agreement of native and assembly kernels is not decided; uninitialised memory is assumed unread; pure external crates are trusted.")

prop("C16", "The C API is a faithful view of the encoder",
 "Every status the encoder reports reaches C callers as the matching RaEncoderStatus, both as return value and as the context's last status, and every status has its own name. Every documented option key sets its own configuration field to the parsed value and nothing else; unknown keys, unparsable values and levels outside 2.0-7.3 are refused leaving the configuration unchanged; typed setters do the same and report refusal. A context gets the pixel type of its bit depth. Frame type, opaque pointer and T.35 metadata set on a frame are the ones sent; an opaque's release callback runs once, or is disarmed when the opaque comes back with the packet. Packet fields equal the encoder's. Plane data is copied to and from the plane, slice, stride and byte width asked for. Pass data and summaries are length-prefixed big-endian, and a prefixed buffer that is too short is reported with the number of bytes missing and never read past its end. Release functions accept null and free the same pointer and length that was handed out.",
 ["inputs", "programs", "histories"], "every exported function, every option key, every status, every buffer length",
 "the C API has a handful of unit tests with one value each; swapped fields, a lost status, a double callback or an over-read need the exact call sequence",
 ["src/capi.rs"],
 [("option_match, level parsing, typed setters", "src/capi.rs"), ("rav1e_send_frame, rav1e_receive_packet, rav1e_packet_unref", "src/capi.rs"), ("rc_*, decode_slice", "src/capi.rs")],
 "abstract interpretation of every exported function to symbolic outcomes compared with a table of the contract",
 "Each exported function interpreted on symbolic arguments. Numeric parsing and the encoder behind the API are opaque here; memory validity of caller-supplied pointers is the caller's.")

prop("C17", "Channels carry every frame in and every packet out, once and in order",
 "An encoder behind a channel hands every frame it receives to the encoder exactly once, in order and with the parameters it was sent with, delivers every packet the encoder returns exactly once and unchanged before asking for the next, and after the sender is dropped flushes (limit = frames received) and drains until the limit is reached. With pass data enabled it delivers the data of every coded frame, then the summary, and feeds all the pass data a frame needs before coding it. A still picture channel accepts one frame, a second pass as many as the first coded; senders count only what was accepted and give back what was not. By GOP: sub-GOPs contain all frames and parameters in order, split where the scene detector said; a GOP stays with one worker, which takes new work only when done; packets come out in GOP order with consecutive frame numbers.",
 ["schedules", "histories", "inputs"], "every interleaving of channel events a worker can see, every encoder status, every arrival order of finished GOPs (up to three in flight)",
 "tests push a few frames through a channel; a lost packet, a missed flush or swapped GOPs depends on timing and on statuses the samples never produce",
 ["src/api/channel/mod.rs", "src/api/channel/by_gop.rs", "src/api/channel/data.rs"],
 [("Config::new_channel_internal, feed_pass_data", "src/api/channel/mod.rs"), ("scenechange, encode, workerpool, reassemble", "src/api/channel/by_gop.rs"), ("FrameSender, RcDataSender, PacketReceiver", "src/api/channel/data.rs")],
 "typestate automata over the abstract interpretation of every spawned task on its captured channel endpoints",
 "All paths of each task to the loop fixpoint; the reassembly task for every arrival order of three GOPs of up to two packets. Deadlock freedom (thread pool size, bounded queues) is not decided.")

prop("C18", "What the entropy coder writes is what a decoder reads back",
 "Coding a symbol narrows the range to the interval AV1's decoder assigns to it, for every range, frequency pair and alphabet size; every bit of the low end is either kept or moved to the output exactly once, with its carry; finishing emits a value inside the final interval and resolves every carry. The recorder replays exactly the tokens it was given, in order, and is then as new. A symbol is coded with its own slice of the distribution as it was before adapting, and the distribution then adapts by AV1's rule (rate, direction and count) in the generic and the SIMD version alike, for probabilities strictly between 0 and 32768. Literals, Golomb, quasi-uniform and (signed, referenced) sub-exponential codes, in tile data and in the header, are read back by AV1's parsing process to the value written.",
 ["inputs", "histories"], "every coder state (pending-bit count and normalisation shift), every alphabet size 2-16 with every symbol and adaptation count, every probability",
 "tests code a few bits and symbols and compare round trips; a lost carry, a wrong slice at one alphabet size or a wrong rate at one count needs states the samples never reach",
 ["src/ec.rs", "src/asm/x86/ec.rs"],
 [("WriterEncoder::store, done, lr_compute, replay", "src/ec.rs"), ("symbol, symbol_with_update, literal, write_golomb, write_subexp", "src/ec.rs"), ("update_cdf", "src/asm/x86/ec.rs")],
 "abstract interpretation to closed terms per coder state, compared with the specification's formulas by bit provenance and term evaluation over the whole probability range",
 "All states of the bit counter and shift; the interval formula is compared on a grid of 16-bit ranges and frequencies, adaptation on every probability, codes per value and read back. Monotone input distributions are assumed.")

prop("C19", "Trial coding leaves no trace",
 "Rolling back restores exactly what was there at the checkpoint: every probability distribution changed since, whatever the order and number of symbols coded (the log restores newest first, never touches a distribution it did not save, and never writes past its capacity); every context of the block's superblock in all planes and subsamplings; and the writer's range, pending bits, output and recorded tokens. Nothing a trial changes in the coding contexts or the writer escapes this. A search that is not given a writer of its caller returns with all contexts and distributions as they were on entry, on every path. Where a partition search tries alternatives with its caller's writers, the contexts and both writers are always rolled back together, each to its own checkpoint, before the next alternative's partition symbol is coded; and the deciding search returns with all of them rolled back.",
 ["inputs", "histories"], "every distribution in the context structure, every block position class and chroma sampling, every path of every search function",
 "a trial that leaks a single adapted probability only desynchronises the decoder for the particular content where the leak matters; tests encode a few tiny clips",
 ["src/context/cdf_context.rs", "src/context/block_unit.rs", "src/ec.rs", "src/rdo.rs", "src/encoder.rs"],
 [("CDFContextLog, CDFContextLogPartition, ContextWriter::rollback", "src/context/cdf_context.rs"), ("BlockContext::checkpoint, rollback", "src/context/block_unit.rs"), ("StorageBackend::checkpoint, rollback", "src/ec.rs"), ("rdo_mode_decision, rdo_partition_decision", "src/rdo.rs"), ("encode_partition_bottomup", "src/encoder.rs")],
 "compiler layout query, abstract interpretation of log and checkpoints on flat symbolic memory, interprocedural clean/dirty dataflow and in-step typestate of the searches",
 "All distributions of the compiled layout; push/rollback sequences of four entries; all paths (path-insensitive) of all functions that can code. Reconstruction pixels and block info, which the final coding overwrites, are outside.")

prop("C20", "The constants shared with decoders are AV1's",
 "Every table the decoding process also has - default probabilities of all syntax elements, scan orders, quantizer look-ups, interpolation and intra-edge filters, smooth weights, self-guided and Wiener filter parameters, inverse transform constants and types, coefficient-context, block-size and transform-size maps, top-right and bottom-left availability, segmentation feature sizes, level limits - has AV1's values; every distribution is one (never increasing, strictly inside the coder's range, count zero) and every scan visits each coefficient once. A new coding context starts, for every base_q_idx, from the default probabilities of its quantizer class, and clearing the adaptation counts at the end of a frame zeroes the count of every distribution and changes nothing else. Blocks up to four samples wide use the 4-tap filter of their filter type, wider ones the type's own; directional prediction uses AV1's slope for every angle.",
 ["inputs", "programs"], "every entry of every table, every base_q_idx, every distribution, every filter type, width class and position, every angle",
 "a single wrong entry only shows in a decoder, for content that reaches it; tests compare the encoder with itself",
 ["src/entropymode.rs", "src/token_cdfs.rs", "src/scan_order.rs", "src/quantize/tables.rs", "src/levels.rs", "src/context", "src/lrf.rs", "src/mc.rs", "src/recon_intra.rs", "src/predict.rs"],
 [("default_*_cdf tables", "src/entropymode.rs"), ("av1_scan_orders", "src/scan_order.rs"), ("CDFContext::new, reset_counts", "src/context/cdf_context.rs"), ("get_filter", "src/mc.rs"), ("AV1_LEVEL_*", "src/levels.rs")],
 "compiler-evaluated constants compared with recorded AV1 values and defining rules; abstract interpretation of the selecting functions",
 "All values of the tables listed in oracle/tables.json; the record was taken from the pinned tree, cross-checked by rules (scans, quantizers, filters, trigonometric constants, Annex A levels).")

prop("C21", "Blocks are coded in the order AV1 reads them",
 "For every block the syntax elements written are those AV1's decoding process reads, in its order and under its conditions: skip, segment id, CDEF index, intra/inter flag, reference frames, modes, dynamic reference list, motion vectors, angles, chroma modes and chroma-from-luma, palette and filter-intra flags, transform size, each with the value decided for the block; then the transform blocks of the residual, in raster order with luma before chroma, exactly those whose start lies inside the frame, each with the transform type its size and mode allow. A superblock is coded as the partition decided: the symbol first, then the sub-blocks inside the frame, with the decisions made for them, then the partition context. A tile is coded superblock by superblock in raster order, loop restoration and CDEF parameters in their places, from freshly reset contexts.",
 ["inputs", "configurations"], "every block size, frame type, mode class, skip and segmentation setting, chroma sampling, transform size, frame-edge cell and search outcome",
 "an element out of order or with the wrong condition only shows in a decoder and only for the mode combination that reaches it; unit tests never decode",
 ["src/encoder.rs", "src/rdo.rs", "src/context/block_unit.rs"],
 [("encode_block_pre_cdef, encode_block_post_cdef, write_tx_blocks, write_tx_tree, encode_block_with_modes", "src/encoder.rs"), ("encode_partition_bottomup, encode_partition_topdown", "src/encoder.rs"), ("encode_tile, check_lf_queue, encode_superblock", "src/encoder.rs")],
 "abstract interpretation of block coding to event sequences, compared with the sequence AV1's syntax tables prescribe for each configuration cell",
 "All paths of each function per configuration cell; block positions are representative (interior and each frame edge). Which symbol and context an element is coded with is not decided here.")

prop("C23", "The reconstruction is computed from exactly what is coded",
 "Every transform block is reconstructed as a decoder will: predicted with the coded mode, angle or chroma-from-luma parameter from edges read at its own place, its residual transformed, quantized and coded once, and the coded coefficients (the same buffer, count, transform size and type, quantizer index and deltas, bit depth) dequantized and added in the same area whenever any is non-zero. The quantizer index is base_q_idx plus the block segment's delta, clipped to 0-255, and the quantizer is prepared for the very block it quantizes; dequantization is AV1's for every coefficient, scale and sign. Motion compensation predicts each plane once over the block with its coded references and vectors, sub-8x8 chroma from the vectors of the blocks it covers unless one is intra; the reference position and sub-sample fraction are AV1's for every vector and subsampling; compound prediction is used exactly for two inter references. Intra edge filtering looks at the neighbours AV1 looks at, and every coded block records the modes and references later blocks look at.",
 ["inputs", "configurations"], "every block and transform size, plane, subsampling, mode class, skip, frame-edge cell, motion vector fraction and quantizer delta",
 "encoder and decoder drift apart silently: the encoder compares only with its own reconstruction, and nothing in the tests decodes",
 ["src/encoder.rs", "src/predict.rs", "src/quantize/mod.rs", "src/tiling/tile_state.rs"],
 [("encode_tx_block, write_tx_blocks, write_tx_tree, motion_compensate, get_qidx", "src/encoder.rs"), ("get_mv_params, predict_inter, IntraEdgeFilterParameters", "src/predict.rs"), ("dequantize, get_log_tx_scale", "src/quantize/mod.rs"), ("above_block_info, left_block_info", "src/tiling/tile_state.rs")],
 "abstract interpretation of block reconstruction to step sequences with operand identity; derived operands as closed terms evaluated exhaustively against AV1's formulas",
 "All paths of the named functions per configuration cell. Prediction, transform and filter kernels are opaque: their arithmetic is outside.")

prop("C22", "Every syntax element is coded with AV1's value and context",
 "Each element of a block is written with the value and the probability distribution AV1's decoding process will read it with: skip, segment id, intra/inter and compound flags, reference frames, inter modes and motion vector components, intra and chroma modes, angles, chroma-from-luma signs and magnitudes, palette and filter-intra flags, partition (with the derived probabilities at frame edges), transform size and split, transform type, loop filter deltas, restoration units, and the whole coefficient coding (all-zero flag, end-of-block class and extra bits, base levels, ranges, signs, Golomb remainders). The context is the one AV1 derives from the blocks above and to the left (absent, intra, inter, compound, skipped), from the block's size, position, plane and transform, and from the coefficients already coded; and the context each block leaves for the next - partition, transform size, skip, segment, reference coefficients, coefficient level and sign - is the one the decoder keeps.",
 ["inputs", "histories"], "every neighbour state, block and transform size, transform type, segment id, partition and restoration setting; coefficient blocks at every length for small transforms and at the class limits for large ones",
 "a wrong context still encodes and decodes inside the encoder's own model; the drift shows only in a decoder, for the neighbour combination that reaches it",
 ["src/context/block_unit.rs", "src/context/transform_unit.rs", "src/context/partition_unit.rs", "src/context/mod.rs", "src/context/cdf_context.rs", "src/context/superblock_unit.rs"],
 [("write_coeffs_lv_map, encode_eob, encode_coeffs, get_txb_ctx, write_ref_frames, write_mv", "src/context/block_unit.rs"), ("write_tx_type, write_tx_size_intra, write_tx_size_inter, get_nz_map_ctx, get_br_ctx", "src/context/transform_unit.rs"), ("write_partition, get_segment_pred, write_segmentation, skip_context", "src/context/partition_unit.rs"), ("encode_mv_component", "src/context/mod.rs")],
 "abstract interpretation of each writer over an opaque coder, per cell of its domain; symbols, distributions (as places) and context state compared with AV1's binarization and context rules",
 "Neighbour states, sizes and flags are enumerated completely per element; motion vectors at every class and its limits; coefficient values by patterns covering every level class. 16x64 and 64x16 transforms, which rav1e never uses, are left out. Contents of the distributions are C20's, the order of elements C21's.")

prop("C24", "Motion vector candidates are the ones AV1's decoder derives",
 "For every inter block the list of candidate motion vectors (which vectors, in which order, which of them count as near matches) and the mode context are those of AV1's motion vector prediction process for the blocks coded so far in the tile: the neighbours scanned, their availability in decoding order, top-right included, weights and duplicates, sorting, the extra search with its sign-bias inversion, the padding of compound lists and the clamp to the frame. The mode decision searches candidates for the block and references at hand, tries only modes that list supports, and gives each mode the vectors the decoder will derive for it from that list: nearest, near, global zero, or new for exactly the half the mode codes.",
 ["inputs", "histories"], "partition layouts of tiles inside and at the edges of frames, block sizes and positions, modes, references and vectors of the neighbours, reference pairs; for the mode decision every length of candidate list, motion search outcome, block class, reference slots and speed setting",
 "a wrong candidate is consistent inside the encoder and breaks only a decoder, for rare layouts of neighbours; tests never decode",
 ["src/context/block_unit.rs", "src/partition.rs", "src/rdo.rs", "src/predict.rs"],
 [("find_mvrefs, setup_mvref_list, scan_row_mbmi, scan_col_mbmi, scan_blk_mbmi, add_ref_mv_candidate, add_extra_mv_candidate", "src/context/block_unit.rs"), ("has_tr", "src/partition.rs"), ("inter_frame_rdo_mode_decision", "src/rdo.rs")],
 "abstract interpretation of the candidate search on coded layouts and of the mode decision over list lengths, compared with AV1's motion vector prediction process",
 "The search is decided on enumerated layouts (partitions with pseudo-random blocks, fixed seeds), not for all layouts at once. Global motion is identity and temporal candidates are off, as rav1e codes them. Which vectors the motion search finds is outside.")

prop("C25", "The loop filters run as AV1's decoder runs them",
 "Between reconstruction and output the encoder's frame passes through the filters a decoder applies, in its order: deblocking exactly when a luma level is non-zero and with the levels coded in the header, then CDEF when enabled, reading a copy of the deblocked frame, then loop restoration when enabled, with the deblocked samples for its stripe borders. Deblocking filters every transform edge inside the frame once (not the frame's own border, not inner edges of skipped inter blocks), vertical edges before the horizontal edges that read their samples, with the filter length of the smaller transform and the level of the plane and direction, and changes each sample as AV1's narrow, 6, 8 and 14 sample filters do. CDEF filters each 8x8 block that is not wholly skipped, in every plane, with the coded strengths, AV1's variance adjustment, direction and damping, taking only samples inside the frame; its direction search, constraint function and block filter compute AV1's values, and skipped blocks are copied unchanged.",
 ["inputs", "configurations"], "block, transform and neighbour sizes, skip and reference, planes and subsamplings, bit depths, levels and frame sizes for deblocking; strengths, directions, damping, variance, frame edges for CDEF; samples around every decision threshold",
 "the filters run after coding, so an error changes only the reference frame: the encoder keeps predicting from it, a decoder does not, and no test decodes",
 ["src/deblock.rs", "src/cdef.rs", "src/encoder.rs"],
 [("deblock_plane, filter_v_edge, filter_h_edge, deblock_size, deblock_level, deblock_size*_inner", "src/deblock.rs"), ("cdef_filter_superblock, cdef_filter_tile, cdef_analyze_superblock, cdef_filter_block, cdef_find_dir, constrain", "src/cdef.rs"), ("encode_tile_group", "src/encoder.rs")],
 "abstract interpretation of the filters with symbolic samples to closed terms, compared with AV1's filter process at and around every threshold; ordered edge and call sequences against AV1's dependencies",
 "Closed terms are compared at samples placed around each threshold, not for all values. Superblocks are 64x64, sharpness 0, level deltas off, as rav1e codes them. The assembly versions of CDEF are outside, as is the arithmetic of loop restoration.")
