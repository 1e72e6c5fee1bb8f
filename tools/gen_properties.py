#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so it stays valid JSON)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/reader/decoder.rs"; M="src/reader/mod.rs"; C="src/reader/converter.rs"; E="src/encoder.rs"; K="src/common.rs"

p("C01","Encoding then decoding returns every frame unchanged",
"Whatever sequence of frames, repeat setting and raw extensions an application writes with the encoder, decoding the produced bytes yields exactly those frames in order: every pixel index, position, size, local palette, delay, disposal method, transparent index and user-input flag. Screen size, global palette (padded with black to the next power of two, at least 2 entries) and loop count come back as well. Pixels beyond width*height in an over-long frame buffer are ignored; rows of a frame flagged interlaced are written in the order given and come back in display order.",
["inputs","histories"],"for all screen sizes, global palettes, and histories of encoder calls with arbitrary frames (0..65535 dimensions within memory, all metadata values, palettes of any length up to 256 colours, any pixel values)",
"The tests round-trip a handful of sample files and one synthetic frame; palette sizes, code-size boundaries, sub-block boundaries, dictionary overflow and metadata combinations are not enumerated.",
[E,D,M,C],[("Encoder::write_frame / write_frame_header / write_image_block",E),("lzw_encode min code size choice",E),("StreamingDecoder::next_state",D)],["Decoder::read_next_frame","Encoder::into_inner"])

p("C02","Everything the encoder writes is a well-formed GIF89a stream",
"Every byte stream finished by the encoder, whether by explicit finish or by dropping it, is a grammatically valid GIF89a stream: signature, screen descriptor, colour tables of the size announced, well-framed sub-blocks of 1..255 bytes each closed by one terminator, exactly one trailer as the last byte. Its image data is compliant LZW: minimum code size 2..8 large enough for all pixel values, starting with a clear code, ending with the end code, decoding by an independent decoder to exactly the pixels given. The same calls always give the same bytes, and dropping writes the same bytes as finishing explicitly.",
["inputs","histories"],"for all histories of encoder calls with arbitrary frames, palettes, repeats, control and raw extensions (any label, any payload slicing)",
"Existing tests look at encoder output only through the crate's own tolerant decoder, so a malformed field that the decoder ignores is invisible, and only a few inputs are tried.",
[E,"src/traits.rs"],[("write_screen_desc, write_color_table, flag_size",E),("write_encoded_image_block",E),("write_extension / write_raw_extension",E),("Drop for Encoder / into_inner",E)],["bytes accepted by the io::Write"])

p("C03","Valid GIF files decode to what the GIF89a format says",
"For every well-formed GIF87a/GIF89a stream, decoding yields exactly the frames described by the format, in file order: position, size, local palette, delay, disposal, transparency, user-input flag, and the pixel indices obtained by LZW decompression. This includes any legal LZW encoding (minimum code size 2 to 11, early, repeated or deferred clear codes, full 4096-entry dictionary, missing initial clear code), any split of the data into sub-blocks, empty sub-block sequences in extensions, zero-sized frames, files without frames, and trailing data beyond the last pixel.",
["inputs"],"for all well-formed GIF streams built from the grammar (header, tables, extensions, images) with any LZW code stream",
"The sample corpus was written by a few encoders that always use the same code-stream shape; rare but legal encodings never occur in it.",
[D,M,C],[("StreamingDecoder::next_state",D),("LzwReader",D),("Decoder::read_next_frame",M),("PixelConverter::read_frame",C)],["Decoder::read_next_frame","DecodeOptions::read_info"])

p("C04","RGBA output is the palette expansion of indexed output",
"For every file, decoding in RGBA mode gives for each pixel the colour of its index in the frame's local palette, or in the global palette if the frame has none, with alpha 0 exactly for the frame's transparent index and 255 otherwise. Indices outside the palette give transparent black (0,0,0,0) in freshly allocated frames and never disturb neighbouring pixels. Frame metadata, frame order and error behaviour are the same in both modes.",
["inputs","configurations"],"for all files and frames, both colour modes, and all read methods",
"Samples cover few combinations of local/global palette, transparency and out-of-range indices, and the RGBA path has its own buffering.",
[C,M],[("PixelConverter::fill_buffer",C),("palette selection",C)],["Decoder::read_next_frame with ColorOutput::RGBA","Decoder::read_into_buffer","FrameDecoder"])

p("C05","Interlaced frames come out in display row order",
"For every frame flagged interlaced, of any width and height, the decoded rows are the stored rows redistributed in the four interlace passes (rows 0,8,16..; 4,12..; 2,6,10..; 1,3,5..), every row exactly once; a non-interlaced frame is never reordered. The result is reported as not interlaced. This holds in indexed and RGBA mode and for frames kept compressed and expanded later.",
["inputs"],"for all heights 0..65535 and widths, both colour modes and all whole-frame read methods",
"Tests check the row sequence for 18 heights in a unit test of one helper; they do not tie it to decoded pixels for general sizes and modes.",
[C,D],[("InterlaceIterator",C),("PixelConverter::read_into_buffer",C),("FrameDecoder::decode_lzw_encoded_frame",D)],["frame buffers returned by read_next_frame, read_into_buffer, FrameDecoder"])

p("C06","How input bytes are chunked never changes the result",
"For every byte sequence, valid or not, the outcome of decoding (frames, metadata, loop count, final error or clean end) is the same however the reader splits the bytes into reads, from one byte at a time to everything at once. Feeding the low-level streaming decoder any split of the same bytes yields the same frames, palettes, extension payloads and verdict, and whole-input consumption is identical.",
["inputs","schedules"],"for all byte sequences and all partitions of them into reads / update slices",
"Tests chunk one sample file at fixed sizes; errors and state carried across a boundary only appear at particular split points of particular inputs.",
[D,M],[("internal_buffer / ensure_min_length_buffer",D),("StreamingDecoder::update",D),("ReadDecoder::decode_next",M)],["Decoder over a chopping io::Read","StreamingDecoder::update"],[("internal_buffer","bytes of an incomplete fixed-size field",D)])

p("C07","All ways of reading a frame give the same pixels",
"For every file, reading a frame as a whole, via the iterator, via frame info followed by reading into a caller's buffer, or via frame info followed by any sequence of partial buffer fills gives the same pixel bytes (partial fills deliver stored row order, the others display order). The iterator's provided methods (nth, step_by, count, last, size_hint, fold, take) agree with taking its frames one by one. Partial fills report true exactly as long as the buffer was filled completely. Reading into a caller's buffer writes only the announced frame size, rejects a too-small buffer with an error, and never touches bytes beyond it.",
["inputs","histories"],"for all files, both colour modes, all sequences of partial buffer sizes and all caller buffer sizes",
"Tests use whole rows or whole frames of sample files; arbitrary piece sizes interact with LZW state and RGBA scratch buffering.",
[M,C],[("Decoder::fill_buffer / read_into_buffer / read_next_frame / DecoderIter",M),("PixelConverter::fill_buffer",C)],["buffers filled by Decoder"])

p("C08","Keeping frames LZW-compressed loses nothing",
"For every frame, compressing it ahead of time and writing it pre-encoded produces the same bytes as writing it directly. For every file, reading frames without decompression yields the same metadata and the exact compressed bytes; expanding them later, with one reusable frame decoder and in any order, gives the same pixels as ordinary decoding, and writing them back pre-encoded gives a file that decodes identically. A frame whose data cannot be expanded is left as it was. The frame decoder uses the palette it was last given, if any, and never writes beyond the frame's size.",
["inputs","histories"],"for all frames, all files with any LZW encoding and code size, and all orders of expansion with a shared frame decoder",
"The tests pass a few samples through; tiny frames, odd code sizes and reuse of one frame decoder after failures or different code sizes are not explored.",
[D,M,E],[("skip_frame_decoding / CopySubBlock",D),("Decoder::copy_lzw_into_buffer",M),("FrameDecoder",D),("Frame::make_lzw_pre_encoded / write_lzw_pre_encoded_frame",E)],["Frame.buffer in LZW form","FrameDecoder output","encoder output bytes"])

p("C09","Skipping or part-reading a frame never affects later frames",
"For every file and every history in which each frame is skipped, partly read, or fully read by any method, each subsequent frame's metadata and pixels are those of a straight full decode, and the sequence ends at the same place. Iterating with frame information alone visits exactly the frames a full decode visits.",
["inputs","histories"],"for all files and all histories of info/skip/partial/full/into-buffer operations per frame",
"Tests read all frames the same way; leftover decoder state after an abandoned frame depends on where reading stopped.",
[M,D],[("Decoder::next_frame_info / fill_buffer",M),("DecodeSubBlock draining, FrameDecoded",D)],["frames after a skipped or part-read one"])

p("C10","No input makes decoding panic, hang or run away",
"For every byte sequence, every option combination and every order of decoder calls (whole-frame, partial, compressed, streaming, after errors and after the end), decoding returns in finitely many steps with frames, a clean end or an error. It never panics, never loops without consuming input or producing output, and never produces more frames than the bytes can contain.",
["inputs","configurations","histories"],"for all byte sequences (random, grammar-generated, mutated), all options and all call histories",
"Tests feed well-formed samples and a few hand-made broken ones; the fuzz target in the tree is not run and only covers one call pattern.",
[D,M,C],[("next_state bounds handling",D),("ReadDecoder::decode_next",M),("StreamingDecoder::update loop",D)],["absence of panics and bounded step counts"])

p("C11","A truncated file is reported, never passed off as complete",
"For every well-formed file and every cut point before its trailer, decoding the prefix returns exactly the frames whose data is entirely present before the cut (the frame whose pixels are complete but whose block is not closed may be returned), each identical to the full decode, and then an unexpected-end error or an opening error. It never reports a clean end, and never returns a frame with missing or invented pixels.",
["inputs","crash_points"],"for all well-formed files and all cut points",
"The tests check one or two truncated samples; each byte position is a different decoder state.",
[M,D,C],[("UnexpectedEof on empty read",M),("image truncated detection",C)],["Decoder results on prefixes"])

p("C12","The memory limit bounds what decoding allocates",
"With a memory limit configured (50 MB unless set), a frame whose output buffer (width*height bytes, times four in RGBA mode; or the compressed size when kept compressed) fits the limit decodes, and one that exceeds it is refused with an error before any such allocation. Whatever the input declares, total memory allocated by decoding stays within a small constant multiple of the limit plus a fixed overhead. An extension payload larger than the limit is refused.",
["inputs","configurations"],"for all files, including ones declaring enormous sizes, all limits, colour modes and compressed mode",
"A test checks one limit on one file; exact boundary values, other paths that allocate and peak usage are not observed.",
[M,C,D],[("MemoryLimit::check_size / buffer_size",M),("PixelConverter::check_buffer_size",C),("OutputBuffer::append, ExtensionDataBlock",D)],["peak bytes requested from the allocator","errors"])

p("C13","Frame bounds checking rejects exactly out-of-screen frames",
"With frame consistency checking on, decoding fails at exactly the first frame that extends beyond the logical screen in either axis, and files whose frames all lie within the screen decode as without the check. With it off, out-of-bounds frames decode normally with their declared geometry.",
["inputs","configurations"],"for all screen and frame geometries including the extremes 0 and 65535 and sums exceeding 16 bits, both option values",
"Tests check a few geometries; boundary equality and overflow cases per axis are not enumerated.",
[D],[("ImageBlockStart consistency checks",D)],["error vs frame on each image descriptor"])

p("C14","End-code checking accepts exactly streams with an end code",
"With the LZW end-code check on, a frame whose image data contains the end code decodes exactly as without the check, whatever the chunking, the read method or the placement of sub-block boundaries, and a frame whose image data runs out without an end code makes decoding fail. With the check off, a missing end code after all pixels is not an error.",
["inputs","configurations","schedules"],"for all LZW streams with and without end code, all sub-block splits, chunkings, and read methods including skipping",
"Tests cover one sample for each setting; whether the end code is seen depends on where sub-blocks and reads split.",
[D],[("LzwReader::decode_bytes NoProgress handling",D),("DecodeSubBlock",D)],["frames and errors with check_lzw_end_code"])

p("C15","Unknown blocks are rejected by default and skipped when allowed",
"By default, a block introducer that is not image, extension or trailer, or an extension with an unknown label, makes decoding fail exactly there, after the preceding frames have been returned. When unknown blocks are allowed, their sub-blocks are skipped entirely and all frames, metadata and the loop count are exactly those of the file with these blocks removed.",
["inputs","configurations"],"for all files with unknown blocks and unknown extensions of any content inserted at any block position, both option values",
"One sample file with an unknown block exists; payload content and position (before the first frame, after a control extension) are not varied.",
[D],[("BlockStart None arm, allow_unknown_blocks",D),("ExtensionDataBlock",D)],["decoded frames and errors"])

p("C16","Reader faults surface faithfully and short reads are harmless",
"If the underlying reader fails with an error, decoding reports that same error (kind and message) from the call that needed the data, after having returned exactly the frames completed before; it never turns into a clean end, a format error or a damaged frame. Interrupted reads are retried transparently and yield the same result as an uninterrupted reader. After a would-block style error at a frame boundary or during frame-information iteration, calling again continues correctly.",
["inputs","fault_sequences"],"for all files, fault positions, fault kinds and short-read patterns",
"Tests use infallible in-memory readers and files.",
[M],[("ReadDecoder::decode_next error propagation",M)],["errors returned by Decoder calls"])

p("C17","Writer faults surface and partial writes never corrupt output",
"If the underlying writer fails, the encoder call in progress reports that error, and everything the writer accepted before the fault is a prefix of the fault-free output. Writers that accept only part of the data per call or report interruptions produce exactly the fault-free bytes. Finishing explicitly reports trailer write failures, and dropping after a failure neither panics (in the default configuration) nor rewrites anything.",
["histories","fault_sequences"],"for all encoder call histories, fault positions, fault kinds and short-write patterns",
"Tests write to vectors that never fail.",
[E,"src/traits.rs"],[("write_all use throughout",E),("Drop / into_inner",E)],["bytes accepted by the writer","Result of encoder calls"])

p("C18","Rejected encoder calls leave no trace in the output",
"The encoder refuses, with an error and without writing a single byte for that call, frames with too small a buffer, palettes of more than 256 colours, frames without any palette available, and pre-encoded data with an invalid code size; all other frames are accepted. After a rejection, encoding continues and the final file is identical to one in which the rejected calls were never made. A rejected global palette writes nothing at all.",
["inputs","histories"],"for all histories mixing acceptable and unacceptable calls, with palettes and buffers around every limit",
"Tests check one error case and do not look at the bytes written around it.",
[E],[("write_frame size check",E),("check_color_table",E),("write_frame_header ordering",E)],["bytes written per call","Result of encoder calls"])

p("C19","True-colour images convert to frames without changing pixels",
"Converting RGBA or RGB pixels with at most 256 distinct colours to a frame, and expanding that frame by its palette and transparent index, returns every pixel exactly, any non-zero alpha becoming opaque and zero alpha becoming transparent. With more than 256 colours every pixel with zero alpha still becomes transparent and every other pixel opaque, all indices are inside a palette of at most 256 colours, and the size is right. Construction from indexed pixels keeps everything given, and all constructors panic exactly for wrong lengths, more than 256 palette colours, or a speed outside 1..30.",
["inputs"],"for all image sizes, pixel contents (colour counts around 256, several distinct transparent colours), speeds and palettes",
"Tests cover one 256-colour image and a panic case; alpha handling with several transparent colours is not covered.",
[K],[("Frame::from_rgba_speed palette construction",K),("from_rgb_speed / from_palette_pixels / from_indexed_pixels",K)],["Frame fields returned by constructors","decoded RGBA after a full round trip"])

p("C20","Extension payloads pass through encoder and decoder intact",
"Any raw extension with a known label written by the encoder arrives at the low-level decoder with the same label and the same concatenated payload bytes, split into sub-blocks of at most 255 bytes, wherever it stands relative to frames, and without influencing frames other than through a well-formed control or looping extension. A repeat setting of n is read back as n, infinite as infinite, and zero writes nothing. Incremental inspection sees the same payload pieces for any chunking.",
["inputs","histories","schedules"],"for all labels, payload contents and slicings (0, 1, 254..256, 510.. bytes), positions, and update chunkings",
"Tests check the looping extension only.",
[E,D],[("write_raw_extension",E),("ExtensionBlockStart / ExtensionDataBlock, last_ext",D)],["StreamingDecoder::last_ext","Decoder::repeat"])

p("C21","Low-level decode events follow the file structure",
"For every well-formed stream, the low-level decoder reports its events in file order and complete: background colour, global palette, header end, each block start, each extension sub-block and its end, frame metadata, image data whose produced byte counts sum to the data available, data end, and finally the trailer. It never reports more bytes consumed than supplied, makes progress on every call, and once the trailer has been reported consumes and ignores any further bytes without new events.",
["inputs","schedules"],"for all well-formed streams, all slicings of input and all output buffer sizes and modes",
"No test checks the order and completeness of the event stream.",
[D],[("StreamingDecoder::update / next_state",D),("Decoded events",D)],["Decoded values and consumed counts"])

p("C22","The end of the image is final and trailing data is left alone",
"After the trailer, every further request for a frame keeps returning the clean end, and the frame iterator stays exhausted, also after having reported an error. Recovering the reader after the clean end leaves it positioned exactly behind the trailer byte, so concatenated streams can be read one after another. Bytes after the trailer never influence the result.",
["inputs","histories"],"for all files followed by arbitrary trailing bytes, any chunking, and any history of calls after the end",
"Tests stop at the first end indication and never look at the recovered reader.",
[M,D],[("at_eof",M),("BlockEnd trailer handling",D),("DecoderIter fused",M)],["Decoder::into_inner position","repeated next() / read_next_frame()"])

p("C23","File-level metadata is reported faithfully on opening",
"Opening a file reports exactly the version, screen width and height, global palette (absent if the file has none), and the loop count from looping extensions that precede the first frame (last one wins, 0 meaning infinite, play-once default if there are none). The background index is reported when it lies inside the global palette and is absent otherwise. These values are available before any frame is decoded and do not change while decoding.",
["inputs"],"for all header field values, palette sizes 2..256, background indices, and extension sequences before the first frame",
"Samples cover few header combinations.",
[M,D],[("Decoder::init",M),("ScreenDescriptor, GlobalPalette, ApplicationExtension",D)],["Decoder::width/height/global_palette/bg_color/repeat","StreamingDecoder::version"])

p("C24","Graphic control settings apply to exactly the next frame",
"Delay, disposal, transparency and user-input settings of a graphic control extension apply to the next image and to no other, the last one winning if several precede it, also when comments, application or skipped unknown blocks stand between. A frame without one reports the defaults (no delay, keep, no transparency, no user input), whatever earlier frames or blocks contained and however earlier frames were read. Reserved disposal codes read as unspecified.",
["inputs","histories"],"for all sequences of control extensions, other blocks and frames, and all packed-field byte values",
"Encoder-made files always have exactly one control extension per frame, so scoping errors cannot show.",
[D,M],[("read_control_extension / current frame handling",D),("Frame::take",K)],["frame metadata"])

p("C25","Corrupt or insufficient image data is an error, not a picture",
"A frame whose compressed data yields fewer pixels than width*height, or contains an invalid LZW code before the last pixel, or declares an unusable code size (0, or above 11), or has no palette available, is reported as an error by every method that reads its pixels (for partial fills also by reporting an incomplete fill) after all preceding frames were returned intact; an unusable code size or missing palette is also reported when reading compressed data or frame information. Pixels produced before the defect are correct when read piecewise. A malformed signature is rejected on opening.",
["inputs"],"for all otherwise well-formed files with one such defect at any place, all read methods, chunkings and colour modes",
"Tests have a few hand-made broken files; the defect's position inside the code stream is not varied.",
[D,C,M],[("LzwReader::decode_bytes error mapping",D),("image truncated",C),("check_code_size",D)],["errors of Decoder calls"])

p("C26","Re-encoding a decoded animation preserves it",
"Writing every decoded frame of any decodable file to a new encoder with the same screen size, global palette and repeat gives a file that decodes to the same frames, palettes, timing, disposal, transparency and loop count (a missing global palette becomes one of two black entries). Doing so a second time gives byte-identical output. This holds for indexed frames and for frames transported in compressed form, as long as their minimum code size is one the format allows (2 or more).",
["inputs","histories"],"for all decodable files",
"Tests re-encode few samples; metadata such as reserved disposal codes, interlace flags and palette padding are not compared in general.",
[E,D,M,K],[("Frame as the exchange type between Decoder and Encoder",K),("write_frame",E)],["frames and bytes after transcoding"])

p("C27","Long animations need no more memory than short ones",
"Peak memory of decoding, by any read method including frame information only, compressed frames, the frame decoder and the streaming decoder, and of encoding does not depend on how many frames, extensions or unknown blocks have gone by before, only on the single largest of them. All memory requested over time, and the bytes the encoder writes, grow at most linearly with the number of repetitions.",
["inputs","histories"],"for all sequences of blocks or encoder calls and any number of repetitions of them",
"Samples have few frames, and no test looks at memory.",
[D,M,C,E],[("StreamingDecoder.ext data, current frame",D),("Decoder.current_frame, copy_lzw_into_buffer",M),("PixelConverter buffer",C),("Encoder::write_image_block",E)],["allocations"])

p("C28","Decoders and encoders are deterministic and independent of each other",
"Running the same calls on the same bytes again gives the same results. Several decoders and encoders alive at the same time, with their calls interleaved in any order on one thread or running on several threads, and moved between threads while in use, each give exactly the results they give alone.",
["inputs","histories","schedules"],"for all sets of decoders (any bytes, options, read methods) and encoders, and all interleavings of their calls",
"Tests use one decoder or encoder at a time.",
[D,M,E],[("Decoder",M),("Encoder",E),("LzwReader state",D)],["results of all calls"])

p("C29","Encoder output is complete after every call",
"When an encoder call returns success, everything for that call has reached the writer: the bytes there extend those after the previous call, and with one trailer byte appended they are exactly the file of a history that ends at this call. Someone reading along decodes all frames written so far, then an unexpected end. Looking at the writer through the encoder changes nothing, and finishing or dropping adds the trailer only.",
["histories","crash_points"],"for all encoder histories and every point between two calls",
"Tests look at the output only after the encoder is finished.",
[E],[("Encoder::write_frame, write_extension, write_raw_extension",E),("Encoder::get_ref/get_mut/into_inner, Drop",E)],["the writer between calls"])

p("C30","More input never changes what has already been reported",
"For every byte sequence, valid or not, cut anywhere: the file-level metadata and frames decoded from the part before the cut are exactly the first ones decoded when other bytes follow, and a verdict other than an unexpected end (clean end, or any other error) is the same whatever follows. An unexpected-end error is reported only after the reader has really reached its end. Errors carry a message, and their source is the underlying failure.",
["inputs"],"for all byte sequences, all cuts, all continuations and options, with whole, compressed and information-only reading",
"Tests decode complete files; what is decided from how many bytes can't be seen there.",
[D,M],[("StreamingDecoder::next_state",D),("ReadDecoder::decode_next",M),("impl Error for DecodingError",D)],["frames, errors"])

p("C31","Stricter options only ever turn success into an error",
"For every byte sequence and any two option sets of which one is stricter (bounds check, end-code check, unknown blocks not allowed, lower memory limit, in any combination), decoding with the stricter one gives either exactly the same outcome, or a shorter, identical beginning of the frames followed by an error. No strictness option changes a pixel, metadata, or the order of frames, and none of them turns an error into a clean end.",
["inputs","configurations"],"for all byte sequences and all pairs of option sets ordered by strictness, in indexed, RGBA, compressed and information-only reading",
"Tests try one option at a time on hand-made files.",
[D,M,C],[("DecodeOptions",M),("StreamingDecoder::with_options",D),("check_frame_consistency",M)],["frames, errors"])

p("C32","Any bytes decode exactly as far as the format's rules carry",
"For every byte sequence, valid or damaged in any way, and every option set, decoding gives exactly the file-level metadata and frames which an independent reading of the GIF89a rules finds before the first defect, and then a clean end, an unexpected end, or another error, according to what stops that reading: the bytes running out, or a bad signature, a control extension of wrong length, a forbidden block, an out-of-screen or too large frame, an unusable code size, a missing palette, damaged or insufficient pixel data. The low-level decoder and the decoder of compressed frames agree with it as well. Where the bytes end right behind a defect, either error may be reported.",
["inputs","configurations"],"for all byte sequences, option sets, read methods and chunkings",
"Tests decode a few valid files and a few broken ones, and check that breaking gives some error.",
[D,M,C],[("StreamingDecoder::next_state",D),("read_control_extension",D),("LzwReader::decode_bytes",D),("Decoder::read_next_frame",M)],["frames, metadata, verdict"])

p("C33","The way the crate is built makes no difference",
"Optimised or debug builds, with or without debug assertions and overflow checks, with or without the optional features, and for 64-bit or 32-bit targets, give the same results for the same calls: frames, metadata, low-level events, errors, and output bytes. The optional features only add: color_quant the conversions of true-colour images, and raii_no_panic that dropping an encoder ignores an error of its writer. Without raii_no_panic, dropping an encoder panics if, and only if, the trailer can't be written then; all other functions report errors of the writer and never panic on them, so that finishing explicitly avoids the panic altogether. On 32-bit targets, sizes which don't fit the address space neither wrap around nor panic: buffer_size() saturates, decoding such frames is an error, and true-colour images of such sizes are refused.",
["inputs","histories","configurations","fault_sequences"],"for all byte sequences, option sets, read methods, encoder histories and writer faults, and all ways to build the crate",
"Tests run in a debug build with all features only.",
[D,M,E,"Cargo.toml"],[("Encoder::new, into_inner, Drop",E),("debug assertions throughout",D),("cfg(feature)","src/common.rs")],["results of all calls","panics"])

p("C34","Time is proportional to the amount of data",
"Decoding takes time proportional to the file's bytes and the pixels it gives out, however the data is laid out (many sub-blocks, many blocks, many frames, one large frame, data nobody asks for) and however it's read (whole, in pieces of any size, through readers giving a few bytes at a time, skipped, compressed, by the low-level decoder). Encoding takes time proportional to the pixels and payload bytes written. The time never grows with the square of the amount, nor with the sizes which frames merely declare.",
["inputs","histories"],"for all large inputs of each layout and all ways to read them; for all long encoder histories",
"Tests use small files, for which quadratic work goes unnoticed.",
[D,M,C,E],[("ExtensionDataBlock",D),("PixelConverter::fill_buffer",C),("write_raw_extension, write_frame",E)],["CPU time"])

p("C35","Results come as soon as the bytes they depend on have arrived",
"Reading from a live connection, every call returns once the bytes its result depends on have been delivered, and doesn't ask the reader for more, whatever the read sizes: opening needs no more than the description of the first image (or the trailer), frame information the frame's description, pixels the codes that make them up (row by row, when read in pieces), compressed frames and end-code checks the frame's data, and the end nothing but the trailer byte. Errors need no more than the offending element. After the end nothing is read any more. The low-level decoder reports its events by the same rule.",
["inputs","schedules","histories"],"for all files, valid or damaged, all read sizes and all mixes of calls",
"Tests read from memory or files, where waiting for more than necessary goes unnoticed.",
[M,D],[("ReadDecoder::decode_next",M),("StreamingDecoder::update",D),("Decoder::fill_buffer",M)],["number of bytes requested from the reader before each result"])

p("C36","Labels, settings and errors convert without loss",
"Every byte converts to the block kind, extension kind and disposal method which the format assigns to it, or to none, and these convert back to the same byte. Control settings are packed into, and written with, the format's bit positions, reserved bits zero; raw control data is written as given. Errors made from I/O errors keep kind, message, payload and system code, display the same message, and have the original as their source; the crate's own errors have distinct messages and sources. Clones of frames are equal and independent.",
["inputs"],"for all bytes, settings and errors",
"Tests compare no labels, and errors only by kind.",
[K,E,D],[("from_u8, into_known",K),("ExtensionData::new_control_ext",E),("impl Error, From",D)],["return values","written bytes","error messages and sources"])

p("C37","Reducing colours keeps true-colour pictures recognisable",
"When a true-colour picture has more colours than a palette holds, the conversion to a frame chooses a palette of the picture's colours and maps each pixel to a close one: the mean squared error, as seen by a viewer of the written file, stays near that of the documented quantizer (NeuQuant) given the full palette and the requested speed, and far below that of a single colour. It holds for RGB and RGBA, with transparent pixels (which stay transparent, while no others become so), all speeds, and wherever in the picture the colours occur.",
["inputs"],"for all pictures of more than 256 colours, RGB or RGBA, with or without transparency, and all speeds",
"Tests convert one picture and don't look at the colours that result.",
[K],[("Frame::from_rgba_speed",K),("Frame::from_rgb_speed",K)],["mean squared error of the decoded picture"])

p("C38","The encoder writes no more than the format requires",
"What each encoder call writes is compact: image data takes no more than a greedy LZW encoder with the smallest sufficient code size, a full table and full sub-blocks; frames carry at most one control extension, one descriptor and their own palette (padded to the next power of two); control settings take 8 bytes, a loop count 19, raw extensions their payload plus a length byte per sub-block of up to 255 bytes; opening takes the screen descriptor and palette, and the end a single byte. It holds for frames compressed in advance as well, and for every frame of a sequence.",
["inputs","histories"],"for all encoder histories, frame sizes, palettes and pixel data",
"Tests compare decoded pixels; no test looks at sizes.",
[E],[("lzw_encode",E),("write_encoded_image_block",E),("check_color_table, write_raw_extension",E)],["number of bytes written by each call"])

p("C39","Settings and queries have no side effects",
"Each decoding option is independent: what counts is the last value set (or the documented default), whatever the order, repetition or way the options were created, and clones of options go their own ways. Queries of a decoder (size, palettes, background, loop count, buffer size, line length), of a frame decoder, and looking at an encoder's writer change nothing: asked any number of times and at any point, they give the same answers, and all results before and after stay the same.",
["inputs","histories"],"for all sequences of settings and queries, at all points of all reading and writing histories, for all files",
"Tests set each option once and query at fixed points.",
[M,E,D],[("impl DecodeOptions",M),("impl Decoder",M),("Encoder::get_ref, get_mut",E)],["return values","frames, errors and output bytes"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
