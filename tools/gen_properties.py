#!/usr/bin/env python3
"""Single source of the property texts; writes ../properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

SRV = ["src/http.rs", "src/iiif.rs", "src/iiif/parse.rs"]
J = "openjp2-rs/src/"

prop("C01", "Image request keywords and media types are exactly those of IIIF 3.0",
  "The quality words color, gray, bitonal and default and the format extensions jpg, tif, png, gif, jp2, pdf and webp are each accepted with exactly their own meaning, and every other word is refused. The region words full and square and the size word max are recognised only when spelled exactly. Every format is reported with its registered media type.",
  ["inputs"], "every string supplied as region, size, quality or format of an image request",
  "The unit tests parse one sample per form; most quality and format words, the media types and all near-miss spellings are never exercised.",
  SRV, [("keyword matches of the four parameter parsers", "src/iiif/parse.rs"), ("media type table", "src/iiif.rs Format::mime")],
  observe=["image request parsing result", "Format media type"])

prop("C02", "Numeric image request parameters are accepted exactly within their ranges",
  "A rotation is accepted exactly when its number lies in 0 to 360 inclusive; a percentage size exactly when it is a finite number above 0 and, unless upscaling is requested, at most 100; pixel sizes exactly when at least 1. A region needs exactly four numbers, pixel width and height being at least 1 and percentages finite and above 0. A value outside its range, or not a number, is always refused.",
  ["inputs"], "every numeric text in the region, size and rotation parameters, including infinities, NaN and boundary values",
  "Tests sample a handful of values on each side of each bound; they do not cover not-a-number or infinite input, every selector position, or the upscaling variants.",
  ["src/iiif/parse.rs"], [("range checks", "src/iiif/parse.rs SpatialSelector::validate, parse_scale_percent, parse_scale_px, Rotation::from_str")],
  observe=["image request parsing result"])

prop("C03", "An image request path maps one-to-one onto its five decoded parameters",
  "A path is accepted exactly when it is a slash followed by identifier, region, size, rotation and quality.format separated by single slashes, with nothing before or after. Each parameter is taken from its own position; the identifier, and only it, is percent-decoded, once, after the path was split. The outcome is the same in debug and release builds.",
  ["inputs", "configurations"], "every request path, in builds with and without debug assertions",
  "Two sample paths are parsed, in a debug build only; extra or missing segments, encoded separators in other positions and optimised builds are not exercised.",
  ["src/http.rs", "src/iiif.rs"], [("path decoding", "src/http.rs decode_image_request"), ("request record", "src/iiif.rs ImageRequest::new")],
  observe=["image request parsing result"])

prop("C04", "No request can open a file outside the image directory",
  "For every image identifier a client can send, the file the server opens lies lexically below the configured image directory. An identifier containing a parent-directory step, an absolute path or a path prefix is refused before any file is opened.",
  ["inputs"], "every identifier, including percent-encoded separators, dots and absolute paths",
  "No test resolves an identifier against a directory at all, and tests could only sample hostile identifiers.",
  ["src/resolve.rs", "src/http.rs"], [("identifier to file name mapping", "src/resolve.rs DiskImageSource::resolve")],
  observe=["file opened for a request"])

prop("C05", "Every HTTP request is answered without panicking",
  "For every request, handling it ends in a response: no request text can reach a panic, an unimplemented stub, a failing unwrap, or an out-of-range slice or index in the request handling code.",
  ["inputs"], "every method and path, including every malformed parameter and every error message rendered for it",
  "Only the path and parameter parsers have tests; the handler, its error rendering and the information request are never run.",
  ["src/http.rs", "src/iiif/parse.rs", "src/resolve.rs"], [("request handler", "src/http.rs handle_request, image_request, info_request"), ("error rendering", "src/iiif/parse.rs Display for ParseError")],
  observe=["HTTP response"])

prop("C06", "Socket results reach the HTTP layer unchanged",
  "When the socket reports pending, a byte count or an error for a read, write, flush or close, the HTTP layer receives exactly that: errors are never turned into success or end of stream. A read of n bytes advances the HTTP buffer by exactly n.",
  ["fault_sequences", "schedules"], "every outcome the socket can report at every poll",
  "No test opens a connection; socket failures cannot be produced by the existing tests.",
  ["src/lib.rs"], [("socket adapter", "src/lib.rs hyper_compat::HyperStream")],
  observe=["result seen by the HTTP connection"])

prop("C07", "At most the configured number of connections is served at once",
  "A connection is served only while it holds a permit of one limiter per server whose size is the configured maximum, and keeps that permit until serving has ended. A failing connection gives its permit back and never ends the accept loop's other connections.",
  ["schedules", "histories"], "every interleaving of accepted, served and finished connections",
  "No test starts the server; a limit is only visible under many concurrent connections.",
  ["src/lib.rs"], [("accept loop and semaphore", "src/lib.rs hyper_compat::serve_http2")],
  observe=["number of connections being served"])

prop("C08", "Every response has the status its outcome calls for",
  "A request that is not a GET gets 404; an image request whose path does not decode gets 400 without touching storage; one whose image cannot be opened gets a 4xx or 5xx; only one whose image was opened gets 200. A response body is delivered exactly once, as a single frame, and then ends.",
  ["inputs", "fault_sequences"], "every request and every storage outcome",
  "The handler, its responses and the body type have no tests.",
  ["src/http.rs", "src/lib.rs"], [("handler", "src/http.rs handle_request, image_request, bad_request"), ("body", "src/lib.rs hyper_compat::ResponseBody")],
  observe=["HTTP status and body"])

prop("C10", "Public codec functions tolerate null handles and pointers",
  "Every exported codec function that is given a null codec, stream, image, parameter block or output pointer returns its documented failure value or does nothing; it never dereferences the null pointer.",
  ["inputs"], "every exported function and every pointer parameter",
  "The two integration tests call a dozen functions with valid pointers only.",
  [J+"openjpeg.rs", J+"image.rs", J+"c_api_types.rs"], [("null checks at the API boundary", J+"openjpeg.rs"), ("image API", J+"image.rs")],
  observe=["return value of exported functions"])

prop("C11", "An opaque handle always refers to the object type it was created with",
  "Every stream handle and every codec handle given to a caller points to the one object type that all functions taking that handle assume, whichever constructor made it. A constructor that fails yields a null handle.",
  ["programs", "histories"], "every constructor, consumer and destructor of a handle",
  "Tests use one stream constructor each and cannot see a type confusion that happens not to crash.",
  [J+"openjpeg.rs", J+"stream.rs", J+"codec.rs"], [("handle creation and use", J+"openjpeg.rs")],
  observe=["handles returned by constructors"])

prop("C12", "Codec operations reach the right engine for their direction and container",
  "A decoding operation on an encoder, or an encoding operation on a decoder, fails without effect. Otherwise each public operation runs the operation of the same meaning of the raw-codestream or JP2 engine the codec was created for, with the caller's arguments in their places.",
  ["inputs", "histories"], "every public operation, codec direction and container format",
  "The tests use JP2 decoding only; raw codestreams, encoding and misuse are not exercised.",
  [J+"codec.rs", J+"openjpeg.rs", J+"jp2.rs"], [("dispatch over codec kind", J+"codec.rs"), ("JP2 wrappers over the codestream engine", J+"jp2.rs")],
  observe=["engine operation performed"])

prop("C13", "Messages reach the callback registered for their severity",
  "An error, warning or information message is delivered to the callback and user data registered for that severity and to no other; with no callback registered it is dropped. Registering a callback for one severity leaves the others unchanged.",
  ["inputs", "histories"], "every severity, registration order and message",
  "Tests register no callback.",
  [J+"event.rs", J+"openjpeg.rs"], [("event manager", J+"event.rs")],
  observe=["callback invoked"])

prop("C14", "A failed step is never reported as success",
  "When a codec stage, a header or packet parser, or a stream transfer fails or moves fewer bytes than asked, the operation that ran it takes notice: it stops, reports failure, or handles the shortfall explicitly. No failure result of these steps is discarded.",
  ["fault_sequences", "inputs"], "every internal call that can fail, on every path",
  "Tests decode one valid file; no step ever fails in them.",
  [J+"j2k.rs", J+"jp2.rs", J+"tcd.rs", J+"t2.rs", J+"t1.rs", J+"codec.rs", J+"stream.rs", J+"openjpeg.rs"],
  [("status results of every stage", J+"*.rs")], observe=["status returned to the caller"])

prop("C15", "Header parsing never reads outside the bytes of its segment",
  "While a codestream marker segment or a JP2 box is parsed, every byte read and every block copied lies within the bytes of that segment or box, whatever its length field and contents are. A segment too short for its mandatory fields is refused.",
  ["inputs"], "every marker segment and box content and length",
  "Only one well-formed file is parsed; truncated and inconsistent segments are not exercised, and an over-read need not crash.",
  [J+"j2k.rs", J+"jp2.rs", J+"cio.rs"], [("length guards of the segment readers", J+"j2k.rs opj_j2k_read_*"), ("box readers", J+"jp2.rs opj_jp2_read_*")],
  observe=["bytes read while parsing a segment"])

prop("C16", "Header values are validated before they index or size anything",
  "A component, tile, progression, band, palette column or channel number read from a file is compared with the number of such things before it selects one of them. A header value used as a divisor is known to be nonzero, and one used as a shift is known to be smaller than the word.",
  ["inputs"], "every value of every header field used as an index, divisor or shift amount",
  "Only one valid file is parsed, so no header value is ever out of range.",
  [J+"j2k.rs", J+"jp2.rs"], [("range checks of the segment readers", J+"j2k.rs opj_j2k_read_*"), ("box readers", J+"jp2.rs")],
  observe=["element selected while parsing"])

prop("C17", "Running out of memory is an error, not a crash",
  "Every block of memory the codec requests through its allocator is tested for failure before it is read, written or handed on as valid; when a reallocation fails the codec does not go on using the old size.",
  ["fault_sequences"], "every allocation, failing at every point",
  "Allocations never fail in the tests.",
  [J+"j2k.rs", J+"jp2.rs", J+"tcd.rs", J+"t1.rs", J+"t2.rs", J+"pi.rs", J+"dwt.rs", J+"tgt.rs", J+"mct.rs", J+"sparse_array.rs", J+"image.rs"],
  [("null tests after allocation", J+"*.rs")], observe=["status returned to the caller"])

prop("C18", "Freed memory is never used or freed again",
  "After a block is released, no path uses or releases it again: the field that held it is cleared or replaced, or its owner is itself destroyed. Image copies and channel reordering never leave two owners for one sample buffer.",
  ["histories", "fault_sequences"], "every release on every path, including error paths, and every later operation on the same objects",
  "One successful decode per test; error paths and repeated operations on one object are not exercised.",
  [J+"j2k.rs", J+"jp2.rs", J+"tcd.rs", J+"image.rs", J+"t1.rs", J+"pi.rs", J+"tgt.rs"],
  [("clear-after-free discipline", J+"*.rs"), ("image ownership", J+"image.rs opj_image, opj_image_comp")],
  observe=["memory owned by codec and image objects"])

prop("C20", "Marker and box codes have their standard meaning",
  "Every JPEG 2000 marker code and JP2 box code is recognised as exactly the marker or box the standard assigns to it and written back with the same code; every other code is treated as unknown. Each marker is accepted only in the header states where it is allowed, and marker and box contents go to the parser for that kind.",
  ["inputs"], "every 16-bit marker code, every 32-bit box code, every decoder state",
  "Existing tests check box codes against themselves only; markers, states and dispatch are seen for one file.",
  [J+"j2k.rs", J+"consts.rs", J+"jp2.rs"], [("marker tables", J+"j2k.rs J2KMarker"), ("box tables", J+"consts.rs"), ("dispatch", J+"jp2.rs")],
  observe=["parser chosen for a code", "bytes written for a marker or box"])

prop("C21", "Header fields are read and written at their standard position and width",
  "In every main-header and tile-part-header segment the codec both writes and reads, each field is stored at the position and with the width the standard gives it and read back from the same place into the same parameter. The length a written segment declares equals the bytes written, and these fit the buffer prepared for them.",
  ["inputs", "configurations"], "every parameter combination for which a header is written or read",
  "Nothing is ever encoded by the tests, and the one decoded file fixes most fields.",
  [J+"j2k.rs", J+"jp2.rs", J+"cio.rs"], [("segment writers and readers", J+"j2k.rs opj_j2k_write_*, opj_j2k_read_*"), ("box writers and readers", J+"jp2.rs")],
  observe=["bytes of a written header", "parameters after reading a header"])

prop("C22", "Entropy coding tables equal the standard's",
  "The arithmetic coder's probability state table, the zero-coding, sign-coding and sign-prediction context tables, the initial context states, and the high-throughput variable-length code tables hold exactly the values the standard defines.",
  ["inputs"], "every entry of every table",
  "The tests only check that decoding reports success; a wrong table entry changes samples without failing.",
  [J+"mqc.rs", J+"t1_luts.rs", J+"t1_ht_luts.rs", J+"ht_dec.rs"], [("tables", J+"mqc.rs mqc_states, t1_luts.rs, t1_ht_luts.rs")],
  observe=["decoded samples", "encoded bytes"])

prop("C23", "Component transforms and wavelet constants follow the standard",
  "The reversible component transform computes the standard's integer formulas and its inverse restores every input exactly; the irreversible transform and its inverse use the standard's coefficients. The wavelet lifting steps use the standard's constants in the standard's order, on every sample of the line, mirrored at its ends.",
  ["inputs"], "every sample value",
  "Decoded sample values are never compared with anything, and the forward transforms are never run.",
  [J+"mct.rs", J+"dwt.rs"], [("component transforms", J+"mct.rs"), ("lifting constants and steps", J+"dwt.rs")],
  observe=["decoded samples", "encoded bytes"])

prop("C24", "Each progression order visits packets in its defined nesting",
  "For every progression order the packet iterator varies layer, resolution, component and position in the nesting that order's name prescribes, never yields a packet twice; when tiles are divided into tile-parts at one of these levels, the parts take the values of the levels above the division one after another, as many as are announced. Order names and codes correspond one-to-one in both directions.",
  ["inputs", "configurations"], "every progression order and its parameters",
  "The test file uses one progression order.",
  [J+"pi.rs", J+"j2k.rs"], [("iterators", J+"pi.rs opj_pi_next_*"), ("order tables", J+"j2k.rs ProgressionOrder")],
  observe=["packet order"])

prop("C25", "A written file has its headers complete and in the prescribed order",
  "Every codestream written starts with SOC and SIZ, carries COD and QCD before any tile, and ends with EOC; every JP2 file starts with the signature, file type and header boxes before the codestream box. Any failing step stops the sequence and fails the operation.",
  ["configurations", "fault_sequences"], "every encoder configuration and every failing step",
  "The encoder has no tests.",
  [J+"j2k.rs", J+"jp2.rs", J+"function_list.rs"], [("procedure lists", J+"j2k.rs opj_j2k_setup_header_writing, opj_j2k_setup_end_compress"), ("JP2 procedures", J+"jp2.rs")],
  observe=["order of written segments"])

prop("C26", "Caller-supplied encoding parameters are taken over field by field",
  "Each field of the caller's encoding parameter block reaches the encoder's own parameter of the same meaning unchanged, for every field, and default parameter blocks carry the documented defaults.",
  ["inputs", "configurations"], "every parameter block",
  "The encoder has no tests.",
  [J+"c_api_types.rs", J+"types.rs", J+"codec.rs"], [("parameter conversion", J+"c_api_types.rs, types.rs")],
  observe=["encoder configuration"])

prop("C27", "Packet header bits are packed and unpacked with the same stuffing rule",
  "When packet header bits are written, a byte following 0xFF carries only seven bits; when they are read, the same byte is consumed as seven bits. Bits are written and read most significant first, and no bit is lost or invented between writing and reading. The variable-length code words in packet headers (number of coding passes, length increments) are the standard's in both directions, and the header's length is only taken once its last byte is complete.",
  ["inputs"], "every bit sequence",
  "Only reading is exercised, by one file, and its result is not compared.",
  [J+"bio.rs", J+"t2.rs"], [("bit reader and writer", J+"bio.rs"), ("code words, packet headers", J+"t2.rs opj_t2_putnumpasses, opj_t2_getnumpasses, opj_t2_putcommacode, opj_t2_getcommacode, opj_t2_encode_packet, opj_t2_read_packet_header")],
  observe=["packet header bytes"])

prop("C28", "JP2 header boxes are validated before they describe the image",
  "The signature box comes first, the file-type box second, the JP2 header after both and the codestream after the header, and the codestream is not read without a JP2 header that held a well-formed image-header box; of several image-header or colour boxes the first counts, a second palette, mapping or channel-definition box is refused. Palette, component mapping and channel definitions are applied to the image only when they are mutually consistent and name only existing channels, columns and components: every channel defined, every mapped component existing and holding samples, every palette column used in its place, direct use without a column. Anything else is refused or ignored, never applied. (A header box found before the JP2 header is skipped with a warning.)",
  ["inputs"], "every combination and content of JP2 header boxes",
  "The test file has one fixed set of boxes.",
  [J+"jp2.rs"], [("box readers and colour checks", J+"jp2.rs opj_jp2_check_color, opj_jp2_read_pclr, opj_jp2_read_cmap, opj_jp2_read_cdef")],
  observe=["components and channel definitions of the decoded image"])

prop("C30", "Independent codecs share no mutable state",
  "Two codecs, streams or images used on different threads never share mutable data: all process-wide data is constant after start-up, and scratch state is per thread or per object.",
  ["schedules"], "every interleaving of operations on distinct objects",
  "Tests use one codec on one thread.",
  [J+"*.rs"], [("absence of written global state; thread-local coder scratch", J+"t1.rs T1, mct.rs, ht_dec.rs")],
  observe=["results of concurrent operations"])

prop("C31", "Bytes borrowed as a decoding sentinel are given back",
  "The arithmetic and raw decoders overwrite bytes after the segment they decode with a sentinel; on every path these bytes are saved first and restored before the next segment is decoded or the data is used again.",
  ["inputs", "fault_sequences"], "every code-block, coding style and termination pattern",
  "Corruption of the following bytes does not make decoding fail, and samples are not compared.",
  [J+"mqc.rs", J+"t1.rs"], [("save and restore of trailing bytes", J+"mqc.rs"), ("decoder loop", J+"t1.rs opj_t1_decode_cblk")],
  observe=["compressed data after decoding a segment"])

prop("C32", "Stream position always equals the bytes delivered or accepted",
  "After every read, write, skip or seek the position a stream reports equals its starting point plus the bytes transferred or skipped: a short transfer reports the bytes it moved, a refused or failing one is reported as such and leaves the position where it was, and bytes already delivered by the source are never dropped when it ends or fails afterwards.",
  ["fault_sequences", "histories"], "every sequence of stream operations and every source behaviour, including short reads and errors",
  "Tests read one complete in-memory file and one disk file from start to end.",
  [J+"stream.rs"], [("stream buffer and counters", J+"stream.rs")],
  observe=["reported position", "bytes returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
