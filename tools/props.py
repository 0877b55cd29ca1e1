#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Lossless JPEG encoding is lossless and standard-conforming",
  "For every image (any size, 1-4 components, 2-16 bits per sample, predictor 1-7, any row padding), the lossless JPEG encoder produces a stream that any standard-conforming decoder, including the project's own (10 bits and up), decodes to exactly the encoded samples. Parameters outside the supported range or an input buffer that is too small are rejected with an error.",
  ["inputs","configurations"],"every image content, geometry, bit depth, component count and predictor",
  "The unit tests encode a dozen fixed arrays; losslessness is a statement over all sample distributions (Huffman code lengths depend on the histogram, up to the 16 bit limit) and all predictor/component combinations.",
  ["rawler/src/ljpeg92.rs","rawler/src/bitarray.rs","rawler/src/decompressors/ljpeg/"],
  [("difference computation per predictor","rawler/src/ljpeg92.rs: ljpeg92_diff"),("Huffman table construction (T.81 K.1-K.4)","rawler/src/ljpeg92.rs: HuffTableBuilder"),("bit writer with byte stuffing","rawler/src/ljpeg92.rs: BitstreamJPEG")],
  ["LjpegCompressor::encode output","LjpegDecompressor::decode output"])

p("C02","Conforming lossless JPEG streams decode exactly",
  "Every conforming lossless JPEG stream (any valid Huffman tables, shared or per component, any predictor 1-7, 1-4 components, 10-16 bits, extra marker segments, chroma-subsampled 4:2:2 and 4:2:0 layouts) decodes to exactly the samples that were encoded. Decoding into a window that is narrower or shorter than the frame, or into a wider image at an offset, fills exactly that window with the matching samples and touches nothing else.",
  ["inputs","configurations"],"every conforming stream, and every output window",
  "Tests decode only streams the project's own encoder wrote; camera files carry other encoders' tables and layouts, and the table-driven decode cache takes different paths for each code shape.",
  ["rawler/src/decompressors/ljpeg/mod.rs","rawler/src/decompressors/ljpeg/decompressors.rs","rawler/src/decompressors/ljpeg/huffman.rs","rawler/src/pumps.rs"],
  [("Huffman decode cache and slow path","rawler/src/decompressors/ljpeg/huffman.rs: HuffTable"),("prediction and window skipping","rawler/src/decompressors/ljpeg/decompressors.rs: decode_ljpeg"),("JPEG bit pump (byte stuffing, end of data)","rawler/src/pumps.rs: BitPumpJPEG")],
  ["LjpegDecompressor::decode output buffer"])

p("C03","A raw image written to DNG keeps every pixel value",
  "For every raw image (mosaic, linear RGB or monochrome; any size; integer samples of any declared bit depth), writing it into a DNG file uncompressed or with lossless compression and any predictor yields a structurally valid file whose stored image, read back by the project's decoder or by an independent DNG reader, has the same dimensions and exactly the same sample values. Floating point samples survive uncompressed storage bit for bit.",
  ["inputs","configurations"],"every image content, geometry, photometric kind, compression and predictor",
  "Existing tests need sample raw files that are not in the tree; pixel identity must hold for all sizes (partial tiles and strips) and contents.",
  ["rawler/src/dng/writer.rs","rawler/src/tiles.rs","rawler/src/formats/tiff/writer.rs","rawler/src/decoders/dng.rs"],
  [("tiling with edge padding","rawler/src/dng/writer.rs: dng_put_raw_*, rawler/src/tiles.rs: ImageTiler"),("LJPEG per tile","rawler/src/dng/writer.rs"),("strip layout for uncompressed data","rawler/src/dng/writer.rs")],
  ["bytes of the written DNG","rawler::decode of the written DNG"])

p("C04","Rendering metadata survives a DNG write and read",
  "Black and white levels, active area, default crop, colour filter pattern, white balance, up to two calibration matrices with their illuminants (A and D65 when there are more), the bit depth of losslessly stored integers and the orientation of a raw image survive writing to DNG and reading back, up to the documented rational precision. The crop mode option selects which of these areas is stored, and the colour filter and black level describe the stored pixel positions: each photosite keeps its colour and its black level.",
  ["inputs","configurations"],"every combination of area, crop, level pattern, CFA pattern, matrix set and crop mode",
  "No test writes and re-reads a DNG; the values interact (levels and pattern are relative to the active area origin), so only a search over combinations exercises the shifts.",
  ["rawler/src/dng/writer.rs","rawler/src/decoders/dng.rs","rawler/src/cfa.rs","rawler/src/rawimage.rs","rawler/src/imgop/mod.rs"],
  [("tags written relative to active area","rawler/src/dng/writer.rs: raw_image"),("tags read back","rawler/src/decoders/dng.rs"),("pattern shift","rawler/src/cfa.rs: shift, rawler/src/rawimage.rs: BlackLevel::shift")],
  ["TIFF tags in the DNG","RawImage returned by decode"])

p("C05","Capture metadata is carried into the DNG",
  "Every EXIF and GPS value the decoder reports for a source image (exposure, aperture, ISO, lens, dates and time zone, serial numbers, artist, copyright, position, ...) appears in the DNG with the same value and meaning, and values absent from the source are not invented (a value without elements may be left out). Make, model, artist override, software and unique camera name are set as requested, and reading the DNG reports the same metadata again.",
  ["inputs","configurations"],"every combination of present and absent metadata values",
  "The tests check metadata only for sample files that are not present; the mapping has dozens of optional fields, each present or absent.",
  ["rawler/src/exif.rs","rawler/src/dng/writer.rs","rawler/src/decoders/dng.rs","rawler/src/tags.rs"],
  [("EXIF extraction and transfer","rawler/src/exif.rs: extend_from_ifd, write_tags"),("metadata load in the DNG writer","rawler/src/dng/writer.rs: load_metadata")],
  ["EXIF and GPS IFD of the DNG","RawMetadata of the DNG"])

p("C06","An embedded original is recovered bit for bit, damage is detected",
  "For every original file of any size and content, embedding it in a DNG and extracting it again returns exactly the original bytes, name and digest. If the embedded data or its digest is altered in any way that changes the recovered bytes, extraction with verification reports an error instead of delivering altered data.",
  ["inputs","fault_sequences"],"every file size and content (including sizes at chunk boundaries), every corruption of the stored blob",
  "Tests cover one or two small buffers; chunk boundaries, empty input, incompressible data and arbitrary corruption positions are a search space.",
  ["rawler/src/dng/original.rs","rawler/src/dng/writer.rs","bin/dnglab/dnglab-lib/src/extract.rs"],
  [("chunked deflate with chunk index","rawler/src/dng/original.rs: OriginalCompressed"),("MD5 digest verification","rawler/src/dng/original.rs: decompress")],
  ["bytes returned by extraction"])

p("C07","TIFF structures written are well-formed and read back unchanged",
  "Every set of tags with values of any TIFF type and count, arranged in any tree of directories, that is written with the TIFF writer forms a valid TIFF file (sorted unique tags, word aligned non-overlapping data inside the file) in which an independent parser and the project's reader find exactly the same tags, types, counts and values. Files in either byte order written by other tools are read with the same result.",
  ["inputs","programs"],"every tag set, value type and count, directory tree, byte order",
  "Unit tests write a couple of tags; inline versus out-of-line storage, signed and float inline values, and nesting are only reached by generated structures.",
  ["rawler/src/formats/tiff/writer.rs","rawler/src/formats/tiff/value.rs","rawler/src/formats/tiff/entry.rs","rawler/src/formats/tiff/reader.rs","rawler/src/formats/tiff/ifd.rs"],
  [("inline value packing","rawler/src/formats/tiff/value.rs: as_embedded"),("directory layout","rawler/src/formats/tiff/writer.rs: DirectoryWriter"),("entry parsing","rawler/src/formats/tiff/entry.rs: Entry::parse")],
  ["bytes of the TIFF file","GenericTiffReader"])

p("C08","Any DNG storage layout decodes to the stored pixels",
  "A DNG written by any tool decodes to exactly the pixel values it stores, whatever the layout: strips or tiles of any size with partial edge tiles, 8 to 16 bit packed integers (10 and 12 bits: rows of whole pixel groups) or 16/24/32 bit floats, big or little endian, uncompressed, lossless JPEG (10 to 16 bits) or deflated float tiles with predictors, one or three samples per pixel, with or without a linearization table. The reported geometry, levels and colour filter are the ones stored in the file.",
  ["inputs","configurations"],"every layout, bit depth, byte order, compression and content",
  "No third-party DNG is in the tree, so the reader's layout handling is not executed by the tests at all.",
  ["rawler/src/decoders/dng.rs","rawler/src/decoders/mod.rs","rawler/src/decompressors/","rawler/src/tiles.rs","rawler/src/bits.rs"],
  [("strip and tile assembly","rawler/src/decoders/mod.rs: plain_image_from_ifd, decode_strips, decode_tiles"),("float predictors and f16/f24 expansion","rawler/src/decompressors/deflate.rs, rawler/src/bits.rs"),("linearization","rawler/src/decoders/mod.rs: apply_linearization")],
  ["RawImage returned by decode"])

p("C09","Packed sensor data is unpacked exactly",
  "For every bit packing the project supports (8 to 16 bit, big and little endian, with control bytes, padding, interlacing, left alignment or word-swapped bit order), unpacking returns exactly the sample sequence that was packed, for every image size and content. Truncated input is reported as an error and never yields an image.",
  ["inputs"],"every packing, width, height and content",
  "The packings are used by formats for which no sample is in the tree; the few unit tests use one width each, while the loops work in groups of pixels and bytes.",
  ["rawler/src/decompressors/packed.rs","rawler/src/pumps.rs","rawler/src/bits.rs","rawler/src/decoders/unwrapped.rs"],
  [("per-format unpack loops","rawler/src/decompressors/packed.rs"),("bit pumps","rawler/src/pumps.rs")],
  ["decoded samples"])

p("C10","Vendor-compressed sensor data decodes to the encoded samples",
  "For the camera vendor codecs (Sony, Nikon, Pentax, Olympus, Panasonic, Samsung, Canon CRW, Kodak, Leaf), data compressed according to the vendor scheme decodes to exactly the samples that were encoded (to the same step of the curve where the decoder dithers a non-linear curve). This holds for every content the scheme can represent, including extreme differences and every table the file may carry.",
  ["inputs"],"every sample content representable in each scheme",
  "No vendor sample files are in the tree and no unit test runs these decoders.",
  ["rawler/src/decoders/arw.rs","rawler/src/decoders/nef.rs","rawler/src/decoders/pef.rs","rawler/src/decoders/orf.rs","rawler/src/decoders/srw.rs","rawler/src/decoders/rw2/","rawler/src/decoders/crw.rs","rawler/src/decoders/dcr.rs","rawler/src/decoders/mos.rs","rawler/src/decoders/kdc.rs"],
  [("per-vendor decompressors","rawler/src/decoders/*.rs, rawler/src/decoders/rw2/*"),("Huffman tables","rawler/src/decompressors/ljpeg/huffman.rs")],
  ["decoded samples"])

p("C11","Damaged or hostile input never takes the process down",
  "Whatever bytes are presented as a raw file (truncated, mutated, cyclic, oversized or random), identifying, decoding and converting it ends in bounded time and memory with a result or an error, and reading metadata, previews and thumbnails ends in bounded time: the process does not abort, hang, overflow its stack or read outside its buffers. An image that is returned has as many samples as its dimensions say.",
  ["inputs","fault_sequences"],"every byte string, in particular mutations of valid files of each container format",
  "Tests use well-formed inputs; the space of malformed inputs is unbounded.",
  ["rawler/src/decoders/mod.rs","rawler/src/formats/","rawler/src/rawsource.rs","rawler/src/decompressors/"],
  [("error propagation and unwinding barrier","rawler/src/decoders/mod.rs: decode"),("bounds checks on offsets","rawler/src/formats/tiff/, rawler/src/rawsource.rs")],
  ["process status","returned Result"])

p("C12","Developing maps sensor levels and geometry correctly",
  "Developing a raw image maps each photosite's black level to zero and its white level to full scale, linearly and per photosite, before any colour processing. The result covers exactly the area the requested steps ask for (the default crop inside the active area), for mosaic, linear and monochrome images, and the developed image keeps the recorded orientation.",
  ["inputs","configurations"],"every level pattern, area, crop, image kind and selection of development steps",
  "No test runs the development pipeline; level patterns, areas and crops combine freely.",
  ["rawler/src/imgop/develop.rs","rawler/src/imgop/raw.rs","rawler/src/rawimage.rs","rawler/src/imgop/mod.rs"],
  [("level rescaling","rawler/src/rawimage.rs: apply_scaling, rawler/src/imgop/raw.rs: correct_blacklevel*"),("area and crop handling","rawler/src/imgop/develop.rs")],
  ["RawImage after scaling","Intermediate image of RawDevelop"])

p("C13","Demosaicing keeps measured samples and flat fields",
  "For every colour filter arrangement, image and region of interest, demosaicing returns an image of the region's size in which every channel measured at a photosite keeps the measured value (Bayer methods, and Markesteijn away from the border), a flat colour field stays flat, and interpolated values are computed from the right neighbours. Shifting the region by a whole pattern period shifts the result.",
  ["inputs"],"every CFA pattern and phase, image size, region of interest and content",
  "Unit tests run one fixed 4x4-ish image; pattern phase and borders are the interesting part.",
  ["rawler/src/imgop/sensor/bayer/","rawler/src/imgop/sensor/xtrans/","rawler/src/imgop/develop.rs"],
  [("PPG, bilinear and superpixel demosaic","rawler/src/imgop/sensor/bayer/"),("X-Trans demosaic","rawler/src/imgop/sensor/xtrans/")],
  ["demosaiced image"])

p("C14","Colour arithmetic agrees with its definition",
  "Matrix products, inverses and normalisation, the sRGB transfer curve and its inverse, chromatic adaptation between illuminants, and camera-to-display conversion agree with their mathematical definition within floating point tolerance for every input. White maps to white, inverses undo their forward operation, and integer/float sample conversions are exact at the ends of the range and monotone.",
  ["inputs"],"every matrix, colour and sample value in the valid domain",
  "Tests check single matrices and values.",
  ["rawler/src/imgop/matrix.rs","rawler/src/imgop/srgb.rs","rawler/src/imgop/chromatic_adaption.rs","rawler/src/imgop/mod.rs","rawler/src/imgop/raw.rs","rawler/src/imgop/xyz.rs"],
  [("matrix algebra","rawler/src/imgop/matrix.rs"),("transfer curve","rawler/src/imgop/srgb.rs"),("sample conversion","rawler/src/imgop/mod.rs")],
  ["returned values"])

p("C15","Image geometry operations move pixels, never change them",
  "Cropping, rotating, mirroring, tiling with edge padding, strip and tile assembly, colour pattern shifting and area arithmetic agree with their coordinate-wise definition for every size, rectangle, pattern and offset. Operations that are inverse to each other (opposite rotations, tile and untile, shift and shift back) restore the original.",
  ["inputs"],"every image size, rectangle, tile size, CFA pattern and shift",
  "Unit tests use single small arrays; off-by-one behaviour depends on sizes and offsets.",
  ["rawler/src/pixarray.rs","rawler/src/tiles.rs","rawler/src/cfa.rs","rawler/src/imgop/mod.rs","rawler/src/rawimage.rs","rawler/src/imgop/raw.rs"],
  [("pixel containers","rawler/src/pixarray.rs"),("tiler","rawler/src/tiles.rs"),("CFA","rawler/src/cfa.rs"),("rectangles","rawler/src/imgop/mod.rs: Rect")],
  ["returned images, patterns and rectangles"])

p("C16","Batch conversion is complete, isolated and never destroys files",
  "Converting files or a directory tree produces for every convertible input exactly one DNG at the documented place (with distinct names when inputs collide) and leaves every input byte-identical; an existing output is never changed without the override option. A damaged or unsupported input, or a failing output, is reported in the exit status and summary and affects neither the other files nor leaves a partial output behind.",
  ["histories","inputs","schedules","fault_sequences"],"every mix of good, damaged, colliding and pre-existing files, flat or recursive, with or without override, any worker schedule",
  "The command line front end has hardly any tests; the guarantees are about combinations of files and failures.",
  ["bin/dnglab/dnglab-lib/src/convert.rs","bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs","bin/dnglab/dnglab-lib/src/filemap.rs","bin/dnglab/src/main.rs"],
  [("output naming","bin/dnglab/dnglab-lib/src/convert.rs: generate_job"),("exclusive creation and clean-up","bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs"),("directory walk","bin/dnglab/dnglab-lib/src/filemap.rs")],
  ["file system before and after","exit status","summary line"])

p("C17","Extracting originals is exact, contained and never destroys files",
  "Extracting embedded originals writes exactly the embedded bytes under the embedded name inside the requested output directory, whatever name the DNG carries. Existing files are never changed without the override option, the DNG itself is never modified, and a failed extraction (no original, damaged data) reports an error and leaves no output file.",
  ["histories","inputs","fault_sequences"],"every embedded name (absolute, with parent references, unusual characters), directory layout, damage and option",
  "No test exercises the extract command.",
  ["bin/dnglab/dnglab-lib/src/extract.rs","bin/dnglab/dnglab-lib/src/jobs/extractraw.rs","rawler/src/dng/original.rs"],
  [("output path construction","bin/dnglab/dnglab-lib/src/extract.rs, jobs/extractraw.rs"),("digest verification","rawler/src/dng/original.rs")],
  ["file system before and after","exit status"])

p("C18","makedng and process-raw write what was asked and nothing else",
  "Building a DNG from component files produces a DNG whose raw data, metadata and explicitly given tags are the requested ones, and developing a raw file produces an image of the right size. Inputs are never modified, an existing output is never changed or removed without the override option, and a failing run reports an error and leaves no output behind.",
  ["histories","inputs","configurations"],"every input combination, option set and pre-existing output",
  "No test exercises these commands.",
  ["bin/dnglab/dnglab-lib/src/makedng.rs","bin/dnglab/dnglab-lib/src/process_raw.rs","bin/dnglab/dnglab-lib/src/jobs/process_raw.rs"],
  [("existence check and clean-up","bin/dnglab/dnglab-lib/src/makedng.rs, jobs/process_raw.rs"),("option parsing","bin/dnglab/dnglab-lib/src/makedng.rs")],
  ["file system before and after","exit status","tags of the DNG"])

p("C19","The FTP server never reaches outside its root directory",
  "No sequence of FTP commands, with any path argument (absolute, relative, with parent references, odd separators or encodings, through symbolic links in the tree), lets a client read, list, create, change, rename or delete anything outside the server's root directory, or remove the root itself. Nothing can be transferred or changed before a successful login, and the conversion of uploads writes nowhere else either.",
  ["histories","inputs"],"every command sequence and path argument",
  "The integration test runs a handful of commands with ordinary names.",
  ["embedftp/src/client.rs","embedftp/src/server.rs","embedftp/src/lib.rs"],
  [("path resolution and containment test","embedftp/src/client.rs: complete_path, invalid_path"),("login gate","embedftp/src/client.rs: handle_cmd")],
  ["file system outside the root","server replies and data"])

p("C20","FTP sessions behave like a file store",
  "A file stored over FTP is kept and later retrieved byte for byte; listings, directory changes, creation and removal agree with the state produced by the commands so far, and every command, malformed ones and aborted transfers included, gets exactly one final reply whose code tells success or failure truthfully. Sessions of several clients do not disturb each other. The program's server converts uploaded raw files: success means a complete DNG of the same pixels (and the original, if it is kept), failure means that nothing was changed.",
  ["histories","inputs","schedules"],"every sequence of commands over every file content and name, split into network packets in any way, with several clients",
  "The integration test runs one short fixed session.",
  ["embedftp/src/client.rs","embedftp/src/codec.rs","embedftp/src/command.rs","embedftp/src/server.rs","bin/dnglab/dnglab-lib/src/ftpconv.rs"],
  [("data connection transfer","embedftp/src/client.rs: stor, retr"),("command framing","embedftp/src/codec.rs"),("session state","embedftp/src/client.rs: Client"),("conversion of uploads","bin/dnglab/dnglab-lib/src/ftpconv.rs: stor_file")],
  ["control channel replies","data channel bytes","file system under the root"])

p("C21","Conversion and decoding are deterministic under any schedule",
  "Decoding, developing, compressing and converting the same input with the same options gives identical results on every run, for every number of worker threads and every interleaving, apart from recorded wall-clock times and random identifiers. A decode that skips pixel data reports the same geometry and metadata as the full decode.",
  ["schedules","inputs"],"every input, thread count and repetition",
  "Tests run each operation once with the default thread pool.",
  ["rawler/src/decompressors/mod.rs","rawler/src/tiles.rs","rawler/src/dng/writer.rs","rawler/src/dng/original.rs","rawler/src/imgop/"],
  [("parallel line/strip/tile processing over disjoint ranges","rawler/src/decompressors/mod.rs, rawler/src/tiles.rs"),("ordered parallel collection","rawler/src/dng/writer.rs, rawler/src/dng/original.rs")],
  ["outputs under different thread pools"])

p("C22","Vendor raw files decode to what they record",
  "Every raw file of a supported TIFF-based, MRW, RAF or ARI vendor container, and every structureless file of a known size, decodes to the camera it names (with the definition and mode that belong to it) and to the size, samples, white balance (relative to the first green), black and white levels (those of the camera definition take precedence), crop and active area, Exif data, XMP packet and orientation recorded in it, whatever byte order, directory layout, maker-note style, offset base or sample storage the file uses.",
  ["inputs","configurations"],"every camera of the supported list for the container, byte order, placement of directories and values, maker-note style, storage variant, level set and sample content",
  "Existing tests for whole camera files need sample images that are not in the tree; tag interpretation depends on combinations (byte order x maker-note offset base x compression x bit depth) no single sample covers.",
  ["rawler/src/decoders/","rawler/src/formats/tiff/ifd.rs","rawler/src/formats/tiff/reader.rs","rawler/src/rawimage.rs"],
  [("container to decoder dispatch","rawler/src/decoders/mod.rs: RawLoader::get_decoder"),("maker-note parsing and offset base","rawler/src/formats/tiff/ifd.rs: parse_makernote"),("per vendor interpretation","rawler/src/decoders/{ari,mrw,mef,erf,kdc,dcs,dcr,pef,tfr,arw,orf,srw,nef,mos,rw2,cr2,raf,nkd}.rs"),("precedence of camera definitions","rawler/src/rawimage.rs: RawImage::new")],
  ["RawImage and RawMetadata of the decoder"])

p("C23","Previews and thumbnails show the image of the file",
  "The preview a decoder returns is the picture embedded in the raw file, pixel by pixel (the largest one where a Nikon file has several, without the declared borders for Pentax), nothing where there is none, and nothing for a second image index. A converted DNG has exactly the pictures asked for: an uncompressed RGB thumbnail in the first directory, fitted into 240x120 with its shape kept, and a JPEG preview of at most 1024 pixels width in a sub-directory, both showing the embedded preview of the source or, if it has none, the developed raw image. The DNG decoder returns the pictures of any DNG (8 to 16 bit, gray or RGB, strips, tiles or JPEG) as they are stored.",
  ["inputs","configurations"],"every picture size and content, container, placement, layout and choice of thumbnail and preview",
  "No test looks at the content of a preview or thumbnail; the tests need sample images that are not in the tree.",
  ["rawler/src/dng/writer.rs","rawler/src/dng/convert.rs","rawler/src/decoders/mod.rs","rawler/src/decoders/dng.rs","rawler/src/decompressors/jpeg.rs"],
  [("embedded previews","rawler/src/decoders/{arw,cr2,nef,pef,rw2,tfr}.rs: preview_image"),("pictures of a DNG","rawler/src/decoders/mod.rs: dynamic_image_from_ifd"),("written pictures","rawler/src/dng/writer.rs: thumbnail, preview; rawler/src/dng/convert.rs: generate_preview")],
  ["preview_image and thumbnail_image of the decoder","directories and strips of the converted file"])

p("C24","The analyze command prints what is in the file",
  "For every raw file the decoder accepts, analyze prints exactly what was asked for: the raw samples as a well-formed portable map of the recorded size, the embedded or developed picture (RGB, 8 or 16 bit) with the documented fallback from thumbnail to preview to developed image, their MD5 checksums, or the metadata, the same in JSON and YAML. A file that cannot be decoded gives a failure code and no output, and no run changes anything on disk.",
  ["inputs","configurations"],"every raw file, kind of output, output format and file name",
  "No test runs the command; the library functions behind it are only used with samples that are not in the tree.",
  ["bin/dnglab/dnglab-lib/src/analyze.rs","rawler/src/analyze.rs"],
  [("choice and format of the output","bin/dnglab/dnglab-lib/src/analyze.rs"),("fallbacks, digests, metadata","rawler/src/analyze.rs")],
  ["standard output and exit code of the program","file tree around it"])

if __name__=="__main__":
    for x in P: print(json.dumps(x))
