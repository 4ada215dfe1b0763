#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
B = 'bloscpack/'
p("C01", "Compression is lossless",
  "Decompressing anything the library compressed gives back exactly the original bytes, for every input (including the empty one) and every legal chunk size, Blosc settings, checksum, offsets setting and append reservation. This holds whether the plain and the compressed side are files or in-memory byte strings, in every combination.",
  ["inputs", "configurations"], "every byte string, every legal chunk size, all Blosc settings, 9 checksums, offsets on/off, every append reservation, metadata or none, file/bytes on either side",
  "The tests pack a handful of arrays of fixed sizes; chunk boundaries, one-byte chunks, exact multiples and unusual settings are a product space they do not reach.",
  [B+'file_io.py', B+'abstract_io.py', B+'args.py', B+'headers.py'],
  [("pack / unpack loops", B+'abstract_io.py'), ("PlainFPSource, CompressedFPSource, PlainFPSink, CompressedFPSink", B+'file_io.py'), ("calculate_nchunks", B+'args.py')],
  [("file position and content", "what has been written / read so far", B+'file_io.py')],
  ["pack_bytes_to_bytes/unpack_bytes_from_bytes", "pack_file_to_file/unpack_file_from_file", "pack_bytes_to_file/unpack_bytes_from_file"])
p("C02", "Metadata survives the round trip",
  "Metadata supplied at compression comes back from decompression equal to its JSON form, under every legal metadata setting (codec, level, checksum, reserved size); when none was supplied, decompression reports None. The data that comes back does not depend on the metadata.",
  ["inputs", "configurations"], "every JSON-serialisable value, both codecs, all levels, 9 checksums, every reservation that is large enough, any data",
  "Tests use four small dictionaries with the default settings.",
  [B+'file_io.py', B+'headers.py', B+'metacodecs.py', B+'serializers.py', B+'args.py'],
  [("_write_metadata / _read_metadata", B+'file_io.py'), ("CODECS, SERIALIZERS tables", B+'metacodecs.py, '+B+'serializers.py')],
  [], ["unpack_* return value", "_read_metadata result"])
p("C03", "Compressed output follows the documented container layout",
  "Every compressed output consists of the 32-byte header, then the metadata section if and only if metadata was given, then (if offsets are enabled) one 8-byte entry per chunk and per reserved append slot, then each chunk's Blosc buffer in input order directly followed by its digest, and nothing else. The header records the options, checksum, typesize, chunk size, last-chunk size, chunk count and append reservation actually used.",
  ["inputs", "configurations"], "every input and every legal setting; files, byte strings and arrays",
  "Tests decode a few headers; no test checks the complete byte layout for arbitrary sizes and settings.",
  [B+'file_io.py', B+'abstract_io.py', B+'headers.py'],
  [("CompressedFPSink", B+'file_io.py'), ("pack", B+'abstract_io.py'), ("BloscpackHeader.encode", B+'headers.py')],
  [], ["bytes of the produced file"])
p("C04", "Offsets are exact; unused or unfinished entries read -1",
  "In a finished compressed output with offsets, entry i is the exact byte position of chunk i's Blosc buffer, and every reserved entry is -1. If compression fails with an error while chunks are still being produced, every offset entry in the partial output is -1.",
  ["inputs", "configurations", "crash_points"], "every input and setting; every failure point between the start and the end of the chunk loop",
  "One test checks the offsets of one array; no test interrupts a compression.",
  [B+'file_io.py', B+'abstract_io.py'],
  [("CompressedFPSink.init_offsets/put/finalize", B+'file_io.py'), ("_write_offsets", B+'file_io.py')],
  [("offset_storage", "positions of the chunks written so far", B+'file_io.py')], ["offsets section of the output"])
p("C05", "Container header encoding is exact and reversible",
  "Every legal header encodes to the documented 32 little-endian bytes, and decoding them gives an equal header. Decoding refuses with an error every buffer of another length, with another magic, with a reserved option bit set, with an unknown checksum code, or with field values no legal header has; all other buffers decode to the header whose encoding they are.",
  ["inputs"], "all legal field combinations; all 32-byte buffers and all other lengths",
  "Tests try single values per field out of a 2^200 space.",
  [B+'headers.py', B+'checksums.py'],
  [("BloscpackHeader.encode/decode", B+'headers.py'), ("create_options/decode_options", B+'headers.py')], [], ["BloscpackHeader.encode()", "BloscpackHeader.decode()"])
p("C06", "Metadata header encoding is exact and reversible",
  "Every legal metadata header encodes to the documented 32 little-endian bytes, and decoding them gives an equal header (identifiers that do not begin or end with a NUL byte). Decoding refuses with an error a buffer of another length or with an unknown checksum code, an unknown codec code or a level above 9.",
  ["inputs"], "all legal field combinations; all 32-byte buffers and all other lengths",
  "Tests try one value per field.",
  [B+'headers.py', B+'checksums.py', B+'metacodecs.py'],
  [("MetadataHeader.encode/decode", B+'headers.py')], [], ["MetadataHeader.encode()", "MetadataHeader.decode()"])
p("C07", "Chunking covers the input exactly",
  "For every non-empty input and legal chunk size, the chunking has a chunk size equal to the smaller of the requested size and the input size, and a number of chunks n and last-chunk size such that (n-1)*chunk_size + last = input size with 0 < last <= chunk_size. An empty input is one empty chunk; a negative input size, and for a non-empty input an illegal chunk size or more chunks than the format can count, are refused.",
  ["inputs"], "all integers for input size and chunk size, chunk sizes also as size strings",
  "Tests evaluate about a dozen sizes.",
  [B+'args.py'], [("calculate_nchunks", B+'args.py')], [], ["calculate_nchunks result"])
p("C08", "The append reservation is always legal",
  "With offsets and a known chunk count, the number of reserved append slots is the requested integer, or the value the requested function gives for the chunk count, reduced if necessary so that chunks plus reserved slots do not exceed the maximum chunk count; otherwise it is 0. A negative or oversized integer, a function giving a negative or non-integer value, and any other kind of request are refused when they are needed.",
  ["inputs"], "all chunk counts, all integer requests, all functions of the chunk count",
  "Tests try a few constants and lambdas.",
  [B+'args.py'], [("_handle_max_apps", B+'args.py')], [], ["_handle_max_apps result", "max_app_chunks field of the header"])
p("C09", "A chunk that fails its checksum is never accepted",
  "If a container uses a checksum, decompressing it (to a file, bytes, an array or memory) fails with a checksum error as soon as it meets a chunk whose stored digest is missing, incomplete or differs from the checksum of its stored bytes, and nothing of that chunk reaches the output. Appending likewise refuses a container whose last chunk fails its checksum, and leaves it unchanged.",
  ["inputs", "fault_sequences"], "every container, every corruption or truncation of chunk bytes and digests",
  "One test flips a byte in one file; truncation and the append path are not tested.",
  [B+'abstract_io.py', B+'file_io.py', B+'append.py', B+'memory_io.py'],
  [("unpack digest comparison", B+'abstract_io.py'), ("append_fp", B+'append.py')], [], ["ChecksumMismatch", "plain output"])
p("C10", "Metadata that fails its checksum is never returned",
  "If a metadata section carries a checksum, reading it succeeds only when the stored digest equals the checksum of the stored metadata bytes; otherwise a checksum error is raised and no metadata is returned and no data is decompressed. The digest stored when writing metadata is the checksum of the bytes stored.",
  ["inputs", "fault_sequences"], "every metadata section, every corruption or truncation of its data or digest",
  "No test corrupts metadata.",
  [B+'file_io.py'], [("_read_metadata, _write_metadata", B+'file_io.py')], [], ["ChecksumMismatch from any reading operation"])
p("C11", "Append extends the data and keeps the container consistent",
  "After appending to a non-empty container with offsets, decompression yields the old data followed by the new data and the same metadata. The header's chunk count, last-chunk size and remaining reservation and all offsets are exact again, so that further appends work too; all chunks before the old last one and the metadata section are unchanged. The number of new chunks is reported.",
  ["inputs", "histories"], "every container, every sequence of appends of any sizes that fit, every Blosc setting",
  "Tests append one fixed array once or twice.",
  [B+'append.py', B+'file_io.py'], [("append_fp", B+'append.py')], [("bloscpack_header, offsets", "bookkeeping updated by the append", B+'append.py')], ["file after append_fp/append", "append_fp result"])
p("C12", "A refused append leaves the container untouched",
  "An append that cannot be done (no offsets section, more new chunks than reserved slots, unusable Blosc settings, new data for a container whose chunk size is 0) raises an error and leaves the target byte-for-byte as it was. An append is never refused for lack of space when the new chunks fit the reservation.",
  ["inputs", "configurations"], "every container, every amount of new data, every Blosc setting",
  "Tests check that one oversized append raises, not that the file is unchanged.",
  [B+'append.py'], [("append_fp checks before the first write", B+'append.py')], [], ["target file after an exception"])
p("C13", "Metadata rewriting stays inside its section",
  "Replacing the metadata of a container makes reading return the new metadata, keeps the section's total size and its place, and changes no byte outside the section. A replacement that is equal to the old metadata, does not fit the reserved space or asks for a checksum of another length is refused with an error and changes nothing.",
  ["inputs", "configurations"], "every old and new metadata value, every metadata setting and override",
  "Tests rewrite two fixed dictionaries.",
  [B+'append.py', B+'file_io.py'], [("_rewrite_metadata_fp, _recreate_metadata", B+'append.py'), ("_write_metadata", B+'file_io.py')], [], ["file after _rewrite_metadata_fp"])
p("C14", "Metadata is stored in the smaller form and within its reservation",
  "The metadata section always consists of its header, the stored metadata, zero bytes up to the reserved size, and the digest. Metadata is stored compressed only if that is not larger than the plain form, and the section header always names the codec, sizes and reservation really used. Metadata that does not fit the reserved size is refused before anything is written.",
  ["inputs", "configurations"], "every metadata value, codec, level, checksum and reservation (integer or function of the size)",
  "Tests look at one compressible and one incompressible string.",
  [B+'file_io.py', B+'args.py'], [("_write_metadata", B+'file_io.py'), ("MetadataArgs", B+'args.py')], [], ["metadata section bytes"])
p("C15", "NumPy arrays survive the round trip",
  "Every NumPy array that is accepted comes back, from a file or from bytes, with the same dtype, shape, element values and Fortran/C order, whatever its shape (including 0-d and empty), byte order, contiguity and chunk size. Object arrays, and containers that do not hold an array, are refused, as is a chunk size smaller than the array that is not a multiple of the item size.",
  ["inputs", "configurations"], "every dtype without objects, every shape, order and stride pattern, every chunk size and setting",
  "Tests use about twenty arrays, all with one chunk size.",
  [B+'numpy_io.py'], [("PlainNumpySource, PlainNumpySink, _ndarray_meta", B+'numpy_io.py')], [], ["pack_ndarray_to_*/unpack_ndarray_from_*"])
p("C16", "Array packing and unpacking stay inside the array's memory",
  "Packing an array reads only the array's own bytes, each exactly once. Unpacking never writes outside the newly allocated array, whatever the container says: a container whose chunks do not fit into the array its metadata describes is refused with an error.",
  ["inputs", "fault_sequences"], "every array and chunk size; every container, including inconsistent ones",
  "A stray pointer usually goes unnoticed in a test; no test feeds an inconsistent container.",
  [B+'numpy_io.py'], [("PlainNumpySource.__iter__", B+'numpy_io.py'), ("PlainNumpySink.put", B+'numpy_io.py')], [("ptr", "next address to read or write", B+'numpy_io.py')], ["addresses passed to blosc.compress_ptr / decompress_ptr"])
p("C17", "In-memory storage behaves like file storage",
  "Packing into memory stores exactly the Blosc buffers, digests and metadata that packing into a file would store, in order; unpacking from memory yields the original chunks, metadata and checksum verification. Memory and file sides can be mixed freely.",
  ["inputs", "configurations"], "every sequence of chunks, every setting",
  "Two tests with one array.",
  [B+'memory_io.py', B+'abstract_io.py'], [("PlainMemorySource/Sink, CompressedMemorySource/Sink", B+'memory_io.py')], [("chunks, checksums", "stored buffers and digests", B+'memory_io.py')], ["chunks of the sinks"])
p("C18", "Input that is not a version-3 container is refused",
  "Every reading operation (decompressing, unpacking an array, appending, rewriting metadata, showing info) fails with an error on input that does not start with a complete, well-formed container header of format version 3, before producing any output data and without modifying the input.",
  ["inputs", "fault_sequences"], "every byte string and file",
  "Tests try one random file.",
  [B+'file_io.py', B+'headers.py', B+'append.py'], [("_read_bloscpack_header", B+'file_io.py'), ("BloscpackHeader.decode", B+'headers.py')], [], ["exceptions from unpack_*, append, _rewrite_metadata"])
p("C19", "The command line never overwrites files unasked",
  "Without --force, compress and decompress never write to an output file that exists, and no subcommand proceeds when its input is missing. The default output name is the input name plus '.blp' for compress and the input name without '.blp' for decompress; decompress and append refuse an input without that extension unless the check is disabled, in which case decompress needs an explicit output name.",
  ["inputs", "configurations"], "every combination of subcommand, options, file names and existing files",
  "The cram files cover a few command lines.",
  [B+'cli.py'], [("check_files, process_*_args, main", B+'cli.py')], [], ["exit status, files written"])
p("C20", "Command-line options reach the library unchanged, failures are reported",
  "Each compression, append or thread option given to the command line takes effect exactly as the corresponding library setting, with the documented defaults otherwise. A decompression that fails its checksum or has the wrong format version ends with an error message and a non-zero exit status.",
  ["inputs", "configurations"], "every combination of options; every container",
  "The cram files cover single options; no failing decompression is tested.",
  [B+'cli.py'], [("create_parser, main, _blosc_args_from_args", B+'cli.py')], [], ["header of the produced file, exit status"])
p("C21", "Every checksum name is the documented algorithm",
  "Checksum names and codes 0 to 8 denote none, adler32, crc32, md5, sha1, sha224, sha256, sha384 and sha512; each digest is that algorithm's value for the data (32-bit values little-endian) and always has the declared length. An unknown checksum, codec or serializer name is refused.",
  ["inputs"], "all nine entries, every byte string, every name",
  "Tests look at the sizes for one input.",
  [B+'checksums.py', B+'metacodecs.py', B+'serializers.py'], [("CHECKSUMS, zlib_hash, hashlib_hash, check_valid_*", B+'checksums.py')], [], ["CHECKSUMS_LOOKUP[name](data)"])
p("C22", "Size strings mean what they say",
  "A size string of a decimal number and one of the suffixes B, K, M, G, T denotes that number times the suffix's power of 1024, truncated to an integer; any other suffix is refused. The human-readable form of a size uses the largest suffix not exceeding it, and printing a size never fails.",
  ["inputs"], "all sizes and all size strings",
  "Tests try about a dozen values.",
  [B+'pretty.py', B+'constants.py'], [("reverse_pretty, pretty_size, double_pretty_size", B+'pretty.py')], [], ["reverse_pretty, pretty_size"])
p("C23", "Headers can only be built from legal values",
  "A container header or metadata header can be constructed exactly when all its fields are legal: integers of the documented ranges, known checksum and codec, a last chunk no larger than the chunk size, and chunks plus reservation within the maximum and no reservation for an unknown chunk count; identifiers are byte strings of at most 8 bytes. Otherwise a TypeError or ValueError is raised.",
  ["inputs"], "all values and types of all fields",
  "Tests try a few out-of-range values.",
  [B+'headers.py'], [("BloscpackHeader.__init__, MetadataHeader.__init__, check_range", B+'headers.py')], [], ["constructors"])
p("C24", "Verbosity never changes results",
  "Whatever the verbosity level, every packing, unpacking, appending and metadata operation has the same result, writes the same bytes and raises the same errors. A message is printed exactly when its level does not exceed the current level, and setting the level takes effect.",
  ["inputs", "configurations"], "every operation and input at all three levels",
  "The unit tests run at one level only.",
  [B+'log.py', B+'abstract_io.py', B+'file_io.py', B+'append.py'], [("verbose, set_level", B+'log.py')], [("LEVEL", "current verbosity", B+'log.py')], ["outputs at each level"])
p("C25", "Argument sets are accepted only if complete and known",
  "A set of Blosc, Bloscpack or metadata arguments passes its check exactly when it has all the expected entries and no others; otherwise a ValueError is raised. The arguments objects always provide exactly those entries, with the documented defaults; assigning to one of them takes effect, none can be added or removed; and a container checksum given as None means the checksum called 'None'.",
  ["inputs"], "all sets of argument names, all constructor values",
  "Tests remove or add one entry.",
  [B+'args.py', B+'abstract_objects.py'], [("__check_args, BloscArgs, BloscpackArgs, MetadataArgs, MutableMappingObject", B+'args.py')], [], ["_check_*_args"])
p("C26", "Blosc chunk headers are decoded exactly",
  "Decoding the 16-byte Blosc header of a chunk yields its version, flags, typesize and the little-endian sizes in documented order; a chunk is always read with exactly its recorded compressed length and followed by exactly one digest of the recorded checksum, leaving the position at the next chunk. Decoding the flags byte yields the documented shuffle, memcpy, split and codec settings.",
  ["inputs"], "all 16-byte headers, all flag bytes with a known codec, every position in every file",
  "Tests decode a few real buffers.",
  [B+'headers.py', B+'file_io.py'], [("decode_blosc_header, decode_blosc_flags", B+'headers.py'), ("_read_compressed_chunk_fp", B+'file_io.py')], [], ["decode_blosc_header", "_read_compressed_chunk_fp"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
