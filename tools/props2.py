p("P21", "Settings keep, announce and forget changes exactly as the user made them",
  "A setting's current value is the last applied value, a tentative change is visible as the new value until it is applied or discarded, and a setting reports itself modified, default or dirty exactly when that is so. Each change, whether tentative or applied, is announced exactly once and only when something changed. Constraints, categories and lookups by key or by identifier always lead to the same setting.",
  ["histories"], "All histories of registering, changing, applying, discarding, resetting and loading settings.",
  "The App test is not built and samples single values.",
  [I + "app/settings.hpp", I + "app/setting.hpp", "src/app/settings.cpp", I + "app/setting_value.hpp", I + "app/setting_constraints.hpp"], [("new/current value and change events", I + "app/setting.hpp")], observe=["values, flags, change notifications"])
p("P22", "The logger writes each enabled message once, whole and in order",
  "A message is written to a logger's sinks exactly once if its severity and category pass the filters in force when it was logged, and never otherwise; messages logged by one thread appear in the order they were logged and no message is interleaved with another. Copies attached to other loggers receive the same messages under their own filters. Everything logged before a flush or before the logger is destroyed has been written when that returns.",
  ["histories", "schedules"], "All histories of filter changes and messages from several threads, with synchronous and background logging.",
  "The Logger test is not built here, prints to the console and checks nothing about order.",
  [I + "app/logger.hpp", I + "app/i_logger.hpp"], [("severity/category filters", I + "app/logger.hpp"), ("message buffer and logging thread", I + "app/logger.hpp")], observe=["text reaching the sinks"])
p("P24", "Packet framing reassembles exactly the packets that were sent",
  "However the bytes of a packet stream are split into or merged from network reads, the receiver delivers exactly the packets that were sent, whole, once each and in order, and holds back an incomplete packet until the rest arrives. Sending queued packets transmits each exactly once, in order except that high priority ones overtake those waiting, and announces each exactly once. A stream can be closed, reopened or destroyed at any time, also from its own events; nothing of one connection reaches the next.",
  ["inputs", "schedules"], "All packet contents, all ways of splitting and merging the byte stream, and all histories of sending, opening, closing and destroying.",
  "The Io test sends a few fixed packets without controlling fragmentation.",
  [I + "io/packet_stream.hpp", I + "io/packet_connection.hpp", I + "io/string_packet.hpp", I + "io/binary_packet.hpp"], [("take_some and receive buffer", I + "io/packet_connection.hpp"), ("send queue", I + "io/packet_connection.hpp")], observe=["packets delivered, bytes on the wire"])
p("P25", "JSON documents parse to the tree they denote, and only valid ones parse",
  "A JSON text is accepted exactly when it is valid under the selected syntax, and an accepted text yields a document with the same structure, order, member names and scalar values as the text; a rejected text is reported with an error and never crashes. Writing a document and reading it back gives an equal document. Members are reachable by key, by path and by iteration consistently, also after members were added or removed.",
  ["inputs", "histories"], "All texts over the JSON alphabet, all documents, and all edit histories on them.",
  "NoFussJSON runs a fixed corpus; structure and round trip of arbitrary documents are not covered.",
  [I + "file/json.hpp", I + "file/json.inl"], [("parser state table", I + "file/json.inl"), ("value tree", I + "file/json.hpp")], observe=["accept/reject", "document tree"])
p("P26", "XML documents parse to the element tree they denote and survive rewriting",
  "A well-formed XML text yields a tree with exactly the elements, attributes and text of the document in order, with the predefined entities resolved, and a text that is not well formed is reported as an error. Writing a tree and reading it back gives an equal tree (but for the white space its layout puts between nodes), also after elements, attributes and text were added, changed or removed. Lookup of elements by name, position or attribute finds exactly the matching ones.",
  ["inputs", "histories"], "All documents over the supported markup and all edit histories on them.",
  "No test covers XML.", [I + "file/xml.hpp", I + "file/xml.inl"], [("tag parser", I + "file/xml.inl"), ("element tree", I + "file/xml.hpp")], observe=["tree, written text"])
p("P27", "Tokenising, matching, replacing and formatting text follow their rules",
  "Splitting a text at delimiters yields exactly the pieces between them, in order, with empty pieces and the limit treated as asked; joining them back gives the original. A wildcard pattern matches a text exactly when it can be produced by letting each star stand for any run and each question mark for one character, and a pattern search reports exactly the places where its patterns occur (the longest ones if asked). Replacing replaces every non-overlapping occurrence from left to right and nothing else, and trimming removes exactly the leading and trailing characters asked for. Formatting puts each argument where its field is and reports where it went; unescaping, case folding and integer conversion give the text their rules define.",
  ["inputs"], "All texts, delimiters, patterns and limits over a small alphabet, exhaustively up to a length bound.",
  "StringUtils samples a few dozen strings.", [I + "core/string_utils.hpp", "src/core/string_utils.cpp", I + "core/string_ci.hpp", I + "core/string_numeric.hpp"], [("tokens, wildcard_match, replace_string, format, string_search_fsa", I + "core/string_utils.hpp")], observe=["results"])
p("P28", "Ordered sets with mutable elements stay ordered and addressable by key",
  "A set or multiset with mutable elements holds each inserted element under the key it had when inserted, in key order, is searched by key or by element with the result a sorted sequence would give, and changing an element's non-key part through an iterator changes that element only. Inserting an element whose key is present leaves a set unchanged and adds to a multiset.",
  ["histories"], "All histories of insertion, search, mutation, erasure and iteration.",
  "Only one test inserts a few elements.", [I + "core/mutable_set.hpp"], [("key extraction and ordered storage", I + "core/mutable_set.hpp")], observe=["contents and lookups"])

p("P29", "Unicode text survives conversion and ill-formed UTF-8 is told apart",
  "Converting well-formed text between UTF-8, UTF-16 and UTF-32 and back gives the same text, and the character maps and callbacks relate each position to the position it came from. A byte string is reported as valid UTF-8 exactly when it is well formed as the Unicode standard defines it (no overlong forms, no surrogates, nothing above U+10FFFF); decoding one that is not puts a replacement character for each byte that is not part of a well-formed sequence and never yields anything ill-formed.",
  ["inputs"], "All byte strings and all sequences of code points.",
  "No test covers the conversions; JSON's corpus exercises only some of the ill-formed inputs.",
  [I + "core/string_utf.hpp"], [("next_utf_bits, utf8_to_utf16/32, utf16_to_utf8, check_utf8", I + "core/string_utf.hpp")], observe=["results"])

p("P30", "Archives give back exactly what was stored and damage is reported",
  "Opening a ZIP archive lists exactly the entries of its directory, in order and by their names, and extracting an entry (to a buffer, a string or a file) yields exactly the bytes that were stored, whichever supported method packed them and whether or not its local header leaves out the sizes; gzip data yield exactly the bytes that were packed. An archive or entry that is cut off, damaged or packed by an unknown method is reported (not ok, extraction fails) rather than yielding wrong bytes, and after such a failure the archive stays not ok; a reader never looks beyond the data it was given. A copy of an archive object stands on its own. No entry's name makes extraction write outside the directory it was asked to extract to.",
  ["inputs"], "All archives, all damage to them (fields, bytes, cuts), and all orders of extracting.",
  "No test opens an archive.",
  [I + "file/zip.hpp", "src/file/zip.cpp", I + "file/gunzip.hpp", "src/file/gunzip.cpp", "src/core/crc.cpp"], [("directory walk and extraction", "src/file/zip.cpp"), ("gzip header and checksum", "src/file/gunzip.cpp")], observe=["names, bytes, errors, files written"])

p("P31", "A holder of a value holds exactly the last value given to it, or none",
  "An optional, a variant or an any holds the value last assigned to it, of the kind it was assigned with, or nothing if it was never given one or was cleared; copying one (by itself or through its abstract interface, also onto itself) makes the target hold an equal value and leaves the source alone, moving one passes the value on, and swapping exchanges them. Asking for a value as a kind it does not have, or of an empty holder, is refused. Comparison orders holders by what they hold, and visiting sees exactly what is held. Held objects are destroyed exactly once. Reading and writing an optional as text agree.",
  ["histories"], "All histories of assigning, copying, moving, clearing, swapping and asking, for values with and without resources.",
  "Tests use optionals and variants only in passing; any is not used at all.",
  [I + "core/optional.hpp", I + "core/i_optional.hpp", I + "core/variant.hpp", I + "core/i_variant.hpp", I + "core/any.hpp", I + "core/i_any.hpp"], [("assignment through the abstract interface", I + "core/variant.hpp"), ("copy and move", I + "core/any.hpp")], observe=["what is held, live objects"])

p("P32", "Vector, matrix, rotation and box arithmetic is what linear algebra defines",
  "Element-wise, scalar, dot, cross, outer and matrix products, transposition, swizzles, comparison and rounding give the values their definitions give, for every size, element type and mixture of operands, with or without SIMD, and whether computed anew or in place (also onto one of the operands); assigning to some elements of a vector leaves the others alone. Rotations keep lengths and handedness and turn the way asked, and placements between two ends reach those ends. A bounding box is the smallest that holds what it is made from, transforming it moves everything it holds, and containment, overlap and union agree with that. Writing a vector and reading it gives it back, and the same seed gives the same random numbers.",
  ["inputs", "histories"], "All operands (checked where the arithmetic is exact: small whole numbers, quarter turns) and all histories of changes in place.",
  "No test uses these.", [I + "core/numerical.hpp", I + "core/swizzle.hpp", I + "core/simd.hpp"], [("vectors, matrices, boxes", I + "core/numerical.hpp"), ("in-place element selection", I + "core/swizzle.hpp"), ("four-way products", I + "core/simd.hpp")], observe=["results"])

p("P33", "A URI is taken apart into the parts it denotes and written so it reads back",
  "Parsing a URI yields its scheme, user information, host, port, path, query and fragment with percent escapes resolved, whichever of them are there and whatever characters the later parts contain; a port that is no port number is refused. Writing a URI, however its parts were obtained or set, gives a text of URL characters only that reads back as the same parts. Escaping and unescaping are inverse, and no text however short or malformed is read beyond its end.",
  ["inputs", "histories"], "All texts over the delimiters, escapes and ordinary characters up to a length bound, all values of the parts.",
  "No test parses a URI.", [I + "io/uri.hpp", "src/io/uri.cpp"], [("parsing and escaping", "src/io/uri.cpp"), ("writing", I + "io/uri.hpp")], observe=["parts, text"])

p("P34", "Numbers, UUIDs, versions and dumps are written so that they say the value",
  "A LEB128 code is the shortest well-formed one of its number, signed or unsigned, over the whole range; a UUID is written as its canonical hexadecimal text and reads back equal from either case, generated ones are of version 4 and differ from each other, and equality, order and hash agree on all sixteen bytes; a version parses from its dotted numbers and name, writes so that it reads back, and versions are totally ordered by their four numbers alone, the first that differs deciding; a memory dump shows every byte at its place. Writing any of these to a stream leaves the stream's format for what follows as it was.",
  ["inputs"], "All 64-bit numbers (sampled around every power of two), all UUIDs and versions (sampled so that they differ in any one part), all memory blocks.",
  "No test uses these.", [I + "core/leb128.hpp", I + "core/uuid.hpp", "src/core/uuid.cpp", I + "app/version.hpp", I + "app/i_version.hpp", I + "file/hexdump.hpp"], [("encoding", I + "core/leb128.hpp"), ("text form", I + "core/uuid.hpp"), ("parsing and order", I + "app/version.hpp"), ("dump", I + "file/hexdump.hpp")], observe=["codes, texts, comparisons"])

p("P35", "Sorting, stepping, zipping and scoped guards do exactly what they say",
  "Sorting through a swapper leaves the same elements, ordered by the comparator, and moves nothing except through the swapper, whatever the length, the order and the repetition of the input; a stepping counter gives the exact ends and every value in between rounded to the nearest (its alternative: towards the start), in either direction; zip iterators walk, jump, compare, assign and swap all their sequences together; a scoped guard sets its place at once and on leaving puts back exactly what was there before (counts down, deletes, calls once), however guards are nested and whatever happened to the place in between, unless it was told to ignore.",
  ["inputs", "histories"], "All short inputs and inputs that defeat quicksort; all nested orders of opening, changing, ignoring and closing.",
  "No test uses these.", [I + "core/intrusive_sort.hpp", I + "core/bresenham_counter.hpp", I + "core/zip_iterator.hpp", I + "core/scoped.hpp"], [("sort", I + "core/intrusive_sort.hpp"), ("counter", I + "core/bresenham_counter.hpp"), ("zip", I + "core/zip_iterator.hpp"), ("guards", I + "core/scoped.hpp")], observe=["sequences, values, live objects"])
