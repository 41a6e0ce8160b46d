#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe or [], hook_needed=hook)))

p("P01", "No input crashes, hangs or escapes the reader",
  "For every byte sequence offered as a hive and every sequence of public read operations with any arguments, each call returns normally with a value, an absence or an error: it never panics, overflows, reads out of bounds or loops forever. Every byte slice handed out lies inside the bytes the caller supplied.",
  ["inputs", "histories"], "all byte sequences (valid, truncated, corrupted, hostile), all call sequences and arguments (names, paths, iterator positions); excluded: the in-place clearing pass on cyclic key graphs, a recorded finding of P15",
  "The 11 tests only read one intact hive (testdata/testhive); none passes a damaged byte, so no bounds check, checked addition or error branch is ever taken.",
  ["src/hive.rs", "src/helpers.rs", "src/key_node.rs", "src/key_value.rs", "src/key_values_list.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/big_data.rs"],
  [("checked sub-range computation used before every slice", "src/helpers.rs byte_subrange"), ("cell lookup: bounds, allocation and alignment checks", "src/hive.rs cell_range_from_data_offset"), ("leaf lists below an index root must be leaves with at least one item", "src/leaf.rs LeafItemRanges::from_index_root_item_range"), ("absolute offsets for errors computed from addresses", "src/hive.rs offset_of_field")],
  observe=["every public method of Hive, KeyNode, KeyValue, KeyValueData, NtHiveNameString and the iterators"])

p("P02", "Opening accepts exactly the valid hive headers",
  "Opening a hive with validation succeeds exactly when there is a full base block with the regf signature, equal sequence numbers, version 1.3 or later 1.x, primary file type, direct memory-load format, clustering factor 1, a data size that is a multiple of 4096 and no larger than the data present, and the correct XOR checksum (0 stored as 1, all ones stored as all ones minus 1). Otherwise it returns an error naming a check that really fails; opening without validation needs only a full base block, and validating later gives the same verdict. The reported version numbers are those in the header.",
  ["inputs"], "all headers: every combination of field values, every single-bit corruption, all buffer lengths",
  "The tests open only one valid header; no rejected header, checksum special case or boundary of the data size is ever tried.",
  ["src/hive.rs"],
  [("header validation sequence", "src/hive.rs Hive::validate and validate_*"), ("prefix split of the base block", "src/hive.rs Hive::without_validation")],
  observe=["Hive::new", "Hive::without_validation", "Hive::validate", "Hive::major_version", "Hive::minor_version"])

p("P03", "Walking a hive yields exactly the stored key tree",
  "For every well-formed hive, walking from the root through subkeys and values yields exactly the stored tree: every key and value once, in stored order, with its exact name, encoding and class name, and nothing else. This holds for every list representation (fast, hash and index leaves, index roots over any mix of leaves) and any number of entries the format can hold.",
  ["inputs"], "all well-formed hives: tree shapes, names in both encodings, class names, value lists, list representations and sizes up to 65535 entries per list",
  "Only one hand-made tree is walked, with one index root, one leaf type, no class names and no list of more than 512 keys.",
  ["src/key_node.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/key_value.rs"],
  [("subkey list dispatch", "src/subkeys_list.rs SubKeyNodes::new"), ("leaf iteration", "src/leaf.rs LeafItemRanges"), ("two-level iteration", "src/index_root.rs IndexRootKeyNodes::next"), ("value list iteration", "src/key_values_list.rs KeyValues"), ("names and class names", "src/key_node.rs name, class_name; src/key_value.rs name")],
  observe=["Hive::root_key_node", "KeyNode::subkeys", "KeyNode::values", "KeyNode::name", "KeyNode::class_name", "KeyValue::name"])

p("P04", "Subkey lookup agrees with enumeration, ignoring case",
  "On every hive whose subkeys are stored in the registry's sort order, looking a subkey up by name returns the very key that enumeration shows under that name, whatever its letter case, encoding, list representation, position or number of siblings, and reports absence exactly when no sibling has that name. Even on damaged or unsorted lists a lookup never returns a key whose name differs from the one asked for.",
  ["inputs"], "all sorted sibling sets (sizes 0 to 65535 per list, all partitions of an index root), all query strings present or absent",
  "The tests look up 512 numbered names in one index root and a handful of others; absent names, boundaries between leaves and other sizes or alphabets are not tried.",
  ["src/key_node.rs", "src/string.rs", "src/index_root.rs", "src/leaf.rs"],
  [("binary search over an index root", "src/key_node.rs binary_search_subkey_in_index_root"), ("binary search in a leaf", "src/key_node.rs binary_search_subkey_in_leaf"), ("name ordering", "src/string.rs cmp_iter")],
  observe=["KeyNode::subkey", "KeyNode::subkeys"])

p("P05", "Path traversal equals successive subkey lookups",
  "Traversing a backslash-separated path from a key gives the same key, absence or error as looking its components up one after the other, where leading, trailing and repeated backslashes count for nothing. A path without components yields the starting key itself.",
  ["inputs"], "all hives and all path strings, including empty ones, runs of backslashes, present, absent and case-varied components of any depth",
  "The tests try a dozen paths of at most three components on one hive.",
  ["src/key_node.rs"],
  [("component loop", "src/key_node.rs KeyNodeItemRange::subpath")],
  observe=["KeyNode::subpath", "KeyNode::subkey"])

p("P06", "Value lookup returns the first value of that name, or says why not",
  "Looking a value up by name returns the first enumerated value whose name matches ignoring case, and reports absence exactly when the readable list holds no such value. If an unreadable value or name is met before a match, that error is returned; a value with another name or an unreadable name is never returned as the result.",
  ["inputs"], "all value lists (any length, order, encodings, duplicate and empty names, damaged entries) and all query strings",
  "The tests fetch a dozen existing values of one intact hive by exact name; no absent, case-varied, duplicate or damaged name is tried.",
  ["src/key_node.rs", "src/key_values_list.rs", "src/string.rs"],
  [("linear search", "src/key_node.rs KeyNodeItemRange::value")],
  observe=["KeyNode::value", "KeyNode::values"])

p("P07", "Value data comes back byte for byte as stored",
  "For every value in a well-formed hive the data returned is exactly the stored bytes and the reported size is its length, whether the data is stored inside the value record (0 to 4 bytes), in one cell (up to 16344 bytes) or, above that, split over big-data segments of 16344 bytes. The segments, in order, concatenate to the data, every segment but the last being full.",
  ["inputs"], "all data lengths and contents, all three storage forms and their thresholds, any number of segments",
  "The tests read three sizes around one threshold filled with one repeated byte, and at most two segments; misplaced or repeated segments would go unnoticed.",
  ["src/key_value.rs", "src/big_data.rs"],
  [("storage form dispatch", "src/key_value.rs KeyValue::data"), ("segment iteration", "src/big_data.rs BigDataSlices::next"), ("size field masking", "src/key_value.rs data_size")],
  observe=["KeyValue::data", "KeyValue::data_size", "KeyValueData::into_vec", "BigDataSlices"])

p("P08", "Integer values decode exactly or are refused",
  "Reading a value as a 32-bit or 64-bit integer succeeds exactly when its type is the matching registry type and its data is exactly 4 or 8 bytes, and then returns the stored number in the type's byte order. The reported data type is the one stored for all twelve known codes, and every other code, type or size is an error, never a number.",
  ["inputs"], "all type codes (32 bits), all data sizes and contents, all storage forms",
  "The tests read three integers of the right type and size; no mismatch is tried and a symmetric or all-ones value hides byte-order slips.",
  ["src/key_value.rs"],
  [("dword decoding", "src/key_value.rs dword_data"), ("qword decoding", "src/key_value.rs qword_data"), ("type code mapping", "src/key_value.rs data_type, KeyValueDataType")],
  observe=["KeyValue::dword_data", "KeyValue::qword_data", "KeyValue::data_type"])

p("P09", "String values decode completely, wherever the data is split",
  "A string value decodes to the UTF-16 text of its whole data up to the first NUL, and a multi-string value to the successive NUL-terminated strings up to the first empty one or the end of the data, undecodable units becoming U+FFFD and a trailing odd byte being ignored. The result depends only on the data bytes, not on how they are split over big-data segments, and other types are refused.",
  ["inputs"], "all data contents (surrogates, NULs, odd lengths, missing terminators) and all storage forms, in particular characters lying across a segment boundary",
  "One small string, one small list and one two-segment list of digits are decoded; nothing puts a surrogate pair or a NUL at a segment boundary.",
  ["src/key_value.rs", "src/big_data.rs"],
  [("string decoding over segments", "src/key_value.rs utf16le_to_string_lossy"), ("multi-string iteration", "src/key_value.rs RegMultiSZStrings::next")],
  observe=["KeyValue::string_data", "KeyValue::multi_string_data"])

p("P10", "Name text conversions are faithful",
  "Converting a key, value or class name to text yields its exact characters: every Latin-1 byte is the character of that code, UTF-16 is decoded with surrogate pairs combined. The checked conversion fails exactly when some unit is undecodable, the lossy one and the displayed text replace each such unit by U+FFFD and otherwise agree with it, and length and emptiness are those of the stored bytes.",
  ["inputs"], "all byte contents in both encodings, including all 256 Latin-1 bytes, unpaired surrogates and odd lengths",
  "No test calls the text conversions at all; lengths are tested on one word.",
  ["src/string.rs"],
  [("conversions", "src/string.rs to_string_checked, to_string_lossy, Display"), ("length", "src/string.rs len, is_empty")],
  observe=["NtHiveNameString::to_string_checked", "NtHiveNameString::to_string_lossy", "NtHiveNameString Display", "NtHiveNameString::len"])

p("P11", "Name comparison is one case-insensitive total order",
  "Names compare as sequences of UTF-16 code units, each first replaced by its single-character uppercase form within the Basic Multilingual Plane (Unicode's one-to-one mappings; characters outside it keep their case), a proper prefix being smaller. This one total order, with equality and ordering consistent, applies alike to both stored encodings and to text strings on either side.",
  ["inputs"], "all pairs and triples of names in all encodings; all 65536 code units for the case mapping",
  "About twenty comparisons of one or five characters are tested out of an order over all strings and a table of 1185 case pairs.",
  ["src/string.rs"],
  [("case mapping table", "src/string.rs BMP_UPPERCASE_TABLE, utf16_code_unit_to_uppercase"), ("comparison", "src/string.rs cmp_iter"), ("trait impls for name and str", "src/string.rs Ord, PartialOrd, PartialEq")],
  observe=["==, <, cmp between names and strings"])

p("P12", "Iterator shortcuts agree with stepping",
  "For every iterator over subkeys, values, data segments and strings, and from every position, the reported remaining length, counting, skipping by any amount, taking the last element and continuing a clone give what stepping one element at a time would give, including elements that are errors. Once exhausted, whether by stepping or by skipping past the end, an iterator stays exhausted.",
  ["inputs", "histories"], "all lists (sizes, kinds, damaged entries), all interleavings of stepping, skipping (any 64-bit amount), cloning and length queries",
  "No test calls count, nth, last, size hints or clones; iterators are only stepped front to back.",
  ["src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs", "src/subkeys_list.rs", "src/key_value.rs"],
  [("overridden iterator methods", "src/leaf.rs, src/key_values_list.rs, src/big_data.rs count/last/nth/size_hint"), ("dispatch", "src/subkeys_list.rs SubKeyNodes"), ("fused and exact-size markers", "FusedIterator and ExactSizeIterator impls")],
  observe=["Iterator and ExactSizeIterator methods of SubKeyNodes, LeafKeyNodes, IndexRootKeyNodes, KeyValues, BigDataSlices, RegMultiSZStrings"])

p("P13", "Corruption is reported, precisely and where it is",
  "Every read that needs a damaged structure (unallocated, misaligned, truncated or out-of-range cell, wrong signature, count, size or type) returns an error instead of data, and a read that needs no damaged structure never returns one. The error names the kind of damage and the absolute file offset of the faulty bytes, with the sizes or values actually found, and its displayed message contains them.",
  ["inputs"], "all single and multiple corruptions of all structures of a hive, all operations reaching them",
  "No test provokes any error, so neither detection nor the reported offsets are exercised.",
  ["src/error.rs", "src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/key_values_list.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/big_data.rs"],
  [("error construction", "every ok_or_else(NtHiveError::...) site"), ("absolute offsets", "src/hive.rs offset_of_field, offset_of_data_offset"), ("messages", "src/error.rs")],
  observe=["the NtHiveError returned by every public call, and its Display text"])

p("P14", "Damage stays local",
  "Damage to one key, value, list, name, class name or data cell affects only the operations that need that very structure: all other keys and values are still enumerated, in their places, and still found and read with unchanged results. A damaged entry of a list shows as an error in its own place and enumeration goes on after it.",
  ["inputs"], "all well-formed hives, every structure in them damaged in every way, all operations on the rest",
  "No test reads a damaged hive, so nothing shows what a fault does to its neighbours.",
  ["src/key_node.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs"],
  [("lazy per-item resolution in iterators", "src/leaf.rs LeafKeyNodes::next, src/key_values_list.rs KeyValues::next, src/index_root.rs IndexRootKeyNodes::next")],
  observe=["KeyNode::subkeys", "KeyNode::values", "KeyNode::subkey", "KeyNode::value", "KeyValue::data"])

p("P15", "Clearing volatile counts touches nothing else and misses no key",
  "After a successful clearing pass the volatile-subkey count of the root and of every key reachable through stable subkey lists is zero and every other byte of the hive is unchanged, so all reads answer as before; repeating it changes nothing. If damage stops the pass, an error is returned and still no byte outside the volatile-subkey counts of keys has changed.",
  ["inputs", "fault_sequences"], "all hives: tree shapes and depths, list representations, initial counts, and damage at any point of the traversal; a cyclic key graph is a recorded finding",
  "The only test checks that the pass returns success on a hive whose counts are already zero.",
  ["src/hive.rs", "src/key_node.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs"],
  [("recursive pass", "src/key_node.rs KeyNodeMut::clear_volatile_subkeys"), ("mutable iteration", "src/subkeys_list.rs SubKeyNodesMut, src/index_root.rs IndexRootKeyNodesMut, src/leaf.rs LeafKeyNodesMut")],
  state=[dict(name="volatile_subkey_count", meaning="32-bit count field of each key node", where="src/key_node.rs KeyNodeHeader")],
  observe=["Hive::clear_volatile_subkeys and the caller's buffer afterwards"])

p("P16", "Only the documented structures influence the answers",
  "Two hives that store the same tree give the same answers, however their cells are ordered, padded or spread over bins, whichever list kinds index the subkeys, and whatever the bytes hold that carry no part of the tree: free cells, cell slack, timestamps, security and hint or hash fields, header padding, trailing bytes.",
  ["inputs"], "all trees and all pairs of layouts and fillings of unused bytes for them",
  "There is a single hive file with a single layout.",
  ["src/hive.rs", "src/key_node.rs", "src/leaf.rs", "src/subkeys_list.rs", "src/key_value.rs"],
  [("offset-based resolution", "src/hive.rs cell_range_from_data_offset"), ("hints and hashes ignored", "src/leaf.rs LeafItemRange::key_node_offset"), ("flag bits", "src/key_node.rs KeyNodeFlags, src/key_value.rs KeyValueFlags")],
  observe=["all read operations"])

p("P17", "Answers do not depend on buffer kind or call history",
  "Every read operation on an open hive gives the same answer however the bytes are held (shared, exclusive or run-time-borrowed slices, at any address alignment) and whatever operations were performed before, in any order, on any handles, iterators or clones of the same hive. Two handles are equal exactly when they denote the same record of the same open hive.",
  ["histories", "configurations"], "all sequences of operations over pools of handles and iterators, all buffer kinds and alignments",
  "Tests make a few calls in one order on one owned buffer.",
  ["src/hive.rs", "src/key_node.rs", "src/key_value.rs"],
  [("stateless handles over byte ranges", "src/key_node.rs KeyNode, src/key_value.rs KeyValue"), ("equality", "src/key_node.rs PartialEq, src/key_value.rs PartialEq"), ("generic byte slices", "SplitByteSlice bounds, Unaligned on-disk structures")],
  observe=["all read operations and ==, over histories"])

p("P18", "All feature sets and build profiles give the same answers",
  "On every input, the crate built with the standard library, with allocation only, and without allocation, with or without run-time overflow checks, gives identical answers and errors for every operation they share.",
  ["configurations", "inputs"], "all inputs (valid and damaged hives) times feature sets {std, alloc, none} times {checked, optimised} builds",
  "The tests run only with all features in the debug profile; CI merely compiles the others.",
  ["Cargo.toml", "src/lib.rs", "src/key_value.rs", "src/string.rs"],
  [("feature gates", "cfg(feature = alloc/std) items"), ("explicit checked arithmetic", "src/helpers.rs byte_subrange, checked_mul/checked_add in iterators")],
  observe=["transcripts of all shared operations from separately built programs"])

p("P19", "Results are the same on 32-bit and big-endian machines",
  "On every input, all operations give the same answers and errors on 32-bit and 64-bit, little-endian and big-endian platforms, without overflow on any of them.",
  ["configurations", "inputs"], "all inputs times {64-bit little-endian, 32-bit big-endian, 32-bit little-endian, 64-bit big-endian}",
  "The tests run on one 64-bit little-endian machine, where native-order and pointer-size slips are invisible.",
  ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/key_values_list.rs", "src/big_data.rs", "src/string.rs"],
  [("explicit little-endian fields", "U16/U32/U64<LittleEndian> in on-disk structures, from_le_bytes"), ("checked offset arithmetic", "src/helpers.rs byte_subrange")],
  observe=["transcripts of all operations from interpreters of the other platforms"])

p("P20", "Finding a subkey takes logarithmic work",
  "Looking a subkey up by name inspects only about log2(n) of its n siblings, for every list representation that supports searching (a leaf, or an index root over leaves), present or absent; the rest of the list is not read.",
  ["inputs"], "all sibling counts up to the format's limits, all list representations and partitions, all query names",
  "Tests only see results, never the amount of work, and use at most 512 siblings.",
  ["src/key_node.rs", "src/index_root.rs", "src/leaf.rs"],
  [("binary searches", "src/key_node.rs binary_search_subkey_in_index_root, binary_search_subkey_in_leaf"), ("constant-time nth and last on item lists", "src/leaf.rs LeafItemRanges, src/index_root.rs IndexRootItemRanges")],
  observe=["number of accesses to the hive bytes during KeyNode::subkey"])

p("P21", "The readhive tool dumps every key and value below the root",
  "Run on any well-formed hive, the readhive tool succeeds and prints every key below the root and every value of those keys exactly once, in stored order, nested by depth, with the value's type, size and decoded data. Run on a file that is not a valid hive, or one damaged where the dump must read, it fails with an error message and does not crash.",
  ["inputs"], "all well-formed hives with readable value types, and all damaged files",
  "The example program is only compiled, never run.",
  ["examples/readhive.rs", "src/key_node.rs", "src/key_value.rs", "src/string.rs"],
  [("recursive dump", "examples/readhive.rs process_subkey")],
  observe=["standard output and exit status of readhive"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
