import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
cr="src/bin_xml_creator.cpp"; pk="src/bin_xml_packer.cpp"; xp="src/bin_xml_plugin.cpp"; jp="src/bin_json_plugin.cpp"; wp="src/bin_write_plugin.cpp"; rd="src/bin_xml.cpp"; ty="src/bin_xml_types.cpp"; ut="src/utils.cpp"; ms="src/missings.cpp"; fl="src/files.cpp"
p("C01","Converting XML to binary and back loses or changes nothing",
 "For every well-formed XML document, converting it to a binary file and exporting that file again yields a document with the same elements in the same order, the same attribute names and values, and the same text; type recognition may shrink storage but may never change what a value says. The permitted losses are comments, processing instructions, ignorable white space around text, and, as documented, the position of text parts between child elements (the parts are kept in order, joined).",
 ["inputs"],"all well-formed XML documents of moderate size: any nesting, repetition, attribute order, mixture of text shapes (numbers, dates, hex, addresses, long digits, entities, CDATA, non-ASCII)",
 "The tests convert two fixed files whose values are ordinary; the text-recognition code has dozens of look-alike shapes and the packing code depends on alignment, repetition and size, none of which a handful of files reaches.",
 [cr,pk,xp,ty,rd],[("XML parsing and pre-order of nodes","Bin_xml_plugin, Bin_xml_creator::FirstPass/WriteNode"),("value typing","XBT_Detect/XBT_FromString"),("export","XB_reader::Print/XML_Item::write")])
p("C02","Every binary file written is well-formed and self-contained",
 "Every file produced by a conversion follows the published layout: the header, the two sorted name tables without duplicates, and one payload element whose every offset stays inside the file and, except for references to shared repeated content, inside its parent, with children and values aligned and lengths that exactly enclose them. A reader that knows only the format description can recover the complete document from it.",
 ["inputs","configurations"],"all inputs accepted by the converters (XML and JSON) and all reasonable sizes, name counts and value types",
 "The tests only read files back with the same code, so a mistake made symmetrically by writer and reader, or an offset that is wrong in a place the exporter does not touch, goes unseen.",
 [cr,pk,"include/binary_xml/bin_xml.h","doc"],[("node layout","Bin_xml_creator::WriteNode"),("name tables","Bin_xml_creator::WriteSymbols/XML_Symbol_Info"),("packing","Bin_xml_packer")])
p("C03","Repeated content is stored once and different content is never merged",
 "Whenever a document that contains several identical elements is packed (Bin_xml_packer::Convert), the binary file stores their content once and every occurrence refers to it (once per needed alignment where it holds 8-byte values); elements that differ anywhere (name, attributes, text, type or descendants) are never merged. So the file does not grow with the number of copies beyond the references to them, and its meaning is unchanged.",
 ["inputs"],"documents with any pattern of exact repetition and near-repetition (differing in one byte, one attribute, one type, one descendant), at every alignment",
 "Duplicates in the test files are few and never near-misses, so neither a missed share nor a wrong merge would change a test result.",
 [pk],[("hash and comparison of packed subtrees","Bin_xml_packer::PackNode, XML_Hash_Item table")])
p("C04","The same input always gives byte-for-byte the same binary file",
 "Converting the same source (same name, contents and modification time) gives the identical file in every run and process, whatever was in memory before; no byte of an output file comes from uninitialised memory.",
 ["inputs","histories","configurations"],"all accepted inputs, repeated in fresh processes and under differently filled heaps",
 "Each test runs once and compares decoded trees, so stray bytes in padding or unused fields never show.",
 [cr,pk,wp],[("output buffers","Bin_xml_creator::DoAll, Bin_xml_packer::Convert"),("padding","XBT_Align users")])
p("C05","JSON documents are converted with their names, structure and values intact",
 "For every valid JSON document with an object at the top, each member becomes an element or value under its own name, in order, with its complete decoded value, and array elements become a sequence of elements in array order named by the documented rule; nothing is dropped, duplicated or reordered.",
 ["inputs"],"all valid JSON objects with nested objects, arrays, strings with escapes, numbers, booleans and nulls",
 "The only JSON test prints the token tree of a fixed file and does not look at the binary result.",
 [jp,"src/jsmn/jsmn.c",cr],[("tokeniser","jsmn_parse"),("tree walk","Bin_json_plugin::ForAllChildren/getNodeName/getNodeValue")])
p("C06","Malformed source documents are refused without memory errors or output",
 "Whatever bytes are offered as an XML or JSON document, conversion ends without touching memory outside its objects, without crashing or hanging, and either produces a valid binary file or reports failure with a non-zero exit status and leaves no file that could be taken for a result; a source too large for the format is refused in the same way.",
 ["inputs"],"all byte strings up to some tens of kilobytes: truncations, mutations, deep nesting, extreme counts, invalid encodings",
 "Every test input is valid; malformed input never runs in the tests, and an overflow by a few bytes rarely changes a result without a sanitizer.",
 [cr,xp,jp,"src/jsmn/jsmn.c","src/tests/2xb.cpp"],[("error paths","Bin_src_plugin::Open results in Bin_xml_creator"),("buffer sizing","Bin_xml_creator::DoAll")])
p("C07","A failed write or read during conversion is never reported as success",
 "If any single system call that reads the source or writes the result fails or is cut short (disk full, I/O error, short write, missing file), the tool does not exit with success unless the binary file it leaves is complete and correct; otherwise it reports the failure and ends normally - it does not crash.",
 ["fault_sequences","crash_points"],"every single fault position (each open, read, write, close, seek, map, rename) of a conversion run, with several error kinds including short transfers",
 "The tests run on a healthy file system; none of the error branches is ever executed.",
 [cr,pk,rd,jp,fl,"src/tests/2xb.cpp"],[("writing of result files","Bin_xml_creator::DoAll, Bin_xml_packer::Convert"),("exit status","src/tests/2xb.cpp")])
p("C08","Printing a source document as XML keeps every name, value and order",
 "Whatever source is printed through the common source interface (an XML or JSON document or a source of typed values), the printed text is well-formed XML whose elements, attributes and texts are those of the source, in the same order, with special characters escaped so that parsing gives back exactly the values.",
 ["inputs"],"all source documents of every kind, all value types, texts with mark-up characters, quotes, line ends and long texts",
 "No test prints a source.",
 [cr,ty,xp,jp],[("printing","operator<<(ostream&,Bin_src_plugin&), Bin_src_plugin::s_On2Stream"),("escaping","XBT_ToXMLStream")])
p("T01","Every typed value survives text to binary and back",
 "For every supported value type, converting a canonical text to its binary form and rendering it gives the same text, and every binary value renders to a text that converts back to the same value, including the extreme, negative, fractional and zero values of the type.",
 ["inputs"],"all values of every supported type (integers, scaled decimals, addresses, hashes, identifiers, hex data, floats, dates, times), with boundaries",
 "The tests try one value per type; two of the tests already fail, and extremes and signs are not tried at all.",
 [ty,ut],[("parsing","XBT_FromString"),("rendering","XBT_ToStringChunk/XBT_ToString")])
p("T02","The type chosen for a text can hold it, and joining types never loses",
 "The type recognised for a text always accepts exactly that text, plain strings are kept as strings, and the recognition of a text depends on nothing but its characters. When the types of two values are combined, the combination is symmetric, idempotent, and able to represent every value that either of the two could.",
 ["inputs"],"all texts, especially those near the borders between types (sign, leading zero, separators, length, range); all pairs of types",
 "No test looks at which type was recognised, and joining types is not tested at all.",
 [ty],[("recognition","XBT_Detect/XBT_Detect2"),("join","XBT_JoinTypes")])
p("T03","Value conversions stay within the announced size and the given buffer",
 "For every type and text, the announced storage size is exactly what conversion writes, conversion and rendering never write beyond the buffer they were given and report failure when the value does not fit, and measuring a stored value gives the size that was stored.",
 ["inputs"],"all types, values and buffer capacities from zero upwards, at every alignment",
 "An overrun by a few bytes into neighbouring memory is invisible in the tests, which use large buffers.",
 [ty],[("size prediction","XBT_SizeFromString"),("measuring","XBT_Size/XBT_Size2"),("writing","XBT_FromString/XBT_Copy/XBT_ToStringChunk")])
p("T04","Rendering a value in pieces gives the same text as rendering it at once",
 "However a long value (string, hex data, blob) is rendered piece by piece through a bounded buffer, the pieces concatenated are the complete text, each character exactly once, with no extra bytes, and rendering always ends.",
 ["inputs","histories"],"all renderable types, value lengths around every multiple of the buffer and line sizes, and all legal buffer sizes",
 "No test exports a value longer than the working buffer of the exporter.",
 [ty,rd],[("chunk rendering","XBT_ToStringChunk"),("export loop","XML_Item::write / XML_Param_Description")])
p("T05","Dates and times agree with the Gregorian calendar",
 "Every conversion between day numbers, second counts and calendar text agrees with the proleptic Gregorian calendar and UTC: consecutive days get consecutive numbers, month lengths and leap years are right, and impossible dates or times of day are refused.",
 ["inputs"],"all days of at least the years 1600 to 2400 and all seconds of a day, negative and positive, and all near-miss texts",
 "The tests convert one date; leap-day, year-end, pre-epoch and century rules each need particular days.",
 [ut,ms,ty],[("day numbers","UnixDate2Str/ScanUnixDate"),("time","ScanUnixTime/UnixTime2Str/ScanUnixTime64msec")])
p("T06","Comparing stored values is a consistent order that agrees with their meaning",
 "For values of one type, comparison is antisymmetric, transitive and zero exactly for equal values, it agrees with the numeric, chronological or byte order of what the values say, and the equality test agrees with it.",
 ["inputs"],"all pairs and triples of values of each comparable type, including extremes whose difference overflows",
 "No test compares values; overflow in a comparison by subtraction needs extreme pairs.",
 [ty],[("order","XBT_Compare"),("equality","XBT_Equal")])
p("R01","Name lookup maps every stored name to its own number and back",
 "In every opened binary file each element or attribute name maps to exactly one number and that number back to the same name, a name that does not occur is reported as absent, and special numbers have their fixed names.",
 ["inputs"],"all sets of names in a document: none, one, many thousands, common prefixes, bytes beyond ASCII, names sorting before or after all others",
 "The test files have a few dozen names and the tests never look up an absent name.",
 [rd,cr],[("binary search","XB_symbol_table::Convert/getSymbol"),("table writing","Bin_xml_creator::WriteSymbols")])
p("R02","All ways of reading an element agree with the document",
 "For every element of a valid file, each way to reach its data (by index, by name, by number, by walking children or attributes, by callback, by typed getter with default) returns the same values as the document contains, and asks for missing data are answered as missing.",
 ["inputs","programs"],"all documents and all elements in them, every accessor applied to each, with names present and absent",
 "The tests use only the exporter's traversal; accessors by name, number or type are public interface without any test.",
 [rd,"include/binary_xml/bin_xml.h"],[("children","XML_Item::getChildByName/getChild/ForAllChildren"),("attributes","XML_Item::getParamIndex/getParamByName/getInt…")])
p("R03","Damaged or truncated binary files are refused or read safely",
 "Opening, checking or exporting a binary file with any bytes changed or cut off never reads or writes outside the file's memory and never crashes; opening and checking always come to an end, with a refusal or with some readable content, and elements nested deeper than the reader's limit are refused, however they share parts.",
 ["inputs","crash_points"],"all byte strings, in particular valid files with bytes changed, offsets redirected, counts inflated, and every truncation",
 "No test opens a damaged file; reading outside a mapping by an offset needs a hostile file.",
 [rd],[("validation","XB_reader::Initialize, XML_Item::Check, XB_symbol_table::Load/Check")])
p("R04","An append in progress exposes exactly the complete records",
 "When records are appended to an open-ended binary file, a reader that opens the file after any prefix of the appended bytes has reached the disk sees exactly the records that were completely appended, unchanged and in order, and never a partial one.",
 ["crash_points","histories"],"every byte position at which the appending can be interrupted, for any sequence of records",
 "No test appends to a file, and no test interrupts anything.",
 [rd,"include/binary_xml/bin_xml.h"],[("open-ended traversal","XB_reader / XML_Item::getNextChild with partial length")])
p("W01","The writable document behaves like an ordinary tree of elements and attributes",
 "After any sequence of creating, inserting, setting, replacing, detaching and searching operations on a writable document, its elements, their order, attributes and values are exactly those an ordinary tree would have; each operation changes only what it names.",
 ["histories","programs"],"all sequences of the public editing operations, with any names, types and values, including replacing values by longer and shorter ones",
 "The tests build one small fixed document; sibling-ring and in-place update errors need particular edit orders.",
 [wp,"include/binary_xml/bin_write_plugin.h"],[("sibling ring","BW_element::add/join/remove/replace"),("attributes","BW_element::attr*/findAttr/set"),("plugin","BW_plugin::registerTag/registerAttr")])
p("W02","A stored writable document is complete whenever it is opened again",
 "Everything written to a file-backed writable document before its owner closes it or is killed is there when the file is opened again, with the same name dictionary and numbering, and reopening with a contradictory dictionary is refused without damage.",
 ["histories","crash_points"],"all edit histories split over any number of sessions, ended by closing or by killing the process between any two operations",
 "The tests read one stored file made long ago and never reopen for writing or interrupt a session.",
 [wp],[("mapping","BW_plugin::Initialize/Open"),("dictionary","BW_symbol_table / BW_pool")])
p("W03","Growing a writable document keeps contents and stops cleanly at its limit",
 "However much is stored, growth of the backing file leaves all earlier elements intact and reachable, no allocation overlaps another or leaves the pool, and when the configured limit is reached or the system refuses to enlarge the file, operations fail with a reported error, the document staying intact.",
 ["histories","configurations"],"all pool limits and all amounts and sizes of allocations, including those that just fit and just do not fit",
 "The test document fits in the first few kilobytes of the pool, so growth and the limit never happen.",
 [wp],[("allocation","BW_pool::allocate/makeSpace")])
p("W04","Converting a writable document to a binary file keeps every element and value",
 "Converting any writable document to a read-only binary file yields the same tree: every element, attribute and value, of every supported type, with exact values and order. A conversion reported as successful gives a file the reader opens, also for the deepest nesting; what is nested deeper than readers go is refused without a result.",
 ["inputs","histories"],"all writable documents over all value types and their extreme values",
 "The single test of this path uses one document with few types.",
 [wp,cr,pk],[("source plugin","BW_plugin::ForAllChildren/ForAllParams/getNodeValue"),("event storing","XStore*Event in Bin_xml_creator")])
p("W05","Exporting a writable document as XML gives a complete well-formed document",
 "Exporting any writable document as XML gives well-formed XML that contains every element, attribute and value with its exact text, special characters escaped.",
 ["inputs","histories"],"all writable documents, with values containing markup characters and of every type",
 "The test exports a stored document without markup characters or unusual types.",
 [wp],[("XML export","BW_element_link/XBWtoXML printing")])
p("W06","Clearing a writable document empties it and keeps its names",
 "After clearing, a writable document has no elements but the same name dictionary with the same numbers, and can be filled again and again as if new, without the storage growing from one round to the next.",
 ["histories"],"all fill/clear/fill histories",
 "No test clears a document.",
 [wp],[("clear","BW_plugin::Clear")])
p("W07","Copying content from a binary file into a writable document is exact",
 "Copying elements from a binary file into a writable document copies the whole subtree with every attribute, value and type; copying along a path creates only what is missing, and comparison of keys matches only elements with equal keys.",
 ["inputs","histories"],"all source documents and selections, and all states of the target",
 "Copying between the two representations has no test.",
 [wp],[("copy","BW_element::CopyAll/CopyPath/EqualKeys")])
p("W08","Converting a document to writable form keeps every element and value",
 "For every XML or JSON document (and every other source of typed values), converting it to a writable document gives one in which every element, attribute and value of the source is present, in order, under its name and with a value that says the same, in the documented memory layout; when a source cannot be converted completely (malformed, too large) the conversion reports failure and leaves no document with a root.",
 ["inputs","configurations"],"all accepted source documents: values whose types differ from the common type of their name, empty values, many elements, long values, many names, typed binary sources",
 "The tests convert two fixed files, compare nothing with the source, and one of them fails.",
 [cr,wp,"src/tests/2xbw.cpp"],[("conversion","Bin_xml_creator::Make_xbw/XStore2XBWEvent"),("space","BW_pool::new_element, BW_plugin::makeSpace")])
p("W09","Names may be registered again and their types change only as declared",
 "Registering an existing name again (by name or by importing the names of a binary file) returns the number it already has and its type becomes the narrowest one holding both; changing the type of a number succeeds exactly for the conversions declared lossless and is refused otherwise; neither touches anything else in the document, before or after the tables are closed, and the result survives closing and reopening.",
 ["inputs","histories"],"all histories of registration, alteration, import, edits and reopening over all pairs of types",
 "No test registers a name twice, alters a type or imports names.",
 [wp,ty],[("registration","BW_plugin::registerTag/registerParam/importTags/importParams"),("alteration","BW_plugin::alterTag/alterAttr, XBT_ConvertableType, XBT_JoinTypes")])
p("W10","Batches written to an open-ended file appear once, complete and in order",
 "When a document ending in the open element was converted and batches of elements built in the writable document are then written and the document cleared again and again, a reader sees after the original content exactly the elements reported (marked) as written, once, in order, with all content; bytes already in the file never change; a batch that cannot be written completely (full disk, name unknown to the file, no file) is reported as failed with only whole elements in the file; a killed writer loses no acknowledged batch; and the same batch never makes the storage grow.",
 ["histories","fault_sequences","crash_points"],"all sequences of batches, clears, failing writes at any byte, and kills of the writer",
 "The one test writes two fixed batches and never reads them back.",
 [wp,cr,rd],[("batch","BW_plugin::Write/Clear"),("append","Bin_xml_creator::Append"),("open end","XML_Item::getNextChild")])
p("U01","Encodings of binary data as text are exact inverses and reject bad text",
 "Encoding any bytes as base64, hexadecimal or identifier text and decoding gives the same bytes, the output agrees with the published encodings, and text outside the encoding is refused or stops the decoding without reading or writing out of bounds.",
 ["inputs"],"all byte strings of all lengths, and all texts incl. mutated encodings",
 "Only one identifier and one hash are tested, and the identifier test fails.",
 [ut,ms],[("base64","Base64 encode/decode"),("hex","Hex2Str / ScanHex"),("GUID","GUID2Str/ScanGUID")])
p("U02","Hashing and sorting helpers are correct for every input",
 "The hash of any data equals the published algorithm's result, and the sorting helpers return the same items in non-decreasing order, the merging one keeping equal items in their original order.",
 ["inputs"],"all data lengths and chunkings, all arrays incl. many duplicates, sorted, reversed and adversarial ones",
 "Sorting is exercised only indirectly on small symbol lists and hashing not at all.",
 [ms,ut],[("sort","mergesort_r2/qsort_r2"),("hash","SHA-1")])
p("U03","Text scanners read exactly the number they are shown",
 "Each scanner of numbers, addresses, versions and wildcards accepts exactly the texts of its grammar, returns the value the text denotes, consumes exactly the characters it used, never reads past the end of the text, and refuses out-of-range values instead of wrapping.",
 ["inputs"],"all short texts over the relevant alphabet plus boundary values",
 "The scanners are only reached through one example value per type.",
 [ut],[("scanners","ScanInt/ScanUInt64/ScanIPv4/…"),("wildcards","AdvEqual")])
p("U04","Output file names are derived from the input name and nothing else changes",
 "The name of a result file is the source's name with only its extension exchanged, whatever directories, dots or missing extensions it has, and converting never alters or truncates the source file or the caller's data.",
 ["inputs","configurations"],"all path shapes: dots in directories, several dots, no extension, leading dots, long names",
 "Tests use plain names in the current directory.",
 [ms,fl,rd,"src/tests/2xb.cpp"],[("naming","AllocFilenameChangeExt"),("automatic conversion","XB_reader::Initialize")])
p("U05","File helpers report exactly what is on disk and never half of it",
 "Reading, writing, measuring, mapping, listing and creating through the file helpers gives exactly what the file system holds: whole contents or failure, exact sizes and times, every directory entry exactly once, every directory of a path; failures of the system are reported, and no descriptor, mapping or memory is lost on any path.",
 ["inputs","fault_sequences"],"all file sizes, names and kinds (missing, directory, link, file in the way, name too long), buffers of any size, early stops, and failure of each underlying call",
 "The helpers are used by the tests only on ordinary existing files.",
 [ut,fl,ms],[("files","ReadFile, WriteToFile, ShareFileRO/RW, CloseSharedFile, FileGetSize, file_get_contents"),("directories","force_directory, scan_dir"),("hash of file","file_getsha1")])
p("X01","Threads working on different documents do not disturb each other",
 "Any number of threads of one process may read documents - also the same file, each through a reader of its own - write and convert documents, edit documents, take values apart and use the helpers at the same time: there is no data race between them, and every thread gets exactly the result it gets when it works alone. Excepted are functions which return an internal static buffer, opening and closing of editable documents (one at a time), more than one XML source at once, and the process-wide log of failures.",
 ["schedules","inputs"],"all numbers of threads, mixtures of work, documents and interleavings, including the first use of everything in a process",
 "All tests work in one thread of one process; state shared between calls (scratch buffers, lazily prepared tables, the current instance) is invisible to them.",
 [rd,cr,pk,wp,jp,ty,ut,fl,ms],[("state of conversion","Bin_xml_creator, Bin_xml_packer, Bin_src_plugin::ForAllChildren callbacks with userdata"),("instances of editable documents","BW_plugin registry, XBW pool"),("scratch","XBT_ToStringChunk, XBT_FromString, base64/hex tables, AllocFilenameChangeExt")])
p("X02","What work takes from the system it gives back",
 "When documents were read, written, converted, edited, copied, parsed or printed, and the objects used for it were finished and destroyed, no memory, no open file and no mapping of a file is left behind - whether the work succeeded, was refused (malformed source, damaged file, contradictory dictionary, missing file) or failed half way (disk full, no place for the result) - so a process may do it any number of times.",
 ["inputs","histories","fault_sequences"],"all documents, kinds of work and ways in which they can fail, repeated any number of times",
 "Each test is a process of its own which ends after one piece of work; what it leaves behind is cleaned by the system.",
 [rd,cr,pk,wp,jp,ty,ut,fl,ms],[("readers","XB_reader::Initialize, Finalize"),("creators","Bin_xml_creator::~Bin_xml_creator, DoAll, Bin_xml_packer::Convert"),("sources","Bin_json_plugin, Bin_xml_plugin, BW_plugin: constructors, Initialize, destructors"),("files","ShareFileRO, file_get_contents, scan_dir, AllocFilenameChangeExt")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
