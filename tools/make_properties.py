"""Writes /verif/properties.jsonl (kept as a script so that it stays valid JSON)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Image samples equal the stored bytes, however storage delivers them",
 "For every well-formed PDS3 product, each image or cube object comes back as an array whose shape and sample values are exactly those stored at the location and in the layout its label describes (sample type and byte order, band arrangement, line prefixes and suffixes, cube side planes, attached or detached label, one file or several). This is so whether the same bytes lie in a plain file or in a gzip, bzip2 or zip compressed one, and however the storage hands them over: short reads, interrupted system calls that are retried, and buffers and reads of any size.",
 ["inputs", "fault_sequences", "configurations"],
 "all well-formed image and cube products (layouts, sample types, positions, containers), all sequences of legal partial deliveries by the storage",
 "The tests read one or two fixed layouts from one plain file written in the same process; the layouts, positions, containers and delivery patterns are unbounded and none of the compressed or partial-delivery paths is exercised.",
 ["pdr/loaders/image.py", "pdr/np_utils.py", "pdr/utils.py", "pdr/loaders/queries.py", "pdr/datatypes.py"],
 [("locating the object", "pdr/loaders/queries.py: data_start_byte"),
  ("reading and reshaping samples", "pdr/loaders/image.py: read_image"),
  ("reading through a (de)compressed stream", "pdr/np_utils.py: np_from_buffered_io; pdr/utils.py: decompress")],
 observe=["pdr.read(path)['IMAGE']", "pdr.read(path)['QUBE']"])

prop("C02", "Table rows and columns equal the stored records",
 "For every well-formed PDS3 product, each table, series, spectrum, spreadsheet or histogram object comes back with exactly the stored number of rows, its described columns (names, order, repeated items and containers expanded, bit fields split out) and exactly the stored values, scaled once where the column states a scaling factor or offset. This is so for binary, fixed-width text and delimited text tables, with or without row prefixes and suffixes or an external format file, in a plain or compressed file, and however the storage delivers the bytes.",
 ["inputs", "fault_sequences", "configurations"],
 "all well-formed table products (column types, paddings, repetitions, row counts, positions, containers) and all sequences of legal partial deliveries",
 "The tests read a couple of small fixed tables from a plain file; positions, paddings, repetition structures, compression and partial deliveries are unbounded.",
 ["pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/pd_utils.py", "pdr/np_utils.py", "pdr/bit_handling.py", "pdr/loaders/_helpers.py"],
 [("format definition and offsets", "pdr/loaders/queries.py: parse_table_structure; pdr/pd_utils.py: compute_offsets"),
  ("position of text tables", "pdr/loaders/queries.py: table_position"),
  ("reading rows", "pdr/loaders/table.py: read_table")],
 observe=["pdr.read(path)['TABLE']"])

prop("C03", "Text, header and array objects equal the stored content",
 "For every well-formed PDS3 product, each text or description object, each header object and each one- or multi-dimensional array object comes back with exactly the stored content (text with line endings unified, headers limited to the range their label states, arrays in the stated type and shape). This is so in plain or compressed files and however the storage delivers the bytes.",
 ["inputs", "fault_sequences", "configurations"],
 "all well-formed text, header and array objects, positions and containers, and all sequences of legal partial deliveries",
 "No test loads an array or text object at all, and the header tests use one plain file; positions, line endings, compression and partial deliveries are unbounded.",
 ["pdr/loaders/text.py", "pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/utils.py"],
 [("reading text and headers", "pdr/loaders/text.py: read_text, read_header"),
  ("reading arrays", "pdr/loaders/table.py: read_array")],
 observe=["pdr.read(path)['TEXT']", "pdr.read(path)['HEADER']", "pdr.read(path)['ARRAY']"])

prop("C04", "A label is cut from its file exactly, wherever its end falls",
 "When a label is attached in front of the data it describes, the metadata and the label text that a product exposes are exactly those of the label: every statement up to its end marker and none of the data bytes behind it, whatever the label's length, the position of its end marker relative to the pieces in which the file is read, its line endings, its padding and the data that follow. When the label has been cut short, opening the product ends with either an error or a product all of whose statements before the cut, the last one and those of a block the cut leaves open aside, read as written; it never hangs.",
 ["inputs", "crash_points", "fault_sequences"],
 "all label lengths and end positions, all following data, all truncation points of the label file and all partial deliveries",
 "Tests parse a few short fixed labels whose end lies in the first piece read; the end position relative to the read pieces, the following data and the cut position are unbounded.",
 ["pdr/parselabel/utils.py", "pdr/parselabel/pds3.py", "pdr/loaders/text.py", "pdr/pdr.py"],
 [("scanning for the end of a label", "pdr/parselabel/utils.py: trim_label"),
  ("parsing statements", "pdr/parselabel/pds3.py: read_pvl"),
  ("label text object", "pdr/loaders/text.py: read_label")],
 observe=["pdr.read(path).metadata", "pdr.read(path)['LABEL']"])

prop("C05", "PDS4 products yield exactly the stored arrays and records",
 "For every well-formed product with a PDS4 label, opening it lists every array, table and header the label describes, and each array and table comes back with exactly the stored shape, field names, row count and values, whichever data type, byte order, number of axes, field layout or record delimiter the label states. This is so in whichever order and however often the objects are asked for, and however the storage delivers the bytes.",
 ["inputs", "histories", "fault_sequences"],
 "all well-formed PDS4 labels over array, binary-table, character-table and delimited-table objects, all access orders, all legal partial deliveries",
 "The only PDS4 test parses label metadata; no stored PDS4 array or table is ever read, and the access orders and layouts are unbounded.",
 ["pdr/pdr.py", "pdr/parselabel/pds4.py", "pdr/pd_utils.py", "pdr/pds4_tools/reader/core.py", "pdr/pds4_tools/reader/read_tables.py", "pdr/pds4_tools/reader/read_arrays.py", "pdr/pds4_tools/reader/general_objects.py"],
 [("indexing structures", "pdr/pdr.py: Data._init_pds4"),
  ("loading a structure", "pdr/pdr.py: Data._load_pds4"),
  ("lazy reading", "pdr/pds4_tools/reader/general_objects.py, read_arrays.py, read_tables.py")],
 observe=["pdr.read('x.xml')[name]"])

prop("C06", "FITS and desktop image products yield exactly the stored content",
 "A FITS file opened directly, or through a label pointing into it, yields for every one of its header-data units the stored array or table and the stored header cards; a desktop image file (such as PNG, TIFF, BMP or GIF) opened directly or through a label yields exactly the pixels the file encodes, channels first, for each of its frames. This is so in whichever order and however often the objects are asked for, for units with repeated names, in gzip-compressed FITS files, and however the storage delivers the bytes.",
 ["inputs", "histories", "fault_sequences"],
 "all FITS files of image and table units and all losslessly encoded desktop images, all access orders, all legal partial deliveries",
 "Tests open one stub FITS file and a few tiny images once each; unit arrangements, labels pointing at byte positions, compression and access orders are unbounded.",
 ["pdr/loaders/handlers.py", "pdr/pdr.py", "pdr/pil_utils.py", "pdr/loaders/queries.py", "pdr/loaders/dispatch.py"],
 [("unit lookup by name or byte position", "pdr/loaders/handlers.py: handle_fits_file, hdu_byte_index"),
  ("desktop images", "pdr/loaders/handlers.py: handle_compressed_image")],
 observe=["pdr.read('x.fits')['PRIMARY']", "pdr.read('x.png')['IMAGE']"])

prop("C07", "A failed or torn read never passes for good data",
 "If, while an object is loaded, the storage fails or its file turns out shorter than its label says, at any point, the caller either gets a reported failure (an exception, or a warning together with the label's description in place of the object) or gets the exact object. Never is an array of wrong shape or values, or text cut short, delivered as if it had loaded; a table may only be shorter by whole trailing records, those it has being exact (where only the end of the file ends the content - text objects, delimited records, free-format numbers - what stands before that end counts as the content).",
 ["fault_sequences", "crash_points", "inputs"],
 "every position of every injected storage fault (failed open, read, seek or stat, vanished file, early end of file, failed allocation) and every truncation length, over all object kinds",
 "Tests never make storage fail; the fault positions and truncation lengths are unbounded.",
 ["pdr/pdr.py", "pdr/loaders/image.py", "pdr/loaders/table.py", "pdr/loaders/text.py", "pdr/loaders/handlers.py", "pdr/np_utils.py", "pdr/utils.py"],
 [("failure reporting", "pdr/pdr.py: Data.load"),
  ("short data detection", "pdr/loaders/image.py: reshaping; pdr/np_utils.py: np_from_buffered_io")],
 observe=["pdr.read(path)[name]", "emitted warnings"])

prop("C08", "One object's failure stays its own and heals when the fault is gone",
 "When storage faults make one object of a label-described product fail to load, every other object still loads exactly, loading everything at once still completes, and the product's list of objects is unchanged. Once faults stop, asking for a reload of the failed object, or opening the product again, delivers the exact object on the first attempt.",
 ["fault_sequences", "histories"],
 "all interleavings of object accesses with storage faults on any subset of the accesses, followed by a fault-free phase",
 "Tests neither inject faults nor retry; which accesses fail and in which order is unbounded.",
 ["pdr/pdr.py", "pdr/loaders/datawrap.py"],
 [("per-object error handling", "pdr/pdr.py: Data.load, Data.load_all"),
  ("located-file cache", "pdr/pdr.py: Data._target_path")],
 state=[("loaded objects", "attributes set on the product after loading"), ("located files", "path remembered per object")],
 observe=["pdr.read(path)", "Data.load(name, reload=True)", "Data.load('all')"])

prop("C09", "What an object holds does not depend on when or how it was asked for",
 "Objects of one product may be asked for in any order, by item, by attribute, by explicit load or all at once, repeatedly, with reloads and metadata queries in between, and each always has the same value as when it alone is loaded from a freshly opened product; metadata queries answer as on a freshly opened product. Throughout, the list of objects keeps naming every object exactly once, the list of unloaded objects is exactly those not yet loaded, an unknown name is refused with a key error, and a second explicit load without reload is refused and changes nothing.",
 ["histories", "inputs"],
 "all finite sequences of accesses, loads, reloads and metadata queries over all products",
 "Tests perform one access on one product; sequences of operations are unbounded.",
 ["pdr/pdr.py", "pdr/loaders/datawrap.py", "pdr/loaders/queries.py", "pdr/func.py"],
 [("lazy loading and bookkeeping", "pdr/pdr.py: Data.load, __getitem__, __getattribute__, unloaded, keys"),
  ("memoized metadata queries", "pdr/pdr.py: Metadata.metaget, metablock")],
 state=[("object list", "names of identified objects"), ("loaded objects", "objects present on the product")],
 observe=["Data.keys()", "Data.unloaded()", "Data[name]", "Data.name"])

prop("C10", "An interrupted load propagates, changes nothing, and can be retried",
 "If the user's interrupt arrives at any moment while an object is being loaded, the interrupt reaches the caller unchanged and is not turned into a warning or another error. Afterwards the object is either as it was before the call (not loaded, or its previous value) or completely loaded, every other object is untouched, no file stays open on its account, and loading it again delivers the exact object.",
 ["crash_points", "schedules", "inputs"],
 "every instant (each storage step and each executed line of the library) of every load of every kind of object",
 "Tests never interrupt a load; the instants are unbounded.",
 ["pdr/pdr.py", "pdr/loaders/datawrap.py", "pdr/loaders/image.py", "pdr/loaders/table.py", "pdr/loaders/text.py"],
 [("interrupt passes through error handling", "pdr/pdr.py: Data.load"),
  ("assignment as the last step", "pdr/pdr.py: Data._add_loaded_objects")],
 observe=["Data.load(name)", "Data[name]", "Data.unloaded()"])

prop("C11", "Reading never modifies or creates files",
 "Opening a product, querying its metadata, loading, reloading and scaling its objects and showing them leaves every file and directory as it was: no product file is ever opened for writing, truncated, renamed, removed, or given other contents, and no new file appears anywhere. Writing browse products creates or replaces only files whose names start with the requested output name, in the requested directory, even when reading or writing fails half way.",
 ["histories", "fault_sequences", "inputs"],
 "all operation sequences on all products, with and without storage faults",
 "Tests do not look at which files are opened how, and cover no failing operation; the sequences are unbounded.",
 ["pdr/pdr.py", "pdr/utils.py", "pdr/browsify.py", "pdr/loaders/handlers.py", "pdr/pds4_tools/reader/read_arrays.py"],
 [("opening files", "pdr/utils.py: decompress, head_file"),
  ("mapped PDS4 and FITS data", "pdr/pds4_tools/reader/read_arrays.py, astropy via pdr/loaders/handlers.py"),
  ("browse output naming", "pdr/pdr.py: Data.dump_browse")],
 observe=["every open and mutating call reaching the operating system", "directory contents before and after"])

prop("C12", "Files are found by name alone, not by directory order or luck",
 "The file used for a label or data object is looked for in the directory of the file the product was opened by and then in the given search directories, in that order; in each of them it is the exactly named file if that exists, otherwise the file of the same name up to letter case and a compression suffix. Which file is used depends only on the set of files present, not on the order in which the operating system lists a directory, nor on hash seeds or earlier reads; and a file that is missing, or vanishes while being looked for, is reported as a failure and never replaced by an unrelated file.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "all sets of file names in the searched directories, all listing orders, all instants at which a candidate file appears or vanishes",
 "Tests use one exactly-named file per product; listing orders, name variants and races with other processes are unbounded.",
 ["pdr/utils.py", "pdr/pdr.py", "pdr/loaders/queries.py"],
 [("case-insensitive lookup", "pdr/utils.py: check_cases, stem_path"),
  ("label association", "pdr/utils.py: associate_label_file"),
  ("data file search", "pdr/pdr.py: Data._target_path, get_absolute_paths"),
  ("format file search", "pdr/loaders/queries.py: load_format_file")],
 observe=["pdr.read(path).filename, .labelname, .file_mapping", "the loaded data"])

prop("C13", "Scaling, showing and dumping leave the stored objects unchanged",
 "Asking for a scaled copy of an array returns stored value times scaling factor plus offset, with the label's special constants and invalid values masked, and returns the same again however often it is asked for and whatever else was shown or dumped in between. None of scaling a copy, showing, or dumping browse images without purging changes any loaded object or metadata; scaling in place yields the same values as scaling a copy.",
 ["histories", "inputs"],
 "all sequences of scaling, showing and dumping over all image products, scaling parameters, special constants and dump options",
 "Tests scale one array once; sequences of derived-product operations are unbounded.",
 ["pdr/pdr.py", "pdr/_scaling.py", "pdr/browsify.py"],
 [("scaling and masking", "pdr/pdr.py: Data.get_scaled; pdr/_scaling.py"),
  ("rendering", "pdr/browsify.py; pdr/pdr.py: Data.show, Data.dump_browse")],
 state=[("loaded arrays", "must keep their values"), ("special constants", "remembered per object")],
 observe=["Data.get_scaled(name)", "Data[name] before and after"])

prop("C14", "A browse dump that returns has written complete, correct files",
 "When dumping browse products returns normally, every loaded object that has a browse form has a complete output file that decodes to that object (tables and one-dimensional arrays to equal values, text and metadata to equal text, images to an image of equal shape). If writing fails at any point (full disk, I/O error, failed open, failed close), the failure reaches the caller, and no object that was not completely written has been purged.",
 ["fault_sequences", "crash_points", "inputs"],
 "every write, flush, open and close of every output file as the failure point, over all object kinds and dump options",
 "Tests check that output files exist after successful dumps; no write ever fails in them.",
 ["pdr/pdr.py", "pdr/browsify.py"],
 [("dump and purge", "pdr/pdr.py: Data.dump_browse"),
  ("writers", "pdr/browsify.py: browsify, _browsify_recarray, _render_array")],
 observe=["Data.dump_browse(prefix, outpath, purge=...)", "the written files", "Data.unloaded()"])

prop("C15", "Threads reading products do not disturb one another",
 "When several threads at once open and read products, whether different products, the same files, or different objects of one shared product, every thread gets exactly what it would have got alone, for every interleaving of their steps. When threads ask one shared product for the same object at the same time, each gets that object's exact value and none gets an error (an explicit load() of an object that has been loaded meanwhile is refused as usual).",
 ["schedules", "inputs"],
 "all interleavings, at the granularity of storage operations and executed lines of the library, of two to four threads' access sequences",
 "All tests are single-threaded.",
 ["pdr/pdr.py", "pdr/func.py", "pdr/loaders/datawrap.py", "pdr/loaders/queries.py", "pdr/parselabel/pds3.py"],
 [("lazy loading into shared product", "pdr/pdr.py: Data.load, __getitem__, __getattribute__"),
  ("module-level shared state", "pdr/func.py: specialize; loaders and queries tables")],
 state=[("module-level caches and tables", "shared by all products"), ("product attributes", "shared by threads using one product")],
 observe=["values returned to each thread"])

prop("C16", "No file stays open after the work that needed it is done",
 "After a load of any object of a label-described PDS3 product has returned or failed, at whichever storage step it failed, no file handle or mapping it opened remains (the mapping of which a FITS array it delivered consists aside). After a product of any kind, the objects taken from it and the exceptions it raised are no longer referenced, nothing of its files remains open, however many of its operations failed.",
 ["fault_sequences", "histories", "inputs"],
 "all operation sequences and all fault positions, over all kinds of products",
 "Tests neither count open files nor exercise failing loads.",
 ["pdr/utils.py", "pdr/loaders/image.py", "pdr/loaders/table.py", "pdr/loaders/text.py", "pdr/parselabel/utils.py", "pdr/pil_utils.py", "pdr/pdr.py"],
 [("closing on every path", "pdr/loaders/image.py: read_image; pdr/utils.py: head_file; pdr/parselabel/utils.py: trim_label"),
  ("kept FITS handle", "pdr/pdr.py: Data.__init__")],
 observe=["open file descriptors and mappings of the process under the product's directory"])

prop("C17", "Equal files give equal results in every process and after any history",
 "Reading the same files gives the same objects, metadata and listing whatever the hash seed, working directory, current time, random state, and directory listing order of the process, and whatever other products the process has read before, successfully or not. In particular, opening a product again after its files were replaced reflects the new files completely, never a mixture with remembered earlier contents.",
 ["configurations", "histories", "inputs"],
 "all process environments and all prior histories of reads, file replacements and failures in the process",
 "Tests run each product once in one process environment; environments and histories are unbounded.",
 ["pdr/pdr.py", "pdr/func.py", "pdr/utils.py", "pdr/parselabel/pds3.py", "pdr/loaders/queries.py", "pdr/formats/checkers.py"],
 [("set- and hash-ordered processing", "pdr/func.py: sig_union, softquery; pdr/pdr.py: Data._check_compressed_file_pointer"),
  ("memoization", "pdr/pdr.py: Metadata.refresh_cache")],
 observe=["digest of all objects, metadata and listings"])

prop("C18", "Debug mode and load tracking only observe",
 "Opening a product with debugging and load tracking on yields exactly the same objects, listing and metadata as without, for every sequence of loads, at whatever times and clock jumps they happen. Where an object fails to load, debugging reports the failure (by exception or warning) and still leaves the other objects loadable and exact; and every tracked load leaves a well-formed log entry naming the object in the tracker's output directory and nowhere else.",
 ["histories", "fault_sequences", "configurations"],
 "all products and load sequences, with and without storage faults, under any sequence of clock values",
 "Only one debug load of one product is tested; sequences, faults and clock behaviour are unbounded.",
 ["pdr/pdr.py", "pdr/loaders/datawrap.py", "pdr/func.py"],
 [("debug wrapping of loaders", "pdr/pdr.py: Data.load_from_pointer"),
  ("tracking around queries and loads", "pdr/loaders/datawrap.py: Loader.__call__")],
 observe=["Data[name] with debug on and off", "tracker output files"])

# ---- properties this technique cannot address -------------------------------
prop("C19", "Label values are interpreted according to their written form",
 "Each value in a PDS3 label, whatever its nesting, is turned into the number, text, sequence, set or quantity that its written form denotes.",
 ["inputs"], "all label values", "Tests parse a handful of values; the space of values is unbounded.",
 ["pdr/parselabel/pds3.py"], [("literalization", "pdr/parselabel/pds3.py: literalize_pvl")])
prop("C20", "Foreign numeric encodings convert to the numbers they denote",
 "Every IBM and VAX floating-point bit pattern and every bit field extracted from a bit string is converted to the number that encoding denotes.",
 ["inputs"], "all bit patterns", "Tests convert a few patterns.",
 ["pdr/np_utils.py", "pdr/pd_utils.py", "pdr/bit_handling.py"],
 [("conversions", "pdr/np_utils.py: ibm_to_np; pdr/bit_handling.py: expand_bit_strings")])
prop("C21", "Browse images are the stated normalisation of their arrays",
 "Every pixel of a browse image is the stated clipping and eight-bit normalisation of the corresponding array element, and masked elements have the stated colour.",
 ["inputs"], "all arrays and dump options", "Tests normalise a few arrays.",
 ["pdr/browsify.py"], [("normalisation", "pdr/browsify.py: normalize_range, eightbit, colorfill_maskedarray")])
prop("C22", "Mission special cases apply to the products they name and to no others",
 "Every mission- or instrument-specific correction is applied to all products it was written for and leaves every other product's interpretation unchanged.",
 ["inputs"], "all products of all supported data sets", "The special cases have no tests and the archived products are not available here.",
 ["pdr/formats/checkers.py", "pdr/formats"], [("special case dispatch", "pdr/formats/checkers.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
