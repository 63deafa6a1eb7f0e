From bc6b87e60ebaed30aff152175ded3f944b979e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 01/42] fix: read the right number of bytes from zip-compressed
 arrays

np_from_buffered_io checked for ZipFile instead of the ZipExtFile that
decompress() returns, so np.fromfile was pointed at the file descriptor of
the archive and read compressed bytes as values.
---
 pdr/np_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..4d79aed 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile
 
 import numpy as np
 
@@ -79,7 +79,7 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
         n_bytes = None if count is None else count * dtype.itemsize
-- 
2.43.0


From 2ae35c905753a3842d876f8af12be75ed1d7281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 02/42] fix: accept dtype strings in np_from_buffered_io

Reading a compressed ARRAY of primitive elements failed because a dtype
string has no itemsize.
---
 pdr/np_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 4d79aed..88ac33a 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -77,6 +77,7 @@ def np_from_buffered_io(
     Read a 1D numpy array of the specified dtype, size, and offset from a
     buffered IO object.
     """
+    dtype = np.dtype(dtype)
     if offset is not None:
         buffered_io.seek(offset)
     if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
-- 
2.43.0


From fef6ccfa2e40b3bfe053a0dd34db2f4790ad8db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 03/42] fix: use the declared item size of 4- and 8-byte
 integer QUBEs

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..8ccf9d5 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From 3969066c30ea457d3701ca8ae79566b59f5d1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 04/42] fix: do not lose row padding when the last column of a
 table has ITEMS

compute_offsets added the width of all items to the offset of the last one,
so spare bytes and row suffixes after it were computed too small.
---
 pdr/pd_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..39b6bd5 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -135,7 +135,13 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             position += gl
         fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
     pad_length = 0
-    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    last_field = fmtdef.iloc[-1]
+    # SB_OFFSET of a repeated item is the offset of that item alone, but BYTES
+    # is the width of the entire column
+    last_width = last_field.get("ITEM_BYTES")
+    if pd.isna(last_width):
+        last_width = last_field["BYTES"]
+    end_byte = last_field["SB_OFFSET"] + int(last_width)
     if "ROW_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
-- 
2.43.0


From 5dc4a06ec49f1c1948146d363edd7cfcfc41a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 05/42] fix: decompress compressed TEXT objects, and close them

---
 pdr/loaders/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 58cd558..10e94f3 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -135,5 +135,5 @@ def ignore_if_pdf(fn: Union[str, Path]) -> Optional[str]:
     if looks_like_this_kind_of_file(fn, [".pdf"]):
         warnings.warn(f"Cannot open {fn}; PDF files are not supported.")
         return
-    # TODO: should use a context manager to avoid dangling file handles
-    return open(check_cases(fn)).read()
+    with TextIOWrapper(decompress(check_cases(fn))) as stream:
+        return stream.read()
-- 
2.43.0


From 123260547e7659449428a1a9a6df98d6ecac66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 06/42] fix: read ASCII ARRAYs from compressed files, from
 their offset, with exponents

---
 pdr/loaders/table.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..56e0f28 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -50,10 +50,16 @@ def read_array(fn, block, start_byte, fmtdef_dt):
             )
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
-    with open(fn) as stream:
-        text = stream.read()
+    with decompress(fn) as stream:
+        stream.seek(start_byte or 0)
+        text = stream.read().decode("UTF-8")
     try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
+        text = tuple(
+            map(
+                float,
+                re.findall(r"[+-]?\d+\.?\d*(?:[eE][+-]?\d+)?", text)
+            )
+        )
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-- 
2.43.0


From 3592201549ba15a2cc25a81d8ed940017dde17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 07/42] fix: find label endings across read boundaries, and
 before NUL padding

_scan_to_end_of_label searched each 50 KiB chunk alone, so an END statement
split between two chunks was missed; and preferred a run of NULs anywhere in
the chunk over an earlier 'END' line terminated by a newline only.
---
 pdr/parselabel/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..3c6441f 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -6,15 +6,18 @@ from typing import Union, IO
 
 
 KNOWN_LABEL_ENDINGS = (
-    re.compile(b"\nEND {0,8}(\r| {8})"),  # common PVL convention
+    # common PVL convention / mostly for Chang'e labels
+    re.compile(b"\nEND( {0,8}(\r| {8})|\n)"),
     re.compile(b"\x00{3}"),  # just null bytes, for odder cases
-    b"\nEND\n",  # mostly for Chang'e labels
 )
 """
 Fast regex patterns for generic PVL label endings. They work for almost all PVL 
 labels in the PDS.
 """
 
+MAX_LABEL_ENDING_LENGTH = 20
+"""length of the longest byte string matched by any of the above"""
+
 DEFAULT_PVL_LIMIT = 1000 * 1024
 """heuristic for max label size. we know it's not a real rule."""
 
@@ -31,10 +34,12 @@ def _scan_to_end_of_label(
     while length < max_size:
         if (chunk := buf.read(50 * 1024)) == b'':
             break
-        for ending in KNOWN_LABEL_ENDINGS:
-            if (endmatch := re.search(ending, chunk)) is not None:
-                return text + chunk[: endmatch.span()[1]]
+        # an ending may begin in what we have already read
+        start = max(len(text) - MAX_LABEL_ENDING_LENGTH, 0)
         text, length = text + chunk, length + 50 * 1024
+        for ending in KNOWN_LABEL_ENDINGS:
+            if (endmatch := ending.search(text, start)) is not None:
+                return text[: endmatch.end()]
     if raise_no_ending is True:
         raise InvalidAttachedLabel("Couldn't find a label ending.")
     return text
-- 
2.43.0


From f67a3c4729f70e8322ce70ae91aa09eda4ad1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 08/42] fix: size BIL images with line prefixes or suffixes
 correctly

Line pre/suffixes are stripped once per line, but were counted once per band,
so such images could be read only when they ended at the end of their file.
---
 pdr/loaders/queries.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 8ccf9d5..5037aa3 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -191,8 +191,12 @@ def get_image_properties(gen_props: ImageProps) -> ImageProps:
     check_fix_validity(props)
     props["pixels"] = (
         (props["nrows"] + props["rowpad"])
-        * (props["ncols"] + props["colpad"] + props["linepad"])
-        * (props["nbands"] + props["bandpad"])
+        * (
+            (props["ncols"] + props["colpad"])
+            * (props["nbands"] + props["bandpad"])
+            # line pre/suffixes appear once per line, not once per band
+            + props["linepad"]
+        )
     )
     return props
 
-- 
2.43.0


From 2071485133062eabfe45a724bd5258b502171f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 09/42] fix: reload the headers that were loaded along with
 other objects

---
 pdr/pdr.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..a8cd842 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -273,6 +273,9 @@ class Data:
         # data structure recording interleaved PDS3 objects not defined at top
         # level, intended for things like axplanes and line prefix tables
         self._interleaved_objects = {}
+        # names of objects not defined in the label but loaded along with
+        # another object (such as FITS headers), and the name of that object
+        self._companions = {}
         # Attempt to identify and assign a label file
         self.labelname = associate_label_file(
             self.filename, label_fn, skip_existence_check
@@ -550,10 +553,13 @@ class Data:
                 f"{name} is already loaded; pass reload=True to "
                 f"force reload."
             )
+        if name in self._companions:
+            # loaded along with, and only ever along with, another object
+            return self.load(self._companions[name], True, **load_kwargs)
         if self.standard == "PDS4":
             return self._load_pds4(name)
         if self.standard == "FITS":
-            self._add_loaded_objects(self._load_primary_fits(name))
+            self._add_loaded_objects(self._load_primary_fits(name), name)
             return
         if self.standard in DESKTOP_IMAGE_STANDARDS:
             from pdr.loaders.handlers import handle_compressed_image
@@ -585,7 +591,7 @@ class Data:
                 raise TypeError(
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
-            self._add_loaded_objects(obj)
+            self._add_loaded_objects(obj, name)
             return
         except DebugExceptionPreempted:
             pass
@@ -599,13 +605,20 @@ class Data:
             warnings.warn(f"Unable to load {name}: {ex}")
         setattr(self, name, self.metaget_(name))
 
-    def _add_loaded_objects(self, obj: Mapping[str, Any]):
-        """Helper for `load()`. Ingests objects returned by a `Loader`."""
+    def _add_loaded_objects(
+        self, obj: Mapping[str, Any], name: Optional[str] = None
+    ):
+        """
+        Helper for `load()`. Ingests objects returned by a `Loader`. `name` is
+        the name of the object the `Loader` was asked for.
+        """
         for k, v in obj.items():
             if v is not None:
                 setattr(self, k, v)
                 if k not in self.index:
                     self.index.append(k)
+                    if name is not None:
+                        self._companions[k] = name
 
     def load_all(self):
         """Handler (and alias) for `Data.load("all")`."""
@@ -743,7 +756,7 @@ class Data:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
-            self._add_loaded_objects(result)
+            self._add_loaded_objects(result, object_name)
         elif structure.is_array():
             import numpy as np
 
-- 
2.43.0


From 7666d7e1934942412fb0f737b180b1a8c775d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 10/42] fix: keep the stored header when a scaled FITS HDU is
 loaded again

---
 pdr/pdr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index a8cd842..203afc1 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -657,6 +657,11 @@ class Data:
             self._hdulist,
             hdu_id_is_index=True
         )
+        # when astropy scales an HDU's data, it also rewrites that HDU's
+        # in-memory header to describe the scaled data, so if those data have
+        # been loaded before, only our metadata have the header as stored.
+        if (hname := f"{object_name}_HEADER") in obj:
+            obj[hname] = self.metadata[object_name].copy()
         if obj.__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
         return obj
-- 
2.43.0


From 8ee76bab7f084240930c78b754ce9e65a9ddb0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 11/42] fix: report, not raise, errors met while looking for an
 object's file

---
 pdr/pdr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 203afc1..df6aad7 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -579,7 +579,14 @@ class Data:
             )
             return
         if self.file_mapping.get(name) is None:
-            target = self._target_path(name)
+            try:
+                target = self._target_path(name)
+            except OSError as ex:
+                if self.debug:
+                    raise
+                warnings.warn(f"Unable to look for the file of {name}: {ex}")
+                setattr(self, name, self.metaget_(name))
+                return
             if target is None:
                 return self._file_not_found(name)
             self.file_mapping[name] = target
-- 
2.43.0


From 11a97603e495ce2472c79083bf5b25f15f7580a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 12/42] fix: do not pass off an empty HDU's data as a missing
 FITS header

---
 pdr/pdr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index df6aad7..845a8ca 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -763,6 +763,10 @@ class Data:
                 structure.parent_filename, object_name, offset
             )
             if structure.is_header() is True:
+                if f"{object_name}_HEADER" in result:
+                    raise ValueError(
+                        f"no header starts at byte {offset} of this file"
+                    )
                 return self._add_loaded_objects(result)
             if (hid := self._find_fits_header_pds4_id(offset)) is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
-- 
2.43.0


From 90c8b39b0c622d7dfd742379e42c0d20f4f88563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 13/42] fix: do not deliver HEADER text cut short by the end of
 its file

---
 pdr/loaders/text.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 10e94f3..234353b 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -116,13 +116,17 @@ def skeptically_load_header(
                         break
                     if i >= start:
                         lines.append(line.replace("\n", "\r\n"))
+            if len(lines) < table_props["length"]:
+                raise ValueError(f"{fn} ends before its end")
             text = "".join(lines)
         else:
+            length = min(table_props["length"], 80000)
             with decompress(check_cases(fn)) as file:
                 file.seek(table_props["start"])
-                text = file.read(min(table_props["length"], 80000)).decode(
-                    "ISO-8859-1"
-                )
+                content = file.read(length)
+            if len(content) < length:
+                raise ValueError(f"{fn} ends before its end")
+            text = content.decode("ISO-8859-1")
         return text
     except (ValueError, OSError) as ex:
         warnings.warn(f"unable to parse {name}: {ex}")
-- 
2.43.0


From a926ca0980a561bd50f1b38763b5381cec27e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 14/42] fix: report PDS4 arrays, tables and headers cut short
 by the end of their file

---
 pdr/pds4_tools/reader/read_arrays.py  |  3 +++
 pdr/pds4_tools/reader/read_headers.py |  8 +++++++-
 pdr/pds4_tools/reader/read_tables.py  | 22 ++++++++++++++++++++--
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 4c80e7c..d99fd17 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -74,6 +74,9 @@ def _read_array_byte_data(array_structure, as_string=True, memmap=False):
         raise six.raise_from(IOError("Unable to read data from file '" + data_filename +
                                      "' found in label - {0}".format(e)), None)
 
+    if data.size < num_int8_elements:
+        raise IOError("File '{0}' ends before the array found in label.".format(data_filename))
+
     # Convert to a byte string if requested
     if as_string:
         data = data.tostring()
diff --git a/pdr/pds4_tools/reader/read_headers.py b/pdr/pds4_tools/reader/read_headers.py
index b43576e..b915161 100644
--- a/pdr/pds4_tools/reader/read_headers.py
+++ b/pdr/pds4_tools/reader/read_headers.py
@@ -31,7 +31,13 @@ def _read_header_byte_data(header_structure):
     start_byte = meta_data['offset']
     stop_byte = start_byte + meta_data['object_length']
 
-    return read_byte_data(header_structure.parent_filename, start_byte, stop_byte)
+    byte_data = read_byte_data(header_structure.parent_filename, start_byte, stop_byte)
+
+    if len(byte_data) < meta_data['object_length']:
+        raise IOError("File '{0}' ends before the header found in label.".format(
+                      header_structure.parent_filename))
+
+    return byte_data
 
 
 def new_header(input, **structure_kwargs):
diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 91b5cc4..56632fd 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -601,6 +601,10 @@ def _get_delimited_records_and_start_bytes(records, table_structure, table_manif
                 start_bytes[column_idx][record_idx] = next_start_byte
                 next_start_byte += len(value) + 1
 
+        if len(split_record) < num_columns:
+            raise ValueError("Record {0} has {1} columns, fewer than the {2} found in label.".format(
+                             record_idx + 1, len(split_record), num_columns))
+
         # Add an extra start byte, which actually acts only as the end byte for the last field
         start_bytes[-1][record_idx] = next_start_byte
 
@@ -860,8 +864,18 @@ def read_table_data(table_structure, no_scale, decode_strings, masked):
                             'carriage-return line-feed': b'\r\n'
                            }.get(delimiter_name, None)
 
-        # Split the byte data into records
-        table_byte_data = table_byte_data.split(record_delimiter)[0:num_records]
+        # Split the byte data into records. The last of them may lack its delimiter, but only if nothing
+        # else is lacking.
+        num_bytes = len(table_byte_data)
+        table_byte_data = table_byte_data.split(record_delimiter)
+        num_delimited = len(table_byte_data) - 1
+        table_byte_data = table_byte_data[0:num_records]
+
+        if (num_delimited < num_records) and (
+                (num_delimited < num_records - 1) or (table_byte_data[-1] == b'') or
+                (num_bytes < table_structure.meta_data.get('object_length', 0))):
+            raise IOError("File '{0}' ends before the table found in label.".format(
+                          table_structure.parent_filename))
 
         # Obtain adjusted records (to remove quotes) and start bytes (2D array_like, with first dimension
         # the field number and the second dimension the record number, and the value set to the start byte
@@ -923,6 +937,10 @@ def read_table_data(table_structure, no_scale, decode_strings, masked):
                                             field['location'] - 1, record_length,
                                             array_shape, group_locations, repetition_lengths)
 
+            if len(extracted_data) > 0 and len(extracted_data[-1]) < field['length']:
+                raise IOError("File '{0}' ends before the table found in label.".format(
+                              table_structure.parent_filename))
+
         # Cast the byte data for this field into the appropriate data type
         try:
 
-- 
2.43.0


From a4835b9655e0389c3bdffb6759086857b552968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 15/42] fix: keep the books of loaded objects whole when a load
 is interrupted (C10)

---
 pdr/pdr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 845a8ca..2e90a1d 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -621,11 +621,11 @@ class Data:
         """
         for k, v in obj.items():
             if v is not None:
-                setattr(self, k, v)
                 if k not in self.index:
-                    self.index.append(k)
                     if name is not None:
                         self._companions[k] = name
+                    self.index.append(k)
+                setattr(self, k, v)
 
     def load_all(self):
         """Handler (and alias) for `Data.load("all")`."""
-- 
2.43.0


From ca8110f91332174f099d14de556d223bb1afd715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 16/42] fix: reopen a FITS file after a failed or interrupted
 read of it (C10)

---
 pdr/pdr.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 2e90a1d..20365c8 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -657,13 +657,23 @@ class Data:
         """Handle loading an HDU from a FITS file in "primary" FITS mode."""
         from pdr.loaders.handlers import handle_fits_file
 
-        obj = handle_fits_file(
-            self.filename,
-            object_name,
-            self._hdumap[object_name],
-            self._hdulist,
-            hdu_id_is_index=True
-        )
+        if self._hdulist is None:
+            from astropy.io import fits
+
+            self._hdulist = fits.open(self.filename)
+        try:
+            obj = handle_fits_file(
+                self.filename,
+                object_name,
+                self._hdumap[object_name],
+                self._hdulist,
+                hdu_id_is_index=True
+            )
+        except BaseException:
+            # a decompressor that was stopped half way does not recover, so
+            # start afresh from the file next time.
+            self._hdulist = None
+            raise
         # when astropy scales an HDU's data, it also rewrites that HDU's
         # in-memory header to describe the scaled data, so if those data have
         # been loaded before, only our metadata have the header as stored.
-- 
2.43.0


From 19dc9ed80ac6307868b58ddf8edba74f05c056a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 17/42] fix: choose among off-case files by name, not by
 directory or hash order (C12)

---
 pdr/pdr.py   | 4 ++--
 pdr/utils.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 20365c8..bb7874b 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -485,9 +485,9 @@ class Data:
         mentioned for that object in the label, including those not given as
         top-level pointers.
         """
-        compkeys = {"COMPRESSED_FILE", "UNCOMPRESSED_FILE"}
+        compkeys = ("UNCOMPRESSED_FILE", "COMPRESSED_FILE")
         if (
-            len(compkeys.intersection(self.metadata.keys())) == 2
+            len(set(compkeys).intersection(self.metadata.keys())) == 2
             and object_name in self.metablock_("UNCOMPRESSED_FILE").keys()
         ):
             blocks = filter(None, [self.metaget_(k) for k in compkeys])
diff --git a/pdr/utils.py b/pdr/utils.py
index dd8d10a..2e4a770 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -92,11 +92,14 @@ def check_cases(
             return str(filename)
         if not path.parent.exists():
             continue
-        matches = tuple(
+        # the order in which the filesystem lists files means nothing, so
+        # prefer uncompressed files to compressed ones, then go by name
+        matches = sorted(
             filter(
-                lambda p: stem_path(p) == Path(filename).name.lower(),
+                lambda p: path.name.lower() in (stem_path(p), p.name.lower()),
                 path.parent.iterdir(),
-            )
+            ),
+            key=lambda p: (p.name.lower() != path.name.lower(), p.name)
         )
         if len(matches) == 0:
             continue
-- 
2.43.0


From 4883b7e089d88c53ea197c8a37a4f7765f008254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 18/42] fix: do not take a directory for a file of its name
 (C12)

---
 pdr/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 2e4a770..2a5b86d 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -88,7 +88,7 @@ def check_cases(
         if skip is True:
             return str(filename)
         path = Path(filename)
-        if path.exists():
+        if path.exists() and not path.is_dir():
             return str(filename)
         if not path.parent.exists():
             continue
@@ -96,7 +96,10 @@ def check_cases(
         # prefer uncompressed files to compressed ones, then go by name
         matches = sorted(
             filter(
-                lambda p: path.name.lower() in (stem_path(p), p.name.lower()),
+                lambda p: (
+                    path.name.lower() in (stem_path(p), p.name.lower())
+                    and not p.is_dir()
+                ),
                 path.parent.iterdir(),
             ),
             key=lambda p: (p.name.lower() != path.name.lower(), p.name)
-- 
2.43.0


From 2e79ab7d7e38cef0df3180a3b37df59623fa8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 19/42] fix: scale unsigned PDS4 arrays, and mask all of
 several special constants (C13)

With numpy 2, adding an integer value_offset in place to an unsigned array
raises a casting error, and the second special constant of a float32 array
was compared as a float64, and so not recognized.
---
 pdr/pds4_tools/reader/data_types.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index a1b442c..dcd6049 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -783,12 +783,13 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
 
     # Apply scaling factor and value offset
     # (workaround inability of NumPy 2.0+ to add / multiply in cases where
-    #  value on right of operand is out-of-bounds of dtype, see PR #99)
+    #  value on right of operand is out-of-bounds of dtype, see PR #99;
+    #  the adjusted data type can hold both scaling factor and offset)
     if not no_scaling:
 
         scale_dtype = None
         if isinstance(scaling_factor, six.integer_types):
-            scale_dtype = get_min_integer_numpy_type([scaling_factor])
+            scale_dtype = data.dtype
 
         data *= np.array(scaling_factor, dtype=scale_dtype)
 
@@ -796,7 +797,7 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
 
         offset_dtype = None
         if isinstance(value_offset, six.integer_types):
-            offset_dtype = get_min_integer_numpy_type([value_offset])
+            offset_dtype = data.dtype
 
         data += np.array(value_offset, dtype=offset_dtype)
 
@@ -962,7 +963,9 @@ def get_scaled_numpy_type(data_type=None, data=None, scaling_factor=None, value_
 
             # Obtain type necessary to store all integers
             if include_unscaled:
-                check_values = [min_data, max_data, min_scaled_data, max_scaled_data]
+                # (and the scaling factor and offset themselves, which will be cast to the same type)
+                check_values = [min_data, max_data, min_scaled_data, max_scaled_data,
+                                scaling_factor, value_offset]
             else:
                 check_values = [min_scaled_data, max_scaled_data]
 
@@ -1063,8 +1066,9 @@ def mask_special_constants(data, special_constants, mask_strings=False, copy=Fal
                                 (data.dtype == np.object_) or (np.asarray(value).dtype == np.object_)
 
             # Mask the Special_Constants, except for valid_* constants (which are actually valid data)
+            # (masked arrays do not convert the value to their own data type for the comparison)
             if (not key.startswith('valid_')) and compatible_dtypes:
-                data = np.ma.masked_where(data == value, data, copy=copy)
+                data = np.ma.masked_where(np.ma.getdata(data) == value, data, copy=copy)
                 data.set_fill_value(value)
 
     return data
-- 
2.43.0


From 72003566921f18ebeb9b22baf365228ceda73951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 20/42] fix: scale and mask arrays by their labels' values,
 without altering them (C13)

- get_scaled() of a PDS4 array scaled the stored array itself, so that asking
  twice scaled twice; and masked special constants only if it also scaled
- integer results rolled over, and some were scaled twice on the way
- special constants were not recognized where the array's type does not
  represent the label's decimal exactly, or broke on nonnumeric values
- scaling in place raised an error unless both parameters were sequences
---
 pdr/_scaling.py | 139 ++++++++++++++++++++++++++++--------------------
 1 file changed, 82 insertions(+), 57 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..4dbcce6 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -1,8 +1,5 @@
 from __future__ import annotations
 
-import warnings
-from functools import wraps
-from itertools import product
 from numbers import Integral, Number, Real
 from typing import Optional, Sequence, Union
 
@@ -32,14 +29,17 @@ def find_special_constants(
         if (name in block.keys()) and not (block[name] == "N/A")
     }
     for k in specials.keys():
-        if isinstance(specials[k], Sequence):
+        if isinstance(specials[k], Sequence) and len(specials[k]) > 0 \
+                and not isinstance(specials[k], str):
             specials[k] = specials[k][0]
+    # ignore ones that aren't numbers ("NULL", "UNK", etc.)
+    specials = {k: v for k, v in specials.items() if isinstance(v, Number)}
     # ignore uint8 implicit constants (0, 255) for now -- too problematic
     # TODO: maybe add an override
     if obj.dtype.name == "uint8":
         return specials
     # check for implicit constants appropriate to the sample type
-    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS[obj.dtype.name]
+    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS.get(obj.dtype.name, {})
     # can't check for nans with "in" because it's an equality check, so
     # we don't intend this to be used, just want to make the key and put
     # in a value that won't conflict later
@@ -55,79 +55,98 @@ def find_special_constants(
 def mask_specials(obj, specials):
     """"""
     obj = np.ma.masked_array(obj)
+    constants = _as_stored(specials, obj.dtype)
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
+        obj.mask = np.ma.mask_or(np.isin(obj.data, constants),
                                  ~np.isfinite(obj.data))
     else:
-        obj.mask = np.isin(obj.data, specials)
+        obj.mask = np.isin(obj.data, constants)
     return obj
 
 
+def _as_stored(constants, dtype):
+    """
+    special constants as elements of an array of type `dtype` would represent
+    them, less those they cannot represent at all.
+    """
+    if dtype.kind in "iu":
+        info = np.iinfo(dtype)
+        constants = [c for c in constants if info.min <= c <= info.max]
+        constants = [int(c) for c in constants if int(c) == c]
+    with np.errstate(over="ignore"):
+        return np.array(constants, dtype=dtype.newbyteorder("="))
+
+
 def fit_to_scale(
     arr: np.ndarray,
     scale: Union[Integral, Real],
     offset: Union[Integral, Real]
 ) -> np.ndarray:
     """
-    Return a version of `arr` cast to the minimum dtype that will hold its
-    range of values after multiplying by `offset` and adding `scale`.
-
-    Supports:
-
-    float32, float64, uint8, int8, uint16, int16, uint32, int32, uint64, int64.
+    Return `arr` itself if its dtype can hold its values at every step of
+    multiplying it by `scale` and adding `offset`. Otherwise, return a version
+    of `arr` cast to a wider dtype that can.
     """
-    if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
-        raise TypeError(f"This function does not support {arr.dtype.name}")
-    if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
-        bases, widths, infofunc = ('f',), (4, 8), np.finfo
+    if arr.dtype.char not in 'bBhHiIlLqQfd':
+        return arr
+    if not (isinstance(scale, Number) and isinstance(offset, Number)):
+        return arr
+    is_float = arr.dtype.char in 'fd'
+    values = np.ma.compressed(arr)
+    if is_float is True:
+        values = values[np.isfinite(values)]
+    extremes = (values.min(), values.max()) if values.size > 0 else ()
+    steps = [scale, offset]
+    for extreme in map(float if is_float else int, extremes):
+        steps += [extreme, extreme * scale, extreme * scale + offset]
+    low, high = min(steps), max(steps)
+    if is_float is True:
+        infofunc, candidates = np.finfo, ('f8',)
+    elif arr.dtype.kind == 'u' and low >= 0:
+        infofunc, candidates = np.iinfo, ('u2', 'u4', 'u8')
     else:
-        bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
-    amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
-    for base, width in product(bases, widths):
-        candidate = np.dtype(f'{base}{width}')
-        cinfo = infofunc(candidate)
-        if smin >= cinfo.min and smax <= cinfo.max:
-            return arr.astype(candidate)
-    raise TypeError("Unable to find a suitable data type for scaling.")
-
-
-def overflow_wrap(array_func):
-    @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
-        with warnings.catch_warnings():
-            warnings.filterwarnings("error", message=".*overflow enc.*")
-            try:
-                return array_func(arr, scale, offset, *args, **kwargs)
-            except (OverflowError, RuntimeWarning):
-                arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
-
-    return with_upcasting
+        infofunc, candidates = np.iinfo, ('i2', 'i4', 'i8')
+    for dtype in (arr.dtype, *map(np.dtype, candidates)):
+        info = infofunc(dtype)
+        if low >= info.min and high <= info.max:
+            return arr if dtype == arr.dtype else arr.astype(dtype)
+    return arr.astype(np.float64)
 
 
-def _copy_scale(obj, offset, scale):
+def _scale_by_plane(obj, offset, scale):
+    """Do we have a separate scale and offset for each plane of this array?"""
     try:
-        # TODO: we should also be doing this per-plane scaling in inplace case
-        if len(obj) == len(scale) == len(offset) > 1:
-            planes = [
-                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
-            ]
-            stacked = np.rollaxis(np.ma.dstack(planes), 2)
-            return stacked
+        return len(obj) == len(scale) == len(offset) > 1
     except TypeError:
-        pass  # len() is not usable on a float object
+        return False  # len() is not usable on a float object
+
+
+def _copy_scale(obj, offset, scale):
+    # TODO: we should also be doing this per-plane scaling in inplace case
+    if _scale_by_plane(obj, offset, scale):
+        planes = [
+            _copy_scale(obj[ix], offset[ix], scale[ix])
+            for ix in range(len(scale))
+        ]
+        stacked = np.rollaxis(np.ma.dstack(planes), 2)
+        return stacked
+    # don't permit results to roll over (or overflow to inf)
+    if casting_to_float(obj, scale, offset):
+        obj = obj.astype(np.float64)
+    else:
+        obj = fit_to_scale(obj, scale, offset)
     return obj * scale + offset
 
 
 def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
+    if _scale_by_plane(obj, offset, scale):
         for ix, _ in enumerate(scale):
             obj[ix] = obj[ix] * scale[ix] + offset[ix]
     else:
-        obj *= scale
-        obj += offset
+        obj = fit_to_scale(obj, scale, offset)
+        obj *= np.asarray(scale, dtype=obj.dtype)
+        obj += np.asarray(offset, dtype=obj.dtype)
     return obj
 
 
@@ -164,15 +183,14 @@ def scale_array(
         return obj
     # try to perform the operation in-place if requested, although if
     # we're casting to float, we can't
-    # TODO: detect rollover cases, etc.
     if inplace is True and not casting_to_float(obj, scale, offset):
-        return overflow_wrap(_inplace_scale)(obj, offset, scale)
+        return _inplace_scale(obj, offset, scale)
     # if we're casting to float, permit specification of dtype
     # prior to operation (float64 is numpy's default and often excessive)
     if casting_to_float(obj, scale, offset):
         if float_dtype is not None:
             obj = obj.astype(float_dtype)
-    return overflow_wrap(_copy_scale)(obj, offset, scale)
+    return _copy_scale(obj, offset, scale)
 
 
 # TODO: shake this out much more vigorously
@@ -180,9 +198,10 @@ def scale_array(
 def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     """see pds4_tools.reader.read_arrays.new_array"""
     # TODO: apply bit_mask
-    from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
+    from pdr.pds4_tools.reader.data_types import (
+        apply_scaling_and_value_offset, mask_special_constants
+    )
 
-    array = struct.data
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
@@ -192,6 +211,12 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
     special_constants = struct.meta_data.get("Special_Constants")
+    # apply_scaling_and_value_offset works in place where it can, and doesn't
+    # mask anything if there is no scaling to apply
+    array = struct.data.copy()
+    if not hasattr(array, "mask"):
+        array = np.asarray(array)
+    array = mask_special_constants(array, special_constants)
     array = apply_scaling_and_value_offset(
         array, special_constants=special_constants, **scale_kwargs
     )
-- 
2.43.0


From 82bc4f89cce788ec7d1e6f23462e525102cee2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 21/42] fix: keep full precision when dumping single-row tables
 (C14)

Transposing the table cast all its values to a common type, so that large
64-bit integers in tables with floating-point columns were rounded.
---
 pdr/browsify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..8bffd23 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -171,8 +171,9 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
             _browsify_array(obj, outbase, **dump_kwargs)
     elif isinstance(obj, pd.DataFrame):
         if len(obj) == 1:
+            # don't cast all of the row's values to a common type
             # noinspection PyTypeChecker
-            obj.T.to_csv(outbase + ".csv"),
+            obj.astype(object).T.to_csv(outbase + ".csv")
         else:
             obj.to_csv(outbase + ".csv")
     elif obj is None:
-- 
2.43.0


From c0945f8777f1c3c19fb3dccff7bc4aaae3b349ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 22/42] fix: reload PDS4 arrays and FITS HDUs as stored (C09)

pds4_tools structures and open HDULists retain the arrays they hand out, so
once an array was modified in place (by dump_browse(purge=True), say), loading
it again gave the modified values.
---
 pdr/_scaling.py |  9 ++++-----
 pdr/pdr.py      | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 4dbcce6..3797117 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -195,7 +195,9 @@ def scale_array(
 
 # TODO: shake this out much more vigorously
 # noinspection PyUnresolvedReferences
-def scale_pds4_tools_struct(struct: object) -> np.ndarray:
+def scale_pds4_tools_struct(
+    struct: object, array: np.ndarray
+) -> np.ndarray:
     """see pds4_tools.reader.read_arrays.new_array"""
     # TODO: apply bit_mask
     from pdr.pds4_tools.reader.data_types import (
@@ -213,10 +215,7 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     special_constants = struct.meta_data.get("Special_Constants")
     # apply_scaling_and_value_offset works in place where it can, and doesn't
     # mask anything if there is no scaling to apply
-    array = struct.data.copy()
-    if not hasattr(array, "mask"):
-        array = np.asarray(array)
-    array = mask_special_constants(array, special_constants)
+    array = mask_special_constants(array.copy(), special_constants)
     array = apply_scaling_and_value_offset(
         array, special_constants=special_constants, **scale_kwargs
     )
diff --git a/pdr/pdr.py b/pdr/pdr.py
index bb7874b..71fc777 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -657,7 +657,13 @@ class Data:
         """Handle loading an HDU from a FITS file in "primary" FITS mode."""
         from pdr.loaders.handlers import handle_fits_file
 
-        if self._hdulist is None:
+        hdu_ix = self._hdumap[object_name]
+        # if we've already loaded this HDU's data, they may have been modified
+        # in place since, so read them afresh.
+        if (
+            self._hdulist is None
+            or self._hdulist[hdu_ix].__dict__.get("data") is not None
+        ):
             from astropy.io import fits
 
             self._hdulist = fits.open(self.filename)
@@ -665,7 +671,7 @@ class Data:
             obj = handle_fits_file(
                 self.filename,
                 object_name,
-                self._hdumap[object_name],
+                hdu_ix,
                 self._hdulist,
                 hdu_id_is_index=True
             )
@@ -787,6 +793,9 @@ class Data:
             import numpy as np
 
             setattr(self, object_name, np.asarray(structure.data))
+            # don't retain an alias of this array, or it won't be possible to
+            # reload the object after modifying it in place
+            structure.__dict__.pop("data", None)
         elif structure.is_table():
             from pdr.pd_utils import structured_array_to_df
 
@@ -920,7 +929,9 @@ class Data:
             #  the inplace and float_dtype arguments do something.
             #  check and see if implicit special constants ever still exist
             #  stealthily in PDS4 data. etc.
-            return scale_pds4_tools_struct(self._pds4_structures[object_name])
+            return scale_pds4_tools_struct(
+                self._pds4_structures[object_name], obj
+            )
 
         # TODO: double-check that astropy is successfully handling masking
         # TODO: most 'desktop' image formats should never contain special
-- 
2.43.0


From 276862c8c5955148c6909351f936cf2e26bb9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 23/42] fix: let threads load objects from one product (C15)

Threads that asked for the same object could get an AlreadyLoadedError, or list
an object's FITS header twice; threads that asked for different HDUs of a
compressed FITS file read it from under one another.
---
 pdr/pdr.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 71fc777..139a3a7 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -3,6 +3,7 @@ from functools import partial, cache
 from itertools import chain, product
 from numbers import Number
 from pathlib import Path
+from threading import RLock
 from typing import (
     Any,
     Callable,
@@ -237,6 +238,9 @@ class Data:
 
         # list of the product's associated data objects
         self.index = []
+        # held while modifying the index or using _hdulist, because more than
+        # one thread might load objects from this product
+        self._lock = RLock()
         # do we raise an exception rather than a warning if loading a data
         # object fails?
         self.debug = debug
@@ -559,7 +563,8 @@ class Data:
         if self.standard == "PDS4":
             return self._load_pds4(name)
         if self.standard == "FITS":
-            self._add_loaded_objects(self._load_primary_fits(name), name)
+            with self._lock:
+                self._add_loaded_objects(self._load_primary_fits(name), name)
             return
         if self.standard in DESKTOP_IMAGE_STANDARDS:
             from pdr.loaders.handlers import handle_compressed_image
@@ -619,13 +624,14 @@ class Data:
         Helper for `load()`. Ingests objects returned by a `Loader`. `name` is
         the name of the object the `Loader` was asked for.
         """
-        for k, v in obj.items():
-            if v is not None:
-                if k not in self.index:
-                    if name is not None:
-                        self._companions[k] = name
-                    self.index.append(k)
-                setattr(self, k, v)
+        with self._lock:
+            for k, v in obj.items():
+                if v is not None:
+                    if k not in self.index:
+                        if name is not None:
+                            self._companions[k] = name
+                        self.index.append(k)
+                    setattr(self, k, v)
 
     def load_all(self):
         """Handler (and alias) for `Data.load("all")`."""
@@ -1185,7 +1191,11 @@ class Data:
         except AttributeError:
             if attr not in self.index:
                 raise
-        self.load(attr)
+        try:
+            self.load(attr)
+        except AlreadyLoadedError:
+            # another thread has just done so
+            pass
         return super().__getattribute__(attr)
 
     # This method exists as a bypass for the special behavior of
-- 
2.43.0


From 2cd5cc464dc2b4a47be2a2e13c7eee9705d802f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 24/42] fix: don't let metaget_fuzzy() and identifiers depend
 on hash order (C17)

The order of a set's elements varies between processes, so the field that
metaget_fuzzy() picked from equally good ones did too, and so did the string
version of identifiers given as sets in labels.
---
 pdr/pdr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 139a3a7..944c410 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -143,7 +143,7 @@ class Metadata(MultiDict):
         """Like `metaget()`, but fuzzy-matches key names."""
         import Levenshtein as lev
         levratio = {
-            key: lev.ratio(key, text) for key in set(self.fieldcounts.keys())
+            key: lev.ratio(key, text) for key in self.fieldcounts.keys()
         }
         if levratio == {}:
             return None
@@ -193,7 +193,10 @@ class Metadata(MultiDict):
         }
         # it never does us any favors to have tuples or sets in here
         for k, v in identifiers.items():
-            if isinstance(v, (tuple, set)):
+            if isinstance(v, set) and len(v) > 0:
+                # sets' iteration order isn't consistent between processes
+                identifiers[k] = f"{{{', '.join(sorted(map(repr, v)))}}}"
+            elif isinstance(v, (tuple, set)):
                 identifiers[k] = str(v)
         return identifiers
 
-- 
2.43.0


From 184e8703caa16f96ab64b5058a11fb1729a5841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 25/42] fix: don't let an unwritable load log fail loads (C18)

---
 pdr/loaders/datawrap.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/datawrap.py b/pdr/loaders/datawrap.py
index 6bf4014..bc31b29 100644
--- a/pdr/loaders/datawrap.py
+++ b/pdr/loaders/datawrap.py
@@ -1,6 +1,7 @@
 """Classes to wrap and manage complex data-loading workflows."""
 from __future__ import annotations
 from typing import Any
+import warnings
 
 from dustgoggles.dynamic import exc_report
 from dustgoggles.func import constant
@@ -60,8 +61,7 @@ class Loader:
             record_exc = {"status": "query_failed"} | _format_exc_report(exc)
             raise exc
         finally:
-            kwargdict["tracker"].track(self.loader_function, **record_exc)
-            kwargdict["tracker"].dump()
+            self._log_status(kwargdict["tracker"], record_exc)
         load_exc = {"status": "load_ok"}
         try:
             return {name: call_kwargfiltered(self.loader_function, **info)}
@@ -69,8 +69,16 @@ class Loader:
             load_exc = {"status": "load_failed"} | _format_exc_report(exc)
             raise exc
         finally:
-            kwargdict["tracker"].track(self.loader_function, **load_exc)
-            kwargdict["tracker"].dump()
+            self._log_status(kwargdict["tracker"], load_exc)
+
+    def _log_status(self, tracker, status: dict):
+        """record status of this load. failing to write the log only warns."""
+        tracker.track(self.loader_function, **status)
+        try:
+            tracker.dump()
+        except OSError as ex:
+            warnings.warn(f"Unable to write load log: {ex}")
+
     queries = DEFAULT_DATA_QUERIES
 
 
-- 
2.43.0


From 6d3ae80ce88ef8e3a019509a8f14d1ec2e5342dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 26/42] fix: look for line prefix tables in the file of their
 image (C02)

---
 pdr/pdr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 944c410..d23b542 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -465,6 +465,11 @@ class Data:
         )
         if is_special is True:
             return self.get_absolute_paths(special_target)
+        if object_name in self._interleaved_objects:
+            # it has no pointer of its own, but lies in its parent's file
+            return self._object_to_filename(
+                self._interleaved_objects[object_name]['parent']
+            )
         is_comp, comp_paths = self._check_compressed_file_pointer(object_name)
         if is_comp is True:
             return comp_paths
-- 
2.43.0


From fd85633694d04798ab196b10b26f16cb43c5b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 27/42] fix: keep words apart where a label value's text
 continues on a second line (C04)

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..7c2d048 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -74,8 +74,8 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             # i strongly suspect we will never make semantic use of
             # parameters like this and so we will just ignore them for now
             continue
-        value_head += " ".join(map(str.strip, statement[1:]))
-        statements.append((parameter, value_head))
+        value = " ".join([value_head, *map(str.strip, statement[1:])]).strip()
+        statements.append((parameter, value))
     return statements
 
 
-- 
2.43.0


From 4e04c2e14a056b0bf1465747dd224071fdb78be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 28/42] fix: do not take keywords that begin with END for the
 end of a block (C04)

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 7c2d048..28f81a0 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -22,7 +22,7 @@ from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
-PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_TERMINAL = re.compile(r"END(_?(OBJECT|GROUP)\b|$)")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
@@ -112,7 +112,7 @@ class BlockParser:
         for parameter, value in statements:
             if parameter in PVL_BLOCK_INITIALS:
                 self._step_in(value)
-            elif parameter.startswith("END"):
+            elif extract_pvl_block_terminal(parameter) is not None:
                 # not bothering with aggregation name verification
                 if len(self.names) > 0:
                     self._step_out()
-- 
2.43.0


From 71f606806294ef8f0a371eb9a976342b826bf67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 29/42] fix: recognize the end of a label where blanks and a
 bare line feed follow END (C04)

---
 pdr/parselabel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index 3c6441f..ca55bd6 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -7,7 +7,7 @@ from typing import Union, IO
 
 KNOWN_LABEL_ENDINGS = (
     # common PVL convention / mostly for Chang'e labels
-    re.compile(b"\nEND( {0,8}(\r| {8})|\n)"),
+    re.compile(b"\nEND {0,8}(\r|\n| {8})"),
     re.compile(b"\x00{3}"),  # just null bytes, for odder cases
 )
 """
-- 
2.43.0


From 1e55e08b833945321dde2f013e5f673c3ae6f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 30/42] fix: do not count uniformly sampled fields as columns
 of a delimited PDS4 table (C05)

---
 pdr/pds4_tools/reader/read_tables.py   | 2 +-
 pdr/pds4_tools/reader/table_objects.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 56632fd..2f71319 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -480,7 +480,7 @@ def _get_delimited_records_and_start_bytes(records, table_structure, table_manif
     # we ignore the record delimiter as its effectively escaped by being between bounding double quotes.
     num_columns = 0
 
-    for field in table_manifest.fields():
+    for field in table_manifest.fields(skip_uniformly_sampled=True):
 
         repetitions = []
         parent_idx = table_manifest.index(field)
diff --git a/pdr/pds4_tools/reader/table_objects.py b/pdr/pds4_tools/reader/table_objects.py
index 73043e4..e8371d9 100644
--- a/pdr/pds4_tools/reader/table_objects.py
+++ b/pdr/pds4_tools/reader/table_objects.py
@@ -923,6 +923,10 @@ class TableManifest(collections_abc.Sequence):
             if child_item is field:
                 break
 
+            # (records hold no values for Uniformly Sampled fields)
+            elif isinstance(child_item, Meta_FieldUniformlySampled):
+                continue
+
             elif child_item.is_field():
                 offset_num += 1
 
-- 
2.43.0


From ed168198c1305832aaff81884c63cb0496a26cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 31/42] fix: keep missing values of PDS4 delimited tables
 missing instead of zero (C05)

---
 pdr/pd_utils.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 39b6bd5..3b7e820 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -295,6 +295,28 @@ def rectified_rec_df(array: np.ndarray) -> pd.DataFrame:
     return pd.DataFrame.from_records(enforce_order_and_object(array))
 
 
+def _blank_masked_values(df: pd.DataFrame, mask: pd.DataFrame) -> pd.DataFrame:
+    """
+    Replace masked (i.e., missing) values with pandas's missing value. Use
+    pandas's nullable types for integers and booleans so that the values that
+    are not missing remain exactly as they were. Empty text is just empty text.
+    """
+    columns = []
+    for ix in range(len(df.columns)):
+        column, missing = df.iloc[:, ix], mask.iloc[:, ix].to_numpy()
+        if missing.any() and not pandas.api.types.is_string_dtype(column):
+            columns.append(
+                column.convert_dtypes(
+                    infer_objects=False,
+                    convert_string=False,
+                    convert_floating=False
+                ).mask(missing)
+            )
+        else:
+            columns.append(column)
+    return pd.concat(columns, axis=1)
+
+
 def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
     """
     Attempt to convert an ndarray with a structured dtype to a DataFrame,
@@ -303,6 +325,10 @@ def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
     to flatten nested elements with dimensionality > 2, and will raise a
     NotImplementedError if it encounters them.
     """
+    if isinstance(array, np.ma.MaskedArray):
+        df = structured_array_to_df(np.ma.getdata(array))
+        mask = structured_array_to_df(np.ma.getmaskarray(array))
+        return _blank_masked_values(df, mask)
     sub_dfs = []
     name_buffer = []
     for field in array.dtype.descr:
-- 
2.43.0


From 33991eb31354dc0b840045e752872126ae724dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 32/42] fix: load FITS tables with columns both of varying
 length and of several elements (C06)

---
 pdr/np_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 88ac33a..c7d7b10 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -38,7 +38,9 @@ def enforce_order_and_object(array: np.ndarray, inplace=True) -> np.ndarray:
             return void_return.astype("O")
         if dtype.isnative:
             return array
-        return array.byteswap().view(array.dtype.newbyteorder("="))
+        # (not a view: numpy refuses those of single fields selected from
+        # arrays that also have object fields)
+        return array.astype(array.dtype.newbyteorder("="))
     swap_targets = []
     swapped_dtype = []
     for name, field in array.dtype.fields.items():
-- 
2.43.0


From f80a2fa12052a1864d352eb8b155c1213de33ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 33/42] fix: load HDUs of repeated names that contain HEADER
 whole (C06)

---
 pdr/loaders/handlers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..f2d66b3 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -75,12 +75,9 @@ def handle_fits_file(
         # this is the case when dealing with a FITS file in 'primary' mode.
         # This is a little sloppy, but it is more convenient to handle certain
         # things upstream. may want to collapse the two cases at some point.
-        hdu_ix = hdu_id
-        is_header = (
-            "HEADER" in name
-            # cases where HDUs are named things like "IMAGE HEADER"
-            and name not in [h[1] for h in hdulist.info(False)]
-        )
+        # Objects of such files are always whole HDUs, whatever their names
+        # (there may be HDUs named things like "IMAGE HEADER").
+        hdu_ix, is_header = hdu_id, False
     try:
         hdr_val = handle_fits_header(hdulist, hdu_ix)
     # astropy.io.fits does not call any verification on read. on 'output'
-- 
2.43.0


From 9cfcd782e62fff4e9847a8194891ebab1f67e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 34/42] fix: load FITS ASCII tables with repeated column names
 (C06)

---
 pdr/loaders/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index f2d66b3..d9066ea 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -97,9 +97,9 @@ def handle_fits_file(
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
-    # binary table HDUs with repeated column names break astropy -- it will not
+    # table HDUs with repeated column names break astropy -- it will not
     # actually afford the data unless we manipulate it first.
-    if isinstance(hdu, fits.BinTableHDU):
+    if isinstance(hdu, (fits.BinTableHDU, fits.TableHDU)):
         reindex_dupe_names(hdu)
     body = hdu.data
     if body is None:
-- 
2.43.0


From 2f18a4fef79ef432b8aad0ef1ef97965f01b7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 35/42] fix: do not overflow integer table columns with integer
 SCALING_FACTOR or OFFSET (C02)

---
 pdr/loaders/table.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 56e0f28..1976e5b 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -4,7 +4,7 @@ TABLE/SPREADSHEET/ARRAY/HISTOGRAM loading.
 """
 from __future__ import annotations
 from io import StringIO
-from typing import Optional, TYPE_CHECKING
+from typing import Optional, TYPE_CHECKING, Union
 
 import numpy as np
 import pandas as pd
@@ -76,6 +76,22 @@ def _drop_placeholders(table: pd.DataFrame) -> pd.DataFrame:
     )
 
 
+def _widened(
+    column: pd.Series, operand: Union[int, float]
+) -> pd.Series:
+    """
+    Widen a column of integers if `operand` is also an integer and their sum
+    or product might not fit in the column's type.
+    """
+    if not isinstance(operand, int) or column.dtype.kind not in "iu":
+        return column
+    if column.dtype.itemsize < 8:
+        return column.astype("int64")
+    if column.dtype.kind == "u" and operand < 0:
+        return column.astype("float64")
+    return column
+
+
 def read_table(
     identifiers,
     fn,
@@ -107,12 +123,15 @@ def read_table(
         for col in table.columns:
             record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
             if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
-                table[col] = table[col].mul(record["SCALING_FACTOR"])
+                scaling_factor = record["SCALING_FACTOR"]
+                table[col] = _widened(table[col], scaling_factor).mul(
+                    scaling_factor
+                )
             else:
                 scaling_factor = 1  # TODO: appears superfluous
             if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):
                 offset = record["OFFSET"]
-                table[col] = table[col]+offset
+                table[col] = _widened(table[col], offset) + offset
     return table
 
 
-- 
2.43.0


From 2bb9e816e64962a2dfec35a27e7dedf6db4b07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:31 +0000
Subject: [PATCH 36/42] fix: take PDS4 labels for what they are whatever the
 case of their extension

---
 pdr/pdr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d23b542..69e50b1 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -302,8 +302,7 @@ class Data:
                 # TODO: bad. need to not leave this open, although inefficient
                 self._hdulist = fits.open(self.filename)
         elif (
-            str(self.labelname).endswith(".xml") 
-            or str(self.labelname).endswith(".lblx")
+            str(self.labelname).lower().endswith((".xml", ".lblx"))
             or ("CE" in str(self.labelname) and
                 str(self.labelname).endswith((".2BL", ".2AL", ".2CL", ".01L")))
         ):
-- 
2.43.0


From f4b517b874a7b1119246da291e8b50e56c164e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:31 +0000
Subject: [PATCH 37/42] fix: keep the whole of a qube that defines suffix items
 but has none

---
 pdr/loaders/queries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 5037aa3..4b7f6e2 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -114,6 +114,9 @@ def extract_axplane_metadata(block: MultiDict, props: dict) -> dict:
             raise NotImplementedError(
                 "Pre/suffix itemsize < array itemsize is not supported."
             )
+        if fix_pix == 0:
+            # this kind of item is defined, but there aren't any of it
+            continue
         axplane_metadata[f"{side.lower()}_{rowcol[ax]}s"] = int(fix_pix)
         axplane_metadata[f"{rowcol[ax]}pad"] += int(fix_pix)
     return axplane_metadata
-- 
2.43.0


From 6e480271d2952dfe15be0cd9bb260c5ef22763b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 38/42] fix: count row prefixes when measuring ASCII tables
 (C02)

---
 pdr/loaders/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 4b7f6e2..b229c08 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -480,6 +480,7 @@ def _table_length(block, identifiers, n_records):
                 record_length = block["RECORD_BYTES"]
             elif "ROW_BYTES" in block.keys():
                 record_length = block["ROW_BYTES"]
+                record_length += block.get("ROW_PREFIX_BYTES", 0)
                 record_length += block.get("ROW_SUFFIX_BYTES", 0)
             elif identifiers["RECORD_BYTES"] is not None:
                 # TODO, probably, and applicable many more places than here:
-- 
2.43.0


From b59495f6a58bfd31634f8061ea7e99cda3530b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 39/42] fix: store FITS headers under their PDS4 identifiers
 (C06)

---
 pdr/pdr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 69e50b1..9197153 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -759,9 +759,9 @@ class Data:
             if 'object_length' not in meta.keys():
                 continue
             if meta['offset'] + meta['object_length'] == start_byte:
-                if 'name' not in meta.keys():
+                if meta.id is None:
                     return None
-                return meta['name'].replace(' ', '_')
+                return k
 
         return None
 
-- 
2.43.0


From 306cc7720d10276e6d069ef7d3d7bc548b732ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:48 +0000
Subject: [PATCH 40/42] fix: don't let metaget()'s memory mix up equal defaults
 (C09)

---
 pdr/pdr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 9197153..c41d7e3 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -133,7 +133,8 @@ class Metadata(MultiDict):
                 f"Returning only the first.",
                 DuplicateKeyWarning,
             )
-        return self._metaget_interior(text, default)
+        value = self._metaget_interior(text)
+        return default if value is None else value
 
     def metaget_(self, text: str, default: Any = None) -> Any:
         """quiet-by-default version of metaget"""
@@ -208,7 +209,7 @@ class Metadata(MultiDict):
         """"""
         return f"Metadata({prettify_multidict(self)})"
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
@@ -1271,16 +1272,15 @@ class Data:
         for key in self.keys():
             yield self[key]
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
-def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
+def _metaget_factory(metadata: Metadata) -> Callable[[str], Any]:
 
-    def metaget_interior(text, default):
+    def metaget_interior(text):
         """"""
-        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))
-        return default if value is None else value
+        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))
 
     return cache(metaget_interior)
 
-- 
2.43.0


From 9bc448a4ba4bb439253095dbd79879e7dbd58ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:01 +0000
Subject: [PATCH 41/42] fix: tell PDS4 objects of the same name apart (C05)

---
 pdr/pdr.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index c41d7e3..02d0dcb 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -350,9 +350,14 @@ class Data:
         structure_list = pds4.read(
             self.labelname, lazy_load=True, quiet=True, no_scale=True
         )
-        for structure in structure_list.structures:
-            self._pds4_structures[structure.id.replace(" ", "_")] = structure
-            self.index.append(structure.id.replace(" ", "_"))
+        names = [s.id.replace(" ", "_") for s in structure_list.structures]
+        for ix, structure in enumerate(structure_list.structures):
+            name = names[ix]
+            # identifiers are optional, and names need not be unique
+            if names.count(name) > 1:
+                name = f"{name}_{names[:ix].count(name)}"
+            self._pds4_structures[name] = structure
+            self.index.append(name)
         self._pds4_structures["label"] = structure_list.label
         self.index.append("label")
 
-- 
2.43.0


From 7e371f6b1b794ac8eaa3332e01b6d3a7101fd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:21 +0000
Subject: [PATCH 42/42] fix: take only group names off PDS4 columns (C05)

---
 pdr/pdr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 02d0dcb..b566687 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -819,7 +819,7 @@ class Data:
             from pdr.pd_utils import structured_array_to_df
 
             df = structured_array_to_df(structure.data)
-            df.columns = df.columns.str.replace(r"GROUP_?\d+", "", regex=True)
+            df.columns = df.columns.str.replace(r"GROUP_?\d+, ", "", regex=True)
             df.columns = df.columns.str.strip(", ")
             setattr(self, object_name, df)
         # TODO: do other important cases exist?
-- 
2.43.0

