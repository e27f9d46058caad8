From 095ce0d36afe5fc8c5da84260c9e2c0bfff829b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 01/48] fix: start every DMAP write from an empty buffer

A second write, or one retried after a failure, repeated the records
converted by the earlier one.
---
 pydarnio/dmap/dmap.py      | 3 +++
 pydarnio/dmap/superdarn.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 8cb06bd..fac7dac 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1017,6 +1017,9 @@ class DmapWrite(object):
         # For performance increase len of the records can be
         # attribute value initialized in the class
         pyDARNio_log.debug("Converting DMap records to bytes")
+        # start from an empty buffer so that writing again does not repeat
+        # the records of an earlier (possibly failed) write
+        self.dmap_bytearr = bytearray()
         for self.rec_num in range(len(self.dmap_records)):
             record = self.dmap_records[self.rec_num]
             self._dmap_record_to_bytes(record)
diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 017fda7..73c75ff 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -885,6 +885,9 @@ class SDarnWrite(DmapWrite):
 
         """
         self.rec_num = 0
+        # start from an empty buffer so that writing again does not repeat
+        # the records of an earlier (possibly failed) write
+        self.dmap_bytearr = bytearray()
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
 
         for self.rec_num in range(len(self.dmap_records)):
-- 
2.43.0


From e23fac3ab0653f21d104ab0ab282a7ba9b77d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 02/48] fix: do not reverse the caller's array shape when
 writing DMAP arrays

Writing the same DmapArray twice stored the dimensions in the wrong order
the second time.
---
 pydarnio/dmap/dmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index fac7dac..a31010f 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1150,9 +1150,10 @@ class DmapWrite(object):
 
         array_dim_bytes = struct.pack('i', array.dimension)
         array_shape_bytes = bytes()
+        shape = list(array.shape)
         if array.dimension > 1:
-            array.shape.reverse()
-        for size in array.shape:
+            shape.reverse()
+        for size in shape:
             array_shape_bytes += struct.pack('i', size)
 
         array_data_bytes = array_value.tostring()
-- 
2.43.0


From 09462380a086142538a02d83f9e8c2a5e58be446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 03/48] fix: read DMAP records from the start of the data on
 every read

A read after a failed one resumed in the middle of the file, and a read
as a second file type returned the records of the first unchecked.
---
 pydarnio/dmap/dmap.py      | 5 +++++
 pydarnio/dmap/superdarn.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index a31010f..c254d8f 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -395,6 +395,11 @@ class DmapRead():
 
         # read bytes until end of byte array
         pyDARNio_log.debug("Reading DMap records")
+        # always read from the start of the data, whatever an earlier
+        # (possibly failed) read left behind
+        self.cursor = 0
+        self.rec_num = 0
+        self._dmap_records = collections.deque()
         while self.cursor < self.dmap_end_bytes:
             new_record = self.read_record()
             self._dmap_records.append(new_record)
diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 73c75ff..791db3e 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -36,6 +36,7 @@ Notes
 -----
 DmapRead and DmapWrite are inherited by SDarnRead and SDarnWrite
 """
+import collections
 import logging
 
 from typing import Union, List
@@ -392,6 +393,10 @@ class SDarnRead(DmapRead):
         """
         if optional_list is None:
             optional_list = []
+        # always read from the start of the data, whatever an earlier
+        # (possibly failed) read left behind
+        self.cursor = 0
+        self._dmap_records = collections.deque()
         self.rec_num = 0  # record number, for exception info
         while self.cursor < self.dmap_end_bytes:
             self._read_darn_record(format_fields, optional_list)
-- 
2.43.0


From f9917bb9f230529a9e565d40d1368993a9554332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 04/48] fix: store and read DMAP char scalars as signed bytes

Negative values could not be written and values over 127 were written as
two bytes, which corrupted the record.
---
 pydarnio/dmap/dmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index c254d8f..7cb9d30 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -696,7 +696,8 @@ class DmapRead():
             # This casting is needed to keep the correct instance otherwise
             # python will default it to int which later could have some
             # consequences if you try to rewrite the file
-            data = self.dmap_bytearr[self.cursor]
+            # RST defines char as a signed int8 in rtypes.h
+            data = struct.unpack_from('b', self.dmap_buffer, self.cursor)[0]
             self.cursor += data_fmt_bytes
             return data
         elif data_type_fmt == 's':
@@ -1105,8 +1106,7 @@ class DmapWrite(object):
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
                 raise dmap_exceptions.DmapCharError(scalar.name, self.rec_num)
-            # scalar_data_bytes = scalar.value
-            scalar_data_bytes = chr(scalar.value).encode('utf-8')
+            scalar_data_bytes = struct.pack('b', scalar.value)
         elif scalar.data_type_fmt == 'f':
             scalar_data_value = np.float32(scalar.value)
             scalar_data_bytes = struct.pack(scalar.data_type_fmt,
-- 
2.43.0


From e4e0c497ec892b710141f587e2d8563f1afff1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 05/48] fix: write all the bytes of DMAP strings that are not
 ASCII

The size was counted in characters, so the end of the encoded string and
its terminator were cut off and the record became unreadable.
---
 pydarnio/dmap/dmap.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 7cb9d30..73f175e 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1089,19 +1089,13 @@ class DmapWrite(object):
             Bytes of the scalar
         """
 
-        scalar_name = "{0}\0".format(scalar.name)
-        scalar_name_format = '{0}s'.format(len(scalar_name))
-        scalar_name_bytes = struct.pack(scalar_name_format,
-                                        scalar_name.encode('utf-8'))
+        scalar_name_bytes = "{0}\0".format(scalar.name).encode('utf-8')
 
         scalar_type_bytes = struct.pack('c',
                                         chr(scalar.data_type).encode('utf-8'))
 
         if scalar.data_type_fmt == 's':
-            scalar_data = "{0}\0".format(scalar.value)
-            scalar_data_format = '{0}s'.format(len(scalar_data))
-            scalar_data_bytes = struct.pack(scalar_data_format,
-                                            scalar_data.encode('utf-8'))
+            scalar_data_bytes = "{0}\0".format(scalar.value).encode('utf-8')
         elif scalar.data_type_fmt == 'c':
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
@@ -1145,10 +1139,7 @@ class DmapWrite(object):
             raise dmap_exceptions.DmapDataError(self.filename, message)
 
         array_value = array.value.flatten()
-        array_name = "{0}\0".format(array.name)
-        array_name_format = '{0}s'.format(len(array_name))
-        array_name_bytes = struct.pack(array_name_format,
-                                       array_name.encode('utf-8'))
+        array_name_bytes = "{0}\0".format(array.name).encode('utf-8')
 
         array_type_bytes = struct.pack('c',
                                        chr(array.data_type).encode('utf-8'))
-- 
2.43.0


From 0622edb2d6bddd81d3c08ee69d6e19a711110ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 06/48] fix: write DMAP scalars before arrays whatever the
 field order

A record whose dictionary listed an array before a scalar was written
interleaved, which is not the DMAP layout and could not be read back.
---
 pydarnio/dmap/dmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 73f175e..64f4e42 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1049,18 +1049,21 @@ class DmapWrite(object):
         encoding_identifier = 65537
         num_scalars = 0
         num_arrays = 0
+        # the DMap format stores all the scalars before the arrays
         data_bytearray = bytearray()
+        array_bytearray = bytearray()
         for name, data_info in record.items():
             if isinstance(data_info, DmapScalar):
                 data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
             elif isinstance(data_info, DmapArray):
-                data_bytearray.extend(self.dmap_array_to_bytes(data_info))
+                array_bytearray.extend(self.dmap_array_to_bytes(data_info))
                 num_arrays += 1
             else:
                 raise dmap_exceptions.DmapTypeError(self.filename,
                                                     type(data_info),
                                                     self.rec_num)
+        data_bytearray.extend(array_bytearray)
 
         # 16 = encoding_identifier (int - 4 bytes) + num_scalars (int - 4) +
         #      num_arrays (int - 4) + size of the block (int - 4)
-- 
2.43.0


From 66bd36d3fe55f71e5c2b0cfba0ffc3c5e8cf1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 07/48] fix: store DMAP arrays in native byte order

The bytes of an array of the other byte order were written as they are
and read back as different numbers.
---
 pydarnio/dmap/dmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 64f4e42..e13a6e1 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1142,6 +1142,9 @@ class DmapWrite(object):
             raise dmap_exceptions.DmapDataError(self.filename, message)
 
         array_value = array.value.flatten()
+        # the DMap format stores the data in the native byte order
+        if not array_value.dtype.isnative:
+            array_value = array_value.astype(array_value.dtype.newbyteorder('='))
         array_name_bytes = "{0}\0".format(array.name).encode('utf-8')
 
         array_type_bytes = struct.pack('c',
@@ -1155,7 +1158,7 @@ class DmapWrite(object):
         for size in shape:
             array_shape_bytes += struct.pack('i', size)
 
-        array_data_bytes = array_value.tostring()
+        array_data_bytes = array_value.tobytes()
 
         array_total_bytes = array_name_bytes + array_type_bytes + \
             array_dim_bytes + array_shape_bytes + array_data_bytes
-- 
2.43.0


From 8c4d90ac86492d3d5fb84581c064612d09df7b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 08/48] fix: accept the documented 'zlib' compression when
 writing Borealis files

h5py calls it 'gzip', so every array write with the default compression
failed and left a partial file behind.
---
 pydarnio/borealis/base_format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 8519dfa..2da480e 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1378,6 +1378,8 @@ class BaseFormat():
         """
         attribute_types = cls.site_single_element_types()
         dataset_types = cls.site_array_dtypes()
+        if compression == 'zlib':
+            compression = 'gzip'    # the name h5py gives to zlib compression
         with h5py.File(filename, 'a') as f:
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
@@ -1413,6 +1415,8 @@ class BaseFormat():
         attribute_types = cls.array_single_element_types()
         dataset_types = cls.array_array_dtypes()
         unshared_fields = cls.unshared_fields()
+        if compression == 'zlib':
+            compression = 'gzip'    # the name h5py gives to zlib compression
         with h5py.File(filename, 'a') as f:
             for k, v in arrays.items():
                 if k in attribute_types:
-- 
2.43.0


From d4ca9c29e2dc3d14e285f8e0ce729e20d77f98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 09/48] fix: restructure v0.7 bfiq arrays to site records

The generated data_descriptors had the type of the earlier versions, so
restructuring v0.7 bfiq from array to site style always failed.
---
 pydarnio/borealis/borealis_formats.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c9ba76c..aa0977a 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2490,6 +2490,17 @@ class BorealisBfiq(BorealisBfiqv0_6):
             })
         return unshared_fields_dims
 
+    @classmethod
+    def site_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().site_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda arrays, record_num: np.bytes_(
+            ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'])
+
+        return fields_generate
+
 
 class BorealisAntennasIq(BorealisAntennasIqv0_6):
     """
-- 
2.43.0


From 84e6faa9c851955032413880015c2bb4b5fd3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 10/48] fix: leave an existing file alone when a Borealis write
 to it must fail

Writing arrays or already stored records over an existing file failed only
after replacing its attributes or adding part of the new records.
---
 pydarnio/borealis/base_format.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 2da480e..06485e1 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1381,6 +1381,11 @@ class BaseFormat():
         if compression == 'zlib':
             compression = 'gzip'    # the name h5py gives to zlib compression
         with h5py.File(filename, 'a') as f:
+            # refuse before anything is written, rather than part way through
+            existing = [str(name) for name in records if str(name) in f]
+            if existing:
+                raise ValueError('Unable to write to {}: records {} already '
+                                 'exist'.format(filename, existing))
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
                 for k, v in group_dict.items():
@@ -1418,6 +1423,10 @@ class BaseFormat():
         if compression == 'zlib':
             compression = 'gzip'    # the name h5py gives to zlib compression
         with h5py.File(filename, 'a') as f:
+            # refuse before anything is written, rather than part way through
+            if len(f) > 0 or len(f.attrs) > 0:
+                raise ValueError('Unable to write to {}: the file already '
+                                 'contains data'.format(filename))
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-- 
2.43.0


From 53574884b9b6ae70ad13ca45bb045d04f7778338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 11/48] fix: convert iqdat sequence times from seconds

The Borealis sequence timestamps are seconds since epoch, but tsc and tus
were computed as if they were milliseconds.
---
 pydarnio/borealis/borealis_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 77fae9a..75be181 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -731,11 +731,11 @@ class BorealisConvert(BorealisRead):
                                    record_dict['range_sep']),
                 'ptab': record_dict['pulses'].astype(np.int16),
                 'ltab': record_dict['lags'].astype(np.int16),
-                # timestamps in ms, convert to seconds and us.
-                'tsc': np.array([np.floor(x/1e3) for x in
+                # timestamps in seconds, convert to seconds and us.
+                'tsc': np.array([np.floor(x) for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
-                'tus': np.array([np.fmod(x, 1000.0) * 1e3 for x in
+                'tus': np.array([np.fmod(x, 1.0) * 1e6 for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
                 'tatten': np.array([0] * record_dict['num_sequences'],
-- 
2.43.0


From 9852bbe1bd94fae4e32263b51358496f7351fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 12/48] fix: keep Borealis pulse phase offsets of one or two
 dimensions

Offsets per sequence and pulse were replaced by zeros when read, offsets
per pulse were cut to the number of sequences by array to site
restructuring and refused by file restructuring, and conversion to iqdat
failed on two dimensions.
---
 pydarnio/borealis/base_format.py        | 2 +-
 pydarnio/borealis/borealis_convert.py   | 2 +-
 pydarnio/borealis/borealis_formats.py   | 6 ++++++
 pydarnio/borealis/borealis_utilities.py | 2 ++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 06485e1..46bc299 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -605,7 +605,7 @@ class BaseFormat():
                                 actual_size = site_file[record_name][field].size
                                 num_sequences = site_file[record_name]['data_dimensions'][1]
                                 num_pulses = site_file[record_name]['pulses'].size
-                                if actual_size != num_sequences * num_pulses and actual_size != 0:
+                                if actual_size not in (num_sequences * num_pulses, num_pulses, 0):
                                     if actual_size == 1:    # This is the special case
                                         field_shape = (0,)
                                     else:
diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 75be181..6144cb8 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -398,7 +398,7 @@ class BorealisConvert(BorealisRead):
                                                   record['pulses'],
                                                   int(record['tau_spacing'] /
                                                       record['tx_pulse_len'])))
-                if not all([x == 0 for x in record['pulse_phase_offset']]):
+                if np.any(record['pulse_phase_offset'] != 0):
                     raise borealis_exceptions.\
                             BorealisConvert2IqdatError(
                                 'Increased complexity: Borealis bfiq file '
diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index aa0977a..c285730 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2102,6 +2102,9 @@ class BorealisBfiqv0_6(BorealisBfiqv0_5):
             'pulse_phase_offset': [lambda arrays, record_num:
                                    -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
                                    else
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if len(arrays['pulse_phase_offset'].shape) == 2
+                                   else
                                    list((arrays['num_sequences'][record_num],)
                                         + arrays['pulse_phase_offset'][
                                               record_num].shape[1:])],
@@ -2175,6 +2178,9 @@ class BorealisAntennasIqv0_6(BorealisAntennasIqv0_5):
             'pulse_phase_offset': [lambda arrays, record_num:
                                    -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
                                    else
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if len(arrays['pulse_phase_offset'].shape) == 2
+                                   else
                                    list((arrays['num_sequences'][record_num],)
                                         + arrays['pulse_phase_offset'][
                                               record_num].shape[1:])],
diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e00fefe..edf20e9 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -636,5 +636,7 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
+            if ppo.shape == (rec.get('num_sequences'), rec['pulses'].size):  # One offset per pulse of each sequence
+                continue
             if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From d79c8fae31bbdb62630b6fbcd80c20a5801bc74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 13/48] fix: report an unknown file type when writing Borealis
 site files

The exception could not be built because the file name was not set yet.
---
 pydarnio/borealis/borealis_site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 833b064..f30320e 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -343,12 +343,12 @@ class BorealisSiteWrite():
         BorealisVersionError
             Borealis software version format does not exist in pyDARNio
         """
+        self.filename = filename
         self._records = borealis_records
         if borealis_filetype not in ['bfiq', 'antennas_iq', 'rawacf', 'rawrf']:
             raise borealis_exceptions.BorealisFileTypeError(
                 self.filename, borealis_filetype)
         self.borealis_filetype = borealis_filetype
-        self.filename = filename
         self.compression = hdf5_compression
         self._record_names = sorted(list(borealis_records.keys()))
 
-- 
2.43.0


From 38b103327100b68a371fc89278424e3a3262a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 14/48] fix: read and write Borealis rawrf site files

Rawrf fields are not classified for restructuring, so the list of site
fields was empty and every rawrf file was refused; v0.7 failed on a
missing method.
---
 pydarnio/borealis/borealis_formats.py | 44 ++++++++-------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c285730..c3ebbc9 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -1685,6 +1685,18 @@ class BorealisRawrfv0_4(BaseFormat):
         """
         return cls.fields.array_types('rawrf')
 
+    @classmethod
+    def site_fields(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        Rawrf is not restructureable, so its fields are not classified as
+        shared, unshared or specific. All of them are in a site file.
+        """
+        return list(cls.single_element_types()) + list(cls.array_dtypes())
+
 
 class BorealisRawacfv0_5(BorealisRawacfv0_4):
     """
@@ -2605,38 +2617,6 @@ class BorealisRawrf(BorealisRawrfv0_6):
     """
     fields = BorealisFields
 
-    @classmethod
-    def unshared_fields_dims_array(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_array()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
-            })
-        return unshared_fields_dims
-
-    @classmethod
-    def unshared_fields_dims_site(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_site()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
-            })
-        return unshared_fields_dims
-
 
 # borealis versions
 borealis_version_dict = {
-- 
2.43.0


From 6b584407e78ec698ce4aac5b260403ccc8396580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 15/48] fix: find the most beams of all records in file
 restructuring

Only the first record was considered, so restructuring failed when a later
record had more beams.
---
 pydarnio/borealis/base_format.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 46bc299..2e07289 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -612,11 +612,12 @@ class BaseFormat():
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
                             continue
+                        if field == 'beam_nums':
+                            max_num_beams = max(field_shape[0], max_num_beams)
+
                         # Initialize shape to first record's field dimensions
                         if rec_idx == 0:
                             fields_max_dims[field] = field_shape
-                            if field == 'beam_nums':
-                                max_num_beams = max(field_shape[0], max_num_beams)
                         else:
                             # Update dims to keep largest for all records
                             new_shape = map(lambda dima, dimb: max(dima, dimb),
-- 
2.43.0


From 25bd23b8f0be19d7a6b8f07db2b6a849ce858f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 16/48] fix: keep single pulse phase offsets when there are
 more sequences

The number of offsets was compared with the number of sequences to find
fields written empty, which also matched one offset per record.
---
 pydarnio/borealis/borealis_formats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c3ebbc9..df75b98 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2112,11 +2112,11 @@ class BorealisBfiqv0_6(BorealisBfiqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
-                                   else
                                    list(arrays['pulse_phase_offset'].shape[1:])
                                    if len(arrays['pulse_phase_offset'].shape) == 2
                                    else
+                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   else
                                    list((arrays['num_sequences'][record_num],)
                                         + arrays['pulse_phase_offset'][
                                               record_num].shape[1:])],
@@ -2188,11 +2188,11 @@ class BorealisAntennasIqv0_6(BorealisAntennasIqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
-                                   else
                                    list(arrays['pulse_phase_offset'].shape[1:])
                                    if len(arrays['pulse_phase_offset'].shape) == 2
                                    else
+                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   else
                                    list((arrays['num_sequences'][record_num],)
                                         + arrays['pulse_phase_offset'][
                                               record_num].shape[1:])],
-- 
2.43.0


From e98b3fff5523f7a1295c6e43ee7862b4ccb97a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 17/48] fix: keep the pulse phase offsets of two-pulse Borealis
 array files

Two offsets were taken for a field that was empty when written.
---
 pydarnio/borealis/borealis_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index edf20e9..f2fe443 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -624,6 +624,8 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
+        if ppo.dtype.type == np.float32 and ppo.shape == np.shape(data_dict.get('pulses')):  # One offset per pulse
+            return
         if ppo.shape == (2,):  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
-- 
2.43.0


From 15da716fe5440a0fd654086200637b9bbdca3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 18/48] fix: refuse DMAP strings that contain a null character

The format ends strings with a null character, so the record was written
but could not be read back.
---
 pydarnio/dmap/dmap.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index e13a6e1..2430371 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1076,6 +1076,27 @@ class DmapWrite(object):
         self.dmap_bytearr.extend(struct.pack('i', num_arrays))
         self.dmap_bytearr.extend(data_bytearray)
 
+    def _string_to_bytes(self, string: str) -> bytes:
+        """
+        Converts a string to byte format, which ends with a null character.
+
+        Parameter
+        ---------
+        string : str
+            String to be converted into byte format
+
+        Raises
+        ------
+        DmapDataError
+            if the string contains a null character
+        """
+        string_bytes = "{0}".format(string).encode('utf-8')
+        if b'\0' in string_bytes:
+            message = "Error: The string {} contains a null character."\
+                " Failed at record {}".format(repr(string), self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.filename, message)
+        return string_bytes + b'\0'
+
     def dmap_scalar_to_bytes(self, scalar: DmapScalar) -> bytes:
         """
         Converts a DmapScalar to byte format.
@@ -1092,13 +1113,13 @@ class DmapWrite(object):
             Bytes of the scalar
         """
 
-        scalar_name_bytes = "{0}\0".format(scalar.name).encode('utf-8')
+        scalar_name_bytes = self._string_to_bytes(scalar.name)
 
         scalar_type_bytes = struct.pack('c',
                                         chr(scalar.data_type).encode('utf-8'))
 
         if scalar.data_type_fmt == 's':
-            scalar_data_bytes = "{0}\0".format(scalar.value).encode('utf-8')
+            scalar_data_bytes = self._string_to_bytes(scalar.value)
         elif scalar.data_type_fmt == 'c':
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
@@ -1145,7 +1166,7 @@ class DmapWrite(object):
         # the DMap format stores the data in the native byte order
         if not array_value.dtype.isnative:
             array_value = array_value.astype(array_value.dtype.newbyteorder('='))
-        array_name_bytes = "{0}\0".format(array.name).encode('utf-8')
+        array_name_bytes = self._string_to_bytes(array.name)
 
         array_type_bytes = struct.pack('c',
                                        chr(array.data_type).encode('utf-8'))
-- 
2.43.0


From 7af74d1dc877b47ab38c14d12676645765006bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 19/48] fix: refuse negative dimensions of the DMAP array slist

Only an empty slist is meant to be allowed. A negative dimension moved the
reader backwards and returned data of other fields.
---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 2430371..cd3d1c3 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -572,7 +572,8 @@ class DmapRead():
 
         # slist is the array that holds the range gates that have valid data
         # when qflg is 1
-        if any(x <= 0 for x in array_shape) and array_name != "slist":
+        if any(x < 0 or (x == 0 and array_name != "slist")
+               for x in array_shape):
             message = "Error: Array shape {shape} contains "\
                 "dimension size <= 0."\
                 " Failed at record {rec}".format(shape=array_shape,
-- 
2.43.0


From 016dfa4e45a6bca5fde3d253ca0cbc41eeec1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 20/48] fix: read DMAP long arrays as the type that can be
 written again

Arrays of type q and Q were returned as longlong and ulonglong, which
dict2dmap does not accept.
---
 pydarnio/dmap/dmap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index cd3d1c3..0498024 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -809,6 +809,12 @@ class DmapRead():
             # allowing this assumption to be allowed for now
             array = np.frombuffer(self.dmap_buffer, np.int8,
                                   total_number_cells, self.cursor)
+        elif data_type_fmt in ('q', 'Q'):
+            # numpy's 'q' and 'Q' are not always its int64 and uint64 types,
+            # which are the ones that can be written
+            data_type = {'q': np.int64, 'Q': np.uint64}[data_type_fmt]
+            array = np.frombuffer(self.dmap_buffer, data_type,
+                                  total_number_cells, self.cursor)
         else:
             array = np.frombuffer(self.dmap_buffer, data_type_fmt,
                                   total_number_cells, self.cursor)
-- 
2.43.0


From f37f3ca2f274e7e0518ce4cf872b77afc26cd330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 21/48] fix: write an empty DMAP array of chars

Checking its first element for text raised an IndexError.
---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 0498024..35efaae 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1161,7 +1161,8 @@ class DmapWrite(object):
             Total bytes of the array
         """
         # need to ensure the array is flattened
-        if array.data_type_fmt == 'c' and isinstance(array.value[0], str):
+        if array.data_type_fmt == 'c' and len(array.value) > 0 and \
+                isinstance(array.value[0], str):
             raise dmap_exceptions.DmapCharError(array.name, self.rec_num)
         elif array.data_type_fmt == 's':
             message = "Error: Trying to read array of strings."\
-- 
2.43.0


From 7b21e28234757504805e025154a7b53a6ebdb127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 22/48] fix: write Borealis strings that are not ASCII

The writers failed part way through the file, although the readers decode
strings as UTF-8.
---
 pydarnio/borealis/base_format.py          | 4 ++--
 pydarnio/borealis/borealis_restructure.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 2e07289..7b70539 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1392,7 +1392,7 @@ class BaseFormat():
                 for k, v in group_dict.items():
                     if k in attribute_types.keys():
                         if isinstance(v, str):
-                            group.attrs[k] = np.bytes_(v)
+                            group.attrs[k] = np.bytes_(v.encode('utf-8'))
                         else:
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
@@ -1431,7 +1431,7 @@ class BaseFormat():
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-                        f.attrs[k] = np.bytes_(v)
+                        f.attrs[k] = np.bytes_(v.encode('utf-8'))
                     else:
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 2846901..de52159 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -436,7 +436,10 @@ class BorealisRestructure(object):
                             # place data buffer in the correct place
                             empty_array[index_slice] = data_buffer
                         else:  # not an array, num_records is the only dimension
-                            empty_array[rec_idx] = data_dict[field]
+                            value = data_dict[field]
+                            if isinstance(value, bytes):
+                                value = value.decode('utf-8')
+                            empty_array[rec_idx] = value
 
             attribute_types = self.format.array_single_element_types()
             dataset_types = self.format.array_array_dtypes()
-- 
2.43.0


From ed6d5873b8826524112e6efba1addd4bb54dd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 23/48] fix: write Borealis string arrays that are not
 contiguous

They cannot be viewed as bytes, so the write failed part way through the
file.
---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 7b70539..da0c07b 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1397,7 +1397,7 @@ class BaseFormat():
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
                         itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
-                        dset = group.create_dataset(k, data=v.view(dtype=(np.uint8)),
+                        dset = group.create_dataset(k, data=np.ascontiguousarray(v).view(dtype=(np.uint8)),
                                                     compression=compression)
                         dset.attrs['strtype'] = b'unicode'
                         dset.attrs['itemsize'] = itemsize
@@ -1436,7 +1436,7 @@ class BaseFormat():
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
                     itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
-                    dset = f.create_dataset(k, data=v.view(dtype=(np.uint8)), compression=compression)
+                    dset = f.create_dataset(k, data=np.ascontiguousarray(v).view(dtype=(np.uint8)), compression=compression)
                     dset.attrs['strtype'] = b'unicode'
                     dset.attrs['itemsize'] = itemsize
                 else:
-- 
2.43.0


From 76e2b7885025fb846b68762e62b0a0c097e14447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 24/48] fix: restructure Borealis strings longer than 256
 characters

slice_interfacing lists every interfaced slice and was cut off.
---
 pydarnio/borealis/base_format.py          | 5 +++--
 pydarnio/borealis/borealis_restructure.py | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index da0c07b..8509118 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1105,8 +1105,9 @@ class BaseFormat():
                 datatype = cls.array_dtypes()[field]
             if datatype == str:
                 # unicode type needs to be explicitly set to have
-                # multiple chars (256)
-                datatype='|U256'
+                # multiple chars (256, or more if a record needs them)
+                datatype = '|U{}'.format(max([256] + [
+                    len(record[field]) for record in data_dict.values()]))
             empty_array = np.empty(array_dims, dtype=datatype)
             # Some indices may not be filled due to dimensions that are maximum values (num_sequences, etc. can change
             # between records), so they are initialized with a known value first.
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index de52159..b534870 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -439,6 +439,11 @@ class BorealisRestructure(object):
                             value = data_dict[field]
                             if isinstance(value, bytes):
                                 value = value.decode('utf-8')
+                            if isinstance(value, str) and \
+                                    len(value) > empty_array.dtype.itemsize // 4:
+                                # longer than the strings before
+                                empty_array = empty_array.astype('|U{}'.format(len(value)))
+                                new_data_dict[field] = empty_array
                             empty_array[rec_idx] = value
 
             attribute_types = self.format.array_single_element_types()
-- 
2.43.0


From 8faf603527a271e2095d4819fe701d974c1d56e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 25/48] fix: name Borealis fields whose values have no numpy
 type

A Python number, list or None in a Borealis field made the type checks
raise AttributeError instead of the error that names the field.
---
 pydarnio/borealis/borealis_utilities.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index f2fe443..f1f95be 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -263,12 +263,15 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(record[param]) !=
                                  attributes_type_dict[param] and
-                                 record[param].shape is not None}
+                                 getattr(record[param], 'shape', ())
+                                 is not None}
 
         incorrect_types_check.update({param: 'np.ndarray of ' +
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
-                                      if record[param].dtype.type !=
+                                      if getattr(getattr(record[param],
+                                                         'dtype', None),
+                                                 'type', None) !=
                                       datasets_type_dict[param]})
         if len(incorrect_types_check) > 0:
             raise borealis_exceptions.BorealisDataFormatTypeError(
@@ -323,7 +326,8 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(file_data[param]) !=
                                  attributes_type_dict[param] and
-                                 file_data[param].shape is not None}
+                                 getattr(file_data[param], 'shape', ())
+                                 is not None}
 
         datasets_type_dict_keys = sorted(list(datasets_type_dict.keys()))
         np_array_types = [isinstance(file_data[param], np.ndarray) for param in
@@ -624,6 +628,8 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
+        if not hasattr(ppo, 'dtype'):  # Reported by the field checks
+            return
         if ppo.dtype.type == np.float32 and ppo.shape == np.shape(data_dict.get('pulses')):  # One offset per pulse
             return
         if ppo.shape == (2,):  # The field is broken, was empty when written to file and so was restructured improperly
@@ -638,6 +644,8 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
+            if not hasattr(ppo, 'shape') or not hasattr(rec['pulses'], 'shape'):  # Reported by the field checks
+                continue
             if ppo.shape == (rec.get('num_sequences'), rec['pulses'].size):  # One offset per pulse of each sequence
                 continue
             if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
-- 
2.43.0


From 048661e7173ba190bbd1300b49737b49dad648fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 26/48] fix: refuse text in numeric arrays of Borealis array
 files

Arrays of text were accepted in every array field, not only in the ones
that hold text.
---
 pydarnio/borealis/borealis_utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index f1f95be..55fac45 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -348,8 +348,10 @@ class BorealisUtilities():
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
                                       if file_data[param].dtype.type !=
-                                      datasets_type_dict[param] and
-                                      file_data[param].dtype.type != np.str_})
+                                      datasets_type_dict[param] and not
+                                      (file_data[param].dtype.type == np.str_
+                                       and issubclass(datasets_type_dict[param],
+                                                      (str, bytes)))})
         if 'pulse_phase_offset' in incorrect_types_check.keys():
             if file_data['pulse_phase_offset'].dtype.type == np.int64 and file_data['pulse_phase_offset'].shape == (2,):
                 incorrect_types_check.pop('pulse_phase_offset')     # This field is problematic, hack to ignore
-- 
2.43.0


From f515148bc1c7a76b745dc1999ce2f9944728fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 27/48] fix: report pulses missing from Borealis records

Repairing pulse_phase_offset raised KeyError before the field checks could
name the missing field.
---
 pydarnio/borealis/borealis_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 55fac45..aab269b 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -634,7 +634,7 @@ class BorealisUtilities():
             return
         if ppo.dtype.type == np.float32 and ppo.shape == np.shape(data_dict.get('pulses')):  # One offset per pulse
             return
-        if ppo.shape == (2,):  # The field is broken, was empty when written to file and so was restructured improperly
+        if ppo.shape == (2,) and np.ndim(data_dict.get('num_sequences')) > 0:  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
     @staticmethod
@@ -646,7 +646,7 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
-            if not hasattr(ppo, 'shape') or not hasattr(rec['pulses'], 'shape'):  # Reported by the field checks
+            if not hasattr(ppo, 'shape') or not hasattr(rec.get('pulses'), 'shape'):  # Reported by the field checks
                 continue
             if ppo.shape == (rec.get('num_sequences'), rec['pulses'].size):  # One offset per pulse of each sequence
                 continue
-- 
2.43.0


From 722eeff434472ca026f645b7293ec0b93de10d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 28/48] fix: refuse single values in array fields of Borealis
 site records

A single value of the right type was accepted where an array is required.
---
 pydarnio/borealis/borealis_utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index aab269b..e64b780 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -269,9 +269,9 @@ class BorealisUtilities():
         incorrect_types_check.update({param: 'np.ndarray of ' +
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
-                                      if getattr(getattr(record[param],
-                                                         'dtype', None),
-                                                 'type', None) !=
+                                      if not isinstance(record[param],
+                                                        np.ndarray) or
+                                      record[param].dtype.type !=
                                       datasets_type_dict[param]})
         if len(incorrect_types_check) > 0:
             raise borealis_exceptions.BorealisDataFormatTypeError(
-- 
2.43.0


From 7f2bd5047cba37b7ff908c8faf2853ae1f8d666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 29/48] fix: report an array of sequence numbers in a Borealis
 record

Repairing pulse_phase_offset raised ValueError before the field checks could
name num_sequences.
---
 pydarnio/borealis/borealis_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e64b780..754fc4b 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -648,7 +648,8 @@ class BorealisUtilities():
             ppo = rec['pulse_phase_offset']
             if not hasattr(ppo, 'shape') or not hasattr(rec.get('pulses'), 'shape'):  # Reported by the field checks
                 continue
-            if ppo.shape == (rec.get('num_sequences'), rec['pulses'].size):  # One offset per pulse of each sequence
+            if np.ndim(rec.get('num_sequences')) == 0 and \
+                    ppo.shape == (rec.get('num_sequences'), rec['pulses'].size):  # One offset per pulse of each sequence
                 continue
             if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From 8ad91edefce0fe5f91be7b6786af969ee9aa04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 30/48] fix: set xcf when converting v0.7 bfiq files with
 interferometer data

The names of the antenna arrays are bytes in v0.7 and never compared equal
to the text 'intf'.
---
 pydarnio/borealis/borealis_convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 6144cb8..a7e1f77 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -697,7 +697,9 @@ class BorealisConvert(BorealisRead):
                 'nrang': np.int16(record_dict['num_ranges']),
                 'frang': np.int16(round(record_dict['first_range'])),
                 'rsep': np.int16(round(record_dict['range_sep'])),
-                'xcf': np.int16('intf' in record_dict['antenna_arrays_order']),
+                'xcf': np.int16('intf' in
+                                record_dict['antenna_arrays_order'].
+                                astype(str)),
                 'tfreq': np.int16(record_dict['freq']),
                 # mxpwr filler; cannot specify this information
                 'mxpwr': np.int32(-1),
-- 
2.43.0


From f4c7f04659bb6d20b289eeab5f8ead9ffa631cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 31/48] fix: compare Borealis versions as numbers when checking
 convertibility

The version was compared as text with 0, so the stricter condition on
blanked_samples of v0.5 and older was never applied.
---
 pydarnio/borealis/borealis_convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index a7e1f77..b691899 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -366,8 +366,8 @@ class BorealisConvert(BorealisRead):
                 # then use 255.255
                 if record['borealis_git_hash'][0] == 'v':  # tagged version, non-tagged versions have hexadecimal
                     version = record['borealis_git_hash'].split('-')[0].split('.')
-                    borealis_major_revision = version[0][1:]  # strip off the 'v'
-                    borealis_minor_revision = version[1]
+                    borealis_major_revision = int(version[0][1:])  # strip off the 'v'
+                    borealis_minor_revision = int(version[1])
                 else:
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
@@ -442,8 +442,8 @@ class BorealisConvert(BorealisRead):
                 # then use 255.255
                 if record['borealis_git_hash'][0] == 'v':  # tagged version, non-tagged versions have hexadecimal
                     version = record['borealis_git_hash'].split('-')[0].split('.')
-                    borealis_major_revision = version[0][1:]  # strip off the 'v'
-                    borealis_minor_revision = version[1]
+                    borealis_major_revision = int(version[0][1:])  # strip off the 'v'
+                    borealis_minor_revision = int(version[1])
                 else:
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
-- 
2.43.0


From b789e0ace50781f3a97b5bc496f12c96812bf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 32/48] fix: report errors when storing the data of Borealis
 datasets

Data still cached when a dataset was closed was lost without an error if it
could not be stored then.
---
 pydarnio/borealis/base_format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 8509118..a5f8922 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1402,8 +1402,9 @@ class BaseFormat():
                                                     compression=compression)
                         dset.attrs['strtype'] = b'unicode'
                         dset.attrs['itemsize'] = itemsize
+                        dset.flush()    # errors when it is closed are ignored
                     else:
-                        group.create_dataset(k, data=v, compression=compression)
+                        group.create_dataset(k, data=v, compression=compression).flush()
 
     @classmethod
     def write_arrays(cls, filename: str, arrays: OrderedDict, compression: str):
@@ -1440,8 +1441,9 @@ class BaseFormat():
                     dset = f.create_dataset(k, data=np.ascontiguousarray(v).view(dtype=(np.uint8)), compression=compression)
                     dset.attrs['strtype'] = b'unicode'
                     dset.attrs['itemsize'] = itemsize
+                    dset.flush()    # errors when it is closed are ignored
                 else:
-                    f.create_dataset(k, data=v, compression=compression)
+                    f.create_dataset(k, data=v, compression=compression).flush()
 
     # STATIC METHODS COMMON ACROSS FORMATS
     # i.e. common methods that can be used by multiple formats in restructuring
-- 
2.43.0


From f0e8a7edea383d995e146ec94aeae298aab85594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:07 +0000
Subject: [PATCH 33/48] fix: order the arrays of a Borealis site writer by
 record name

BorealisSiteWrite.arrays followed the order of the caller's dictionary, so
records given in another order made arrays that disagreed with the file
just written and with record_names.
---
 pydarnio/borealis/borealis_site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index f30320e..5ee0abc 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -422,7 +422,9 @@ class BorealisSiteWrite():
 
         if self.format.is_restructureable():
             try:
-                arrays = self.format._site_to_array(self.records)
+                # in the order of record_names, as stored in the file
+                arrays = self.format._site_to_array(
+                    OrderedDict(sorted(self.records.items())))
                 BorealisUtilities.check_arrays(
                     self.filename, arrays,
                     self.format.array_single_element_types(),
-- 
2.43.0


From 6a42f4efdcf5164586149207e402eab880b4edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 34/48] fix: do not convert a Borealis file onto itself under
 another name

The check that the output is not the source compared file names only, so
another spelling, a symbolic or a hard link replaced the source file.
---
 pydarnio/borealis/borealis_convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index b691899..e11096b 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -42,6 +42,7 @@ Update noise values in SDarn fields when these can be calculated.
 """
 import logging
 import numpy as np
+import os
 
 from datetime import datetime
 from typing import Union
@@ -235,7 +236,10 @@ class BorealisConvert(BorealisRead):
                 self.sdarn_filename, self.borealis_filetype,
                 self.__allowed_conversions)
 
-        if self.borealis_filename == self.sdarn_filename:
+        if self.borealis_filename == self.sdarn_filename or (
+                os.path.exists(self.sdarn_filename) and
+                os.path.samefile(self.borealis_filename,
+                                 self.sdarn_filename)):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.borealis_filename)
         self._write_to_sdarn()
-- 
2.43.0


From bb80febf2721897778b3315f7b9374ef8f5eebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 35/48] fix: report errors while finding the dimensions of site
 records

site_get_max_dims took any KeyError for a field that is not there. h5py also
raises KeyError when an attribute, dataset or group cannot be read, so after
a read error the site to array restructuring wrote arrays without sequences
and returned normally.
---
 pydarnio/borealis/base_format.py | 43 +++++++++++++++-----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index a5f8922..7e28dc9 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -587,31 +587,28 @@ class BaseFormat():
         # needed for conversion to array file.
         with h5py.File(filename, 'r') as site_file:
             for rec_idx, record_name in enumerate(site_file):
+                record = site_file[record_name]
                 for field, dims in fields_max_dims.items():
-                    try:
-                        # TypeError on booleans (ie: scan_start_marker)
-                        # KeyError if field is dataset instead of attribute
-                        field_value = site_file[record_name].attrs[field]
+                    # An error while reading raises KeyError too, so look
+                    # for the field instead of catching that.
+                    if field in record.attrs:
                         if field == 'num_sequences':
-                            max_num_sequences = max(max_num_sequences, field_value)
-                    except (KeyError, TypeError) as e:
-                        try:
-                            # Raises KeyError if field DNE as dataset
-                            field_shape = site_file[record_name][field].shape
-                            if field == 'pulse_phase_offset':
-                                # Borealis files are written with deepdish, and this field is sometimes written
-                                # as an empty array. If read in by h5py, h5py reads the dimensions as the data
-                                # so here we check to catch that case.
-                                actual_size = site_file[record_name][field].size
-                                num_sequences = site_file[record_name]['data_dimensions'][1]
-                                num_pulses = site_file[record_name]['pulses'].size
-                                if actual_size not in (num_sequences * num_pulses, num_pulses, 0):
-                                    if actual_size == 1:    # This is the special case
-                                        field_shape = (0,)
-                                    else:
-                                        raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
-                        except KeyError:
-                            continue
+                            max_num_sequences = max(max_num_sequences,
+                                                    record.attrs[field])
+                    elif field in record:
+                        field_shape = record[field].shape
+                        if field == 'pulse_phase_offset':
+                            # Borealis files are written with deepdish, and this field is sometimes written
+                            # as an empty array. If read in by h5py, h5py reads the dimensions as the data
+                            # so here we check to catch that case.
+                            actual_size = record[field].size
+                            num_sequences = record['data_dimensions'][1]
+                            num_pulses = record['pulses'].size
+                            if actual_size not in (num_sequences * num_pulses, num_pulses, 0):
+                                if actual_size == 1:    # This is the special case
+                                    field_shape = (0,)
+                                else:
+                                    raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         if field == 'beam_nums':
                             max_num_beams = max(field_shape[0], max_num_beams)
 
-- 
2.43.0


From 010a57c5b08e83cacd291bfff3d866ac43c9e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 36/48] fix: restructure Borealis records without blanked
 samples in memory

A site record whose blanked_samples is empty could be restructured to
arrays from file to file, but in memory it raised a ValueError: the
dimension of length zero was left out of the index, so the empty array
was assigned to all places of the record.
---
 pydarnio/borealis/base_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 7e28dc9..26e581d 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1127,7 +1127,7 @@ class BaseFormat():
                     # dims with a determined max value
                     data_buffer = data_dict[k][field]
                     buffer_shape = data_buffer.shape
-                    index_slice = [slice(0, i) for i in buffer_shape if i != 0]
+                    index_slice = [slice(0, i) for i in buffer_shape]
                     # insert record index at start of array's slice list
                     index_slice.insert(0, rec_idx)
                     index_slice = tuple(index_slice)
-- 
2.43.0


From 3bfb662b96f1b450763bdf86720ce42d0191f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 37/48] fix: the records of a generic read by SDarnRead are
 available from it

SDarnRead.read_records() left get_records without an attribute, or with the records of an earlier read as some type.
---
 pydarnio/dmap/superdarn.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 791db3e..55bda82 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -417,6 +417,22 @@ class SDarnRead(DmapRead):
         """
         return self.records
 
+    def read_records(self) -> List[dict]:
+        """
+        Reads the records of a DMAP file/stream without checking the fields
+
+        Returns
+        -------
+        records : List[dict]
+            DMAP records of the file
+
+        See Also
+        --------
+        DmapRead.read_records
+        """
+        self.records = DmapRead.read_records(self)
+        return self.records
+
     def read_iqdat(self) -> List[dict]:
         """
         Reads iqdat DMAP file/stream
-- 
2.43.0


From 6827288b9921b6ecb90898626302ae442c64f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 38/48] fix: refuse to write Borealis records into a file of
 arrays

Site records were written as groups next to the arrays of an existing
array file, by the writer and by the restructuring of an array file to
site, leaving a file that is neither.
---
 pydarnio/borealis/base_format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 26e581d..e041048 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1385,6 +1385,9 @@ class BaseFormat():
             if existing:
                 raise ValueError('Unable to write to {}: records {} already '
                                  'exist'.format(filename, existing))
+            if any(f.get(name, getclass=True) is h5py.Dataset for name in f):
+                raise ValueError('Unable to write to {}: the file already '
+                                 'contains arrays'.format(filename))
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
                 for k, v in group_dict.items():
-- 
2.43.0


From c3c073365734cad6b8c0dc100c5431e4a45e016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 39/48] fix: write the records given to write_dmap_stream

A writer that held records already, from its constructor or from an
earlier call, ignored the records passed to write_dmap_stream and
returned the bytes of the old ones.
---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 35efaae..e1b14d5 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -988,7 +988,8 @@ class DmapWrite(object):
         No checks are done, this up to the user to ensure their fields are
         correct.
         """
-        if self.dmap_records == []:
+        # the records given, even if the writer holds others already
+        if len(dmap_records) > 0:
             self.dmap_records = self.__check_dmap_dict(dmap_records)
         self._empty_record_check()
         pyDARNio_log.info("Writing to dmap stream")
-- 
2.43.0


From aa49f3aa4b774d3a7c248b31d4d073abc5a3f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 40/48] fix: refuse to write no DMAP records whatever holds
 them

Only an empty list was refused. An empty deque, which is what readers
return their records in, or tuple was written as an empty file, over
what the file held.
---
 pydarnio/dmap/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index e1b14d5..5010c29 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -997,7 +997,7 @@ class DmapWrite(object):
         return self.dmap_bytearr
 
     def _empty_record_check(self):
-        if self.dmap_records == []:
+        if len(self.dmap_records) == 0:
             raise dmap_exceptions.DmapDataError(self.filename,
                                                 "DMap record is empty "
                                                 "there is nothing to write.")
-- 
2.43.0


From cff4e7006442bd0240c22115c11b03d00c79a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 41/48] fix: keep empty strings that differ between Borealis
 records

A site file stores an empty string attribute as an empty dataspace. For a
field of one string per record, such as slice_interfacing, restructuring
file to file stored the text "Empty(dtype=dtype('S1'))" in the array.
---
 pydarnio/borealis/borealis_restructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index b534870..f5aebd5 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -439,6 +439,9 @@ class BorealisRestructure(object):
                             value = data_dict[field]
                             if isinstance(value, bytes):
                                 value = value.decode('utf-8')
+                            elif isinstance(value, h5py.Empty) and \
+                                    value.dtype.char == 'S':
+                                value = ''  # an empty string
                             if isinstance(value, str) and \
                                     len(value) > empty_array.dtype.itemsize // 4:
                                 # longer than the strings before
-- 
2.43.0


From cb15d40efaee0690452403380cb59d52cb646640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 42/48] fix: show Borealis writers that are printed

repr() and str() of BorealisWrite and BorealisArrayWrite raised
AttributeError: they used a current_record_name that neither has.
---
 pydarnio/borealis/borealis.py       | 10 ++++------
 pydarnio/borealis/borealis_array.py | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 331f9ca..51bfd2c 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -367,18 +367,16 @@ class BorealisWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def borealis_file_structure(self):
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 0b15680..995de60 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -349,18 +349,16 @@ class BorealisArrayWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def record_names(self):
-- 
2.43.0


From dcd362224df63f4de829db75b02ea6995fe3f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 43/48] fix: refuse DMAP records that store a field more than
 once

A record is a dictionary of its fields, so that of several fields of the
same name (as damage can make of a file) all but the last were dropped
without notice.
---
 pydarnio/dmap/dmap.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 5010c29..dad09e5 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -468,11 +468,13 @@ class DmapRead():
         record = collections.OrderedDict()
         for i in range(num_scalars):
             scalar = self.read_scalar()
+            self._repeated_field_check(scalar.name, record)
             record[scalar.name] = scalar
 
         pyDARNio_log.debug("Reading record: reading arrays\n")
         for i in range(num_arrays):
             array = self.read_array(block_size)
+            self._repeated_field_check(array.name, record)
             record[array.name] = array
 
         # check for a cursor error
@@ -482,6 +484,28 @@ class DmapRead():
 
         return record
 
+    def _repeated_field_check(self, name: str, record: dict):
+        """
+        Checks if a field with the same name was read in the record already,
+        a record can only hold one of them.
+
+        Parameter
+        ---------
+        name : str
+            Name of the field read in
+        record : dict
+            The fields of the record read in so far
+
+        Raises
+        ------
+        DmapDataError
+            if the record has a field of this name
+        """
+        if name in record:
+            message = "Error: The field {name} is stored more than once."\
+                " Failed at record {rec}".format(name=name, rec=self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.dmap_file, message)
+
     def read_scalar(self) -> DmapScalar:
         """
         Reads a scalar and stores the properties into a namedtuple DmapScalar.
-- 
2.43.0


From 50f8db78b828ae601aa70060db400507ac595b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 44/48] fix: refuse Borealis arrays whose records would get the
 same name

Restructuring arrays in memory (also to convert them) dropped all but the
last of the records whose first sequences start in the same millisecond,
as they get the same name in site structure.
---
 pydarnio/borealis/base_format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index e041048..b13d49a 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1188,6 +1188,9 @@ class BaseFormat():
             epoch = datetime.utcfromtimestamp(0)
             key = str(int((seq_datetime - epoch).total_seconds() * 1000))
 
+            if key in timestamp_dict:
+                raise ValueError('Unable to restructure: several records have '
+                                 'the name {}'.format(key))
             timestamp_dict[key] = dict()
             # populate shared fields in each record,
             for field in cls.shared_fields():
-- 
2.43.0


From 707425bba630ad45abec36e930a9278a91030a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 45/48] fix: refuse to convert Borealis values that SuperDARN
 fields cannot hold

Values that do not fit in the short (or, for times, the int) that SuperDARN
files have for them were stored as other values without notice.
---
 pydarnio/borealis/borealis_convert.py | 106 ++++++++++++++++++--------
 1 file changed, 76 insertions(+), 30 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index e11096b..e1c2174 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -98,6 +98,31 @@ code_to_stid = {
 }
 
 
+def _to_integer(dtype: type, field: str, value):
+    """
+    Converts the value of a SDARN field to the integer it is stored as.
+
+    Parameters
+    ----------
+    dtype : type
+        The numpy integer type of the field.
+    field : str
+        Name of the SDARN field.
+    value : int or float
+        The value of the field.
+
+    Raises
+    ------
+    ValueError
+        If the value does not fit.
+    """
+    limits = np.iinfo(dtype)
+    if not limits.min <= value <= limits.max:
+        raise ValueError('The value {} of {} does not fit in {} bits'
+                         ''.format(value, field, limits.bits))
+    return dtype(value)
+
+
 class BorealisConvert(BorealisRead):
     """
     Class for converting Borealis filetypes to SDARN DMap filetypes.
@@ -639,7 +664,8 @@ class BorealisConvert(BorealisRead):
                 'origin.command': 'Borealis ' + \
                                   record_dict['borealis_git_hash'] + \
                                   ' ' + record_dict['experiment_name'],
-                'cp': np.int16(record_dict['experiment_id']),
+                'cp': _to_integer(
+                    np.int16, 'cp', record_dict['experiment_id']),
                 'stid': np.int16(code_to_stid[record_dict['station']]),
                 'time.yr': np.int16(datetime.
                                     utcfromtimestamp(
@@ -670,11 +696,14 @@ class BorealisConvert(BorealisRead):
                                         record_dict['sqn_timestamps'][0]).
                                     microsecond),
                 'txpow': np.int16(-1),
-                'nave': np.int16(record_dict['num_sequences']),
+                'nave': _to_integer(
+                    np.int16, 'nave', record_dict['num_sequences']),
                 'atten': np.int16(0),
-                'lagfr': np.int16(record_dict['first_range_rtt']),
+                'lagfr': _to_integer(
+                    np.int16, 'lagfr', record_dict['first_range_rtt']),
                 # smsep is in us; conversion from seconds
-                'smsep': np.int16(1e6 / record_dict['rx_sample_rate']),
+                'smsep': _to_integer(
+                    np.int16, 'smsep', 1e6 / record_dict['rx_sample_rate']),
                 'ercod': np.int16(0),
                 'stat.agc': np.int16(agc_sw),
                 'stat.lopwr': np.int16(lp_sw),
@@ -682,29 +711,36 @@ class BorealisConvert(BorealisRead):
                 'noise.search': np.float32(record_dict['noise_at_freq'][0]),
                 # TODO: currently not implemented
                 'noise.mean': np.float32(0),
-                'channel': np.int16(borealis_slice_id),
-                'bmnum': np.int16(beam),
+                'channel': _to_integer(np.int16, 'channel', borealis_slice_id),
+                'bmnum': _to_integer(np.int16, 'bmnum', beam),
                 'bmazm': np.float32(record_dict['beam_azms'][beam_index]),
-                'scan': np.int16(record_dict['scan_start_marker']),
+                'scan': _to_integer(
+                    np.int16, 'scan', record_dict['scan_start_marker']),
                 # no digital receiver offset or rxrise required in
                 # Borealis
                 'offset': np.int16(0),
                 'rxrise': np.int16(0),
-                'intt.sc': np.int16(np.floor(record_dict['int_time'])),
+                'intt.sc': _to_integer(
+                    np.int16, 'intt.sc', np.floor(record_dict['int_time'])),
                 'intt.us': np.int32(np.fmod(record_dict['int_time'], 1.0) * \
                                     1e6),
-                'txpl': np.int16(record_dict['tx_pulse_len']),
-                'mpinc': np.int16(record_dict['tau_spacing']),
+                'txpl': _to_integer(
+                    np.int16, 'txpl', record_dict['tx_pulse_len']),
+                'mpinc': _to_integer(
+                    np.int16, 'mpinc', record_dict['tau_spacing']),
                 'mppul': np.int16(len(record_dict['pulses'])),
                 # an alternate lag-zero will be given, so subtract 1.
                 'mplgs': np.int16(record_dict['lags'].shape[0] - 1),
-                'nrang': np.int16(record_dict['num_ranges']),
-                'frang': np.int16(round(record_dict['first_range'])),
-                'rsep': np.int16(round(record_dict['range_sep'])),
+                'nrang': _to_integer(
+                    np.int16, 'nrang', record_dict['num_ranges']),
+                'frang': _to_integer(
+                    np.int16, 'frang', round(record_dict['first_range'])),
+                'rsep': _to_integer(
+                    np.int16, 'rsep', round(record_dict['range_sep'])),
                 'xcf': np.int16('intf' in
                                 record_dict['antenna_arrays_order'].
                                 astype(str)),
-                'tfreq': np.int16(record_dict['freq']),
+                'tfreq': _to_integer(np.int16, 'tfreq', record_dict['freq']),
                 # mxpwr filler; cannot specify this information
                 'mxpwr': np.int32(-1),
                 # lvmax RST default
@@ -738,8 +774,8 @@ class BorealisConvert(BorealisRead):
                 'ptab': record_dict['pulses'].astype(np.int16),
                 'ltab': record_dict['lags'].astype(np.int16),
                 # timestamps in seconds, convert to seconds and us.
-                'tsc': np.array([np.floor(x) for x in
-                                 record_dict['sqn_timestamps']],
+                'tsc': np.array([_to_integer(np.int32, 'tsc', np.floor(x))
+                                 for x in record_dict['sqn_timestamps']],
                                 dtype=np.int32),
                 'tus': np.array([np.fmod(x, 1.0) * 1e6 for x in
                                  record_dict['sqn_timestamps']],
@@ -935,7 +971,8 @@ class BorealisConvert(BorealisRead):
                 'origin.command': 'Borealis ' +\
                                   record_dict['borealis_git_hash'] +\
                                   ' ' + record_dict['experiment_name'],
-                'cp': np.int16(record_dict['experiment_id']),
+                'cp': _to_integer(
+                    np.int16, 'cp', record_dict['experiment_id']),
                 'stid': np.int16(code_to_stid[record_dict['station']]),
                 'time.yr': np.int16(datetime.
                                     utcfromtimestamp(
@@ -967,10 +1004,13 @@ class BorealisConvert(BorealisRead):
                                     microsecond),
                 'txpow': np.int16(txpow),
                 # see Borealis documentation
-                'nave': np.int16(record_dict['num_sequences']),
+                'nave': _to_integer(
+                    np.int16, 'nave', record_dict['num_sequences']),
                 'atten': np.int16(0),
-                'lagfr': np.int16(record_dict['first_range_rtt']),
-                'smsep': np.int16(1e6/record_dict['rx_sample_rate']),
+                'lagfr': _to_integer(
+                    np.int16, 'lagfr', record_dict['first_range_rtt']),
+                'smsep': _to_integer(
+                    np.int16, 'smsep', 1e6/record_dict['rx_sample_rate']),
                 'ercod': np.int16(0),
                 'stat.agc': np.int16(agc_sw),
                 'stat.lopwr': np.int16(lp_sw),
@@ -978,28 +1018,34 @@ class BorealisConvert(BorealisRead):
                 'noise.search': np.float32(record_dict['noise_at_freq'][0]),
                 # TODO: currently not implemented
                 'noise.mean': np.float32(0),
-                'channel': np.int16(borealis_slice_id),
-                'bmnum': np.int16(beam),
+                'channel': _to_integer(np.int16, 'channel', borealis_slice_id),
+                'bmnum': _to_integer(np.int16, 'bmnum', beam),
                 'bmazm': np.float32(record_dict['beam_azms'][beam_index]),
-                'scan': np.int16(record_dict['scan_start_marker']),
+                'scan': _to_integer(
+                    np.int16, 'scan', record_dict['scan_start_marker']),
                 # no digital receiver offset or rxrise required in
                 # Borealis
                 'offset': np.int16(0),
                 'rxrise': np.int16(0),
-                'intt.sc': np.int16(np.floor(record_dict['int_time'])),
+                'intt.sc': _to_integer(
+                    np.int16, 'intt.sc', np.floor(record_dict['int_time'])),
                 'intt.us': np.int32(np.fmod(record_dict['int_time'], 1.0) * \
                                     1e6),
-                'txpl': np.int16(record_dict['tx_pulse_len']),
-                'mpinc': np.int16(record_dict['tau_spacing']),
+                'txpl': _to_integer(
+                    np.int16, 'txpl', record_dict['tx_pulse_len']),
+                'mpinc': _to_integer(
+                    np.int16, 'mpinc', record_dict['tau_spacing']),
                 'mppul': np.int16(len(record_dict['pulses'])),
                 # an alternate lag-zero will be given.
                 'mplgs': np.int16(record_dict['lags'].shape[0] - 1),
-                'nrang': np.int16(data_dimensions[1]),
-                'frang': np.int16(round(record_dict['first_range'])),
-                'rsep': np.int16(round(record_dict['range_sep'])),
+                'nrang': _to_integer(np.int16, 'nrang', data_dimensions[1]),
+                'frang': _to_integer(
+                    np.int16, 'frang', round(record_dict['first_range'])),
+                'rsep': _to_integer(
+                    np.int16, 'rsep', round(record_dict['range_sep'])),
                 # False if list is empty.
                 'xcf': np.int16(bool('xcfs' in record_dict.keys())),
-                'tfreq': np.int16(record_dict['freq']),
+                'tfreq': _to_integer(np.int16, 'tfreq', record_dict['freq']),
                 'mxpwr': np.int32(-1),
                 'lvmax': np.int32(20000),
                 'rawacf.revision.major': np.int32(1),
-- 
2.43.0


From 7c788f95d23f8146aafe1f0847db743815f2bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 46/48] fix: refuse to write DMAP records that cannot be read

A record without scalars or without arrays, and an array without
dimensions or elements (but slist), were written without an error into
files which the reader then refuses.
---
 pydarnio/dmap/dmap.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index dad09e5..8ed9813 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1095,6 +1095,14 @@ class DmapWrite(object):
                 raise dmap_exceptions.DmapTypeError(self.filename,
                                                     type(data_info),
                                                     self.rec_num)
+        if num_scalars == 0 or num_arrays == 0:
+            # these can not be read
+            message = "Error: A record needs scalars and arrays, this one has"\
+                " {scalars} scalars and {arrays} arrays."\
+                " Failed at record {rec}".format(scalars=num_scalars,
+                                                 arrays=num_arrays,
+                                                 rec=self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.filename, message)
         data_bytearray.extend(array_bytearray)
 
         # 16 = encoding_identifier (int - 4 bytes) + num_scalars (int - 4) +
@@ -1195,6 +1203,16 @@ class DmapWrite(object):
                 " Failed at record {}".format(self.rec_num)
             raise dmap_exceptions.DmapDataError(self.filename, message)
 
+        # only slist can be read without elements, and nothing without
+        # dimensions
+        if array.dimension < 1 or (array.name != 'slist' and
+                                   0 in array.shape):
+            message = "Error: The array {name} of shape {shape} has no"\
+                " elements or dimensions. Failed at record {rec}"\
+                "".format(name=array.name, shape=array.shape,
+                          rec=self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.filename, message)
+
         array_value = array.value.flatten()
         # the DMap format stores the data in the native byte order
         if not array_value.dtype.isnative:
-- 
2.43.0


From 830618c7632eeb7f1ec376e20c74db2f79a30bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:21 +0000
Subject: [PATCH 47/48] fix: refuse to write DMAP fields that contradict their
 structure

A DmapScalar or DmapArray is written by its own name, data type code,
format, dimensions and shape. When these disagree with each other, with
the values or with the name in the record the file stored another field
than the record has or could not be read.
---
 pydarnio/dmap/dmap.py | 50 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 8ed9813..0483361 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1085,6 +1085,7 @@ class DmapWrite(object):
         data_bytearray = bytearray()
         array_bytearray = bytearray()
         for name, data_info in record.items():
+            self._structure_check(name, data_info)
             if isinstance(data_info, DmapScalar):
                 data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
@@ -1137,6 +1138,55 @@ class DmapWrite(object):
             raise dmap_exceptions.DmapDataError(self.filename, message)
         return string_bytes + b'\0'
 
+    def _structure_check(self, name: str,
+                         data_info: Union[DmapScalar, DmapArray]):
+        """
+        Checks if the properties of a field agree with each other, what is
+        written from them can not be read as the same field otherwise.
+
+        Parameters
+        ----------
+        name : str
+            Name of the field in the record
+        data_info : DmapScalar or DmapArray
+            The field
+
+        Raises
+        ------
+        DmapDataError
+            if the properties contradict each other
+        """
+        if not isinstance(data_info, (DmapScalar, DmapArray)):
+            return
+        reason = None
+        type_fmt = DMAP_DATA_TYPES.get(data_info.data_type, ('', 0))[0]
+        if data_info.name != name:
+            reason = "the name {}".format(repr(data_info.name))
+        elif type_fmt == '' or type_fmt != data_info.data_type_fmt:
+            reason = "the data type {} and the format {}"\
+                "".format(repr(data_info.data_type),
+                          repr(data_info.data_type_fmt))
+        elif isinstance(data_info, DmapArray) and type_fmt != 's':
+            # char is defined as int8 by RST
+            array_type = np.dtype(np.int8 if type_fmt == 'c' else type_fmt)
+            value = np.asarray(data_info.value)
+            # arrays of text have errors of their own
+            if value.dtype.kind != 'U' and \
+                    value.dtype.newbyteorder('=') != array_type:
+                reason = "the format {} and values of the type {}"\
+                    "".format(repr(type_fmt), value.dtype)
+        if reason is None and isinstance(data_info, DmapArray) and \
+                (len(data_info.shape) != data_info.dimension or
+                 int(np.prod(data_info.shape)) != np.size(data_info.value)):
+            reason = "{} dimensions, the shape {} and {} elements"\
+                "".format(data_info.dimension, list(data_info.shape),
+                          np.size(data_info.value))
+        if reason is not None:
+            message = "Error: The field {name} can not be written with"\
+                " {reason}. Failed at record {rec}"\
+                "".format(name=repr(name), reason=reason, rec=self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.filename, message)
+
     def dmap_scalar_to_bytes(self, scalar: DmapScalar) -> bytes:
         """
         Converts a DmapScalar to byte format.
-- 
2.43.0


From b644c0a6bdc9cb30dc715f34696c3ea439d83aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 48/48] fix: let pyDARNio exceptions be pickled and copied

Their __init__ takes other arguments than the message, so that an error
raised in a worker of a process pool could not be restored in the caller:
concurrent.futures broke the pool and multiprocessing hung. CursorError and
others got a repeated message.
---
 pydarnio/exceptions/base.py                 | 24 +++++++++++++++++
 pydarnio/exceptions/borealis_exceptions.py  | 29 ++++++++++++---------
 pydarnio/exceptions/dmap_exceptions.py      | 23 +++++++++-------
 pydarnio/exceptions/superdarn_exceptions.py | 11 +++++---
 4 files changed, 60 insertions(+), 27 deletions(-)
 create mode 100644 pydarnio/exceptions/base.py

diff --git a/pydarnio/exceptions/base.py b/pydarnio/exceptions/base.py
new file mode 100644
index 0000000..f86adbf
--- /dev/null
+++ b/pydarnio/exceptions/base.py
@@ -0,0 +1,24 @@
+"""
+This module contains the base class of the pyDARNio exceptions.
+
+Classes
+-------
+PyDARNioError
+"""
+
+
+def _restore(cls: type, *args) -> Exception:
+    """
+    Makes an exception without calling its __init__, which takes other
+    arguments than the message and logs it.
+    """
+    return cls.__new__(cls, *args)
+
+
+class PyDARNioError(Exception):
+    """
+    Base class of the exceptions raised by pyDARNio. Its exceptions can be
+    copied and pickled, for example to be raised out of a process pool.
+    """
+    def __reduce__(self):
+        return _restore, (type(self), *self.args), self.__dict__.copy()
diff --git a/pydarnio/exceptions/borealis_exceptions.py b/pydarnio/exceptions/borealis_exceptions.py
index 5b23c5a..7a204b2 100644
--- a/pydarnio/exceptions/borealis_exceptions.py
+++ b/pydarnio/exceptions/borealis_exceptions.py
@@ -25,10 +25,13 @@ BorealisRawrf
 """
 
 import logging
+
+from .base import PyDARNioError
+
 pyDARNio_logger = logging.getLogger('pyDARNio')
 
 
-class BorealisBadRecordsError(Exception):
+class BorealisBadRecordsError(PyDARNioError):
     """
     SuperDARN Borealis file has missing, extra, or incorrect record(s).
 
@@ -63,7 +66,7 @@ class BorealisBadRecordsError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisFileTypeError(Exception):
+class BorealisFileTypeError(PyDARNioError):
     """
     SuperDARN Borealis file type is not implemented or an incorrect type
 
@@ -91,7 +94,7 @@ class BorealisFileTypeError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisFieldMissingError(Exception):
+class BorealisFieldMissingError(PyDARNioError):
     """
     Raised when a required data field is missing.
 
@@ -129,7 +132,7 @@ class BorealisFieldMissingError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisExtraFieldError(Exception):
+class BorealisExtraFieldError(PyDARNioError):
     """
     Raised on extra unknown field in the data.
 
@@ -167,7 +170,7 @@ class BorealisExtraFieldError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisDataFormatTypeError(Exception):
+class BorealisDataFormatTypeError(PyDARNioError):
     """
     Raised on incorrect format of a data field.
 
@@ -206,7 +209,7 @@ class BorealisDataFormatTypeError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisNumberOfRecordsError(Exception):
+class BorealisNumberOfRecordsError(PyDARNioError):
     """
     Raised when the file is array structured and does not
     have a consistent number of records across the unshared
@@ -242,7 +245,7 @@ class BorealisNumberOfRecordsError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisConversionTypesError(Exception):
+class BorealisConversionTypesError(PyDARNioError):
     """
     SuperDARN Borealis filetype cannot be converted to desired type.
 
@@ -275,7 +278,7 @@ class BorealisConversionTypesError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisConvert2IqdatError(Exception):
+class BorealisConvert2IqdatError(PyDARNioError):
     """
     Raised when the file cannot be converted to SDARN DMap iqdat format.
 
@@ -298,7 +301,7 @@ class BorealisConvert2IqdatError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisConvert2RawacfError(Exception):
+class BorealisConvert2RawacfError(PyDARNioError):
     """
     Raised when the file cannot be converted to SDARN DMap rawacf format.
 
@@ -321,7 +324,7 @@ class BorealisConvert2RawacfError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisRestructureError(Exception):
+class BorealisRestructureError(PyDARNioError):
     """
     Raised when the file cannot be restructured to or from site/array
     styles.
@@ -349,7 +352,7 @@ class BorealisRestructureError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisStructureError(Exception):
+class BorealisStructureError(PyDARNioError):
     """
     Raised when the file has major structural issues and may not
     be the correct style type (arrays vs records).
@@ -380,7 +383,7 @@ class BorealisStructureError(Exception):
         Exception.__init__(self, self.message)
 
 
-class ConvertFileOverWriteError(Exception):
+class ConvertFileOverWriteError(PyDARNioError):
     """
     Trying to write to a file that also reading.
 
@@ -402,7 +405,7 @@ class ConvertFileOverWriteError(Exception):
         Exception.__init__(self, self.message)
 
 
-class BorealisVersionError(Exception):
+class BorealisVersionError(PyDARNioError):
     """
     The Borealis software version of the file is not found in the current
     list of versions pyDARNio can read, which is found in the borealis_formats
diff --git a/pydarnio/exceptions/dmap_exceptions.py b/pydarnio/exceptions/dmap_exceptions.py
index b02399e..45bc59d 100644
--- a/pydarnio/exceptions/dmap_exceptions.py
+++ b/pydarnio/exceptions/dmap_exceptions.py
@@ -1,10 +1,13 @@
 # Copyright (C) SuperDARN Canada, University of Saskatchewan
 # Authors: Keith Kotyk and Marina Schmidt
 import logging
+
+from .base import PyDARNioError
+
 pyDARNio_logger = logging.getLogger('pyDARNio')
 
 
-class CursorError(Exception):
+class CursorError(PyDARNioError):
     """
     Raise if the cursor is not correctly set
 
@@ -34,7 +37,7 @@ class CursorError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class EmptyFileError(Exception):
+class EmptyFileError(PyDARNioError):
     """
     Raised if a file is empty.
 
@@ -51,7 +54,7 @@ class EmptyFileError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class DmapCharError(Exception):
+class DmapCharError(PyDARNioError):
     """
     Raised if a char type is str
 
@@ -77,7 +80,7 @@ class DmapCharError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class DmapDataTypeError(Exception):
+class DmapDataTypeError(PyDARNioError):
     """
     Raised if the data type is not correct.
 
@@ -105,7 +108,7 @@ class DmapDataTypeError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class NegativeByteError(Exception):
+class NegativeByteError(PyDARNioError):
     """
     Raised if an element has < 0 bytes.
 
@@ -126,7 +129,7 @@ class NegativeByteError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class ZeroByteError(Exception):
+class ZeroByteError(PyDARNioError):
     """
     Raised if an element has == 0 bytes.
 
@@ -149,7 +152,7 @@ class ZeroByteError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class MismatchByteError(Exception):
+class MismatchByteError(PyDARNioError):
     """
     Raised if an element is > another element.
 
@@ -174,7 +177,7 @@ class MismatchByteError(Exception):
 
 
 # TODO: may need to delete later if not used in DmapWrite?
-class DmapDataError(Exception):
+class DmapDataError(PyDARNioError):
     """Raised if there is an error in parsing of data
 
     Parameter
@@ -193,7 +196,7 @@ class DmapDataError(Exception):
         pyDARNio_logger.error("DmapDataError: {}".format(self.message))
 
 
-class DmapTypeError(Exception):
+class DmapTypeError(PyDARNioError):
     """
     Raised if there mismatch between DMAP data type
 
@@ -221,7 +224,7 @@ class DmapTypeError(Exception):
         pyDARNio_logger.error("DataTypeError: {}".format(self.message))
 
 
-class FilenameRequiredError(Exception):
+class FilenameRequiredError(PyDARNioError):
     """
     Raised if a filename is not provided when needed for the procedure
     """
diff --git a/pydarnio/exceptions/superdarn_exceptions.py b/pydarnio/exceptions/superdarn_exceptions.py
index b06b3dd..ced34ab 100644
--- a/pydarnio/exceptions/superdarn_exceptions.py
+++ b/pydarnio/exceptions/superdarn_exceptions.py
@@ -1,10 +1,13 @@
 # Copyright (C) SuperDARN Canada, University of Saskatchewan
 # Authors: Keith Kotyk and Marina Schmidt
 import logging
+
+from .base import PyDARNioError
+
 pyDARNio_logger = logging.getLogger('pyDARNio')
 
 
-class SuperDARNFileTypeError(Exception):
+class SuperDARNFileTypeError(PyDARNioError):
     """
     SuperDARN file type that is not implement or incorrect
 
@@ -28,7 +31,7 @@ class SuperDARNFileTypeError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class SuperDARNFieldMissingError(Exception):
+class SuperDARNFieldMissingError(PyDARNioError):
     """
     Raised when a field is missing from data that is required of the SuperDARN
     file type fields
@@ -51,7 +54,7 @@ class SuperDARNFieldMissingError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class SuperDARNExtraFieldError(Exception):
+class SuperDARNExtraFieldError(PyDARNioError):
     """
     Raised when a extra field is in the data that is not in the SuperDARN file
     type fields
@@ -74,7 +77,7 @@ class SuperDARNExtraFieldError(Exception):
         pyDARNio_logger.error(self.message)
 
 
-class SuperDARNDataFormatTypeError(Exception):
+class SuperDARNDataFormatTypeError(PyDARNioError):
     """
     Raised when a data format type does not match the SuperDARN file type
     data types
-- 
2.43.0

