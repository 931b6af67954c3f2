From c64b6ab6bf89961f3d159f5c67d0bd1d94409d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 01/80] fix: accept string date_time in SurfaceFile.add_station

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..d8e2819 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1506,7 +1506,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From 290e8ebc3705c9639ac9d3e731073f5ec2aee331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 02/80] fix: round station coordinates to the nearest hundredth
 of a degree

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index d8e2819..89445a6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1299,7 +1299,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1565,7 +1565,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From f898dfb0abab58a3a1e58654a9ad6c7ed18577de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 03/80] fix: report the full station identifier of soundings
 (STID and STD2)

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..8aba9d4 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1223,7 +1223,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID,
+                            col_head.STID + getattr(col_head, 'STD2', ''),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1244,7 +1244,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1305,7 +1305,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
-- 
2.43.0


From ba89b7a2f2a53002613d6adae7fa0b0dade3f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 04/80] fix: keep a copy of the grid in add_grid instead of
 modifying and aliasing the caller's array

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 89445a6..63186cd 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -934,7 +934,7 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid)
+        self.data[new_column] = self._replace_nan(grid.copy())
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From 9cd3b26b213a9e7a751bcda99e9bf2dc03020b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 05/80] fix: allow grids with and without a second time in one
 file

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 63186cd..a351611 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -919,7 +919,7 @@ class GridFile(DataManagementFile):
         new_column = (
             (grid_type, init_date),
             (grid_type, forecast_hour, forecast_minute),
-            (grid_type2, init_date2) if date_time2 is not None else 0,
+            (grid_type2, init_date2) if date_time2 is not None else (),
             (grid_type2, forecast_hour2, forecast_minute2),
             level,
             level2 if level2 is not None else -1,
@@ -973,7 +973,7 @@ class GridFile(DataManagementFile):
                 elif 'i' in dtype:
                     if key in ['GDT1', 'GDT2']:
                         value = getattr(ch, key)
-                        if value != 0:
+                        if value:
                             itype, dattim = value
                             if itype == 0:
                                 idate = int(dattim.strftime('%y%m%d'))
-- 
2.43.0


From f168e3ae8e3671e6e79899adbd8f55c3eff4fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 06/80] fix: write the analysis block of grids with fewer than
 three rows or columns

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index a351611..5ec0720 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1014,10 +1014,10 @@ class GridFile(DataManagementFile):
         )
 
         # Write a basic analysis block (type 2)
-        rx1 = self.nx // 2
-        rx2 = rx1 + 1
-        ry1 = self.ny // 2
-        ry2 = ry1 + 1
+        rx2 = min(self.nx // 2 + 1, self.nx - 1)
+        rx1 = max(rx2 - 1, 0)
+        ry2 = min(self.ny // 2 + 1, self.ny - 1)
+        ry1 = max(ry2 - 1, 0)
         dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
-- 
2.43.0


From 001896d5de1c200e7254bdd3c8aeebc61fe1fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 07/80] fix: pack grids whose data fit in a single word

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5ec0720..5b0dc62 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -97,7 +97,7 @@ def pack_grib(grid, missing_float, nbits=16):
         # The maximum number of input words covered by each output word (maybe tack on one for
         # the other part of any split words)
         any_split_words = (32 / nbits) != (32 // nbits)
-        n_input_words = np.diff(word_start_idxs).max() + (1 if any_split_words else 0)
+        n_input_words = np.diff(word_start_idxs, append=kxky).max() + (1 if any_split_words else 0)
 
         # Now construct 2d arrays of shifts and input indexes, where each array is the output
         # length by number of input words per output word
-- 
2.43.0


From 9f2299e3887cd09c38a6bd18473182f3eaa39232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 08/80] fix: keep the largest packed value below the missing
 data flag

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5b0dc62..8d5ff28 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -74,7 +74,7 @@ def pack_grib(grid, missing_float, nbits=16):
             if idat >= imax:
                 while idat >= imax:
                     nnnn -= 1
-                    idat = qdiff * 2**nnnn
+                    idat = round(qdiff * 2**nnnn)
             else:
                 while round(qdiff * 2 ** (nnnn + 1)) < imax:
                     nnnn += 1
-- 
2.43.0


From d1951bc49f0260b049bf69d0b4c88d26a73c45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 09/80] fix: exclude missing data from the range of a packed
 grid

---
 src/gempakio/encode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 8d5ff28..0050fce 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -56,8 +56,9 @@ def pack_grib(grid, missing_float, nbits=16):
         qmin = missing_float
         qmax = missing_float
     else:
-        qmin = grid.min()
-        qmax = grid.max()
+        valid = grid[grid != missing_float]
+        qmin = valid.min()
+        qmax = valid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
-- 
2.43.0


From 00737453bc8c81b9f03ff8ee4105b0cba3706c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 10/80] fix: validate the length of date_time2, not of
 date_time

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 0050fce..80b80cc 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -882,7 +882,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From 7b7c90da96190c4c75f3a6684f413b20b91da0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 11/80] fix: read grids whose packed data fit in a single word

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 8aba9d4..bfd1ce3 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -808,7 +808,7 @@ class GempakGrid(GempakFile):
         if packing_type == PackingType.none:
             lendat = self.data_header_length - part.header_length - 1
 
-            if lendat > 1:
+            if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
@@ -851,7 +851,7 @@ class GempakGrid(GempakFile):
             packed_buffer = self._buffer.read_struct(struct.Struct(packed_buffer_fmt))
             grid = np.zeros((self.ky, self.kx), dtype=np.float32)
 
-            if lendat > 1:
+            if lendat > 0:
                 iword = 0
                 ibit = 1
                 first = True
@@ -919,7 +919,7 @@ class GempakGrid(GempakFile):
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
-            if lendat > 1:
+            if lendat > 0:
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
-- 
2.43.0


From dfbd0595b515b7b0a1fd9c065a3ada38f9d5ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 12/80] fix: keep the initial hour and minute of analysis grid
 times

---
 src/gempakio/encode/gempak.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 80b80cc..cd3bd24 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -858,6 +858,11 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # Analysis headers hold the valid date and time only
+                    init_date += timedelta(hours=forecast_hour, minutes=forecast_minute)
+                    forecast_hour = init_date.hour
+                    forecast_minute = init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -899,6 +904,10 @@ class GridFile(DataManagementFile):
                     else:
                         forecast_hour2 = 0 if fhr == '' else int(fhr)
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                    if grid_type2 == 0:
+                        init_date2 += timedelta(hours=forecast_hour2, minutes=forecast_minute2)
+                        forecast_hour2 = init_date2.hour
+                        forecast_minute2 = init_date2.minute
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
                 elif len(split_time) > 3:
-- 
2.43.0


From 5ee0a64e96592ab891727cb73392c8ff7df1a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 13/80] fix: pack grids of small element types without overflow

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index cd3bd24..573fa31 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -944,7 +944,7 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid.copy())
+        self.data[new_column] = self._replace_nan(grid.astype(np.float64))
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From d5e2f22e359fd70a4c59e12b75ff21eb617e1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 14/80] fix: skip unused row and column headers without
 shifting the ones that follow

---
 src/gempakio/decode/gempak.py | 70 +++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index bfd1ce3..d310cd2 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -635,6 +635,8 @@ class GempakGrid(GempakFile):
         for _ in range(1, self.dm_label.rows + 1):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -655,9 +657,13 @@ class GempakGrid(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        self._columns = []
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._columns.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
@@ -1094,7 +1100,7 @@ class GempakGrid(GempakFile):
                 pointer = (
                     self.dm_label.data_block_ptr
                     + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._columns[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -1170,9 +1176,13 @@ class GempakSounding(GempakFile):
         ]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        self._rows = []
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._rows.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -1199,9 +1209,13 @@ class GempakSounding(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        self._columns = []
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._columns.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self.merged = 'SNDT' in (part.name for part in self.parts)
 
@@ -1210,8 +1224,8 @@ class GempakSounding(GempakFile):
             for icol, col_head in enumerate(self.column_headers):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts)
+                    + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._columns[icol] * self.dm_label.parts)
                 )
 
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -1257,8 +1271,8 @@ class GempakSounding(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._columns[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -1318,8 +1332,8 @@ class GempakSounding(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._columns[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2193,9 +2207,13 @@ class GempakSurface(GempakFile):
         row_headers_info = self._key_types(self.row_keys)
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        self._rows = []
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._rows.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -2203,9 +2221,13 @@ class GempakSurface(GempakFile):
         column_headers_info = self._key_types(self.column_keys)
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        self._columns = []
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._columns.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self._get_surface_type()
 
@@ -2216,8 +2238,8 @@ class GempakSurface(GempakFile):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
+                            + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                            + (self._columns[icol] * self.dm_label.parts + iprt)
                         )
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2244,8 +2266,8 @@ class GempakSurface(GempakFile):
                 for iprt in range(len(self.parts)):
                     pointer = (
                         self.dm_label.data_block_ptr
-                        + (irow * self.dm_label.columns * self.dm_label.parts)
-                        + (icol * self.dm_label.parts + iprt)
+                        + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                        + (self._columns[icol] * self.dm_label.parts + iprt)
                     )
 
                     self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2272,8 +2294,8 @@ class GempakSurface(GempakFile):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
+                            + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                            + (self._columns[icol] * self.dm_label.parts + iprt)
                         )
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2370,8 +2392,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._columns[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2435,8 +2457,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._columns[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2502,8 +2524,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._rows[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._columns[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
-- 
2.43.0


From 3bde7643c5ff5e87e77a64e81466ef0b3a26164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 15/80] fix: skip grids whose header is in use but which have
 no data

---
 src/gempakio/decode/gempak.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index d310cd2..963437d 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1104,6 +1104,8 @@ class GempakGrid(GempakFile):
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
+                if not self.data_ptr:
+                    continue
                 self._buffer.jump_to(self._start, _word_to_position(self.data_ptr))
                 self.data_header_length = self._buffer.read_int(4, self.endian, False)
                 data_header = self._buffer.set_mark()
-- 
2.43.0


From 55f32af61cb0904d26506c496be75baec70c39fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 16/80] fix: take any sequence of times in selections and leave
 it unchanged

---
 src/gempakio/decode/gempak.py | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 963437d..e4f0760 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1025,10 +1025,11 @@ class GempakGrid(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1044,10 +1045,11 @@ class GempakGrid(GempakFile):
                 and date_time2 not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time2 = [date_time2]
-            if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time2, str):
+                date_time2 = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time2
+                ]
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2082,10 +2084,11 @@ class GempakSounding(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2835,10 +2838,11 @@ class GempakSurface(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From 3b4498f75a27d797e62ea347c0bf963e1951732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 17/80] fix: ignore grids without a second time when looking
 for its first or last

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index e4f0760..6b53ee5 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1065,9 +1065,9 @@ class GempakGrid(GempakFile):
             date_time = [min(d.DATTIM1 for d in matched)]
 
         if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
+            date_time2 = sorted(d.DATTIM2 for d in matched if d.DATTIM2 is not None)[-1:]
         elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+            date_time2 = sorted(d.DATTIM2 for d in matched if d.DATTIM2 is not None)[:1]
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From 0052abf7c8003d680282fbd97c6cc71f9fd9c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 18/80] fix: ignore the case of states and countries given as
 lists to snxarray

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 6b53ee5..de2ca09 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2090,14 +2090,14 @@ class GempakSounding(GempakFile):
                     for dt in date_time
                 ]
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From 9ecad904ca621f9f2848e45deaac512c5cde3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 19/80] fix: take a station number given as text as one number

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index de2ca09..3aade68 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2074,7 +2074,7 @@ class GempakSounding(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2723,7 +2723,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2828,7 +2828,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
-- 
2.43.0


From ba074a0e5720f7a3d8ea49d13d52914b46b77d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 20/80] fix: allow stations with only special reports in
 nearest_time

---
 src/gempakio/decode/gempak.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3aade68..3a4725c 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2757,21 +2757,23 @@ class GempakSurface(GempakFile):
             for stn in station_id:
                 matched = self.sfjson(station_id=stn, include_special=include_special)
 
-                nearest = min(
-                    matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-                )
+                if matched:
+                    nearest = min(
+                        matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
+                    )
 
-                time_matched.append(nearest)
+                    time_matched.append(nearest)
 
         if station_number:
             for stn in station_number:
                 matched = self.sfjson(station_number=stn, include_special=include_special)
 
-                nearest = min(
-                    matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-                )
+                if matched:
+                    nearest = min(
+                        matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
+                    )
 
-                time_matched.append(nearest)
+                    time_matched.append(nearest)
 
         return time_matched
 
-- 
2.43.0


From 7caf89ea4a390ba2c8091c7cc7969298e689895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 21/80] fix: date special reports near the end of a month in
 the right month

---
 src/gempakio/decode/gempak.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3a4725c..b2c5074 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2630,18 +2630,29 @@ class GempakSurface(GempakFile):
 
                     new_report = deepcopy(report)
                     if param == 'SPCL':  # Do not update standard METAR time
-                        try:
-                            dt = datetime(
-                                year,
-                                month,
-                                int(time_group['day']),
-                                int(time_group['hour']),
-                                int(time_group['minute']),
-                            )
-                        except ValueError:
-                            # Some text reports contain bad date/time. In these cases
-                            # replace with the GEMPAK date and time.
-                            dt = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        filed = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        candidates = []
+                        # The report may be from the month before or after the time it
+                        # is filed under.
+                        for near in (
+                            filed,
+                            filed.replace(day=1) - timedelta(days=1),
+                            filed.replace(day=28) + timedelta(days=4),
+                        ):
+                            try:
+                                dt = datetime(
+                                    near.year,
+                                    near.month,
+                                    int(time_group['day']),
+                                    int(time_group['hour']),
+                                    int(time_group['minute']),
+                                )
+                            except ValueError:
+                                continue
+                            candidates.append(dt)
+                        # Some text reports contain bad date/time. In these cases
+                        # replace with the GEMPAK date and time.
+                        dt = min(candidates, key=lambda d: abs(d - filed), default=filed)
                         new_report['DATE'] = dt.date()
                         new_report['TIME'] = dt.time()
 
-- 
2.43.0


From 1b53500e5078b6d9d86a1af4465d2f82424f5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 22/80] fix: keep surface reports whose text is blank

---
 src/gempakio/decode/gempak.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index b2c5074..6277f5a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2668,6 +2668,11 @@ class GempakSurface(GempakFile):
 
                     processed.append(new_report)
 
+        if not processed:
+            # There is no text after all
+            report.update(**values)
+            processed.append(report)
+
         return processed
 
     def nearest_time(
-- 
2.43.0


From 73c7e9cf96e8f502249096511fb4a5fa8efd9b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 23/80] fix: read structures all of whose fields have
 converters

zip() over three-item fields made NamedStruct raise ValueError, so no
tropical cyclone error cone, track or break point could be decoded.
---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..7232d22 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -21,7 +21,7 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names, fmts = zip(*(i[:2] for i in info), strict=False)
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From 896d396e09db592a430238f92cbd977a8488719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 24/80] fix: convert the basin and storm type of tropical
 cyclone elements

They are stored as text; looking the text up in the enumerations raised
ValueError for every error cone, track and break point element.
---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..f74a470 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
-- 
2.43.0


From b830586dc23680c3ed157dc81789d4b8025584dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 25/80] fix: decode tropical cyclone break points

The buffer was called instead of read, which raised TypeError.
---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index f74a470..bb979cc 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4433,7 +4433,9 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(
+            NamedStruct(break_info, self.prefmt, 'BreakPointInfo')
+        )
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
-- 
2.43.0


From 588d642836342fa7b92d1dfdd3330343fc442440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 26/80] fix: decode significant weather elements

The text of the element was never read and attributes its structure does
not have were used, which raised AttributeError; unused points were
skipped as if they had one coordinate.
---
 src/gempakio/decode/vgf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index bb979cc..20c64b3 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4511,6 +4511,9 @@ class VectorGraphicFile:
             NamedStruct(special_text_info, self.prefmt, 'SpecialTextInfo')
         )
 
+        text_string = self._decode_strip_null(self._buffer.read(255))
+        self._buffer.skip(1)  # skip byte for struct alignment
+
         lat, lon = self._get_latlon(sgwx.number_points)
 
         self._elements.append(
@@ -4534,20 +4537,20 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
-                text.text,
+                text_string,
                 lat,
                 lon,
             )
         )
 
-        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 4)
+        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 8)
 
     def _decode_watches(self, header_struct):
         """Decode watch elements."""
-- 
2.43.0


From 16dd663ca2dd3b2ae3f70c0216ed924c7b7daf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 27/80] fix: decode a tropical cyclone advisory into one
 element

The element was added once for each watch/warning it holds: not at all
without any, repeatedly (sharing one list) with several.
---
 src/gempakio/decode/vgf.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 20c64b3..2fa6a48 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4256,26 +4256,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From d0128371fedfd6757c10c50ec8fdda31ca6937ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 28/80] fix: keep the last character of text that fills its
 field

Without a null terminator, find() returned -1 and the last character was
cut off.
---
 src/gempakio/decode/vgf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 2fa6a48..42ef0ca 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5309,8 +5309,7 @@ class VectorGraphicFile:
         stripped.
         """
         decoded = x.decode('utf-8', errors='ignore')
-        null = decoded.find('\x00')
-        return decoded[:null].strip()
+        return decoded.split('\x00')[0].strip()
 
     @staticmethod
     def _swap32(x):
-- 
2.43.0


From 0e6c71ce80b9326e874b5d1d8300b739eb908de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 29/80] fix: write text with characters outside ASCII in full

The text was cut to its number of characters instead of its number of
bytes, losing its end and its terminator; a file with such text often
could not be read.
---
 src/gempakio/encode/vgf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..2a094ff 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -561,7 +561,7 @@ class TextBase(Element):
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
-        elif len(text + '\x00') > 255:
+        elif len((text + '\x00').encode()) > 255:
             raise ValueError('text string exceeds 255 character limit.')
         self._text = text + '\x00'
 
@@ -1382,7 +1382,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode())
         )
 
     @property
@@ -1463,7 +1465,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
+        text = self._text.encode()
 
         return header + info + text
 
-- 
2.43.0


From a611582620973286e754fd44f00e46d556f9f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 30/80] fix: accept the documented symbol and marker code 0 in
 assignments

The constructors take codes from 0 (square outline, no marker), as
documented, but the same code could not be assigned.
---
 src/gempakio/encode/vgf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 2a094ff..51c42a0 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1625,8 +1625,8 @@ class SpecialSymbol(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 41:
-            raise ValueError('Symbol code must be in range [1, 41].')
+        if code < 0 or code > 41:
+            raise ValueError('Symbol code must be in range [0, 41].')
 
 
 class Marker(SymbolBase):
@@ -1667,8 +1667,8 @@ class Marker(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 24:
-            raise ValueError('Marker code must be in range [1, 24].')
+        if code < 0 or code > 24:
+            raise ValueError('Marker code must be in range [0, 24].')
 
 
 class VGFile:
-- 
2.43.0


From f9bb1d3dd9323096acc344a4c8f16571a7886913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 31/80] fix: check the width, size and code a symbol is created
 with

Only assignments were checked: symbols and markers outside the documented
ranges could be created and written.
---
 src/gempakio/encode/vgf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 51c42a0..9a5c1dc 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1492,10 +1492,10 @@ class SymbolBase(Element):
     def __init__(self, lon, lat, symbol_code, color, width=1, size=1, offset_x=0, offset_y=0):
         super().__init__()
         self._number_symbols = 1
-        self._width = width
-        self._size = size
+        self.width = width
+        self.size = size
         self._symbol_type = 0
-        self._symbol_code = symbol_code
+        self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
         self._offset_x = offset_x
-- 
2.43.0


From f1175a41e7d2b15cc458e82ecda358b25eaa6f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 32/80] fix: reject group types that cannot be stored

The group type is a single byte; larger values were accepted and made
writing the file fail halfway.
---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 9a5c1dc..09cf111 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -389,8 +389,8 @@ class Element:
     @group_type.setter
     def group_type(self, value):
         """Set group type."""
-        if value < 0:
-            raise ValueError('group type should be non-negative.')
+        if value not in range(256):
+            raise ValueError('group type must be in range [0, 255].')
         self._group_type = value
 
     @property
-- 
2.43.0


From 014dbe4f9cbfe4df730f6b4a5b357de2e752ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 33/80] fix: get_met depended on the presence of SIGMET
 elements

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 42ef0ca..927e3eb 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3153,7 +3153,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From 67086412465588f5ac153f8d74a7ed789246eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 34/80] fix: get_text returned special text too when there is
 plain text

Without plain text it returned none of it, as has_text says.
---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 927e3eb..3c9e590 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3020,7 +3020,7 @@ class VectorGraphicFile:
         List of `mdgpu.io.vgf.TextElement`.
         """
         if self.has_text:
-            return self.filter_elements(vg_class=VGClass.text)
+            return self.filter_elements(vg_class=VGClass.text, vg_type=VGType.text)
 
         return None
 
-- 
2.43.0


From 41673230f2f1ca5bcf3f65d8b032a00e1c7e4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 35/80] fix: close_coordinates raised TypeError for lists

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 3c9e590..358d0ea 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5257,8 +5257,8 @@ class VectorGraphicFile:
             x = np.concatenate([x, [x[0]]])
             y = np.concatenate([y, [y[0]]])
         elif isinstance(x, list) and isinstance(y, list):
-            x += x[0]
-            y += y[0]
+            x = x + x[:1]
+            y = y + y[:1]
         else:
             raise TypeError('x and y must be of the same type: list or array.')
 
-- 
2.43.0


From 3a874da3d16856b82cfa26bb18c2be93fd69965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 36/80] fix: accept NumPy integers as symbol codes

Constructors always did; assignments raised TypeError.
---
 src/gempakio/encode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 09cf111..4c87be7 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1563,7 +1563,7 @@ class SymbolBase(Element):
         self._offset_y = value
 
     def _validate_symbol_code(self, code):
-        if not isinstance(code, int):
+        if not isinstance(code, (int, np.integer)):
             raise TypeError('Symbol code must be integer')
 
     def encode(self):
-- 
2.43.0


From 63ade3fafe20720f9f737686ee7b55f0eef28def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 37/80] fix: bounds ignored elements that touch the equator or
 prime meridian

Only elements without bounds, all four of them zero, are left out.
---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 358d0ea..d704713 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2919,7 +2919,9 @@ class VectorGraphicFile:
         ymax = -9999
 
         for element in self.elements:
-            if 0 in [element.max_lat, element.max_lon, element.min_lat, element.min_lon]:
+            if not any(
+                [element.max_lat, element.max_lon, element.min_lat, element.min_lon]
+            ):
                 continue
             else:
                 if element.max_lat > ymax:
-- 
2.43.0


From 49e74853e81cffa65d066a763760ea7f64ee2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 38/80] fix: to_json raised TypeError for jets and tropical
 cyclone elements

---
 src/gempakio/decode/vgf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index d704713..b26cad5 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,10 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, VectorGraphicAttribute):
+            return obj.__dict__
+        if isinstance(obj, datetime):
+            return obj.isoformat()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 3888edafdda93391c1410b7e34257d527b512a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 39/80] fix: to_json raised TypeError when given an encoder
 class

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index b26cad5..513fcb9 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3261,7 +3261,9 @@ class VectorGraphicFile:
         """
         serialized = [e.__dict__ for e in self._elements]
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        kwargs.setdefault('cls', NumpyEncoder)
+
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From 7b955c6d59d78e514de804cd5af288e2832e8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 40/80] fix: stop at a record smaller than its own header

An element that is skipped moved the reader back by the difference, so
that a damaged record size of zero was read again forever.
---
 src/gempakio/decode/vgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 513fcb9..ac76949 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5191,6 +5191,7 @@ class VectorGraphicFile:
             or major_color > 32
             or minor_color < 0
             or minor_color > 32
+            or rec_size < VGF_HEADER_SIZE
             or rec_size > size
         )
 
-- 
2.43.0


From c6167da633a55936f632ebdd5f9871120300f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 41/80] fix: do not decode a record that is cut off

A record was only checked against the size of the whole file. Text cut
off by the end of the file was returned shortened, without an error.
---
 src/gempakio/decode/vgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ac76949..91e7b1a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5173,7 +5173,8 @@ class VectorGraphicFile:
 
     def _validate_header(self, header_struct):
         """Validate VGF header."""
-        size = len(self._buffer._data)
+        # Bytes left in the file, counting the header that has just been read
+        size = len(self._buffer) - self._buffer._offset + VGF_HEADER_SIZE
         delete = header_struct.delete
         major_color = header_struct.major_color
         minor_color = header_struct.minor_color
-- 
2.43.0


From e36c79f33c129df709d4ea0da32ae2a30608bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 42/80] fix: elements after a record with unread bytes were
 lost

The reader took the position where a decoder stopped for the start of the next
record. A record longer than the layout known to the decoder made it read the
rest of the record as a header and, as that is not valid, drop everything that
followed. Advance by the record size, as GEMPAK does.
---
 src/gempakio/decode/vgf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 91e7b1a..d642869 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5055,6 +5055,7 @@ class VectorGraphicFile:
         more = True
 
         while not self._buffer.at_end() and more:
+            record_start = self._buffer.set_mark()
             header_struct = self._read_header()
 
             rec_size = header_struct.record_size
@@ -5171,6 +5172,9 @@ class VectorGraphicFile:
                 )
                 _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
+            # The next record starts where this one ends, even if part of it was not read.
+            self._buffer.jump_to(record_start, rec_size)
+
     def _validate_header(self, header_struct):
         """Validate VGF header."""
         # Bytes left in the file, counting the header that has just been read
-- 
2.43.0


From 99cd6d5e3277f116bd667adf29185344b3d12b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 43/80] fix: an unknown watch box version aborted reading the
 file

_decode_watches fell through its match and raised UnboundLocalError. Warn and
skip the element like other elements that cannot be decoded.
---
 src/gempakio/decode/vgf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index d642869..1b6b4ce 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4959,6 +4959,11 @@ class VectorGraphicFile:
                 # Manually close watch parallelogram
                 if watch.number_points > 2:
                     lon, lat = self.close_coordinates(lon, lat)
+            case _:
+                logger.warning(
+                    'Watch box version %d cannot be decoded. Skipping.', header_struct.version
+                )
+                return
 
         self._elements.append(
             WatchBoxElement(
-- 
2.43.0


From 3dc0817d7732907e172fc3ac28f5c40835af8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 44/80] fix: an unknown SIGMET version aborted reading the file

_decode_sigmet fell through its match and raised UnboundLocalError. Warn and
skip the element like other elements that cannot be decoded.
---
 src/gempakio/decode/vgf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 1b6b4ce..dee2a29 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3730,6 +3730,11 @@ class VectorGraphicFile:
                     ('tops', '80s', self._decode_strip_null),
                     ('forecaster', '16s', self._decode_strip_null),
                 ]
+            case _:
+                logger.warning(
+                    'SIGMET version %d cannot be decoded. Skipping.', header_struct.version
+                )
+                return
 
         sigmet = self._buffer.read_struct(NamedStruct(sigmet_info, self.prefmt, 'SigmetInfo'))
 
-- 
2.43.0


From a20195a2e8fa8aec65076e370a69923add48308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 45/80] fix: list unmerged soundings that lack the first part

---
 src/gempakio/decode/gempak.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 6277f5a..998eb7b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1232,10 +1232,13 @@ class GempakSounding(GempakFile):
                     + (self._columns[icol] * self.dm_label.parts)
                 )
 
+                # Any part can be absent; an unmerged sounding need not have the first one.
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
-                data_ptr = self._buffer.read_int(4, self.endian, False)
+                data_ptrs = [
+                    self._buffer.read_int(4, self.endian, False) for _part in self.parts
+                ]
 
-                if data_ptr:
+                if any(data_ptrs):
                     self._sninfo.add(
                         Sounding(
                             irow,
-- 
2.43.0


From 07064d7ee08c337316cc50b7a35e9d6a0da77eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 46/80] fix: merge soundings without a surface level and with
 few tropopause or significant levels

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 998eb7b..bf3aeee 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1616,7 +1616,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                if num_trop_levels >= 1 and pbot < parts['TRPA']['PRES'][0]:
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1687,7 +1687,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                if num_sigt_levels >= 2 and pbot < parts['TTBB']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From 6b3d0a9023246896b45d339d3a51771c8dd1d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 47/80] fix: keep the levels of soundings without a surface
 pressure in order

---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index bf3aeee..6f28649 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1642,7 +1642,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPA']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPA']['DWPT'][itrp])
@@ -1672,7 +1672,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPC']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPC']['DWPT'][itrp])
@@ -1709,7 +1709,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTBB']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTBB']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTBB']['DWPT'][isigt])
@@ -1735,7 +1735,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTDD']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTDD']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTDD']['DWPT'][isigt])
@@ -1778,7 +1778,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPBB']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPBB']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPBB']['SPED'][isigw])
@@ -1808,7 +1808,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPDD']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPDD']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPDD']['SPED'][isigw])
@@ -1847,7 +1847,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWA']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWA']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWA']['SPED'][imxw])
@@ -1877,7 +1877,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWC']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWC']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWC']['SPED'][imxw])
-- 
2.43.0


From 7e87b1f58abd181bbc1386c85653bdc3feef93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 48/80] fix: merge high level significant winds when there are
 none below 100 hPa

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 6f28649..765ee50 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1925,7 +1925,7 @@ class GempakSounding(GempakFile):
             if zold == self.dm_label.missing_float or znxt == self.dm_label.missing_float:
                 more = False
 
-            if istart <= nsgw:
+            if istart < nsgw:
                 above = False
                 i = istart
                 iend = nsgw
-- 
2.43.0


From 5d62b19bd5c6efaf9d72a51a7dc6038372336ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 49/80] fix: keep the surface first when adding levels below
 the ground

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 765ee50..cc11816 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2008,6 +2008,7 @@ class GempakSounding(GempakFile):
             for ibgl in range(1, num_man_levels):
                 pres = parts['TTAA']['PRES'][ibgl]
                 if pres > merged['PRES'][0]:
+                    size = len(merged['PRES'])
                     loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                     merged['PRES'].insert(loc, pres)
                     merged['TEMP'].insert(loc, parts['TTAA']['TEMP'][ibgl])
@@ -2015,7 +2016,6 @@ class GempakSounding(GempakFile):
                     merged['DRCT'].insert(loc, parts['TTAA']['DRCT'][ibgl])
                     merged['SPED'].insert(loc, parts['TTAA']['SPED'][ibgl])
                     merged['HGHT'].insert(loc, parts['TTAA']['HGHT'][ibgl])
-                    size += 1
 
         # Add text data, if it is included
         if 'TXTA' in parts:
-- 
2.43.0


From 62d3108b2090c7a6ec4c2aaac3ea0278f86d4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 50/80] fix: leave data missing next to a level without
 pressure

---
 src/gempakio/gemcalc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..63c621f 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -171,7 +171,13 @@ def interp_missing_data(sounding, missing=-9999):
                 ):
                     iabove = 0
 
-                if iabove != 0:
+                # Nothing can be interpolated from a level without pressure (e.g., a missing
+                # surface level).
+                if iabove != 0 and missing not in [
+                    sounding['PRES'][i - 1],
+                    sounding['PRES'][i],
+                    sounding['PRES'][iabove],
+                ]:
                     adata = {}
                     bdata = {}
                     for param, val in sounding.items():
-- 
2.43.0


From 30671ed3e0c6e763d619c2a7cc4963f56fea81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 51/80] fix: do not replace a reported wind by a significant
 wind of the same height

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index cc11816..aec1b67 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1973,8 +1973,8 @@ class GempakSounding(GempakFile):
                 if more and not skip:
                     if abs(znxt - hght) < 1:
                         if (
-                            merged['DRCT'][ilev - 1] == self.dm_label.missing_float
-                            or merged['SPED'][ilev - 1] == self.dm_label.missing_float
+                            merged['DRCT'][ilev] == self.dm_label.missing_float
+                            or merged['SPED'][ilev] == self.dm_label.missing_float
                         ):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
-- 
2.43.0


From 12c4d3559d304cb28df5dcc0dc7721c36402de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 52/80] fix: keep significant winds in place when levels above
 have no height

---
 src/gempakio/decode/gempak.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index aec1b67..73864a5 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1979,7 +1979,8 @@ class GempakSounding(GempakFile):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
                     else:
-                        loc = bisect.bisect_left(merged['HGHT'], hght)
+                        # Heights can be missing farther up; this level is next.
+                        loc = ilev
                         merged['HGHT'].insert(loc, hght)
                         merged['DRCT'].insert(loc, drct)
                         merged['SPED'].insert(loc, sped)
-- 
2.43.0


From 8389f83930cbf22baa187d2f02fa1bc8a251ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 53/80] fix: ignore levels with a missing pressure when merging
 soundings

---
 src/gempakio/decode/gempak.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 73864a5..34b8643 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1623,6 +1623,8 @@ class GempakSounding(GempakFile):
 
         if num_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPA']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1653,6 +1655,8 @@ class GempakSounding(GempakFile):
 
         if num_above_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPC']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1694,6 +1698,8 @@ class GempakSounding(GempakFile):
 
         if num_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTBB']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1720,6 +1726,8 @@ class GempakSounding(GempakFile):
 
         if num_above_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTDD']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1759,6 +1767,8 @@ class GempakSounding(GempakFile):
 
             if num_sigw_levels >= 1 and not ppbb_is_z:
                 for isigw, pres in enumerate(parts['PPBB']['PRES']):
+                    if pres == self.dm_label.missing_float:
+                        continue
                     pres = abs(pres)
                     if (
                         pres != self.dm_label.missing_float
@@ -1789,6 +1799,8 @@ class GempakSounding(GempakFile):
 
             if num_above_sigw_levels >= 1 and not ppdd_is_z:
                 for isigw, pres in enumerate(parts['PPDD']['PRES']):
+                    if pres == self.dm_label.missing_float:
+                        continue
                     pres = abs(pres)
                     if (
                         pres != self.dm_label.missing_float
@@ -1828,6 +1840,8 @@ class GempakSounding(GempakFile):
 
         if num_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWA']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1858,6 +1872,8 @@ class GempakSounding(GempakFile):
 
         if num_above_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWC']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
-- 
2.43.0


From 5f28c21478e31e6944135b538b4dbf8f5bedba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 54/80] fix: accept Lambert conformal projections with one
 standard parallel

---
 src/gempakio/encode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 573fa31..8eb97e6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -707,7 +707,9 @@ class GridFile(DataManagementFile):
             self.gemproj = 'STR'
             self.angle3 = self.rotation
         elif name == 'lambert_conformal_conic':
-            self.angle1, self.angle3 = params['standard_parallel']
+            # One standard parallel is a bare number, two are a sequence.
+            parallels = np.atleast_1d(params['standard_parallel'])
+            self.angle1, self.angle3 = parallels[0], parallels[-1]
             self.angle2 = params['longitude_of_central_meridian']
             self.gemproj = 'LCC'
         elif name == 'equidistant_cylindrical':
-- 
2.43.0


From 28c2f85d1ac265745acc3d580263861eb84b2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 55/80] fix: accept polar stereographic projections with a
 latitude of true scale

---
 src/gempakio/encode/gempak.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 8eb97e6..35f17b1 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -698,7 +698,11 @@ class GridFile(DataManagementFile):
             self.angle2 = params['longitude_of_projection_origin']
             self.angle3 = self.rotation
         elif name == 'polar_stereographic':
-            self.angle1 = params['latitude_of_projection_origin']
+            # The pole is implied when a latitude of true scale is given.
+            self.angle1 = params.get(
+                'latitude_of_projection_origin',
+                90 if params.get('standard_parallel', 90) > 0 else -90,
+            )
             self.angle2 = params['straight_vertical_longitude_from_pole']
             self.gemproj = 'STR'
         elif name == 'stereographic':
-- 
2.43.0


From 03ecd349d9e3fcb9d931982c39665bd7bef12d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 56/80] fix: read the origin of LEA and GNO projections when it
 has an exponent

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 35f17b1..451f58f 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -736,12 +736,12 @@ class GridFile(DataManagementFile):
             self.gemproj = 'LEA'
             self.angle1 = float(
                 re.search(
-                    r'(?:\"Latitude of natural origin\",(?P<lat_0>-?\d{1,2}\.?\d*))', params
+                    r'(?:\"Latitude of natural origin\",(?P<lat_0>[-+.\dE]+))', params
                 ).groupdict()['lat_0']
             )
             self.angle2 = float(
                 re.search(
-                    r'(?:\"Longitude of natural origin\",(?P<lon_0>-?\d{1,3}\.?\d*))', params
+                    r'(?:\"Longitude of natural origin\",(?P<lon_0>[-+.\dE]+))', params
                 ).groupdict()['lon_0']
             )
             self.angle3 = self.rotation
@@ -749,12 +749,12 @@ class GridFile(DataManagementFile):
             self.gemproj = 'GNO'
             self.angle1 = float(
                 re.search(
-                    r'(?:\"Latitude of natural origin\",(?P<lat_0>-?\d{1,2}\.?\d*))', params
+                    r'(?:\"Latitude of natural origin\",(?P<lat_0>[-+.\dE]+))', params
                 ).groupdict()['lat_0']
             )
             self.angle2 = float(
                 re.search(
-                    r'(?:\"Longitude of natural origin\",(?P<lon_0>-?\d{1,3}\.?\d*))', params
+                    r'(?:\"Longitude of natural origin\",(?P<lon_0>[-+.\dE]+))', params
                 ).groupdict()['lon_0']
             )
             self.angle3 = self.rotation
-- 
2.43.0


From 3d3775af2b5982e3dfea436706d534fb435b0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 57/80] fix: keep columns eastward when a cylindrical grid
 crosses the map edge

---
 src/gempakio/decode/gempak.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 34b8643..3bc2732 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -802,6 +802,13 @@ class GempakGrid(GempakFile):
         urx, ury = transform(
             self.navigation_block.upper_right_lon, self.navigation_block.upper_right_lat
         )
+        ptype = GEMPROJ_TO_PROJ[self.navigation_block.projection][1]
+        if ptype == 'cyl' and self.kx > 1:
+            # Columns run eastward, past the edge of the projected plane if need be, at
+            # most once around. Corners are single precision, known to a few metres.
+            around = 2 * math.pi * self.crs.ellipsoid.semi_major_metre
+            width = (urx - llx) % around
+            urx = llx + (width if width > 10 else around)
         self.x = np.linspace(llx, urx, self.kx, dtype=np.float32)
         self.y = np.linspace(lly, ury, self.ky, dtype=np.float32)
         xx, yy = np.meshgrid(self.x, self.y, copy=False)
-- 
2.43.0


From 2d9d466b88aaf0f3739b4cf252d3f9de3c743ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 58/80] fix: use degrees as degrees in the scale of modified
 cylindrical projections

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3bc2732..a098c6c 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -759,7 +759,7 @@ class GempakGrid(GempakFile):
                     + self.navigation_block.lower_left_lat
                 ) * 0.5
                 k_0 = (
-                    1 / math.cos(avglat)
+                    1 / math.cos(math.radians(avglat))
                     if self.navigation_block.proj_angle1 == 0
                     else self.navigation_block.proj_angle1
                 )
-- 
2.43.0


From 4c73eb56908297804a4cd4c8620a1aa9f082d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 59/80] fix: accept Lambert azimuthal equal area projections on
 an ellipsoid

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 451f58f..a66e4cf 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -685,10 +685,8 @@ class GridFile(DataManagementFile):
                 name = 'equidistant_cylindrical'
             elif method == 'Gnomonic':
                 name = 'gnomonic'
-                params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             elif 'Lambert Azimuthal Equal Area' in method:
                 name = 'lambert_azimuthal_equal_area'
-                params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             else:
                 name = 'unknown'
 
@@ -734,6 +732,7 @@ class GridFile(DataManagementFile):
             self.angle3 = self.rotation
         elif name == 'lambert_azimuthal_equal_area':
             self.gemproj = 'LEA'
+            params = params['crs_wkt']  # Not always converted to CF by pyproj/PROJ
             self.angle1 = float(
                 re.search(
                     r'(?:\"Latitude of natural origin\",(?P<lat_0>[-+.\dE]+))', params
@@ -747,6 +746,7 @@ class GridFile(DataManagementFile):
             self.angle3 = self.rotation
         elif name == 'gnomonic':
             self.gemproj = 'GNO'
+            params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             self.angle1 = float(
                 re.search(
                     r'(?:\"Latitude of natural origin\",(?P<lat_0>[-+.\dE]+))', params
-- 
2.43.0


From 2436916ccb66cce7fe731d95283b7af3e1b754b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 60/80] fix: accept equidistant cylindrical projections without
 a latitude of origin

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index a66e4cf..2fdcb8d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -717,7 +717,7 @@ class GridFile(DataManagementFile):
         elif name == 'equidistant_cylindrical':
             self.gemproj = 'CED'
             params = self._to_dict(self.projection.crs.coordinate_operation)
-            self.angle1 = params['latitude_of_natural_origin']
+            self.angle1 = params.get('latitude_of_natural_origin', 0)
             self.angle2 = params['longitude_of_natural_origin']
             self.angle3 = self.rotation
         elif name == 'orthographic':
-- 
2.43.0


From fbe7140fff446eb46bf31f97262b5a2f0d0d26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 61/80] fix: keep an existing VGF file when an element cannot
 be encoded

---
 src/gempakio/encode/vgf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 4c87be7..7a556aa 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1699,6 +1699,8 @@ class VGFile:
         ----------
         path : str of `path.Pathlib`
         """
+        # An element that cannot be encoded must not cost an existing file
+        encoded = [e.encode() for e in self.elements]
+
         with open(path, 'wb') as out:
-            for e in self.elements:
-                out.write(e.encode())
+            out.writelines(encoded)
-- 
2.43.0


From 26fce98d58b8713ae9feb380a5d7ba69f1ee5c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 62/80] fix: leave the file as it was when an addition exceeds
 the limit or cannot be sorted

---
 src/gempakio/encode/gempak.py | 58 ++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2fdcb8d..3c29f70 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -948,16 +948,18 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self._column_set.add(self.make_column_header(*new_column))
+        new_column = self.make_column_header(*new_column)
+        column_headers = sorted(self._column_set | {new_column})
 
-        self.data[new_column] = self._replace_nan(grid.astype(np.float64))
+        if self.rows + len(column_headers) > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
 
-        self.columns = len(self._column_set)
+        self._column_set.add(new_column)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
+        self.data[new_column] = self._replace_nan(grid.astype(np.float64))
 
-        self.column_headers = sorted(self._column_set)
+        self.columns = len(column_headers)
+        self.column_headers = column_headers
         self.row_headers = sorted(self._row_set)
 
     def _pack_grib(self, grid, nbits=16):
@@ -1257,21 +1259,25 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        new_row = self.make_row_header(*new_row)
+        row_headers = sorted(self._row_set | {new_row})
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
-        self._column_set.add(self.make_column_header(*new_column))
+        new_column = self.make_column_header(*new_column)
+        column_headers = sorted(self._column_set | {new_column})
 
-        self.data[(new_row, new_column)] = params._asdict()
+        if len(row_headers) + len(column_headers) > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
+        self._row_set.add(new_row)
+        self._column_set.add(new_column)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
+        self.data[(new_row, new_column)] = params._asdict()
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        self.rows = len(row_headers)
+        self.columns = len(column_headers)
+        self.column_headers = column_headers
+        self.row_headers = row_headers
 
     def _write_row_headers(self, stream):
         """Write row headers to a SoundingFile stream."""
@@ -1523,21 +1529,25 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        new_row = self.make_row_header(*new_row)
+        row_headers = sorted(self._row_set | {new_row})
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-        self._column_set.add(self.make_column_header(*new_column))
+        new_column = self.make_column_header(*new_column)
+        column_headers = sorted(self._column_set | {new_column})
 
-        self.data[(new_row, new_column)] = params._asdict()
+        if len(row_headers) + len(column_headers) > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
+        self._row_set.add(new_row)
+        self._column_set.add(new_column)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
+        self.data[(new_row, new_column)] = params._asdict()
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        self.rows = len(row_headers)
+        self.columns = len(column_headers)
+        self.column_headers = column_headers
+        self.row_headers = row_headers
 
     def _write_row_headers(self, stream):
         """Write row headers to a SurfaceFile stream."""
-- 
2.43.0


From 2658deece3c4ff1edb2b35723d477734bfd0a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 63/80] fix: refuse headers that cannot be written when they
 are added

---
 src/gempakio/encode/gempak.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 3c29f70..2377906 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -315,6 +315,19 @@ class DataManagementFile:
         self.make_column_header = namedtuple('ColumnHeader', self.column_names)
         self.make_row_header = namedtuple('RowHeader', self.row_names)
 
+    @staticmethod
+    def _check_header(header):
+        """Check that all values of a header can be written."""
+        for key, value in header._asdict().items():
+            if 's' in HEADER_DTYPE[key]:
+                if not value.isascii():
+                    raise ValueError(f'{key} can only hold ASCII text.')
+            elif key not in ['GDT1', 'GTM1', 'GDT2', 'GTM2']:
+                if key in ['SLAT', 'SLON']:
+                    value = round(value * 100)
+                if not -(2**31) <= value < 2**31:
+                    raise ValueError(f'{key} can only hold 32-bit integers.')
+
     def _replace_nan(self, array):
         """Replace nan values from an array with missing value."""
         nan_loc = np.isnan(array)
@@ -949,6 +962,7 @@ class GridFile(DataManagementFile):
             gpm3,
         )
         new_column = self.make_column_header(*new_column)
+        self._check_header(new_column)
         column_headers = sorted(self._column_set | {new_column})
 
         if self.rows + len(column_headers) > MMHDRS:
@@ -1264,6 +1278,7 @@ class SoundingFile(DataManagementFile):
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
         new_column = self.make_column_header(*new_column)
+        self._check_header(new_column)
         column_headers = sorted(self._column_set | {new_column})
 
         if len(row_headers) + len(column_headers) > MMHDRS:
@@ -1522,7 +1537,7 @@ class SurfaceFile(DataManagementFile):
             stat = str(station_info.get('state', '')).upper()[:4]
             coun = str(station_info.get('country', '')).upper()[:4]
             std2 = ''
-            spri = station_info.get('priority', 0)
+            spri = int(station_info.get('priority', 0))
 
             if len(stid) > 4:
                 std2 = stid[4:8]
@@ -1534,6 +1549,7 @@ class SurfaceFile(DataManagementFile):
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
         new_column = self.make_column_header(*new_column)
+        self._check_header(new_column)
         column_headers = sorted(self._column_set | {new_column})
 
         if len(row_headers) + len(column_headers) > MMHDRS:
-- 
2.43.0


From 09c000200e8de5bac407828cf7a5063709995254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 64/80] fix: replace entries whose time and position are the
 same in the file

---
 src/gempakio/encode/gempak.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2377906..290eaea 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -945,6 +945,11 @@ class GridFile(DataManagementFile):
         pbuff = f'{parameter_name:<12s}'
         gpm1, gpm2, gpm3 = (pbuff[i : (i + 4)] for i in range(0, len(pbuff), 4))
 
+        # Headers hold whole minutes
+        init_date = init_date.replace(second=0, microsecond=0)
+        if date_time2 is not None:
+            init_date2 = init_date2.replace(second=0, microsecond=0)
+
         new_column = (
             (grid_type, init_date),
             (grid_type, forecast_hour, forecast_minute),
@@ -1272,7 +1277,13 @@ class SoundingFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (self._datetime.date(), self._datetime.time())
+        # Headers hold whole minutes and hundredths of a degree
+        new_row = (
+            self._datetime.date(),
+            self._datetime.time().replace(second=0, microsecond=0),
+        )
+        slat = round(slat * 100) / 100
+        slon = round(slon * 100) / 100
         new_row = self.make_row_header(*new_row)
         row_headers = sorted(self._row_set | {new_row})
 
@@ -1543,7 +1554,13 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (self._datetime.date(), self._datetime.time())
+        # Headers hold whole minutes and hundredths of a degree
+        new_row = (
+            self._datetime.date(),
+            self._datetime.time().replace(second=0, microsecond=0),
+        )
+        slat = round(slat * 100) / 100
+        slon = round(slon * 100) / 100
         new_row = self.make_row_header(*new_row)
         row_headers = sorted(self._row_set | {new_row})
 
-- 
2.43.0


From d5123004bc87c5a30e96094c9f908f04ea72e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 65/80] fix: refuse parameter names that are too long for the
 file

---
 src/gempakio/encode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 290eaea..4e94fb3 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1186,6 +1186,8 @@ class SoundingFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
+            if len(param) > 4 or not param.isascii():
+                raise ValueError('Parameter names can only be 4 ASCII characters.')
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
@@ -1470,6 +1472,8 @@ class SurfaceFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
+            if len(param) > 4 or not param.isascii():
+                raise ValueError('Parameter names can only be 4 ASCII characters.')
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
-- 
2.43.0


From e087f3a868d86b1b8551d071dd34c7a358aea4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 66/80] fix: refuse malformed text times instead of writing
 another time

---
 src/gempakio/encode/gempak.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 4e94fb3..d5d9358 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -315,6 +315,20 @@ class DataManagementFile:
         self.make_column_header = namedtuple('ColumnHeader', self.column_names)
         self.make_row_header = namedtuple('RowHeader', self.row_names)
 
+    @staticmethod
+    def _parse_time(text):
+        """Parse date and time of the form YYYYmmddHHMM."""
+        # Leading zeros are optional for strptime, but not in the format
+        if len(text) != 12:
+            raise ValueError(f'{text} does not match format of YYYYmmddHHMM.')
+        return datetime.strptime(text, '%Y%m%d%H%M')
+
+    @staticmethod
+    def _check_offset(hours, minutes):
+        """Check that a forecast hour and minute can be written."""
+        if not (0 <= hours <= 999 and 0 <= minutes <= 59):
+            raise ValueError('Forecast hour and minute must be of the form hhhmm.')
+
     @staticmethod
     def _check_header(header):
         """Check that all values of a header can be written."""
@@ -868,7 +882,7 @@ class GridFile(DataManagementFile):
             split_time = re.split('([AFVIG])', date_time)
             if len(split_time) == 3:
                 init, gtype, fhr = split_time
-                init_date = datetime.strptime(init, '%Y%m%d%H%M')
+                init_date = self._parse_time(init)
                 if len(fhr) > 3:
                     fmin = fhr[3:]
                     fhr = fhr[:3]
@@ -876,6 +890,7 @@ class GridFile(DataManagementFile):
                     forecast_minute = int(fmin)
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
+                self._check_offset(forecast_hour, forecast_minute)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
                 if grid_type == 0:
                     # Analysis headers hold the valid date and time only
@@ -885,7 +900,7 @@ class GridFile(DataManagementFile):
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
-                init_date = datetime.strptime(date_time, '%Y%m%d%H%M')
+                init_date = self._parse_time(date_time)
                 forecast_hour = int(init_date.strftime('%H'))
                 forecast_minute = int(init_date.strftime('%M'))
         elif isinstance(date_time, datetime):
@@ -914,7 +929,7 @@ class GridFile(DataManagementFile):
                 split_time = re.split('([AFVIG])', date_time2)
                 if len(split_time) == 3:
                     init, gtype, fhr = split_time
-                    init_date2 = datetime.strptime(init, '%Y%m%d%H%M')
+                    init_date2 = self._parse_time(init)
                     if len(fhr) > 3:
                         fmin = fhr[3:]
                         fhr = fhr[:3]
@@ -922,6 +937,7 @@ class GridFile(DataManagementFile):
                         forecast_minute2 = int(fmin)
                     else:
                         forecast_hour2 = 0 if fhr == '' else int(fhr)
+                    self._check_offset(forecast_hour2, forecast_minute2)
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
                     if grid_type2 == 0:
                         init_date2 += timedelta(hours=forecast_hour2, minutes=forecast_minute2)
@@ -932,7 +948,7 @@ class GridFile(DataManagementFile):
                 elif len(split_time) > 3:
                     raise ValueError(f'Cannot parse malformed date_time2 input {date_time2}.')
                 else:
-                    init_date2 = datetime.strptime(date_time2, '%Y%m%d%H%M')
+                    init_date2 = self._parse_time(date_time2)
                     forecast_hour2 = int(init_date2.strftime('%H'))
                     forecast_minute2 = int(init_date2.strftime('%M'))
             elif isinstance(date_time2, datetime):
@@ -1250,11 +1266,9 @@ class SoundingFile(DataManagementFile):
             date_time = date_time.upper()
             if 'F' in date_time:
                 init, fhr = date_time.split('F')
-                self._datetime = datetime.strptime(init, '%Y%m%d%H%M') + timedelta(
-                    hours=int(fhr)
-                )
+                self._datetime = self._parse_time(init) + timedelta(hours=int(fhr))
             else:
-                self._datetime = datetime.strptime(date_time, '%Y%m%d%H%M')
+                self._datetime = self._parse_time(date_time)
         elif isinstance(date_time, datetime):
             self._datetime = date_time
         else:
@@ -1531,7 +1545,7 @@ class SurfaceFile(DataManagementFile):
 
         if isinstance(date_time, str):
             date_time = date_time.upper()
-            self._datetime = datetime.strptime(date_time, '%Y%m%d%H%M')
+            self._datetime = self._parse_time(date_time)
         elif isinstance(date_time, datetime):
             self._datetime = date_time
         else:
-- 
2.43.0


From 3c0645f5756db352ff78366ef4adcee38cda3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 67/80] fix: refuse data that cannot be written, and keep
 masked points missing

---
 src/gempakio/encode/gempak.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index d5d9358..01537c4 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -342,10 +342,15 @@ class DataManagementFile:
                 if not -(2**31) <= value < 2**31:
                     raise ValueError(f'{key} can only hold 32-bit integers.')
 
-    def _replace_nan(self, array):
-        """Replace nan values from an array with missing value."""
-        nan_loc = np.isnan(array)
-        array[nan_loc] = self._missing_float
+    def _to_float(self, values):
+        """Copy numbers to an array with missing value for nan and masked values."""
+        values = np.ma.array(values)
+        if values.dtype.kind not in 'biuf':
+            raise TypeError('Data must be real numbers.')
+        array = np.asarray(values.astype(np.float64).filled(self._missing_float))
+        array[np.isnan(array)] = self._missing_float
+        if (np.abs(array[np.isfinite(array)]) > np.finfo(np.float32).max).any():
+            raise ValueError('Data exceed the range of 32-bit floats.')
         return array
 
     def _set_pointers(self):
@@ -958,6 +963,11 @@ class GridFile(DataManagementFile):
             else:
                 raise TypeError('date_time must be string or datetime or None.')
 
+        grid = self._to_float(grid)
+        valid = grid[grid != self._missing_float]
+        if valid.size and not valid.max() - valid.min() <= np.iinfo(np.int32).max:
+            raise ValueError('Range of grid is too large to be packed.')
+
         pbuff = f'{parameter_name:<12s}'
         gpm1, gpm2, gpm3 = (pbuff[i : (i + 4)] for i in range(0, len(pbuff), 4))
 
@@ -991,7 +1001,7 @@ class GridFile(DataManagementFile):
 
         self._column_set.add(new_column)
 
-        self.data[new_column] = self._replace_nan(grid.astype(np.float64))
+        self.data[new_column] = grid
 
         self.columns = len(column_headers)
         self.column_headers = column_headers
@@ -1213,7 +1223,7 @@ class SoundingFile(DataManagementFile):
     def _validate_length(data_dict):
         """Validate sounding parameters are of same length."""
         sz = len(data_dict[next(iter(data_dict))])
-        return all(len(x) == sz for x in data_dict.values()) and sz < MAX_LEVELS
+        return all(x.shape == (sz,) for x in data_dict.values()) and sz < MAX_LEVELS
 
     def add_sounding(self, data, slat, slon, date_time, station_info=None):
         """Add sounding to the file.
@@ -1250,7 +1260,7 @@ class SoundingFile(DataManagementFile):
         if not isinstance(data, dict):
             raise TypeError('data must be a dict.')
 
-        data = {k.upper(): self._replace_nan(np.asarray(v.copy())) for k, v in data.items()}
+        data = {k.upper(): self._to_float(v) for k, v in data.items()}
         params = self._param_args(**data)
 
         if not self._validate_length(data):
@@ -1531,7 +1541,10 @@ class SurfaceFile(DataManagementFile):
         if not isinstance(data, dict):
             raise TypeError('data must be a dict.')
 
-        data = {k.upper(): self._missing_float if np.isnan(v) else v for k, v in data.items()}
+        data = {
+            k.upper(): float(self._to_float(v)) if np.isscalar(v) else v
+            for k, v in data.items()
+        }
         params = self._param_args(**data)
 
         if not self._validate_length(data):
-- 
2.43.0


From f46dc333dd1dee99f5592f8d695621902fb8ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 68/80] fix: leave a front as it was when a code that is no
 integer is refused

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 7a556aa..e1cec19 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -984,9 +984,9 @@ class Front(Element):
         """
         if value not in range(1000):
             raise ValueError('Invalid front code.')
-        self._front_code = value
 
-        _code = f'{self._front_code:03d}'
+        _code = f'{value:03d}'
+        self._front_code = value
         self._front_type = int(_code[0])
         self._front_intensity = int(_code[1])
         self._front_character = int(_code[2])
-- 
2.43.0


From bfaa41f759f8c5223051ad7967d47237e797eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 69/80] fix: refuse additions to a VGF file that are not
 elements

---
 src/gempakio/encode/vgf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index e1cec19..9cd4032 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1680,6 +1680,8 @@ class VGFile:
 
     def add_element(self, element):
         """Add vector graphic element to VGF."""
+        if not isinstance(element, Element):
+            raise TypeError('element must be a vector graphic element.')
         self.elements.append(element)
 
     @classmethod
-- 
2.43.0


From fb9f28b8a1dbd3f78701e183acb4d299743f2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 70/80] fix: read soundings that have no levels

---
 src/gempakio/decode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index a098c6c..4ff9ff5 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2181,7 +2181,9 @@ class GempakSounding(GempakFile):
 
             if 'PRES' in snd:
                 vcoord = 'pres'
-                attrs['station_pressure'] = snd['PRES'][0]
+                attrs['station_pressure'] = (
+                    snd['PRES'][0] if len(snd['PRES']) > 0 else self.dm_label.missing_float
+                )
             elif 'HGHT' in snd:
                 vcoord = 'hght'
             else:
-- 
2.43.0


From c233ccad1fb3b0764a55bf88e44a95f5a29d27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 71/80] fix: keep the requested pressure in interpolated
 sounding parameters

---
 src/gempakio/gemcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 63c621f..a320b9b 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -325,7 +325,6 @@ def interp_parameters(vlev, adata, bdata, missing=-9999):
 
     outdata = {}
     rmult = np.log(vlev / pres1) / np.log(pres2 / pres1)
-    outdata['PRES'] = vlev
     for param, aval in adata.items():
         bval = bdata[param]
         if param == 'DRCT':
@@ -343,6 +342,7 @@ def interp_parameters(vlev, adata, bdata, missing=-9999):
 
         if missing in [aval, bval]:
             outdata[param] = missing
+    outdata['PRES'] = vlev
 
     return outdata
 
-- 
2.43.0


From 07669bbdcd6999acfa4b6874e34052594e218a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 72/80] fix: leave levels without temperature out of moist
 hydrostatic heights

---
 src/gempakio/gemcalc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index a320b9b..ce247cf 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -272,13 +272,17 @@ def interp_moist_height(sounding, missing=-9999):
         if klev != 0:
             s = (zt - zlev) / (znew - zlev)
             for h in range(ilev + 1, klev + 1):
-                hlist[h] *= s
+                if hlist[h] != missing:
+                    hlist[h] *= s
 
         hbb = zlev
         pbb = plev
         for ii in range(ilev + 1, jlev):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
+            # There is no hydrostatic height for levels without temperature
+            if scale_z == missing:
+                continue
             z = moist_hydrostatic_height(hbb, pbb, p, scale_z)
             sounding['HGHT'][ii] = z
             hbb = z
-- 
2.43.0


From f5156bc7972f78434563dfaa284cdccd35110bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 73/80] fix: honor the missing data flag in interpolated
 heights

---
 src/gempakio/gemcalc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index ce247cf..2d22f06 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -79,7 +79,9 @@ def interp_logp_height(sounding, missing=-9999):
                 tdt = sounding['DWPT'][i]
                 pt = sounding['PRES'][i]
                 scale_z = scale_height(tb, tt, tdb, tdt, pb, pt, missing)
-                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z)
+                sounding['HGHT'][i] = moist_hydrostatic_height(
+                    zb, pb, pt, scale_z, missing
+                )
 
             if missing not in [sounding['TEMP'][i], sounding['HGHT'][i]]:
                 pb = sounding['PRES'][i]
@@ -283,7 +285,7 @@ def interp_moist_height(sounding, missing=-9999):
             # There is no hydrostatic height for levels without temperature
             if scale_z == missing:
                 continue
-            z = moist_hydrostatic_height(hbb, pbb, p, scale_z)
+            z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
             sounding['HGHT'][ii] = z
             hbb = z
             pbb = p
-- 
2.43.0


From cd11484a08d6ff7787bccecabf9d4e0f8ded6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 74/80] fix: fill station files to whole records when the last
 table cell is empty

---
 src/gempakio/encode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 01537c4..87fd4e7 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1411,6 +1411,8 @@ class SoundingFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
+        # The last table cell may be empty, in which case the stream is not at the end
+        stream.jump_to(self.next_free_word)
         _rec, word = self._dmword(stream.word())
         # Fill out the remainder of the block, if needed
         if word != 1:
@@ -1688,6 +1690,8 @@ class SurfaceFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
+        # The last table cell may be empty, in which case the stream is not at the end
+        stream.jump_to(self.next_free_word)
         _rec, word = self._dmword(stream.word())
         # Fill out the remainder of the block, if needed
         if word != 1:
-- 
2.43.0


From d6a9a3fd7baed0d5afd9bee20a2a0f392d1b75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 75/80] fix: refuse files whose label counts more entries than
 fit in the file

---
 src/gempakio/decode/gempak.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4ff9ff5..674371f 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -332,6 +332,20 @@ class GempakFile:
             NamedStruct(self.dm_label_fmt, self.prefmt, 'ProductDescription')
         )
 
+        # Damaged counts would be read as tables of (up to billions of) empty entries.
+        words = len(self._buffer) // BYTES_PER_WORD
+        counts = [
+            self.dm_label.file_headers,
+            self.dm_label.row_keys,
+            self.dm_label.column_keys,
+            self.dm_label.rows,
+            self.dm_label.columns,
+            self.dm_label.parts,
+            self.dm_label.rows * self.dm_label.columns * self.dm_label.parts,
+        ]
+        if min(counts) < 0 or max(counts) > words:
+            raise ValueError('File label does not match the size of the file.')
+
         # File Keys
         # Surface and upper-air files will not have the file headers, so we need to check.
         if self.dm_label.file_headers > 0:
-- 
2.43.0


From 5a6b70131e78d48df2bb0d4290e6b5cc4c0ad961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 76/80] fix: do not compute huge integers from damaged packing
 scales

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 674371f..4c15ffc 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -589,7 +589,7 @@ class GempakFile:
             rdat = unpacked[ir : (ir + nparms)]
             itotal = 0
             for idata in range(nparms):
-                scale = 10 ** parameters['scale'][idata]
+                scale = 10.0 ** parameters['scale'][idata]
                 offset = parameters['offset'][idata]
                 bits = parameters['bits'][idata]
                 isbitc = (itotal % 32) + 1
-- 
2.43.0


From 6bbaf0d6c0128910c895cc3ffb5228ae612fc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 77/80] fix: refuse packed grids of another size than the
 file's before unpacking

---
 src/gempakio/decode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4c15ffc..ebb8688 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -941,12 +941,13 @@ class GempakGrid(GempakFile):
             lendat = self.data_header_length - part.header_length - 6
             packed_buffer_fmt = f'{self.prefmt}{lendat}i'
 
-            grid = np.zeros(self.grid_meta_int.kxky, dtype=np.float32)
-
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
             if lendat > 0:
+                if self.grid_meta_int.kxky != self.ky * self.kx:
+                    raise ValueError('Packed grid size does not match the navigation block.')
+
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
-- 
2.43.0


From d0c0913976c04553b91952f6673bbbb5136cd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 78/80] fix: refuse packed grids with impossible bit widths
 before unpacking

---
 src/gempakio/decode/gempak.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index ebb8688..f108313 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -872,6 +872,9 @@ class GempakGrid(GempakFile):
             )
             # grid_start = self._buffer.set_mark()
 
+            if not 0 <= self.grid_meta_int.bits <= 32:
+                raise ValueError('Packed grid has an invalid number of bits.')
+
             imiss = 2**self.grid_meta_int.bits - 1
             lendat = self.data_header_length - part.header_length - 8
             packed_buffer_fmt = f'{self.prefmt}{lendat}i'
@@ -948,6 +951,9 @@ class GempakGrid(GempakFile):
                 if self.grid_meta_int.kxky != self.ky * self.kx:
                     raise ValueError('Packed grid size does not match the navigation block.')
 
+                if not 0 <= self.grid_meta_int.bits <= 32:
+                    raise ValueError('Packed grid has an invalid number of bits.')
+
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
-- 
2.43.0


From efdd375bf9f7cb1dde67eb5081ed164a25aa086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 79/80] fix: keep blanks within station identifiers and grid
 parameter names

---
 src/gempakio/decode/gempak.py | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f108313..ddc5bcc 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -557,6 +557,16 @@ class GempakFile:
         """Decode bytes to string and strip whitespace."""
         return b.decode().strip()
 
+    @staticmethod
+    def _decode_rstrip(b):
+        """Decode bytes to string and strip trailing whitespace."""
+        return b.decode().rstrip()
+
+    @staticmethod
+    def _join_words(*words):
+        """Join the four-character words of a name, which can have blanks within."""
+        return ''.join(f'{word:<4s}' for word in words).strip()
+
     @staticmethod
     def _make_date(dattim):
         """Make a date object from GEMPAK DATTIM integer."""
@@ -664,7 +674,7 @@ class GempakGrid(GempakFile):
             if key in datetime_names
             else (key, 'i', self._convert_ftime)
             if key in ftime_names
-            else (key, '4s', self._decode_strip)
+            else (key, '4s', self._decode_rstrip)
             if key in string_names
             else (key, 'i')
             for key in self.column_keys
@@ -687,7 +697,7 @@ class GempakGrid(GempakFile):
                     head.GTM1[0],
                     head.GDT1 + head.GTM1[1],
                     head.GDT2 + head.GTM2[1] if head.GDT2 and head.GTM2 else None,
-                    head.GPM1 + head.GPM2 + head.GPM3,
+                    self._join_words(head.GPM1, head.GPM2, head.GPM3),
                     head.GLV1,
                     head.GLV2,
                     head.GVCD,
@@ -1142,7 +1152,7 @@ class GempakGrid(GempakFile):
                 self._buffer.jump_to(data_header, _word_to_position(part.header_length + 1))
                 packing_type = PackingType(self._buffer.read_int(4, self.endian, False))
 
-                full_name = col_head.GPM1 + col_head.GPM2 + col_head.GPM3
+                full_name = self._join_words(col_head.GPM1, col_head.GPM2, col_head.GPM3)
                 ftype, ftime = col_head.GTM1
                 valid = col_head.GDT1 + ftime
                 gvcord = col_head.GVCD.lower() if col_head.GVCD is not None else 'none'
@@ -1220,7 +1230,7 @@ class GempakSounding(GempakFile):
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
         self.column_headers = []
         column_headers_info = [
-            (key, '4s', self._decode_strip)
+            (key, '4s', self._decode_rstrip)
             if key == 'STID'
             else (key, 'i')
             if key == 'STNM'
@@ -1234,7 +1244,7 @@ class GempakSounding(GempakFile):
             if key == 'STAT'
             else (key, '4s', self._decode_strip)
             if key == 'COUN'
-            else (key, '4s', self._decode_strip)
+            else (key, '4s', self._decode_rstrip)
             if key == 'STD2'
             else (key, 'i')
             for key in self.column_keys
@@ -1272,7 +1282,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID + getattr(col_head, 'STD2', ''),
+                            self._join_words(col_head.STID, getattr(col_head, 'STD2', '')),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1293,7 +1303,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
+                'STID': self._join_words(col_head.STID, getattr(col_head, 'STD2', '')),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1354,7 +1364,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
+                'STID': self._join_words(col_head.STID, getattr(col_head, 'STD2', '')),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -2306,7 +2316,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(row_head.DATE, row_head.TIME),
-                                    col_head.STID + col_head.STD2,
+                                    self._join_words(col_head.STID, col_head.STD2),
                                     col_head.STNM,
                                     col_head.SLAT,
                                     col_head.SLON,
@@ -2334,7 +2344,7 @@ class GempakSurface(GempakFile):
                                 irow,
                                 icol,
                                 datetime.combine(col_head.DATE, col_head.TIME),
-                                col_head.STID + col_head.STD2,
+                                self._join_words(col_head.STID, col_head.STD2),
                                 col_head.STNM,
                                 col_head.SLAT,
                                 col_head.SLON,
@@ -2362,7 +2372,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(col_head.DATE, col_head.TIME),
-                                    row_head.STID + row_head.STD2,
+                                    self._join_words(row_head.STID, row_head.STD2),
                                     row_head.STNM,
                                     row_head.SLAT,
                                     row_head.SLON,
@@ -2401,7 +2411,7 @@ class GempakSurface(GempakFile):
     def _key_types(self, keys):
         """Determine header information from a set of keys."""
         return [
-            (key, '4s', self._decode_strip)
+            (key, '4s', self._decode_rstrip)
             if key == 'STID'
             else (key, 'i')
             if key == 'STNM'
@@ -2415,7 +2425,7 @@ class GempakSurface(GempakFile):
             if key == 'STAT'
             else (key, '4s', self._decode_strip)
             if key == 'COUN'
-            else (key, '4s', self._decode_strip)
+            else (key, '4s', self._decode_rstrip)
             if key == 'STD2'
             else (key, 'i', self._make_date)
             if key == 'DATE'
@@ -2972,7 +2982,7 @@ class GempakSurface(GempakFile):
                 stnobj = {
                     'properties': {
                         'date_time': datetime.combine(stn.pop('DATE'), stn.pop('TIME')),
-                        'station_id': stn.pop('STID') + stn.pop('STD2'),
+                        'station_id': self._join_words(stn.pop('STID'), stn.pop('STD2')),
                         'station_number': stn.pop('STNM'),
                         'longitude': stn.pop('SLON'),
                         'latitude': stn.pop('SLAT'),
-- 
2.43.0


From d088296ed126641234a7a561bb0bee3f16714e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 80/80] fix: find the nearest report of stations with no or a
 shared ID, or number 0

---
 src/gempakio/decode/gempak.py | 61 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index ddc5bcc..67fe932 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2785,7 +2785,9 @@ class GempakSurface(GempakFile):
         if isinstance(date_time, str):
             date_time = datetime.strptime(date_time, '%Y%m%d%H%M')
 
-        nargs = sum(map(bool, [station_id, station_number, state, country, bbox]))
+        nargs = sum(
+            arg is not None for arg in [station_id, station_number, state, country, bbox]
+        )
 
         if nargs == 0:
             raise ValueError('Must have one filter.')
@@ -2813,43 +2815,34 @@ class GempakSurface(GempakFile):
                 state = [state]
             state = [s.upper() for s in state]
 
-        if bbox is not None:
-            station_id = {
-                stn.ID for stn in self._sfinfo if _bbox_filter(stn.LAT, stn.LON, bbox)
-            }
-
-        if country:
-            station_id = set()
-            for cty in country:
-                station_id.update(stn.ID for stn in self._sfinfo if cty == stn.COUNTRY)
-
-        if state:
-            station_id = set()
-            for st in state:
-                station_id.update(stn.ID for stn in self._sfinfo if st == stn.STATE)
+        # Stations need not have an ID, or can share it, and are told apart by number then.
+        if station_id is not None:
+            stations = [(stn, None) for stn in station_id]
+        elif station_number is not None:
+            stations = [(None, stn) for stn in station_number]
+        else:
+            stations = sorted(
+                {
+                    (stn.ID, stn.NUMBER)
+                    for stn in self._sfinfo
+                    if (bbox is None or _bbox_filter(stn.LAT, stn.LON, bbox))
+                    and (country is None or stn.COUNTRY in country)
+                    and (state is None or stn.STATE in state)
+                }
+            )
 
         time_matched = []
-        if station_id:
-            for stn in station_id:
-                matched = self.sfjson(station_id=stn, include_special=include_special)
-
-                if matched:
-                    nearest = min(
-                        matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-                    )
-
-                    time_matched.append(nearest)
-
-        if station_number:
-            for stn in station_number:
-                matched = self.sfjson(station_number=stn, include_special=include_special)
+        for stid, stnm in stations:
+            matched = self.sfjson(
+                station_id=stid, station_number=stnm, include_special=include_special
+            )
 
-                if matched:
-                    nearest = min(
-                        matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-                    )
+            if matched:
+                nearest = min(
+                    matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
+                )
 
-                    time_matched.append(nearest)
+                time_matched.append(nearest)
 
         return time_matched
 
-- 
2.43.0

