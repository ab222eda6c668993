From faaa867435fdebfc39708cf95c97d9514f82b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:38 +0000
Subject: [PATCH 01/65] fix: strings and comments inside arrays and
 dictionaries are opaque to the tokenizer

---
 pdfsyntax/objects.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..8944c23 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -63,11 +63,16 @@ def next_line(bdata: bytes, start_pos: int=0) -> tuple:
     return None, None
 
 
+def skip_opaque(text: bytes, i: int) -> int:
+    """Find the last position of the string or comment starting at some index."""
+    _, j, _ = next_token(text, i)
+    return j - 1
+
+
 def next_token(text: bytes, i=0) -> tuple:
     """Find next token in raw string starting at some index."""
     search = "TBD"
     nested = 1
-    text_in_array = 0
     h = i
     while i < len(text):
         single = text[i:i+1]
@@ -109,6 +114,8 @@ def next_token(text: bytes, i=0) -> tuple:
             elif double == b'>>':
                 nested -= 1
                 i += 1
+            elif single in b'(<%' and i > h + 1:
+                i = skip_opaque(text, i)
             if nested == 0:
                 return (h, i + 1, 'DICT')
             else:
@@ -120,7 +127,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if single == b'\\':
                 i += 1
             elif single == b'(':
                 nested += 1
@@ -158,13 +165,13 @@ def next_token(text: bytes, i=0) -> tuple:
             elif  text[i:i+9] == b'endstream':
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
-            if single == b'(':
-                text_in_array = 1
-            elif single == b')':
-                text_in_array = 0
-            elif text_in_array == 0 and single == b'[':
+            if double == b'<<':
+                i += 1
+            elif single in b'(<%':
+                i = skip_opaque(text, i)
+            elif single == b'[':
                 nested += 1
-            elif text_in_array == 0 and single == b']':
+            elif single == b']':
                 nested -= 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
-- 
2.43.0


From b8ada858793582d0048f3bb2a447731064dc64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:53 +0000
Subject: [PATCH 02/65] fix: parsed references keep their generation number

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 8944c23..bdde0b7 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -186,7 +186,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
-- 
2.43.0


From 913f8b76d22b1af7070d2218b75c71e281693507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:54 +0000
Subject: [PATCH 03/65] fix: real numbers are serialised without exponent

---
 pdfsyntax/objects.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index bdde0b7..4b865d1 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -445,6 +445,22 @@ def parse_region(text: bytes, start=0) -> tuple:
     return None
 
 
+def fixed_point(text: str) -> str:
+    """Rewrite a number without exponent, which PDF does not allow."""
+    if 'e' not in text:
+        return text
+    mantissa, exponent = text.split('e')
+    exponent = int(exponent)
+    sign = ''
+    if mantissa[0] == '-':
+        sign = '-'
+        mantissa = mantissa[1:]
+    integer, _, decimals = mantissa.partition('.')
+    if exponent < 0:
+        return sign + '0.' + '0' * (-exponent - 1) + integer + decimals
+    return sign + integer + decimals + '0' * (exponent - len(decimals)) + '.0'
+
+
 def to_str(obj) -> bytes:
     """Transform a Python basic type into bytes."""
     if type(obj) == bool:
@@ -455,7 +471,7 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        return fixed_point(str(obj)).encode('ascii')
     elif type(obj) == str:
         return obj.encode('ascii')
     elif type(obj) == complex:
-- 
2.43.0


From c009f6ecd99a8f44642e4ede89b2492433c0a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:47 +0000
Subject: [PATCH 04/65] fix: stream data is delimited by its direct length and
 written with the exact length

---
 pdfsyntax/objects.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 4b865d1..5347083 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -33,7 +33,7 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
+    length = len(encoded)
     if '/Length' in entries and type(entries['/Length']) == int:
         entries['/Length'] = length
     return length
@@ -210,6 +210,27 @@ def dedicated_type(text: bytes, type: str) -> Any:
         return text
 
 
+def stream_data_start(text: bytes, i: int) -> int:
+    """Position of the data of the stream whose keyword is at some index."""
+    if text[i+6:i+8] == b'\r\n':
+        return i + 8
+    else:
+        return i + 7
+
+
+def delimit_stream(text: bytes, i: int, entries: dict) -> tuple:
+    """Find the end of the data and of the stream from a direct /Length, if it is right."""
+    length = entries.get('/Length')
+    if type(length) != int or length < 0:
+        return (None, None)
+    end = stream_data_start(text, i) + length
+    for eol in (b'\r\n', b'\n', b'\r', b''):
+        marker = eol + b'endstream'
+        if text[end:end+len(marker)] == marker:
+            return (end, end + len(marker))
+    return (None, None)
+
+
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
@@ -221,7 +242,11 @@ def parse_obj(text: bytes, start=0) -> Any:
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
-            stream_encoded =  parse_obj(following_obj)
+            data_end, _ = delimit_stream(text, h2, stream_def)
+            if data_end:
+                stream_encoded = text[stream_data_start(text, h2):data_end]
+            else:
+                stream_encoded =  parse_obj(following_obj)
             stream_content = decode_stream(stream_encoded, stream_def)
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
@@ -306,6 +331,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     o = parse_obj(text, i)
     i, j, t = next_token(text, j)
     if t == 'STREAM':
+        _, stream_end = delimit_stream(text, i, o['entries'])
+        if stream_end:
+            j = stream_end
         _, j, _ = next_token(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
@@ -503,7 +531,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From 427fea89f539bc901c4b084eec526a55f916abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 05/65] fix: filter chains apply in order and decoders accept
 standard encodings and parameters

---
 pdfsyntax/filters.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..f621945 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -4,6 +4,8 @@ import zlib
 import binascii
 import base64
 
+WHITESPACE = b'\x00\t\n\x0c\r '
+
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
 def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG predictors
@@ -33,29 +35,33 @@ def decode_stream(stream, stream_def):
         #filters = [filters]
         filters = filters.split()
     if '/DecodeParms' not in stream_def:
-        parms = [None] * len(filters)
+        parms = []
     else:
         parms = stream_def['/DecodeParms']
-        if type(parms) == dict:
+        if type(parms) != list:
             parms = [parms]
+    parms = parms + [None] * (len(filters) - len(parms))
+    res = s
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
             try:
-                res = zlib.decompress(s)
-                if parms[i] and '/Predictor' in parms[i]:
+                res = zlib.decompress(res)
+                if type(parms[i]) == dict and int(parms[i].get('/Predictor', 1)) != 1:
                     predictor = int(parms[i]['/Predictor'])
-                    columns = int(parms[i]['/Columns'])
+                    columns = int(parms[i].get('/Columns', 1))
                     res = decode_predictor(res, predictor, columns)
             except:
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                digits = res[:res.find(b'>')] if b'>' in res else res
+                digits = bytes([c for c in digits if c not in WHITESPACE])
+                res = binascii.unhexlify(digits + b'0' * (len(digits) % 2))
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(s, adobe=True)
+                res = base64.a85decode(res[:res.find(b'~>')+2], adobe=True, ignorechars=WHITESPACE)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
@@ -71,7 +77,7 @@ def encode_stream(stream, stream_def):
     if type(filters) == str:
         filters = [filters]
     res = stream
-    for _, f in enumerate(filters):
+    for f in reversed(filters): #the first filter is the first one to decode
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From a932bec4c5ab23e26ece05f38382da4a033a7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:30 +0000
Subject: [PATCH 06/65] fix: encoded hexadecimal and ASCII85 data have the
 delimiters PDF prescribes

---
 pdfsyntax/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index f621945..aab93cd 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -85,12 +85,12 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = asciihex(res)
+                res = asciihex(res) + b'>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85encode(res, adobe=True)
+                res = base64.a85encode(res, adobe=True)[2:]
             except:
                 return b'#PDFSyntaxException: cannot encode ASCII85'
         else:
-- 
2.43.0


From 9593c2c7604560cd65b293ec37defd0554dc2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:37 +0000
Subject: [PATCH 07/65] fix: cross-reference table entries are 20 bytes long
 and the trailer may follow on the same line

---
 pdfsyntax/filestruct.py | 4 ++--
 pdfsyntax/objects.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..738b827 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -408,10 +408,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 5347083..acb7399 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -383,7 +383,7 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
             res.append((offset, o_num, o_ver, keyword))
             o_num += 1
         bl, el = next_line(bdata, el)
-    bl, bf, _l = next_token(bdata, el)
+    bl, bf, _l = next_token(bdata, bl+len(b'trailer'))
     trailer = parse_obj(bdata, bl)
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
-- 
2.43.0


From caface7765ae119db7451c5d95ab35d0e141d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:15 +0000
Subject: [PATCH 08/65] fix: cross-reference streams hold large generations and
 numbers, and default types and empty subsections are read

---
 pdfsyntax/filestruct.py | 1 +
 pdfsyntax/objects.py    | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 738b827..758c054 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -446,6 +446,7 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
     max_counter = max([e[3] for e in elems if e[3] is not None])
+    max_counter = max([max_counter] + [e[2]+1 for e in elems] + [e[4] for e in elems if e[4]] + list(next_free.values()))
     b = (int(math.log2(max_counter+1)) // 8) + 1
     trailer['/W'] = [1, b, b]
     for use, num, o_gen, counter, env_num in elems:
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index acb7399..026e992 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -396,9 +396,8 @@ def expand_xref_index(xref_index: list) -> list:
     while i < len(xref_index):
         o_num = xref_index[i]
         i += 1
-        res.append((o_num, subsection))
-        for j in range(xref_index[i]-1):
-            res.append((o_num+j+1, subsection))
+        for j in range(xref_index[i]):
+            res.append((o_num+j, subsection))
         i += 1
         subsection += 1
     return res
@@ -424,6 +423,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
             params.append(int.from_bytes(x, byteorder='big'))
             i += int(col)
             ppr += asciihex(x) + b' '
+        if int(cols[0]) == 0: #default type
+            params[0] = 1
         if params[0] == 0:
             offset = params[1]
             o_gen = params[2]
-- 
2.43.0


From 80be0a61584b0c2818d351377f876dc5c8c2ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:28 +0000
Subject: [PATCH 09/65] fix: data providers designate the requested bytes in
 every mode

---
 pdfsyntax/docstruct.py  | 22 ++++++----------
 pdfsyntax/filestruct.py | 58 +++++++++++++++++++++--------------------
 2 files changed, 38 insertions(+), 42 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..95e1612 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -527,20 +527,14 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
             #_, _, _, sz = fdata(None, -1)
             sz = index
             return (None, None, None, sz + len(bdata))
-        if start_pos > index:
-            start_pos = start_pos - index
-            #if start_pos == -1 and length == 0:
-            #    return (None, None, None, len(bdata))
-            if length == -1:
-                length = len(bdata) - start_pos
-            if start_pos == -1:
-                i = len(bdata) - length
-            else:
-                i = start_pos
-            return (bdata, i, 0, min(len(bdata) - start_pos, length))
-            #return (bdata, i, index, min(len(bdata) - start_pos, length)) #TODO
-        else:
-            return fdata(start_pos, length)
+        i, nb_read = bounded_request(start_pos, length, index + len(bdata))
+        if i >= index:
+            return (bdata, i - index, index, nb_read)
+        elif i + nb_read <= index:
+            return fdata(i, nb_read)
+        else: #astride both sources
+            left, a0, _, _ = fdata(i, index - i)
+            return (left[a0:a0+index-i] + bdata[:i+nb_read-index], 0, i, nb_read)
     return composite_fdata
 
 
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 758c054..038fedc 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -11,6 +11,17 @@ from .filters import *
 MARGIN = b'\n'
 
 
+def bounded_request(start_pos: int, length: int, size: int) -> tuple:
+    """Return the absolute position and the number of readable bytes of a request."""
+    if start_pos < 0:
+        start_pos += size
+    i = min(max(start_pos, 0), size)
+    if length == -1:
+        return i, size - i
+    else:
+        return i, min(size - i, length)
+
+
 def bdata_provider(data_source, mode: str = "SINGLE"):
     """Build - with a higher order function - an interface to binary data.
     
@@ -31,11 +42,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         def single_load(start_pos: int, length: int) -> tuple:
             if start_pos ==  None and length == -1: #Special escape for length only
                 return (None, None, None, len(bdata))
-            i = (start_pos + len(bdata)) % len(bdata)
-            if length == -1:
-                nb_read = len(bdata) - i
-            else:
-                nb_read = min(len(bdata) - i, length)
+            i, nb_read = bounded_request(start_pos, length, len(bdata))
             return (bdata, i, 0, nb_read)
         return single_load
     else:
@@ -45,29 +52,20 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             file_size = file_obj.tell()
             if start_pos == None and length == -1:
                 return (None, None, None, file_size)
-            i = (start_pos + file_size) % file_size
-            if length == -1:
-                nb_read = file_size - i
-            else:
-                nb_read = min(file_size - i, length)
+            i, nb_read = bounded_request(start_pos, length, file_size)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
 def bdata_dummy(bdata: bytes):
     """ """
     def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
+        if start_pos == None and length == -1:
             return (None, None, None, len(bdata))
-        if length == -1:
-            length = len(bdata) - start_pos
-        if start_pos == -1:
-            i = len(bdata) - length
-        else:
-            i = start_pos
-        return (bdata, i, 0, min(len(bdata) - start_pos, length))
+        i, nb_read = bounded_request(start_pos, length, len(bdata))
+        return (bdata, i, 0, nb_read)
     return dummy_load
 
 
@@ -97,7 +95,7 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
     buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
     i = d0 + i0
     while i < d0 + i0 + sz0:
-        l = buf[i:i+LN]
+        l = buf[i-i0:min(i+LN,d0+i0+sz0)-i0]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
         ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
@@ -176,7 +174,9 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             table.append((f"{line[0]} {line[1]}".encode('ascii'), None))
         elif len(line) == 4:
             offset, o_num, o_gen, keyword = line
-            if keyword != b'f' and o_num != 0:
+            if keyword == b'f' and o_num != 0:
+                xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+            elif o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
@@ -267,14 +267,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             last = startxref_pos
         elif xrefstm:
             xref_pos = xrefstm
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             xrefstm = False
         elif prev:
             xref_pos = prev
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             prev = False
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
@@ -285,7 +287,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0 - o0) #o_num
+            i, j, _ = next_token(bdata, a0)      #o_num
             o_num = parse_obj(bdata, i)
             i, j, _ = next_token(bdata, j)       #o_ver
             i, j, _ = next_token(bdata, j)       #b'obj'
@@ -380,13 +382,13 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
 
 def eof_cut(eof_index: int, fdata: Callable) -> int:
     """Calculate where to cut the byte stream of a revision: after %%EOF and possibly EOLs"""
-    bdata, start, _, n = fdata(eof_index, bdata_length(fdata) - eof_index)
+    bdata, start, offset, n = fdata(eof_index, bdata_length(fdata) - eof_index)
     i = start + len('%%EOF')
     while i < start + n:
         if bdata[i] not in EOL:
             break
         i += 1
-    return i
+    return offset + i
 
 
 def circular_deleted(changes: list) -> dict:
-- 
2.43.0


From 8f05258b1c8b00ee3efec2402076da88af5ea567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 10/65] fix: /Prev of an update of a linearized file is the
 position of its last section

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 95e1612..6cb292b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -583,7 +583,7 @@ def commit(doc: Doc) -> Doc:
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
     if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
+        new_trailer['/Prev'] = new_doc.index[-2][0][-1].get('xref_table_pos') or new_doc.index[-2][0][-1].get('xref_stream_pos')
     else:
         new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
-- 
2.43.0


From 80ae04bfa9b02cd30ab85cfe2d3922c1e7499b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 11/65] fix: freed objects, embedded objects of high number,
 looping and hybrid sections are handled on load

---
 pdfsyntax/filestruct.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 038fedc..edf4038 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -216,6 +216,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
+            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
@@ -254,6 +255,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     prev_eof = None
     chrono = []
     seq = []
+    visited = set()
     while start or prev or xrefstm:
         a0 = 0
         o0 = 0
@@ -279,6 +281,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             prev = False
+        visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
@@ -303,7 +306,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             if '/XRefStm' in trailer:
                 xref_index[0]['xref_stm'] = True
                 xrefstm = int(trailer['/XRefStm'])
-            if '/Prev' in trailer:
+            if '/Prev' in trailer and int(trailer['/Prev']) not in visited:
                 prev = int(trailer['/Prev'])
     idx = sorted([i[0] for i in seq])
     _, _, _, file_sz = fdata(None, -1)
@@ -311,7 +314,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max([i['o_num'] for xref_index in chrono for i in xref_index])
     return chrono, nxt, nb
 
 
@@ -330,8 +333,14 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         if x[0].get('xref_stm'):
             p = new_xref_seq[-1]
             p = deepcopy(p)
-            p[0]['xref_stm'] = True
-            p[0]['abs_pos'] = x[0]['abs_pos']
+            p[0] = x[0]
+            p[-1] = x[-1]
+            #Objects that the table lists as free may be found in the stream only
+            in_table = [o for o in x[1:-1] if 'DELETED' not in o]
+            table_nums = {o['o_num'] for o in in_table}
+            p[1:-1] = in_table + [o for o in p[1:-1] if o['o_num'] not in table_nums]
+            stream_nums = {o['o_num'] for o in p[1:-1]}
+            p[1:1] = [o for o in x[1:-1] if o['o_num'] not in stream_nums]
             new_xref_seq[-1] = p
         else:
             new_xref_seq.append(x)
@@ -348,7 +357,17 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
-            if m[obj['o_num']] is None:
+            if 'DELETED' in obj:
+                old_obj = m[obj['o_num']]
+                if old_obj is None:
+                    continue
+                if 'DELETED' in old_obj:
+                    obj = old_obj
+                else:
+                    obj['o_gen'] = old_obj['o_gen']
+                    obj['o_ver'] = old_obj['o_ver'] + 1
+                    obj['doc_ver'] = doc_ver
+            elif m[obj['o_num']] is None:
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
             else:
@@ -367,7 +386,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if y.get('abs_next') or 'DELETED' in y:
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -634,7 +653,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -654,7 +673,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From 818d856991398e22aa6826e323df464f64285112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:07 +0000
Subject: [PATCH 12/65] fix: objects of object streams are read by their
 offsets and never replace newer definitions

---
 pdfsyntax/docstruct.py | 15 ++++++++++++---
 pdfsyntax/objects.py   | 21 ++++++---------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6cb292b..7c69933 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -224,7 +224,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     """
     if cache is None:
         cache = (key + 1) * [None]
-    if 'DELETED' in idx[rev][key]:
+    if idx[rev][key] is None or 'DELETED' in idx[rev][key]:
         return cache
     if  cache[key] != None:
         return cache
@@ -275,12 +275,19 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        if cache[container] is None:
+            cache[container] = stream_obj
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
+            if o_num >= len(idx[rev]) or idx[rev][o_num] is None:
+                continue
+            #Neighbours that are defined elsewhere since are left untouched
+            if idx[rev][o_num].get('env_num') != container:
+                continue
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            if cache[o_num] is None:
+                cache[o_num] = embedded_obj
     return cache
 
 
@@ -288,6 +295,8 @@ def get_object(doc: Doc, obj):
     """Return raw object or the target of an indirect reference."""
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
+        if ref >= len(doc.index[-1]):
+            return None
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
         return deepcopy(res[ref])
     else: 
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 026e992..b008af1 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -341,24 +341,15 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
 def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
     """List objects embedded within an object stream (/ObjStm)."""
     res = []
-    data = obj_stream['stream']
+    data = obj_stream['stream'] + b' ' #The last token may end with the stream
     offset = int(obj_stream['entries']['/First'])
-    theorical_nb_obj = int(obj_stream['entries']['/N'])
-    i = 0
-    tokens = []
-    while i < len(data):
-        bo, eo, typ = next_token(data, i)
-        tokens.append(bo)
-        i = eo
-    actual_nb_obj = len(tokens) // 3
-    actual_offset = tokens[2 * actual_nb_obj]
     y_array = parse_obj(b'[' + data[:offset] + b']')
-    y_pos = [y+offset for j, y in enumerate(y_array) if j % 2]
-    for x in range(actual_nb_obj):
-        actual_pos = tokens[2 * actual_nb_obj + x]
-        o_num = parse_obj(data, tokens[2 * x])
+    nb_obj = min(int(obj_stream['entries']['/N']), len(y_array) // 2)
+    for x in range(nb_obj):
+        o_num = y_array[2 * x]
+        theorical_pos = y_array[2 * x + 1] + offset
+        actual_pos, _, _ = next_token(data, theorical_pos)
         obj = parse_obj(data, actual_pos)
-        theorical_pos = actual_pos if actual_pos in y_pos else None
         res.append((o_num, obj, env_num, theorical_pos, actual_pos))
     return (None, None, 'OBJSTREAM', res)
 
-- 
2.43.0


From 155f71ea714aecc42c95b609da81773cdb067644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:21 +0000
Subject: [PATCH 13/65] fix: a document with a hybrid section in any revision
 is reported hybrid

---
 pdfsyntax/docstruct.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7c69933..9b97ed3 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -477,10 +477,10 @@ def encrypted(doc: Doc) -> bool:
 
 def hybrid(doc: Doc) -> bool:
     """Detect if doc is hybrid."""
-    if len(doc.index) >= 2 and doc.index[1][0].get('xref_stm'):
-        return True
-    else:
-        return False
+    for current in doc.index:
+        if type(current[0]) == dict and current[0].get('xref_stm'):
+            return True
+    return False
 
 
 def catalog(doc: Doc):
-- 
2.43.0


From 6a8bef37c964a72e18cf9fdc7f46464ab3a6bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:21 +0000
Subject: [PATCH 14/65] fix: a last revision without new objects is closed on
 load

---
 pdfsyntax/api.py       | 2 +-
 pdfsyntax/docstruct.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..a1a0bec 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -49,7 +49,7 @@ def doc_constructor(fdata: Callable) -> Doc:
         del i[-1]
     cache = build_cache(fdata, index)
     doc_initial = Doc(index, cache, data)
-    doc_new_rev = commit(doc_initial)
+    doc_new_rev = commit(doc_initial, force=True)
     return doc_new_rev
 
 
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 9b97ed3..62ef2cf 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -547,10 +547,13 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
     return composite_fdata
 
 
-def commit(doc: Doc) -> Doc:
-    """Add new index for incremental update."""
+def commit(doc: Doc, force: bool = False) -> Doc:
+    """Add new index for incremental update.
+
+    Nothing is done without pending changes, unless forced
+    """
     chg = changes(doc)
-    if len(chg) == 0:
+    if len(chg) == 0 and not force:
         return doc
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
-- 
2.43.0


From 3b470e3ba7afeb568330d0e6a55731e261568314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:15 +0000
Subject: [PATCH 15/65] fix: an object added and deleted in the same revision,
 or deleted twice, is not written

---
 pdfsyntax/docstruct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 62ef2cf..96a3cdc 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -377,8 +377,11 @@ def changes(doc: Doc, rev: int=-1):
             res.append((iref, 'a'))
         elif i < len(previous) and previous[i] == current[i]:
             pass
-        elif previous[i] != None and 'DELETED' not in previous[i] and 'DELETED' in current[i]:
-            res.append((iref, 'd'))
+        elif 'DELETED' in current[i]:
+            if i >= len(previous) or previous[i] is None or 'DELETED' not in previous[i]:
+                res.append((iref, 'd'))
+        elif i > len(previous)-1:
+            res.append((iref, 'a'))
         elif previous[i] != None and current[i] != previous[i]:
             res.append((iref, 'u'))
         else:
-- 
2.43.0


From fd82dcf60ab6154d54c6800cc95d72bde69db73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:15 +0000
Subject: [PATCH 16/65] fix: the entry of a cross-reference stream is sorted
 and sections without objects are written

---
 pdfsyntax/filestruct.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index edf4038..adaaf59 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -599,17 +599,18 @@ def build_revision_byte_stream(
                 new_index[num]['abs_next'] = counter + len(block)
                 counter += len(block)
     xref_table.sort(key=lambda xr: xr[1])
+    if xref_stream_num:
+        xref_table.append(('n', xref_stream_num, 0, counter, None))
     if not xref_stream_num:
         #cache[0]['/Size'] = len(current_index)
         built_xref = format_xref_table(xref_table, cache[0], next_free)
         new_index[0]['xref_table_pos'] = counter
-        new_index[0]['abs_pos'] = counter + built_xref.rfind(b'trailer')
+        new_index[0]['abs_pos'] = counter + built_xref.find(b'trailer')
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
-        xref_table.append(('n', xref_stream_num, 0, counter, None))
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From 24af4afa8e0d4284df4acf4b413de5b91f05bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:15 +0000
Subject: [PATCH 17/65] fix: forcing cross-reference streams and grouping
 objects leave the given document as it was

---
 pdfsyntax/docstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 96a3cdc..6381f47 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -422,7 +422,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
         elif current[o]['o_gen'] != 0:
             continue
         # TODO Add another elif for encryption dict
-        current[o]['env_num'] = env_num
+        current[o] = {**current[o], 'env_num': env_num}
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
 
@@ -722,6 +722,7 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     source_cat, source_cat_iref = catalog(source_doc)
     source_pages_iref = source_cat['/Pages']
     source_pages = get_object(source_doc, source_pages_iref)
+    new_doc.cache[0] = deepcopy(new_doc.cache[0])
     source_pcount = get_object(source_doc, source_pages['/Count'])
     source_doc = update_object(source_doc, int(source_cat_iref.imag), None)
     x_num = source_doc.index[-1][0].get('xref_stream_num')
-- 
2.43.0


From 8d2fca97345a242369d14f4b901f84449977d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:28 +0000
Subject: [PATCH 18/65] fix: rewound and mixed documents are written with their
 own cross-reference section

---
 pdfsyntax/docstruct.py  | 46 +++++++++++++++++++++++++++++++++--------
 pdfsyntax/filestruct.py |  3 ++-
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6381f47..2da01b3 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -373,9 +373,7 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
             continue
-        if i > len(previous)-1:
-            res.append((iref, 'a'))
-        elif i < len(previous) and previous[i] == current[i]:
+        if i < len(previous) and previous[i] == current[i]:
             pass
         elif 'DELETED' in current[i]:
             if i >= len(previous) or previous[i] is None or 'DELETED' not in previous[i]:
@@ -550,6 +548,12 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
     return composite_fdata
 
 
+def is_xref_stream(doc: Doc, o_num: int) -> bool:
+    """Detect if an object still is a cross-reference stream."""
+    o = get_object(doc, complex(0, o_num))
+    return type(o) == Stream and o['entries'].get('/Type') == '/XRef'
+
+
 def commit(doc: Doc, force: bool = False) -> Doc:
     """Add new index for incremental update.
 
@@ -566,13 +570,22 @@ def commit(doc: Doc, force: bool = False) -> Doc:
         x_num = doc.index[0][0].get('xref_stream_num')
     else: #TODO
         x_num = doc.index[0][0][0].get('xref_stream_num')
+    if type(current_index[0]) == dict:
+        own_x_num = current_index[0].get('xref_stream_num')
+        if own_x_num and own_x_num > 0:
+            x_num = own_x_num
+        elif own_x_num and (not x_num or not is_xref_stream(doc, x_num)):
+            x_num = -1
     if x_num:
         new_index0['xref_stream_num'] = -1
-        if x_num == -1:
-            x_num = len(current_index)
-            new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
-            new_doc.index[-1].append(new_index_xs)
-            new_doc.index[-1][0]['xref_stream_num'] = x_num
+        if 'eof_cut' not in new_doc.data[-1]:
+            if x_num == -1:
+                x_num = len(current_index)
+                new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
+                new_doc.index[-1].append(new_index_xs)
+                new_doc.cache.append(None)
+            new_doc.index[-1][0] = {**new_doc.index[-1][0], 'xref_stream_num': x_num}
+            new_doc.cache[x_num] = None
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
@@ -617,8 +630,23 @@ def rewind(doc: Doc) -> Doc:
     if 'eof_cut' in new_doc.data[-1]:
         del new_doc.data[-1]['eof_cut']
     new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index))
+    #Sections of the original file are replaced with a single one
+    if type(new_doc.index[-1][0]) == list: #Linearized
+        new_doc.index[-1][0] = new_doc.index[-1][0][-1]
+        if '/Prev' in new_doc.cache[0]:
+            del new_doc.cache[0]['/Prev']
+    if '/XRefStm' in new_doc.cache[0]:
+        del new_doc.cache[0]['/XRefStm']
     for o in objs:
         get_object(new_doc, o)
+    #Objects embedded in the undone revision are written as plain ones
+    for iref, action in changes(new_doc):
+        o_num = int(iref.imag)
+        if 'env_num' in new_doc.index[-1][o_num]:
+            new_i = new_doc.index[-1][o_num].copy()
+            for k in 'env_num o_pos abs_pos abs_next'.split():
+                new_i.pop(k, None)
+            new_doc.index[-1][o_num] = new_i
     return new_doc
 
 
@@ -694,6 +722,7 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc = copy_doc(doc, revision='SAME')
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
+    new_doc.cache[0] = deepcopy(new_doc.cache[0])
     if filt:
         new_doc.cache[0]['/Filter'] = filt
     return new_doc
@@ -722,7 +751,6 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     source_cat, source_cat_iref = catalog(source_doc)
     source_pages_iref = source_cat['/Pages']
     source_pages = get_object(source_doc, source_pages_iref)
-    new_doc.cache[0] = deepcopy(new_doc.cache[0])
     source_pcount = get_object(source_doc, source_pages['/Count'])
     source_doc = update_object(source_doc, int(source_cat_iref.imag), None)
     x_num = source_doc.index[-1][0].get('xref_stream_num')
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index adaaf59..49e2225 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -592,15 +592,16 @@ def build_revision_byte_stream(
                 obj = cache[num]
                 if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
                     obj = finalize_stream(obj)
+                    cache[num] = obj
                 block = serialize_fragment(num, o_gen, obj)
                 fragments.append(block)
                 xref_table.append(('n', num, o_gen, counter, env_num))
                 new_index[num]['abs_pos'] = counter
                 new_index[num]['abs_next'] = counter + len(block)
                 counter += len(block)
-    xref_table.sort(key=lambda xr: xr[1])
     if xref_stream_num:
         xref_table.append(('n', xref_stream_num, 0, counter, None))
+    xref_table.sort(key=lambda xr: xr[1])
     if not xref_stream_num:
         #cache[0]['/Size'] = len(current_index)
         built_xref = format_xref_table(xref_table, cache[0], next_free)
-- 
2.43.0


From 5e41916467e7ef1f3d4fab79ec9126b59b50bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:22 +0000
Subject: [PATCH 19/65] fix: squashing keeps the document information and the
 targets of all references, and dependencies terminate

---
 pdfsyntax/docstruct.py | 69 +++++++++++++++++++++++++-----------------
 pdfsyntax/objects.py   |  4 ++-
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 2da01b3..330d1e9 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -392,7 +392,7 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
-        env_num = x.get('env_num')
+        env_num = x.get('env_num') if type(x) == dict else None
         if env_num:
             if env_num not in res:
                 res[env_num] = []
@@ -427,7 +427,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return {o.get('env_num') for o in doc.index[-1] if type(o) == dict and o.get('env_num')}
 
 
 def version(doc: Doc) -> str:
@@ -780,25 +780,21 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
 
 
 def dependencies(doc: Doc, obj: Any) -> set:
-    """Recursively list indirect references found inside object.""" 
-    if type(obj) == dict:
-        res = set()
-        for k, v in obj.items():
-            if k == '/Parent' or k == '/P':
-                continue
-            res = res | dependencies(doc, v)
-        return res
-    elif type(obj) == list:
-        res = set()
-        for i in obj:
-            res = res | dependencies(doc, i)
-        return res
-    elif type(obj) == complex:
-        res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
-        return res
-    else:   
-        return set()
+    """List indirect references found inside object, directly or through other objects.""" 
+    res = set()
+    stack = [obj]
+    while stack:
+        o = stack.pop()
+        if type(o) == Stream:
+            stack.append(o['entries'])
+        elif type(o) == dict:
+            stack += [v for k, v in o.items() if k != '/Parent' and k != '/P']
+        elif type(o) == list:
+            stack += o
+        elif type(o) == complex and o not in res:
+            res.add(o)
+            stack.append(get_object(doc, o))
+    return res
 
 
 def keep_pages(doc: Doc, pages) -> Doc:
@@ -860,7 +856,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if o is None or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
@@ -874,6 +870,10 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
                 del new_o['abs_pos']
             if 'abs_next' in new_o:
                 del new_o['abs_next']
+            if 'env_num' in new_o:
+                del new_o['env_num']
+            if 'o_pos' in new_o:
+                del new_o['o_pos']
             new_index.append(new_o)
             new_ref = complex(0, nb) 
             if old_ref != new_ref:
@@ -881,25 +881,38 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     return new_index, mapping
 
 
+def retarget(obj: Any, new_nums: dict) -> Any:
+    """Replace all references, those to missing objects being equivalent to null."""
+    mapping = {iref: new_nums.get(int(iref.imag), 'null') for iref in deep_ref_detect(obj)}
+    return deep_ref_retarget(obj, mapping)
+
+
 def squash(doc: Doc) -> Doc:
     """Group all revisions into a single one."""
-    obj_stms = envelope_objects(doc)
+    #Containers and cross-references are rebuilt when the new revision is written
+    obsolete = set()
+    for iref in in_use(doc):
+        o = get_object(doc, iref)
+        if type(o) == Stream and o['entries'].get('/Type') in ('/ObjStm', '/XRef'):
+            obsolete.add(int(iref.imag))
     if type(doc.index[0][0]) == dict:
         xref_stream_num = doc.index[0][0].get('xref_stream_num')
     else: #TODO
         xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
+    new_index, _ = defragment_map(old_index, obsolete)
     if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+        new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
-    new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
+    new_nums = {int(new_index[i]['OLD_REF'].imag): complex(0, i) for i in range(1, len(new_index))}
+    trail = trailer(doc)
+    new_cache[0] = {k: trail[k] for k in ('/Root', '/Info', '/ID') if k in trail}
+    new_cache[0] = retarget(new_cache[0], new_nums)
     for i in range(1, len(new_index)):
         old_ref = new_index[i]['OLD_REF']
         obj = get_object(doc, old_ref)
-        obj = deep_ref_retarget(obj, mapping)
+        obj = retarget(obj, new_nums)
         new_cache[i] = obj
     new_doc = Doc([new_index], new_cache, new_data)
     chg = changes(new_doc)
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index b008af1..4f5fd86 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -545,6 +545,8 @@ def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
     if type(obj) == complex:
         if obj in mapping:
             return mapping[obj]
+    elif type(obj) == Stream:
+        deep_ref_retarget(obj['entries'], mapping)
     elif type(obj) == dict:
         for k in obj:
             obj[k] = deep_ref_retarget(obj[k], mapping)
@@ -559,7 +561,7 @@ def deep_ref_detect(obj: Any, l = None) -> set:
     if l is None:
         l = set()
     if type(obj) == complex:
-        return l.add(obj)
+        l.add(obj)
     elif type(obj) == Stream:
             deep_ref_detect(obj['entries'], l)
     elif type(obj) == dict:
-- 
2.43.0


From dfc43c990f6c67d80162021c9654827fc3be3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:39 +0000
Subject: [PATCH 20/65] fix: pages do not inherit from pages listed before and
 indirect page tree entries are resolved

---
 pdfsyntax/api.py       |  2 +-
 pdfsyntax/docstruct.py | 25 +++++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index a1a0bec..8c55ed7 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -179,7 +179,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(p['/MediaBox'], p.get('/Rotate')) for p in pl]
+    med = [(get_object(doc, p.get('/MediaBox')), get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 330d1e9..9d30681 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -311,23 +311,27 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
+    inherited = inherited or {}
     if num:
         node = get_object(doc, num)
     else:
         node = get_object(doc, catalog(doc)[0]['/Pages'])
     if node['/Type'] == '/Pages':
-        for kid in node['/Kids']:
-            e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
-            inherited.update(e)
-            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
-            if max_nb is not None and len(accu) == max_nb:
+        e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
+        inherited = {**inherited, **e}
+        for kid in get_object(doc, node['/Kids']):
+            if max_nb is not None and len(accu) >= max_nb:
                 return accu
+            remaining = None if max_nb is None else max_nb - len(accu)
+            accu = accu + flat_page_tree(doc, kid, inherited, remaining)
         return accu
     elif node['/Type'] == '/Page':
         return[(num, inherited)]
+    else:
+        return []
 
 
 def build_cache(fdata: Callable, index: list) -> list:
@@ -501,7 +505,7 @@ def info(doc: Doc):
 def number_pages(doc: Doc):
     """Return doc number of pages."""
     p = get_object(doc, catalog(doc)[0]['/Pages'])
-    return p['/Count']
+    return get_object(doc, p['/Count'])
 
 
 def pages(doc: Doc, max_nb=None) -> list:
@@ -824,14 +828,15 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-        kids = new_parent['/Kids']
+        kids = get_object(new_doc, new_parent['/Kids'])
         kids.remove(ref)
-        new_parent['/Count'] = new_parent['/Count'] - 1
+        new_parent['/Kids'] = kids
+        new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
         while '/Parent' in new_parent:
             p = new_parent['/Parent']
             new_parent = get_object(new_doc, p)
-            new_parent['/Count'] = new_parent['/Count'] - 1
+            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
     for ref in del_dep - keep_dep:
         new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
-- 
2.43.0


From 45374e335c629177a01910e4f833c95c7784f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:52 +0000
Subject: [PATCH 21/65] fix: concatenated pages are linked to their parent and
 do not inherit attributes of the other document

---
 pdfsyntax/docstruct.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 9d30681..51fe29d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -765,12 +765,26 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     for iref in objs:
         mapping[iref] = ir
         ir += 1j
+    new_nums = {int(iref.imag): mapping[iref] for iref in mapping}
     for iref in objs:
         obj = get_object(source_doc, iref)
-        new_obj = deep_ref_retarget(obj, mapping)
+        new_obj = retarget(obj, new_nums)
         new_doc, _ = add_object(new_doc, new_obj, immut=False)
     pages_iref = cat['/Pages']
     pages = get_object(new_doc, pages_iref)
+    if [k for k in INHERITABLE_ATTRS if k in pages]: #Added pages must not inherit them
+        root = {'/Type': '/Pages', '/Kids': [pages_iref], '/Count': pages['/Count']}
+        new_doc, root_iref = add_object(new_doc, root, immut=False)
+        pages['/Parent'] = root_iref
+        new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+        cat['/Pages'] = root_iref
+        new_doc = update_object(new_doc, int(cat_iref.imag), cat, immut=False)
+        pages_iref = root_iref
+        pages = root
+    added_pages_num = int(mapping[source_pages_iref].imag)
+    added_pages = get_object(new_doc, mapping[source_pages_iref])
+    added_pages['/Parent'] = pages_iref
+    new_doc = update_object(new_doc, added_pages_num, added_pages, immut=False)
     pcount = get_object(new_doc, pages['/Count'])
     kids = get_object(new_doc, pages['/Kids'])
     if target_left:
-- 
2.43.0


From 642f365972f9e2ea055d523414109943216fa537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:21 +0000
Subject: [PATCH 22/65] fix: streams that cannot be decoded completely keep
 their filters and data

---
 pdfsyntax/api.py     | 27 ++++++++++++++++++++++-----
 pdfsyntax/filters.py |  2 ++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 8c55ed7..914d507 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -211,19 +211,36 @@ def list_streams(doc: Doc) -> list:
     return ret
 
 
+def is_decoded(entries: dict, content: bytes) -> bool:
+    """Detect if the content of a stream has been completely decoded."""
+    filters = entries['/Filter']
+    if type(filters) == str:
+        filters = filters.split()
+    parms = entries.get('/DecodeParms', [])
+    if type(parms) != list:
+        parms = [parms]
+    if type(filters) != list or content.startswith(b'#PDFSyntaxException'):
+        return False
+    for f in filters:
+        if f not in DECODED_FILTERS:
+            return False
+    for p in parms:
+        if type(p) == complex or type(p) == dict and p.get('/Predictor', 1) != 1:
+            return False
+    return True
+
+
 def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
     """Force new filter state, for example /FlateDecode."""
     for o_num in streams:
         o = doc.obj(o_num)
         entries = o['entries']
         if '/Filter' in entries:
-            if entries['/Filter'] == flt:
+            if entries['/Filter'] == flt or not is_decoded(entries, o['stream']):
                 continue
-            else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
         entries = deepcopy(entries)
+        entries.pop('/DecodeParms', None)
+        entries['/Length'] = -1
         if '/Filter' in entries and flt == '':
             del entries['/Filter']
         else:
diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index aab93cd..76e90f6 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -34,6 +34,8 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
+    if type(filters) != list:
+        return b'#PDFSyntaxException: unsupported filter'
     if '/DecodeParms' not in stream_def:
         parms = []
     else:
-- 
2.43.0


From ad7fb1b44b15b36e86062fd629f5ac2bad67b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:41 +0000
Subject: [PATCH 23/65] fix: text annotations have escaped contents and are
 added to direct arrays

---
 pdfsyntax/api.py  | 10 +++++++---
 pdfsyntax/text.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 914d507..a5be88e 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -256,17 +256,21 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': encode_text_string(text),
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
     page_ref, _ = flat_page_tree(doc)[page_num]
     new_page = deepcopy(get_object(doc, page_ref))
-    if '/Annots' in new_page:
+    if '/Annots' in new_page and type(get_object(doc, new_page['/Annots'])) == list:
         annot_obj = new_page['/Annots']
         new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
-        doc = update_object(doc, int(annot_obj.imag), new_array)
+        if type(annot_obj) == complex:
+            doc = update_object(doc, int(annot_obj.imag), new_array)
+        else:
+            new_page['/Annots'] = new_array
+            doc = update_object(doc, int(page_ref.imag), new_page)
     else:
         annot_array = [a_iref]
         doc, aa_iref = add_object(doc, annot_array)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..8843cce 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -49,6 +49,16 @@ def text_string(string: bytes) -> str:
     return res
 
 
+def encode_text_string(text: str) -> bytes:
+    """Transform a text string into a fundamental string."""
+    for char in text:
+        if ord(char) > 0x7f or 0x18 <= ord(char) <= 0x1f: # Not the same in PDFDocEncoding
+            return b'<FEFF' + text.encode('utf-16be').hex().upper().encode('ascii') + b'>'
+    for char, escaped in [('\\', '\\\\'), ('(', '\\('), (')', '\\)'), ('\r', '\\r')]:
+        text = text.replace(char, escaped)
+    return b'(' + text.encode('ascii') + b')'
+
+
 def unescape_literal_string(string: bytes) -> bytes:
     """ """
     sequences = {
-- 
2.43.0


From 64d1dacfbd4e4d0a86c35b0ff172dcd5a077ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:56 +0000
Subject: [PATCH 24/65] fix: rewinding forgets the object numbers of newer
 revisions

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 51fe29d..94a6292 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -630,6 +630,8 @@ def rewind(doc: Doc) -> Doc:
     new_doc = copy_doc(doc, revision='PREVIOUS')
     new_doc.index.pop()
     new_doc.data.pop()
+    while new_doc.index[-1][-1] is None: #Numbers that only newer revisions define
+        new_doc.index[-1].pop()
     objs = in_use(new_doc)
     if 'eof_cut' in new_doc.data[-1]:
         del new_doc.data[-1]['eof_cut']
-- 
2.43.0


From 1f69bc7e0e9195ac67027294ac7b436e2fefd54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:05 +0000
Subject: [PATCH 25/65] fix: a modified cross-reference stream is only written
 as the section of the revision

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 94a6292..2c5c73a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -588,6 +588,7 @@ def commit(doc: Doc, force: bool = False) -> Doc:
                 new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
                 new_doc.index[-1].append(new_index_xs)
                 new_doc.cache.append(None)
+            chg = [(iref, action) for iref, action in chg if iref.imag != x_num]
             new_doc.index[-1][0] = {**new_doc.index[-1][0], 'xref_stream_num': x_num}
             new_doc.cache[x_num] = None
         if new_doc.cache[0].get('/DecodeParms'):
-- 
2.43.0


From 9c22c287735fba028304fa1c95cc1bb7bf0a30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:47 +0000
Subject: [PATCH 26/65] fix: removing the filter of a stream that has none
 leaves it without filter

---
 pdfsyntax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index a5be88e..2cd4553 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -241,8 +241,8 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
         entries = deepcopy(entries)
         entries.pop('/DecodeParms', None)
         entries['/Length'] = -1
-        if '/Filter' in entries and flt == '':
-            del entries['/Filter']
+        if flt == '':
+            entries.pop('/Filter', None)
         else:
             entries['/Filter'] = flt
         s, length = forge_stream(entries, o['stream'])
-- 
2.43.0


From c682863fd1e52f7f7746ffff97e3d43e56180710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:02 +0000
Subject: [PATCH 27/65] fix: an object stream without objects can be written

---
 pdfsyntax/filestruct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 49e2225..fc11783 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -544,13 +544,12 @@ def finalize_stream(envelope):
     header = b''
     entries = envelope['entries'].copy()
     if '/First' not in entries and '/N' not in entries:
-        tokens = entries['/FirstLine']
+        tokens = entries.pop('/FirstLine', [])
         for i in tokens:
             header += f'{i} '.encode('ascii')
         header += b'\n'
         entries['/First'] = len(header)
         entries['/N'] = len(tokens) // 2
-        del entries['/FirstLine']
     entries['/Length'] = -1
     new_ser = header + envelope['stream']
     envelope, _ = forge_stream(entries, new_ser)
-- 
2.43.0


From ba7075ed5c8ab58e9082e53ff2307e8d1b8f41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:57 +0000
Subject: [PATCH 28/65] fix: text strings honour all escape sequences, ends of
 line and notations of hexadecimal strings

---
 pdfsyntax/text.py | 60 +++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 8843cce..32b5d70 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -25,28 +25,23 @@ def decode_pdfdoc(string: bytes) -> str:
     return ''.join(chars)
 
 
+def string_bytes(string: bytes) -> bytes:
+    """Return the bytes that a literal or hexadecimal string designates."""
+    if string[0:1] == b'<':
+        digits = bytes([c for c in string[1:-1] if c not in SPACE])
+        if len(digits) % 2 == 1:
+            digits += b'0'
+        return bytes.fromhex(digits.decode('ascii'))
+    return unescape_literal_string(string[1:-1])
+
+
 def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
     if string is None: return None
-    res = ''
-    string = unescape_literal_string(string)
-    if string[0:1] == b'(': # Literal string
-        if string[1:3] == b'\xfe\xff': 
-            res = string[3:-1].decode('utf-16be')
-        else:
-            s = string[1:-1]
-            # = s.replace(b'\x5c\x5c', b'\x5c') # x5c is backslash
-            # = s.replace(b'\x5c(', b'(')
-            # = s.replace(b'\x5c)', b')')
-            res = decode_pdfdoc(s)
-    elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
-            b = bytes.fromhex(string[5:-1].decode('ascii'))
-            res = b.decode('utf-16be')
-        else:
-            b = bytes.fromhex(decode_pdfdoc(string[1:-1]))
-            res = decode_pdfdoc(b)
-    return res
+    string = string_bytes(string)
+    if string[0:2] == b'\xfe\xff':
+        return string[2:].decode('utf-16be', 'replace')
+    return decode_pdfdoc(string)
 
 
 def encode_text_string(text: str) -> bytes:
@@ -76,16 +71,29 @@ def unescape_literal_string(string: bytes) -> bytes:
     while i < len(string):
         first = string[i:i+1]
         second = string[i+1:i+2]
-        if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
-            elif second in sequences :
-                ret += sequences[second]
+        if first == b'\\' and second in sequences:
+            ret += sequences[second]
+            i += 2
+        elif first == b'\\' and second and second in b'01234567':
+            j = i + 1
+            while j < i + 4 and string[j:j+1] and string[j:j+1] in b'01234567':
+                j += 1
+            ret += bytes([int(string[i+1:j], 8) & 0xff])
+            i = j
+        elif first == b'\\': # Line continuation or superfluous backslash
+            i += 1
+            if second == b'\r' and string[i+1:i+2] == b'\n':
+                i += 2
+            elif second == b'\r' or second == b'\n':
+                i += 1
+        elif first == b'\r': # End-of-line markers are read as a line feed
+            ret += b'\n'
+            i += 1
+            if second == b'\n':
                 i += 1
         else:
             ret += first
-        i += 1
+            i += 1
     return ret
 
 
-- 
2.43.0


From 068a5d7eacb85514d41d60e245c978772effbe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:28 +0000
Subject: [PATCH 29/65] fix: character maps and encodings apply to codes of any
 length in any notation

---
 pdfsyntax/docstruct.py |  2 +-
 pdfsyntax/text.py      | 58 +++++++++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 2c5c73a..05790a9 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1016,7 +1016,7 @@ def prepare_font(doc: Doc, iref) -> dict:
         simple = True
     if font_desc['to_unicode']:
         cmap_stream = get_object(doc, font_desc['to_unicode'])
-        cmap = parse_obj(b'[' + cmap_stream['stream'] + b']')
+        cmap = parse_obj(b'[' + cmap_stream['stream'] + b'\n]')
         def dec_unicode_cmap(text):
             return apply_tounicode(cmap, text, simple)
         font_desc['dec_fun'] = dec_unicode_cmap
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 32b5d70..044c376 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -99,31 +99,43 @@ def unescape_literal_string(string: bytes) -> bytes:
 
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
-    s_string = string[1:-1]
-    if string[:1] == b'(':
-        s_string = unescape_literal_string(s_string)
-        return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
-    else:
-        return [int(s_string[j:j+word_l*2], 16) for j in range(0, len(s_string), word_l*2)]
+    s_string = string_bytes(string)
+    return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
 
 
 def apply_encoding(encoding: str, string: bytes) -> tuple:
     """ """
-    s = string[1:-1]
-    s = unescape_literal_string(s)
+    s = string_bytes(string)
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-        us = s.decode('cp1252')
+        us = s.decode('cp1252', 'replace')
     return us, list(s)
 
 
+def code_value(code: bytes) -> int:
+    """Return the numeric value of a code of a character map."""
+    return int.from_bytes(string_bytes(code), "big")
+
+
+def decode_target(target: bytes, offset: int = 0) -> str:
+    """Decode the UTF-16BE target of a mapping, offset by the rank in a range."""
+    if type(target) != bytes:
+        return ''
+    b = string_bytes(target)
+    if len(b) < 2:
+        b = bytes(2 - len(b)) + b
+    x = (int.from_bytes(b, "big") + offset) % 256 ** len(b)
+    return x.to_bytes(len(b), "big").decode('utf-16be', 'replace')
+
+
 def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
     """ """
     i = 0
-    word_l = 2 # in bytes
+    word_l = 1 if simple else 2 # in bytes
     section = None
     tokens = []
+    tokens_backup = None
     while i < len(cmap):
         if cmap[i] == 'begincodespacerange':
             #word_l = (len(cmap[i+1])-2) // 2
@@ -133,15 +145,15 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
         if cmap[i] == 'beginbfchar':
             section = 'CHAR'
             if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
+                word_l = len(string_bytes(cmap[i+1])) or word_l
                 tokens = tokenize_string(string, word_l)
                 tokens_backup = tokens.copy()
             i += 1
             continue
         if section == 'CHAR' and cmap[i] != 'endbfchar':
             for k, token in enumerate(tokens):
-                if token == int(cmap[i][1:-1], 16):
-                    tokens[k] = bytes.fromhex(cmap[i+1][1:-1].decode('ascii')).decode('utf-16be')
+                if token == code_value(cmap[i]):
+                    tokens[k] = decode_target(cmap[i+1])
             i += 2
             continue
         if section == 'CHAR' and cmap[i] == 'endbfchar':
@@ -151,28 +163,23 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
         if cmap[i] == 'beginbfrange':
             section = 'RANGE'
             if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
+                word_l = len(string_bytes(cmap[i+1])) or word_l
                 tokens = tokenize_string(string, word_l)
                 tokens_backup = tokens.copy()
             i += 1
             continue
         if section == 'RANGE' and cmap[i] != 'endbfrange':
             for k, token in enumerate(tokens):
-                r_a = int(cmap[i][1:-1], 16)
-                r_z = int(cmap[i+1][1:-1], 16)
+                r_a = code_value(cmap[i])
+                r_z = code_value(cmap[i+1])
                 if type(token) == int and token >= r_a and token <= r_z:
                     target = cmap[i+2]
                     if type(target) == list:
                         target = cmap[i+2]
-                        temp = target[token - r_a][1:-1]
-                        tokens[k] = bytes.fromhex(temp.decode('ascii')).decode('utf-16be')
+                        if token - r_a < len(target):
+                            tokens[k] = decode_target(target[token - r_a])
                     else:
-                        target = cmap[i+2][1:-1]
-                        x = int(target, 16) + (token - r_a)
-                        if word_l == 2:
-                            tokens[k] = bytes.fromhex(f'{x:04X}').decode('utf-16be')
-                        else:
-                            tokens[k] = bytes.fromhex(f'{x:02X}').decode('utf-16be')
+                        tokens[k] = decode_target(target, token - r_a)
             i += 3
             continue
         if section == 'RANGE' and cmap[i] == 'endbfrange':
@@ -180,6 +187,9 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
             i += 1
             continue
         i += 1
+    if tokens_backup is None: # No mapping
+        tokens = tokenize_string(string, word_l)
+        tokens_backup = tokens.copy()
     for j, t in enumerate(tokens):
         if type(t) != str:
             #for DEBUG
-- 
2.43.0


From 46a10ccb69e9b838839258a94ede69880181a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:29 +0000
Subject: [PATCH 30/65] fix: shown text is displaced by its exact adjustments
 and default widths apply without width array

---
 pdfsyntax/docstruct.py | 2 +-
 pdfsyntax/text.py      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 05790a9..326f690 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -952,7 +952,7 @@ def prepare_w(w, default_w):
     width = {}
     if not w:
         def char_width_cid_default(character_num):
-            return 500
+            return default_w
         return char_width_cid_default
     while i < len(w):
         if type(w[i+1]) == list:
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 044c376..c1d055b 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -218,9 +218,9 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                     width += fonts[font]['char_width'](c) / 1000
             else:
                 space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
-                t -= space_char_width * 0.2
-                if t <= -space_char_width:
-                    nb_char = int(-t) // int(space_char_width)
+                gap = space_char_width * 0.2 - t
+                if gap >= space_char_width and space_char_width >= 1:
+                    nb_char = int(gap) // int(space_char_width)
                     ustring += ' ' * nb_char
                 width -= t/1000
     return ustring, width
-- 
2.43.0


From 361dfa686e7e4f2fdf15f280d109dc92c22868fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:53 +0000
Subject: [PATCH 31/65] fix: a content stream that begins with operands has
 each command once and null is an operand

---
 pdfsyntax/graphics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..c6cc4a1 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -111,21 +111,19 @@ def parse_stream_content(content_stream: bytes) -> list:
     A command is a list made of operands followed by an operator, like [1, 0, 0, 1, 0, 0, 'cm']
     """
     ret = []
-    tokens = parse_obj(b'[' + content_stream + b']')
+    tokens = parse_obj(b'[' + content_stream + b'\n]')
     i = len(tokens) - 1
     section = None
     current = []
     while i >= 0:
-        if type(tokens[i]) == str and tokens[i][0:1] != '/':
+        if type(tokens[i]) == str and tokens[i][0:1] != '/' and tokens[i] != 'null':
             if current:
                 ret.insert(0, current)
             current = [tokens[i]]
             i -= 1
             continue
-        if type(tokens[i]) != str or tokens[i][0:1] == '/':
+        if type(tokens[i]) != str or tokens[i][0:1] == '/' or tokens[i] == 'null':
             current = [tokens[i]] + current
-            if i == 0 and current:
-                ret.insert(0, current)
             i -= 1
             continue
             i -= 1
-- 
2.43.0


From 3f3f06b6ca837305ca4d3321a72a5544cbc96d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:53 +0000
Subject: [PATCH 32/65] fix: text parameters are saved and restored with the
 graphics state

---
 pdfsyntax/graphics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c6cc4a1..0a4ee72 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -4,6 +4,7 @@ from .objects import *
 from copy import deepcopy
 
 IDENTITY_MATRIX = [1, 0, 0, 1, 0, 0]
+TEXT_PARAMETERS = 'Tc Tw Th Tl Tf Tfs Tmode Trise'.split() # part of the graphics state
 
 
 def multiply_matrices(m1: list, m2: list) -> list:
@@ -51,9 +52,12 @@ def apply_command(command: list, graphics_state_stack: list, text_state: dict):
     current_state = graphics_state_stack[-1]
     if command[-1] == 'q':
         state_backup = deepcopy(current_state)
+        current_state['text'] = {k: text_state[k] for k in TEXT_PARAMETERS}
         graphics_state_stack.append(state_backup)
     elif command[-1] == 'Q':
         graphics_state_stack.pop()
+        if graphics_state_stack:
+            text_state.update(graphics_state_stack[-1].pop('text'))
     elif command[-1] == 'cm':
         operands = command[:7]
         new_ctm = multiply_matrices(operands, current_state['ctm'])
-- 
2.43.0


From 2064095b6fba4a9b4249eac6adf41e731f7420d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:53 +0000
Subject: [PATCH 33/65] fix: pages without text or with single characters only
 can be laid out

---
 pdfsyntax/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0654969..b810617 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -11,9 +11,9 @@ def basic_spatial_layout(text_blocks: list) -> str:
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-    spacing = typical_line_spacing(text_blocks, fs)
+    spacing = typical_line_spacing(text_blocks, fs) or 1
     #print(f"spacing = {spacing}")
-    char_w = typical_char_width(text_blocks, fs)
+    char_w = typical_char_width(text_blocks, fs) or fs or 1
     #print(f"char w = {char_w}")
     previous_y = -1
     while text_blocks:
-- 
2.43.0


From 66de14a63c6e5d48c56e16653deadb2648df01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:54 +0000
Subject: [PATCH 34/65] fix: text is extracted with inherited or missing
 resources, contents in several streams and all showing operators

---
 pdfsyntax/api.py       |  6 +++---
 pdfsyntax/docstruct.py | 10 +++++-----
 pdfsyntax/text.py      |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 2cd4553..f1fba74 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -345,7 +345,7 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
     """List all content streams of a page."""
     ret = []
     pages = flat_page_tree(doc)
-    i_c = get_object(doc, pages[page_num][0])['/Contents']
+    i_c = get_object(doc, pages[page_num][0]).get('/Contents', [])
     if type(i_c) == complex:
         i_c = [i_c]
     for content in i_c:
@@ -371,7 +371,7 @@ def build_text_fragments(page_contents: list, f: list):
     ts = {}
     c_all = b''
     for c in page_contents:
-        c_all += c['stream']
+        c_all += c['stream'] + b'\n'
     t =parse_stream_content(c_all)
     for te in t:
         if te[-1] not in 'lmchnfgGref*':
@@ -379,7 +379,7 @@ def build_text_fragments(page_contents: list, f: list):
              pass
         apply_command(te, gs, ts)
         #print(ts['tm'])
-        if te[-1] == 'TJ' or te[-1] == 'Tj':
+        if te[-1] in ('TJ', 'Tj', "'", '"'):
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
             uc, displacement = text_element_to_unicode(f[0], te, ts)
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 326f690..568a593 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -989,11 +989,11 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc = {}
     o = get_object(doc, iref)
     font_desc['iref'] = iref
-    font_desc['name'] = o['/BaseFont']
+    font_desc['name'] = o.get('/BaseFont', '/')
     font_desc['type'] = o['/Subtype']
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
-    font_desc['encoding'] = o.get('/Encoding')
+    font_desc['encoding'] = get_object(doc, o.get('/Encoding'))
     first_char = o.get('/FirstChar')
     #last_char = o.get('/LastChar')
     widths = o.get('/Widths')
@@ -1036,10 +1036,10 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
     for page_num in page_nums:
         fonts = {}
         font_res = {}
-        page_ref, _ = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref)['/Resources']
+        page_ref, inherited = flat_page_tree(doc)[page_num]
+        resources = get_object(doc, page_ref).get('/Resources', inherited.get('/Resources'))
         if resources:
-            fonts = get_object(doc, resources)['/Font']
+            fonts = get_object(doc, get_object(doc, resources).get('/Font', {}))
         for font in fonts:
             font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index c1d055b..c2b3525 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -203,7 +203,7 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
     font = ts['Tf']
     ustring = ''
     width = 0
-    if element[-1] == 'Tj':
+    if element[-1] in ('Tj', "'", '"'):
             t = element[-2]
             us, chars = fonts[font]['dec_fun'](t)
             ustring += us
-- 
2.43.0


From e1290bfcdad57e9782a55802f4f868f152d8a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:00 +0000
Subject: [PATCH 35/65] fix: removing pages keeps the objects others need
 through inherited attributes or entries named /P or /Parent

---
 pdfsyntax/docstruct.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 568a593..f2c140f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -800,6 +800,14 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
+def _is_backlink(doc: Doc, key: str, value: Any) -> bool:
+    """Detect a link from a page or one of its objects to the page tree."""
+    if key != '/Parent' and key != '/P':
+        return False
+    target = get_object(doc, value)
+    return type(target) == dict and target.get('/Type') in ('/Page', '/Pages')
+
+
 def dependencies(doc: Doc, obj: Any) -> set:
     """List indirect references found inside object, directly or through other objects.""" 
     res = set()
@@ -809,7 +817,7 @@ def dependencies(doc: Doc, obj: Any) -> set:
         if type(o) == Stream:
             stack.append(o['entries'])
         elif type(o) == dict:
-            stack += [v for k, v in o.items() if k != '/Parent' and k != '/P']
+            stack += [v for k, v in o.items() if not _is_backlink(doc, k, v)]
         elif type(o) == list:
             stack += o
         elif type(o) == complex and o not in res:
@@ -840,8 +848,9 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     keep_dep = set()
     for i in del_ref:
         del_dep = del_dep | dependencies(new_doc, i)
-    for i in keep_ref:
-        keep_dep = keep_dep | dependencies(new_doc, i)
+    for ref, inherited in pages:
+        if ref in keep_ref:
+            keep_dep = keep_dep | dependencies(new_doc, [ref, inherited])
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-- 
2.43.0


From 22151bbb6fe1229cb323da4a2971b693fec0b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:31 +0000
Subject: [PATCH 36/65] fix: squashed objects are written with their new
 numbers

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f2c140f..3d95a7b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -893,6 +893,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             nb += 1
             old_ref = complex(o['o_gen'], o['o_num'])
             new_o = deepcopy(o)
+            new_o['o_num'] = nb
             new_o['o_gen'] = 0
             new_o['o_ver'] = 0
             new_o['doc_ver'] = 0
-- 
2.43.0


From 0c476a0c3fe45d73b741e822c488dbcb9505e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:31 +0000
Subject: [PATCH 37/65] fix: operators made of quotes are part of a content
 stream

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 4f5fd86..c8e3628 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -98,7 +98,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 i += offset
             elif single in b"+-.0123456789":
                 search = "VALUE"
-            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
+            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\"":
                 search = "KEYWORD"
             elif single in b"(":
                 search = "LSTRING"
-- 
2.43.0


From 7215b6c986fbdc52873bc47d5a5328388127e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:55:47 +0000
Subject: [PATCH 38/65] fix: comments between the tokens of a file and stray
 brackets do not derail reading or mapping

---
 pdfsyntax/objects.py | 47 ++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index c8e3628..72ce253 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -79,7 +79,7 @@ def next_token(text: bytes, i=0) -> tuple:
         double = text[i:i+2]
         if search == "TBD":
             if single == b']':
-                return (h, i, None)
+                return (h, i + 1, None)
             elif double == b'>>':
                 return (h, i+1, None)
             elif double == b'<<':
@@ -179,6 +179,14 @@ def next_token(text: bytes, i=0) -> tuple:
     return (h, i, None)
 
 
+def next_item(text: bytes, i=0) -> tuple:
+    """Find next token that is not a comment."""
+    h, j, t = next_token(text, i)
+    while t == 'COMMENT':
+        h, j, t = next_token(text, j)
+    return (h, j, t)
+
+
 def replace_ref(tokens: list) -> list:
     """Replace a sublist of X, Y, 'R' into a unique R namedtuple."""
     size = len(tokens)
@@ -233,12 +241,12 @@ def delimit_stream(text: bytes, i: int, entries: dict) -> tuple:
 
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
-    h1, j1, t1 = next_token(text, start)
+    h1, j1, t1 = next_item(text, start)
     obj = text[h1:j1]
     if t1 == 'DICT':
         res = {}
         res_array = []
-        h2, j2, t2 = next_token(text, j1)
+        h2, j2, t2 = next_item(text, j1)
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
@@ -251,7 +259,7 @@ def parse_obj(text: bytes, start=0) -> Any:
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
 
-        i = start + 2
+        i = h1 + 2
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
@@ -276,7 +284,7 @@ def parse_obj(text: bytes, start=0) -> Any:
         return res
     elif t1 == 'ARRAY':
         res = []
-        i = start + 1
+        i = h1 + 1
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
@@ -312,29 +320,26 @@ def parse_obj(text: bytes, start=0) -> Any:
             return None
         s = obj[b:-e]
         return s
-    elif t1 == 'COMMENT':
-        return ''
     else:
         return dedicated_type(text[h1:j1], t1)
 
 
 def parse_indirect_obj(text: bytes, start=0) -> tuple:
     """Recursively parse indirect object starting at X Y R."""
-    bl, el = next_line(text, start)
-    bo = bl
-    i1, j1, _ = next_token(text, start) #o_num
-    i2, j2, _ = next_token(text, j1) #o_gen
+    i1, j1, _ = next_item(text, start) #o_num
+    bo = i1
+    i2, j2, _ = next_item(text, j1) #o_gen
     o_num = int(text[i1:j1])
     o_gen = int(text[i2:j2])
-    i, j, _ = next_token(text, j2) #obj
-    i, j, _ = next_token(text, j) #object1
+    i, j, _ = next_item(text, j2) #obj
+    i, j, _ = next_item(text, j) #object1
     o = parse_obj(text, i)
-    i, j, t = next_token(text, j)
+    i, j, t = next_item(text, j)
     if t == 'STREAM':
         _, stream_end = delimit_stream(text, i, o['entries'])
         if stream_end:
             j = stream_end
-        _, j, _ = next_token(text, j) #endobj
+        _, j, _ = next_item(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
 
@@ -374,7 +379,7 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
             res.append((offset, o_num, o_ver, keyword))
             o_num += 1
         bl, el = next_line(bdata, el)
-    bl, bf, _l = next_token(bdata, bl+len(b'trailer'))
+    bl, bf, _l = next_item(bdata, bl+len(b'trailer'))
     trailer = parse_obj(bdata, bl)
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
@@ -443,18 +448,18 @@ def parse_region(text: bytes, start=0) -> tuple:
         return None
     if bl != start:
         return (start, bl, 'VOID', text[start:bl])
-    elif typ is None:
-        return (start, el, 'VOID', text[start:el])
     elif text[bl:bl+len(PERCENT)] == PERCENT:
         return (bl, el, 'COMMENT', text[bl:el])
+    elif typ is None:
+        return (start, el, 'VOID', text[start:el])
     elif text[bl:bl+len(STARTXREF)] == STARTXREF:
         i1, j1, _ = next_token(text, bl)
-        i2, j2, _ = next_token(text, j1)
+        i2, j2, _ = next_item(text, j1)
         return (bl, j2, 'STARTXREF', text[i2:j2])
     elif typ == 'INTEGER':
         i1, j1, _ = next_token(text, bl)
-        i2, j2, _ = next_token(text, j1)
-        i3, j3, t = next_token(text, j2)
+        i2, j2, _ = next_item(text, j1)
+        i3, j3, t = next_item(text, j2)
         if t == 'KEYWORD' and text[i3:j3] == OBJ:
             ind_o = parse_indirect_obj(text, bl)
             return ind_o
-- 
2.43.0


From 33842c4e7f1460149e1da44a4852e9370b5d3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:19 +0000
Subject: [PATCH 39/65] fix: no content of a document becomes markup in the
 HTML view

---
 pdfsyntax/display.py  | 47 ++++++++++++++++++++++++++-----------------
 pdfsyntax/graphics.py |  4 ++--
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..21c47df 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -248,6 +248,11 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
     return page
 
 
+def escaped(value) -> str:
+    """Text of any value coming from the document."""
+    return html.escape(str(value))
+
+
 def build_nav_pages(pages, index) -> str:
     """."""
     ret = '\n'
@@ -290,7 +295,7 @@ def build_nav_objects(articles) -> str:
                 c = c['entries']
             t = c.get("/Type", "")
         ret += '<li>'
-        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
+        ret += f'<a class="nav-idx" href="#idx{pos}">{escaped(q)}</a> {escaped(t)}'
         ret += '</li>\n'
     ret += '</ul>\n'
     ret += '</pre>\n'
@@ -323,8 +328,8 @@ def build_nav_info(structure, file_size) -> str:
     ret += '<pre class="b2">\n'
     ret += '<ul>'
     attrs = []
-    attrs.append(f'{"Version: ":{INFO_MAX_WIDTH}}{structure["Version"]}')
-    attrs.append(f'{"Page(s): ":{INFO_MAX_WIDTH}}{structure["Pages"]}')
+    attrs.append(f'{"Version: ":{INFO_MAX_WIDTH}}{escaped(structure["Version"])}')
+    attrs.append(f'{"Page(s): ":{INFO_MAX_WIDTH}}{escaped(structure["Pages"])}')
     attrs.append(f'{"Revision(s): ":{INFO_MAX_WIDTH}}{structure["Revisions"]}')
     attrs.append(f'{"Hybrid: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Hybrid"])}')
     attrs.append(f'{"Linearized: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"])}')
@@ -359,7 +364,7 @@ def build_header(filename: str) -> str:
     ret = ''
     ret += f'<div class="header b3">\n'
     ret += f'<pre>\n'
-    ret += f'{os.path.basename(filename)} - '
+    ret += f'{escaped(os.path.basename(filename))} - '
     ret += f'internal view generated by '
     ret += f'<a href="https://pdfsyntax.dev">PDFSyntax</a>\n'
     ret += f'</pre>\n'
@@ -390,7 +395,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = escaped(comment[:10].decode('ascii'))
     except:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
@@ -429,7 +434,7 @@ def build_xref_table(table: list, index: list) -> str:
         else:
             _, _, _, y = x
             _, pos, o_num, o_gen, st = y
-            ret += f'{pos:010} {o_gen:05} {st.decode("ascii")}'
+            ret += f'{pos:010} {o_gen:05} {escaped(st.decode("ascii"))}'
             if st != b'f':
                 ret += '    '
                 ret += f'<a href="#idx{pos}">'
@@ -495,18 +500,19 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
             name = i #name = i.decode('ascii')
+            label = escaped(f'{name:{NAME_MAX_WIDTH}}')
             value = follow_obj(obj[i], index, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
+                ret += f'  {label}<span class="important">{value}</span>\n'
             elif name == '/JS':
-                ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
+                ret += f'  <span class="warning">{label}</span>{value}\n'
             elif value == '/JavaScript':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
-            elif name == '/Prev':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
+                ret += f'  {label}<span class="warning">{value}</span>\n'
+            elif name == '/Prev' and type(obj[i]) == int:
+                ret += f'  {label}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
-                ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
+                ret += f'  {label}{value}\n'
         ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
         ret += '&gt;&gt;'
         if content and display_stream:
@@ -522,12 +528,15 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
             ret += f'endstream\n'
     elif type(obj) == list:
         ret += '[ '
-        for i in obj:
-            value = follow_obj(i, index)
-            ret += f'{value} '
-        if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
-            ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
-        ret += ']'        
+        values = [f'{follow_obj(i, index)} ' for i in obj]
+        text = ''.join(values)
+        if len(text) + 2 > VALUE_MAX_WIDTH and 'href' not in text:
+            #Values are kept whole, as they may contain tags and character references
+            shown = ''
+            while values and len(shown) + len(values[0]) + 2 <= VALUE_MAX_WIDTH:
+                shown += values.pop(0)
+            text = (shown or values.pop(0)) + (TRUNCATED if values else '')
+        ret += text + ']'
     else:
         comment = False
         if type(obj) == int or type(obj) == float or type(obj) == bool or type(obj) == str or obj is None:
@@ -593,7 +602,7 @@ def build_obj_header(article, index, cross) -> str:
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = obj['o_num'], 0, 0
+        o_num, o_gen, o_ver = escaped(obj['o_num']), 0, 0
         _, _, _, used_by = cross[pos]
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 0a4ee72..4cd5acf 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -1,6 +1,7 @@
 """ """
 
 from .objects import *
+import html
 from copy import deepcopy
 
 IDENTITY_MATRIX = [1, 0, 0, 1, 0, 0]
@@ -146,8 +147,7 @@ def printable_stream_content(content_stream: bytes, escape = True) -> str:
             return None
     ret = c.decode('latin-1')
     if escape:
-        ret = ret.replace('<', '&lt;')
-        ret = ret.replace('>', '&gt;')
+        ret = html.escape(ret)
     return ret
 
 
-- 
2.43.0


From 6712c9914f13647f3c63adcca6f5fc9579478e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:03:17 +0000
Subject: [PATCH 40/65] fix: dangling references and objects that are not
 indexed do not stop the HTML view

---
 pdfsyntax/api.py     | 39 ++++++++++++++++-----------------------
 pdfsyntax/display.py | 16 +++++++++++-----
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index f1fba74..1d00fae 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -417,23 +417,14 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
     return ret
 
 
-def find_xref_table_pos_in_index(xref_table_pos, index):
-    """."""
+def find_xref_pos_in_index(key, xref_pos, index):
+    """Find the last revision whose section (xref_table_pos or xref_stream_pos) is at some position."""
     found = None
-    obj = index[0][0]
-    if type(obj) == dict:
-        obj_list = [obj]
-    else:
-        obj_list = obj
-    for o in obj_list:
-        if o.get('xref_table_pos') == xref_table_pos:
-            found = (0, 0)
-    for ver in range(1, len(index)):
+    for ver in range(len(index)):
         obj = index[ver][0]
-        if obj is None:
-            continue
-        if obj.get('xref_table_pos') == xref_table_pos:
-            found = (0, ver)
+        for o in obj if type(obj) == list else [obj]:
+            if o is not None and o.get(key) == xref_pos:
+                found = (o.get('xref_stream_num', 0), ver)
     return found
 
 
@@ -462,7 +453,7 @@ def cross_map_index(sections, index):
         abs_pos, addon, typ, payload = section
         if typ == 'XREFTABLE':
             trailer = payload['trailer']
-            relevance = find_xref_table_pos_in_index(abs_pos, index)
+            relevance = find_xref_pos_in_index('xref_table_pos', abs_pos, index)
             targets = deep_ref_detect(trailer)
             ret[abs_pos] = 0, relevance, targets, []
         elif typ == 'IND_OBJ':
@@ -470,18 +461,20 @@ def cross_map_index(sections, index):
             o_gen = payload['o_gen']
             obj = payload['obj']
             relevance = find_abs_pos_in_index(abs_pos, index)
+            if relevance is None:
+                relevance = find_xref_pos_in_index('xref_stream_pos', abs_pos, index)
             targets = deep_ref_detect(obj)
             ret[abs_pos] = o_num, relevance, targets, []
     for abs_pos in ret:
         o_num, relevance, targets, _ = ret[abs_pos]
-        _, ver = relevance
-        if ver < len(index) - 1:
+        if relevance is None or relevance[1] < len(index) - 1:
             continue
-        for target in targets:
-            target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
-            _, _, _, target_used_by = ret[target_pos]
-            target_used_by.append((o_num, abs_pos))
+        for target_num in {int(target.imag) for target in targets}:
+            entry = index[-1][target_num] if 0 < target_num < len(index[-1]) else None
+            target_pos = entry.get('abs_pos') if entry else None
+            if target_pos in ret: #References may be dangling
+                _, _, _, target_used_by = ret[target_pos]
+                target_used_by.append((o_num, abs_pos))
     return ret
 
 
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 21c47df..329bc15 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -219,7 +219,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
         elif typ == 'IND_OBJ':
             page += build_obj_header(article, index, cross)
             _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            _, ver = relevance or (None, -1)
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
                 page += follow_obj(o, index[ver], display_stream=False)
@@ -228,6 +228,8 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
                 page += '\n\nendobj'
                 page += build_obj_trailer()
         elif typ == 'XREFTABLE':
+            _, relevance, _, _ = cross[abs_pos]
+            _, ver = relevance or (None, -1)
             page += build_obj_header(article, index, cross)
             page += build_xref_table(content['table'], index)
             page += "\ntrailer\n"
@@ -485,7 +487,8 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     if isinstance(obj, complex):
         o_num = int(obj.imag)
         o_gen = int(obj.real)
-        abs_pos = index[o_num].get('abs_pos')
+        entry = index[o_num] if 0 < o_num < len(index) else None
+        abs_pos = entry.get('abs_pos') if entry else None
         ret += f'<a href="#idx{abs_pos}">'
         ret += f'<span class="obj-link">{o_num} {o_gen} R</span>'
         ret += '</a>'
@@ -582,9 +585,12 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<pre>\n'
     elif type(pos) == int:
         _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = index[ver][o_num]['o_gen']
-        o_ver = index[ver][o_num]['o_ver']
+        o_num, o_gen, o_ver = obj['o_num'], obj['o_gen'], 0
+        if relevance:
+            o_num, ver = relevance
+            entry = index[ver][o_num] if o_num < len(index[ver]) else None
+            if entry:
+                o_gen, o_ver = entry['o_gen'], entry['o_ver']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
         ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
-- 
2.43.0


From c8aa042a90c944e094e3acbf9143fa84222fc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:04 +0000
Subject: [PATCH 41/65] fix: changes of the first revision are not computed
 against the last one

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3d95a7b..07f2044 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -367,7 +367,7 @@ def changes(doc: Doc, rev: int=-1):
     """List deleted/updated/added objects."""
     res = []
     current = doc.index[rev]
-    if len(doc.index) == 1:
+    if rev in (0, -len(doc.index)):
         previous = [None] * len(current)
     else:
         previous = doc.index[rev-1]
-- 
2.43.0


From aabf1f6d017e9bb074754dc82e1bf4abd8fb7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:56 +0000
Subject: [PATCH 42/65] fix: fragments of one line stay on it whatever the
 direction of the text

---
 pdfsyntax/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index b810617..99560bd 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -11,7 +11,7 @@ def basic_spatial_layout(text_blocks: list) -> str:
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-    spacing = typical_line_spacing(text_blocks, fs) or 1
+    spacing = abs(typical_line_spacing(text_blocks, fs)) or 1
     #print(f"spacing = {spacing}")
     char_w = typical_char_width(text_blocks, fs) or fs or 1
     #print(f"char w = {char_w}")
-- 
2.43.0


From 73d726491c77726e36a194a03f145e174767a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:14 +0000
Subject: [PATCH 43/65] fix: a linearized file is recognized whatever the
 comments that precede its dictionary

---
 pdfsyntax/filestruct.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index fc11783..e16e03a 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -624,13 +624,11 @@ def build_revision_byte_stream(
 
 def linearized(fdata: Callable) -> dict:
     """ """
-    HEADER = b'%PDF-X.Y'
-    bdata, a0, o0, _ = fdata(len(HEADER), 1024 - len(HEADER))
-    i, j, _ = next_token(bdata, a0) #comment
-    i, j, _ = next_token(bdata, j)  #o_num
-    i, j, _ = next_token(bdata, j)  #gen_num
-    i, j, _ = next_token(bdata, j)  #obj keyword
-    i, j, t = next_token(bdata, j)  #dict ?
+    bdata, a0, o0, _ = fdata(0, 1024)
+    i, j, _ = next_item(bdata, a0)  #o_num, after the header and other comments
+    i, j, _ = next_item(bdata, j)  #gen_num
+    i, j, _ = next_item(bdata, j)  #obj keyword
+    i, j, t = next_item(bdata, j)  #dict ?
     if t == 'DICT':
         o = bdata[i:j]
         first_obj = parse_obj(o)
-- 
2.43.0


From 9d745208575cc29d49c5a3dd191c4fd1cb74f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:14 +0000
Subject: [PATCH 44/65] fix: paper size for any order of corners, indirect
 coordinates and documents without pages

---
 pdfsyntax/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 1d00fae..a5bdd52 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -142,7 +142,8 @@ def structure(doc: Doc) -> dict:
         ret['Linearized'] = True
     else:
         ret['Linearized'] = False
-    ret['Paper of 1st page'] = paper(page_layouts(doc, 1)[0][0])
+    layouts = page_layouts(doc, 1)
+    ret['Paper of 1st page'] = paper([get_object(doc, x) for x in layouts[0][0]]) if layouts else 'unknown'
     return ret
 
 
@@ -167,7 +168,7 @@ def metadata(doc: Doc) -> dict:
 
 def paper(mediabox: list) -> str:
     """Detect paper size."""
-    x, y = mediabox[2] - mediabox[0], mediabox[3] - mediabox[1]
+    x, y = abs(mediabox[2] - mediabox[0]), abs(mediabox[3] - mediabox[1])
     ptype = 'unknown'
     for t in PAPER_SIZES:
         if PAPER_SIZES[t] == (x, y):
-- 
2.43.0


From 49b360a751c6fe234a539ad6393499753b8d2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:14 +0000
Subject: [PATCH 45/65] fix: null and indirect values of the version,
 information and encryption entries

---
 pdfsyntax/docstruct.py | 20 +++++++++++---------
 pdfsyntax/text.py      |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 07f2044..2e2b02c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -440,16 +440,18 @@ def version(doc: Doc) -> str:
     bdata, a0, _, _ = fdata(5, 3)
     ver = bdata[a0:a0+3]
     cat, _ = catalog(doc)
-    if '/Version' in cat and cat['/Version'][1:] > ver.decode('ascii'):
-            return cat['/Version'][1:]
+    cat_ver = get_object(doc, cat.get('/Version')) or 'null'
+    if cat_ver != 'null' and cat_ver[1:] > ver.decode('ascii'):
+            return cat_ver[1:]
     return ver.decode('ascii')
 
 
 def update_version(doc: Doc, ver: str) -> Doc:
     """Upgrade PDF version in incremental update."""
     cat, i_ref = catalog(doc)
-    if '/Version' in cat:
-        if cat['/Version'][1:] < ver:
+    cat_ver = get_object(doc, cat.get('/Version')) or 'null'
+    if cat_ver != 'null':
+        if cat_ver[1:] < ver:
             cat['/Version'] = '/' + ver
             return update_object(doc, int(i_ref.imag), cat)
         else:
@@ -473,8 +475,8 @@ def trailer(doc: Doc):
 def encrypted(doc: Doc) -> bool:
     """Detect if doc is encrypted."""
     trail = trailer(doc)
-    encrypt = trail.get('/Encrypt')
-    if encrypt:
+    encrypt = get_object(doc, trail.get('/Encrypt'))
+    if encrypt and encrypt != 'null':
         return True
     else:
         return False
@@ -497,9 +499,9 @@ def catalog(doc: Doc):
 def info(doc: Doc):
     """Return doc Info dictionary if present."""
     trail = trailer(doc)
-    info = trail.get('/Info')
-    if info:
-        return get_object(doc, info)
+    info = get_object(doc, trail.get('/Info'))
+    if type(info) == dict:
+        return info
 
 
 def number_pages(doc: Doc):
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index c2b3525..9a45a04 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -37,7 +37,7 @@ def string_bytes(string: bytes) -> bytes:
 
 def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
-    if string is None: return None
+    if type(string) != bytes: return None
     string = string_bytes(string)
     if string[0:2] == b'\xfe\xff':
         return string[2:].decode('utf-16be', 'replace')
-- 
2.43.0


From 4b965f1719d87e20831216e20deac5f98ddfdca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:51:00 +0000
Subject: [PATCH 46/65] fix: removing pages keeps the objects that the catalog
 uses too

---
 pdfsyntax/docstruct.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 2e2b02c..c61c7a8 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -810,8 +810,8 @@ def _is_backlink(doc: Doc, key: str, value: Any) -> bool:
     return type(target) == dict and target.get('/Type') in ('/Page', '/Pages')
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
-    """List indirect references found inside object, directly or through other objects.""" 
+def dependencies(doc: Doc, obj: Any, excluded=()) -> set:
+    """List indirect references found inside object, directly or through other (not excluded) objects.""" 
     res = set()
     stack = [obj]
     while stack:
@@ -822,7 +822,7 @@ def dependencies(doc: Doc, obj: Any) -> set:
             stack += [v for k, v in o.items() if not _is_backlink(doc, k, v)]
         elif type(o) == list:
             stack += o
-        elif type(o) == complex and o not in res:
+        elif type(o) == complex and o not in res and o not in excluded:
             res.add(o)
             stack.append(get_object(doc, o))
     return res
@@ -847,7 +847,9 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     del_ref = {pages[p][0] for p in del_pages}
     keep_ref = {p[0] for p in pages} - del_ref
     del_dep = set()
-    keep_dep = set()
+    root = trailer(new_doc)['/Root']
+    rest = [trailer(new_doc), {k: v for k, v in get_object(new_doc, root).items() if k != '/Pages'}]
+    keep_dep = dependencies(new_doc, rest, del_ref | {root}) | {root}
     for i in del_ref:
         del_dep = del_dep | dependencies(new_doc, i)
     for ref, inherited in pages:
-- 
2.43.0


From e1a4fb633e516d795150110dfb6b317e05cf19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:00 +0000
Subject: [PATCH 47/65] fix: entries, pages and anchors of the HTML view lead
 to the version of the object they mean

---
 pdfsyntax/display.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 329bc15..7e3f5ce 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -4,7 +4,7 @@ import os
 import html
 from .objects import Stream
 from .graphics import printable_stream_content
-from .api import bool2yesno
+from .api import bool2yesno, find_xref_pos_in_index
 
 
 NAME_MAX_WIDTH = 20
@@ -236,7 +236,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
             page += follow_obj(content['trailer'], index[ver])
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
-            page += build_xref_stream(content['table'], index)
+            page += build_xref_stream(content['table'], index, abs_pos)
             page += '\n\nendobj'
             page += build_obj_trailer()
     page += build_header(filename)
@@ -446,18 +446,21 @@ def build_xref_table(table: list, index: list) -> str:
     return ret
 
 
-def build_xref_stream(table: list, index: list) -> str:
+def build_xref_stream(table: list, index: list, xref_pos: int) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
     ret += '\nstream\n\n'
+    _, ver = find_xref_pos_in_index('xref_stream_pos', xref_pos, index) or (None, -1)
     for x in table:
         _, _, _, y = x
         _, pos, o_num, o_gen, st, env_num, raw_line = y
-        if o_num != 0:
+        if o_num != 0 and st == b'f':
+            ret += f'#{o_num} {o_gen}    Free {pos:010} {st.decode("ascii")}\n'
+        elif o_num != 0:
             if env_num:
-                #abs_pos = envs[env_num] + (pos + 1) / 10000
-                #ret += f'<a href="#idx{abs_pos}">'
-                ret += f'<a href="#obj{o_num}.{o_gen}.0">'
+                entry = index[ver][o_num] if o_num < len(index[ver]) else None
+                abs_pos = entry.get('abs_pos') if entry else None
+                ret += f'<a href="#idx{abs_pos}">'
             else:
                 ret += f'<a href="#idx{pos}">'
             ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
@@ -567,6 +570,17 @@ def build_xref_item_header() -> str:
     return ret
 
 
+def obj_version(article, relevance, index) -> tuple:
+    """Tell an object apart from the others of the same number, its position being used when it is not indexed."""
+    pos, _, _, obj = article
+    if relevance:
+        o_num, ver = relevance
+        entry = index[ver][o_num] if 0 < o_num < len(index[ver]) else None
+        if entry and entry.get('abs_pos') == pos:
+            return entry['o_gen'], entry['o_ver']
+    return obj['o_gen'] or 0, f'at{pos}'
+
+
 def build_obj_header(article, index, cross) -> str:
     """Add opening elements to object."""
     pos, addon, typ, obj = article
@@ -585,12 +599,8 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<pre>\n'
     elif type(pos) == int:
         _, relevance, _, used_by = cross[pos]
-        o_num, o_gen, o_ver = obj['o_num'], obj['o_gen'], 0
-        if relevance:
-            o_num, ver = relevance
-            entry = index[ver][o_num] if o_num < len(index[ver]) else None
-            if entry:
-                o_gen, o_ver = entry['o_gen'], entry['o_ver']
+        o_num = obj['o_num']
+        o_gen, o_ver = obj_version(article, relevance, index)
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
         ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
@@ -608,8 +618,9 @@ def build_obj_header(article, index, cross) -> str:
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = escaped(obj['o_num']), 0, 0
-        _, _, _, used_by = cross[pos]
+        o_num = escaped(obj['o_num'])
+        _, relevance, _, used_by = cross[pos]
+        o_gen, o_ver = obj_version(article, relevance, index)
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
         ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
-- 
2.43.0


From 5069342c11e7b7824b93b721318b651ecd7dd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:00 +0000
Subject: [PATCH 48/65] fix: a null startxref is not a link in the HTML view

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 7e3f5ce..c52328a 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -384,7 +384,7 @@ def add_startxref(article: dict, index: list, cross) -> str:
     ret += f'<pre>\n'
     ret += f'<span class="c1">{pos:010d}</span><span class="obj-header b0">startxref</span>\n'
     ret += f'<div class="obj-body b0">\n'
-    if xref == 0:
+    if int(xref) == 0:
         ret += f'0\n'
     else:
         ret += f'<a class="obj-link" href="#{href}">{int(xref)}</a>\n'
-- 
2.43.0


From 8e934496a60e7b9cd3645052d5ecd7e82a8e4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:09 +0000
Subject: [PATCH 49/65] fix: the disassembly flags exactly the wrong entries
 and the objects that are not indexed

---
 pdfsyntax/cli.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 99b327f..988a84d 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -199,7 +199,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
     dir_not_indexed = {x for t, _, _, x in check_not_indexed_objects(sections, i) if t == 'DIR'}
-    emb_not_indexed = {(e, n) for t, n, e, _ in check_not_indexed_objects(sections, i) if t == 'EMB'}
+    emb_not_indexed = {(e, s) for t, _, e, s in check_not_indexed_objects(sections, i) if t == 'EMB'}
     lines = []
     for start_pos, end_pos, region_type, content in sections:
         pos = start_pos
@@ -240,10 +240,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                  'region_type': region_type.lower(), 'detail': detail
                  }
             lines.append(l)
-            if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
-            else:
-                wt = set()
+            wt = wrong_targets.get(pos, [])
             for x in content['table']:
                 st = '-@'
                 if len(x) == 2:
@@ -258,7 +255,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if s == b'n' and ('DIR', x_num, x_gen, addr) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'region_type': region_type.lower(),
                      'iref': iref, 'addr': addr, 'cl': cl, 'st': st
@@ -313,10 +310,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
             lines.append(l)
         elif region_type == 'XREFSTREAM':
             trailer = content['trailer']
-            if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
-            else:
-                wt = set()
+            wt = wrong_targets.get(pos, [])
             for x in content['table']:
                 st = '-@'
                 _, _, _, y = x
@@ -331,7 +325,11 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if env_num is None:
+                    key = ('DIR', x_num, x_gen, addr)
+                else:
+                    key = ('EMB', x_num, env_num, addr)
+                if s == b'n' and key in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'pos': pos,
                      'region_type': region_type.lower(), 'iref': iref,
-- 
2.43.0


From 8ab854d3555dc8c3a9f9192f0f1f73dcde79b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:19 +0000
Subject: [PATCH 50/65] fix: the list of fonts counts each page once and reads
 indirect and null attributes

---
 pdfsyntax/api.py       | 3 ++-
 pdfsyntax/docstruct.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index a5bdd52..f29ee95 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -315,7 +315,8 @@ def fonts(doc: Doc) -> dict:
                           'pages': [],
                           'to_unicode': u,
                           }
-            ret[o]['pages'].append(i)
+            if i not in ret[o]['pages']:
+                ret[o]['pages'].append(i)
     return ret
 
 
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c61c7a8..009ac7b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1003,11 +1003,13 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc = {}
     o = get_object(doc, iref)
     font_desc['iref'] = iref
-    font_desc['name'] = o.get('/BaseFont', '/')
-    font_desc['type'] = o['/Subtype']
+    font_desc['name'] = get_object(doc, o.get('/BaseFont', '/'))
+    font_desc['type'] = get_object(doc, o['/Subtype'])
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
     font_desc['encoding'] = get_object(doc, o.get('/Encoding'))
+    if font_desc['encoding'] == 'null':
+        font_desc['encoding'] = None
     first_char = o.get('/FirstChar')
     #last_char = o.get('/LastChar')
     widths = o.get('/Widths')
-- 
2.43.0


From 035b28ea98d9001ba30d902e7cb190222ad7c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:07 +0000
Subject: [PATCH 51/65] fix: the history of data shows the end of each revision
 on its own line

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 009ac7b..ad8300e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -173,7 +173,7 @@ def pprint_data_history(doc: Doc):
     for i in range(ver):
         fd = doc.data[i].get('fdata')
         bd = doc.data[i].get('bdata')
-        cut = doc.data[-i].get('eof_cut')
+        cut = doc.data[i].get('eof_cut')
         _, _, _, sz = fd(None, -1)
         n = fd.__name__
         hist[i]['data_f()'] = n.split('_')[0]
-- 
2.43.0


From 46d87bf1fea9b2679c22634500c7655fb85efb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:07 +0000
Subject: [PATCH 52/65] fix: the display of the page hierarchy resolves
 indirect kids

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ad8300e..b7f799d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -202,7 +202,7 @@ def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int
     level += 1
     offset = "    " * level
     if node['/Type'] == '/Pages':
-        kids = node['/Kids']
+        kids = get_object(doc, node['/Kids'])
         accu += f"{offset} /Pages node at {iref}, kids count = {len(kids)}:\n"
         for kid in kids:
             accu, n = pprint_page_hierarchy(doc, kid, n, level, accu)
-- 
2.43.0


From 1f7ba0cd16faf5667bfc0dc72169dc04dba06428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:07 +0000
Subject: [PATCH 53/65] fix: pprint_page_contents called an undefined function

---
 pdfsyntax/api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index f29ee95..6513b4a 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -412,9 +412,11 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
     ret = ''
     contents = get_page_contents(doc, page_num)
     for content in contents:
-        f = format_stream_content(content)
+        f = printable_stream_content(content['stream'], escape=False)
+        if f is None:
+            f = repr(content['stream'])
         ret += '$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$\n'
-        ret += f
+        ret += f + '\n'
     print(ret)
     return ret
 
-- 
2.43.0


From dcc60ae7d747c5b808d2e3692ca5394fe99dbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:55:49 +0000
Subject: [PATCH 54/65] fix: cut the first revision of an updated linearized
 file after its last section

---
 pdfsyntax/filestruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index e16e03a..e5cb487 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -357,6 +357,9 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
+            if obj['o_num'] == -1 and m[-1] and m[-1]['abs_pos'] > obj['abs_pos']:
+                #The first section of a linearized file is followed by the rest of the revision
+                continue
             if 'DELETED' in obj:
                 old_obj = m[obj['o_num']]
                 if old_obj is None:
-- 
2.43.0


From 2ae3ff009dde08d08402b5cf0b1cfd894737dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:55:49 +0000
Subject: [PATCH 55/65] fix: embedded objects listed by the hidden section of a
 hybrid file are looked up in its revision

---
 pdfsyntax/display.py    | 4 +++-
 pdfsyntax/filestruct.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index c52328a..4a98ad4 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -450,7 +450,9 @@ def build_xref_stream(table: list, index: list, xref_pos: int) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
     ret += '\nstream\n\n'
-    _, ver = find_xref_pos_in_index('xref_stream_pos', xref_pos, index) or (None, -1)
+    _, ver = (find_xref_pos_in_index('xref_stream_pos', xref_pos, index)
+              or find_xref_pos_in_index('xref_stm_pos', xref_pos, index) #Hybrid file
+              or (None, -1))
     for x in table:
         _, _, _, y = x
         _, pos, o_num, o_gen, st, env_num, raw_line = y
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index e5cb487..1775f0e 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -333,6 +333,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         if x[0].get('xref_stm'):
             p = new_xref_seq[-1]
             p = deepcopy(p)
+            x[0]['xref_stm_pos'] = p[0].get('xref_stream_pos')
             p[0] = x[0]
             p[-1] = x[-1]
             #Objects that the table lists as free may be found in the stream only
-- 
2.43.0


From 06baef007e1683dffe7f96d557a06bd9143bd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 56/65] fix: keep the last paragraph of a markdown text that
 does not end with a blank line

---
 pdfsyntax/markdown.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index aba1991..66ed72e 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -201,9 +201,9 @@ def parse_table(lines: list, start_pos = 0):
 
 def flush_p(blocks: list, b: list):
     """Flush paragraph into blocks buffer."""
-    if b:
+    if any(b):
         blocks.append(('P', [''.join(b)]))
-        b.clear()
+    b.clear()
     return
 
 
@@ -259,6 +259,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             if ln_break:
                 b.append("<br>")
         i += 1
+    flush_p(blocks, b)
     return blocks, i
 
 
-- 
2.43.0


From e63a83073e8dcffe8a54610c4140481eaaa7ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 57/65] fix: keep words of consecutive markdown lines apart

---
 pdfsyntax/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 66ed72e..6ee71e9 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -69,7 +69,7 @@ def style(string: str) -> str:
                 search = c
                 res += string[current:i]
                 current = i
-            if c == '*' or (p in ' [>' and c == '_'):
+            if c == '*' or (p in ' \n[>' and c == '_'):
                 accu = True
                 search = c
                 res += string[current:i]
@@ -202,7 +202,7 @@ def parse_table(lines: list, start_pos = 0):
 def flush_p(blocks: list, b: list):
     """Flush paragraph into blocks buffer."""
     if any(b):
-        blocks.append(('P', [''.join(b)]))
+        blocks.append(('P', ['\n'.join(b).strip('\n')]))
     b.clear()
     return
 
-- 
2.43.0


From ff273d0cb3392d729eee2cadab2c96e22cf8c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 58/65] fix: keep the markdown line that follows a quote, a
 list, a table or indented code

---
 pdfsyntax/markdown.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 6ee71e9..9a1d091 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -114,7 +114,7 @@ def parse_code_block(lines: list, start_pos = 0, mode = 'indented'):
         indent, bs = indentation_and_first_token(ln)
         ln += '\n'
         if mode == 'indented':
-            if indent == 4:
+            if indent >= 4:
                 res.append(ln)
             else:
                 break
@@ -224,6 +224,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             sub, i = parse_markdown(lines, i, indent + 1)
             blocks.append(('BLOCKQUOTE', sub))
+            continue
         elif bs[:3] == "```":
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i+1, 'fenced')
@@ -232,6 +233,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i, 'indented')
             blocks.append((typ, res))
+            continue
         elif ln and (ln == '=' * len(ln) or ln == '-' * len(ln)):
             typ, i, res = parse_title(lines, i-1, 'underlined')
             blocks.append((typ, res))
@@ -244,14 +246,17 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_list(lines, i, 'unordered')
             blocks.append((typ, res))
+            continue
         elif bs and bs[-1] == '.' and bs[0] >= '0' and bs[0] <= '9':
             flush_p(blocks, b)
             typ, i, res = parse_list(lines, i, 'ordered')
             blocks.append((typ, res))
+            continue
         elif bs and bs == '|':
             flush_p(blocks, b)
             typ, i, res = parse_table(lines, i)
             blocks.append((typ, res))
+            continue
         elif b and not ln:
             flush_p(blocks, b)
         else:
-- 
2.43.0


From afb67def68b2a3d33a2047e107452b84fc52fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 59/65] fix: escape inline code and ampersands of code in
 markdown

---
 pdfsyntax/markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 9a1d091..032506e 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -77,7 +77,7 @@ def style(string: str) -> str:
         else:
             if search == '`':
                 if c == '`':
-                    res += f"<code>{string[current+1:i]}</code>"
+                    res += f"<code>{entities(string[current+1:i])}</code>"
                     current = i+1
                     search = 'TBD'
             elif accu:
@@ -275,6 +275,7 @@ def tags(string: str) -> str:
 
 def entities(string: str) -> str:
     """Turn special chars into HTML entities."""
+    string = string.replace('&', '&amp;')
     string = string.replace('<', '&lt;')
     string = string.replace('>', '&gt;')
     return string
-- 
2.43.0


From c29bb7e648d5bd98bc79fe8205293dbd40e357b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 60/65] fix: end markdown emphasis only at the sign it began
 with

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 032506e..a8e3b18 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -86,7 +86,7 @@ def style(string: str) -> str:
                 else:
                     accu = False
             elif '*' in search or '_' in search:
-                if c in '*_':
+                if string.startswith(search, i):
                     text = string[current+len(search):i]
                     if len(search) == 1:
                         res += f"<em>{text}</em>"
-- 
2.43.0


From b2e9553241a787218d230c6b0df2a3b1aa229d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 61/65] fix: tell a markdown link at the start of a line from
 an image

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index a8e3b18..3e7b476 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -36,7 +36,7 @@ def link(string: str) -> str:
         b2 = f
         p1 = f + 2
         p2 = string.find(')', f) + 1
-        if string[b1-2] == '!':
+        if b1 > 1 and string[b1-2] == '!':
             j = p2
             res += string[i:b1-2]
             res += f"<img src='{string[p1:p2-1]}' alt='{string[b1:b2]}'>"
-- 
2.43.0


From 08c18e850f2fb6bcfa08c483c58f9c66b7fa83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 62/65] fix: keep the text right after markdown emphasis

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 3e7b476..909f3b1 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -95,8 +95,8 @@ def style(string: str) -> str:
                     elif len(search) == 3:
                         res +=  f"<em><strong>{text}</strong></em>"
                     current = i+len(search)
-                    search = 'TBD'
                     i += (len(search)-1)
+                    search = 'TBD'
             else:
                 accu = False
         i += 1
-- 
2.43.0


From 2951282a8943f79b21f337e8470f794d7927f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 63/65] fix: apostrophes in addresses and image descriptions of
 markdown

---
 pdfsyntax/markdown.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 909f3b1..3e2c8fc 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -23,6 +23,11 @@ def indentation_and_first_token(string: str):
     return i, string[i:].split(' ')[0]
 
 
+def attribute(string: str) -> str:
+    """Protect the quotes that delimit an attribute value."""
+    return string.replace("'", '&#39;')
+
+
 def link(string: str) -> str:
     """Turn link into HTML tag."""
     res = ''
@@ -39,14 +44,14 @@ def link(string: str) -> str:
         if b1 > 1 and string[b1-2] == '!':
             j = p2
             res += string[i:b1-2]
-            res += f"<img src='{string[p1:p2-1]}' alt='{string[b1:b2]}'>"
+            res += f"<img src='{attribute(string[p1:p2-1])}' alt='{attribute(string[b1:b2])}'>"
         else:
             j = p2
             res += string[i:b1-1]
             l = string[p1:p2-1]
             if l[-3:] == '.md':
                 l = l[:-3] + '.html'
-            res += f"<a href='{l}'>{string[b1:b2]}</a>"
+            res += f"<a href='{attribute(l)}'>{string[b1:b2]}</a>"
         i = p2
     res += string[j:]
     return res
-- 
2.43.0


From 6f4c3937a4b090011eb5d0f598744b74c950fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:53 +0000
Subject: [PATCH 64/65] fix: brackets before a markdown link are not part of it

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 3e2c8fc..1858c07 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -37,7 +37,7 @@ def link(string: str) -> str:
         f = string.find('](', i)
         if f == -1:
             break
-        b1 = string.find('[', i) + 1
+        b1 = string.rfind('[', i, f) + 1
         b2 = f
         p1 = f + 2
         p2 = string.find(')', f) + 1
-- 
2.43.0


From ce622f465eb67ed325387ad6469a21a43832f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 65/65] fix: comments between the parts of a trailer or an
 object header

---
 pdfsyntax/docstruct.py  | 26 +++++++++++++-------------
 pdfsyntax/filestruct.py | 14 +++++++-------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b7f799d..a5051da 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -238,13 +238,13 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         for index in indexes:
             bdata, a0, _, _ = fdata(index['abs_pos'],
                                     index['abs_next'] - index['abs_pos'])
-            i, j, _ = next_token(bdata, a0)
+            i, j, _ = next_item(bdata, a0)
             if bdata[i:j] == b'trailer':
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_item(bdata, j)
             else:
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_item(bdata, j)
+                i, j, _ = next_item(bdata, j)
+                i, j, _ = next_item(bdata, j)
             text = bdata
             i_obj = parse_obj(text, i)
             if type(i_obj) == Stream:
@@ -254,10 +254,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     elif 'env_num' not in idx[rev][key]:
         bdata, a0, _, _ = fdata(idx[rev][key]['abs_pos'],
                                 idx[rev][key]['abs_next'] - idx[rev][key]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
+        i, j, _ = next_item(bdata, a0)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j)
         text = bdata
         obj = parse_obj(text, i)
         if key == 0 and type(obj) == Stream:
@@ -267,10 +267,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         container = idx[rev][key]['env_num']
         bdata, a0, _, _ = fdata(idx[rev][container]['abs_pos'],
                                 idx[rev][container]['abs_next'] - idx[rev][container]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j) #/ObjStm
+        i, j, _ = next_item(bdata, a0)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j) #/ObjStm
         text = bdata
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 1775f0e..f7c43ca 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -264,7 +264,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             bdata, a0, o0, _ = fdata(-100, -1)
             eof_pos = o0 + bdata.rfind(EOF, a0)
             startxref_pos = o0 + bdata.rfind(STARTXREF, a0)
-            i, j, _ = next_token(bdata, startxref_pos + len(STARTXREF) - o0)
+            i, j, _ = next_item(bdata, startxref_pos + len(STARTXREF) - o0)
             xref_pos = int(bdata[i:j])
             last = startxref_pos
         elif xrefstm:
@@ -285,16 +285,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
-            i, j, _ = next_token(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
-            i, j, _ = next_token(bdata, j)                            #dict
+            i, j, _ = next_item(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
+            i, j, _ = next_item(bdata, j)                            #dict
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0)      #o_num
+            i, j, _ = next_item(bdata, a0)      #o_num
             o_num = parse_obj(bdata, i)
-            i, j, _ = next_token(bdata, j)       #o_ver
-            i, j, _ = next_token(bdata, j)       #b'obj'
-            i, j, _ = next_token(bdata, j)       #dict
+            i, j, _ = next_item(bdata, j)       #o_ver
+            i, j, _ = next_item(bdata, j)       #b'obj'
+            i, j, _ = next_item(bdata, j)       #dict
             xref = parse_obj(bdata, i)
             xref_index = parse_xref_stream(xref, xref_pos, o_num)
             trailer = xref['entries']
-- 
2.43.0

