From 6845c44b54ce06ff1e74dc7e47f7d7cc0b47cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 01/39] fix: mask_reset gives an all true mask also where data
 is nan

The mask was made by comparing the array with itself, which is false at nan.
---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..c95cc9d 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -319,7 +319,7 @@ class ChannelPack(object):
             self.mask = np.array([])
         else:
             lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+            self.mask = np.full(len(self.data[lowest]), True)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
-- 
2.43.0


From 586613393b978baa4041739351d000a0d18a7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 02/39] fix: startstop and masks of empty data are boolean

An empty float array made mask &= result fail with TypeError.
---
 channelpack/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index c95cc9d..75f7a8a 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -316,7 +316,7 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.mask = np.array([])
+            self.mask = np.array([], dtype=bool)
         else:
             lowest = sorted(self.data)[0]
             self.mask = np.full(len(self.data[lowest]), True)
@@ -389,7 +389,8 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
             self.mask &= result
         return result
-- 
2.43.0


From ca8fe4fde2f0de6d3f17c44988935dd7b11c2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 03/39] fix: reset the mask also when data is set to an NpDict

The mask and the cached parts stayed those of the old data.
---
 channelpack/pack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 75f7a8a..3c3161d 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -212,12 +212,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
+        self.mindur = None
         self.data = NpDict(data or {})
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
         self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
@@ -239,8 +239,10 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
-            object.__setattr__(self, name, NpDict(value))
+        elif name == 'data':
+            if not isinstance(value, NpDict):
+                value = NpDict(value)
+            object.__setattr__(self, name, value)
             self.mask_reset()
         elif name == 'names' and not isinstance(value, IntKeyDict):
             object.__setattr__(self, name, IntKeyDict(value))
-- 
2.43.0


From 8a837b0b3c4b721cea1a5c4cb8b0b200fbbd07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 04/39] fix: append_pack to an empty pack does not share dicts
 with other

A later append to this pack altered the data of the other pack.
---
 channelpack/pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 3c3161d..1036a32 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -291,7 +291,7 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.data = other.data
+            self.data = NpDict(other.data)
         elif other.data:
             if not set(self.data.keys()) == set(other.data.keys()):
                 raise ValueError('Data dicts set of keys not equal')
@@ -299,7 +299,7 @@ class ChannelPack(object):
                 self.data[key] = np.append(self.data[key], other.data[key])
 
         if not self.names:
-            self.names = other.names
+            self.names = IntKeyDict(other.names)
         elif other.names:
             if not set(self.names.keys()) == set(other.names.keys()):
                 raise ValueError('names dicts set of keys not equal')
-- 
2.43.0


From 50808839da43a27d19bbadd19cb24628a5788aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 05/39] fix: append_pack checks data and names before altering
 the pack

A pack with other names keys was half appended when ValueError was raised.
---
 channelpack/pack.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 1036a32..ee9c24c 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -290,19 +290,22 @@ class ChannelPack(object):
 
         """
 
+        if self.data and other.data:
+            if not set(self.data.keys()) == set(other.data.keys()):
+                raise ValueError('Data dicts set of keys not equal')
+
+        if self.names and other.names:
+            if not set(self.names.keys()) == set(other.names.keys()):
+                raise ValueError('names dicts set of keys not equal')
+
         if not self.data:
             self.data = NpDict(other.data)
         elif other.data:
-            if not set(self.data.keys()) == set(other.data.keys()):
-                raise ValueError('Data dicts set of keys not equal')
             for key in other.data:
                 self.data[key] = np.append(self.data[key], other.data[key])
 
         if not self.names:
             self.names = IntKeyDict(other.names)
-        elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
-                raise ValueError('names dicts set of keys not equal')
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From 92f2ca19cb637a22112998d1bbf7ea2cdf772db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 06/39] fix: IntKeyDict.update keeps the items of an iterator

Checking the keys consumed it, leaving nothing to update with.
---
 channelpack/pack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index ee9c24c..b238126 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -36,6 +36,8 @@ class IntKeyDict(dict):
 
         elif args and (hasattr(args[0], '__iter__') and not
                        isinstance(args[0], str)):
+            if not hasattr(args[0], 'keys'):  # don't exhaust an iterator
+                args = (list(args[0]),) + args[1:]
             for seq in args[0]:
                 if hasattr(seq, '__len__') and len(seq) > 2:
                     break       # not our problem
-- 
2.43.0


From b950babc1224509ddade1ea32eeb52bb25753418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 07/39] fix: setdefault returns the value and |= checks keys
 and values

---
 channelpack/pack.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index b238126..c887a09 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -53,8 +53,12 @@ class IntKeyDict(dict):
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
-            raise TypeError(self._key_error_message)
-        super(IntKeyDict, self).setdefault(key, value)
+            raise TypeError(self._key_error_message(key))
+        return super(IntKeyDict, self).setdefault(key, value)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def _key_error_message(self, key):
         return 'Only integer keys accepted, got: {}'.format(repr(key))
@@ -125,7 +129,7 @@ class NpDict(IntKeyDict):
     def setdefault(self, key, value=None):
         array = np.array(value, copy=False)
         self._check_raise_ndim(array, value)
-        super(NpDict, self).setdefault(key, array)  # return? FIXME
+        return super(NpDict, self).setdefault(key, array)
 
     def _check_raise_ndim(self, array, value):
         """Check array for ndim == 1 and raise error if fail.
-- 
2.43.0


From a129418c8b77e67425cd653f6866e819a1630d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 08/39] fix: a fallback string is the literal prefix and a
 number only

pack('ch1foo') returned channel 1.
---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index c887a09..abd599e 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -561,7 +561,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = re.escape(self.FALLBACK_PREFIX) + r'(\d+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0


From 6d344aa8035281ec136e8e67c3aacb9cf77fcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 09/39] fix: records uses keys to get at the data

With fallback=True a field name like 'ch1' in names took precedence over the
channel the fallback string stands for.
---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index abd599e..0be175c 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -513,18 +513,19 @@ class ChannelPack(object):
 
         """
 
-        names = [self.names[key] for key in sorted(self.names)]
+        keys = sorted(self.names)
+        names = [self.names[key] for key in keys]
         if fallback:
-            names = [self.FALLBACK_PREFIX + str(key) for key in
-                     sorted(self.data)]
+            keys = sorted(self.data)
+            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
 
         try:
             Record = namedtuple('Record', names)
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
+                                              for key in keys])):
             yield record
 
     def _datakey(self, ch):
-- 
2.43.0


From 47ab8f4eb1290006e91bb989ea3431f2be1d0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 10/39] fix: textpack stores unordered usecols under their
 column numbers

Columns are read in file order, so usecols=(2, 0) swapped the data.
---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..c383436 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -343,7 +343,8 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
     """
 
     if usecols is not None:
-        usecols = (usecols,) if type(usecols) is int else usecols
+        usecols = ((usecols,) if type(usecols) is int
+                   else sorted(set(usecols)))
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From 0589b2e541d5d02a88b3ef42ffa6d8557c554000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 11/39] fix: a line of tabs is blank in whitespace delimited
 text

It was read as a record with no fields and all data was lost.
---
 channelpack/readtext.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c383436..64bbdd3 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -461,11 +461,14 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
 
     # don't strip off tabs or some possible white space delimiter
     if not bytehint:
-        stripchars = string.whitespace.replace(delimiter or '\t', '')
+        stripchars = string.whitespace
+        if delimiter:
+            stripchars = stripchars.replace(delimiter, '')
     elif bytehint:
-        whites = string.whitespace.encode('ascii')
+        stripchars = string.whitespace.encode('ascii')
         # assuming delimiter is bytes or None
-        stripchars = whites.replace(delimiter or b'\t', b'')
+        if delimiter:
+            stripchars = stripchars.replace(delimiter, b'')
 
     if hasnames:
         fieldnames = [field.strip() for field in
-- 
2.43.0


From c52e5b849fcf50a28220a6118ea338ba2c310c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 12/39] fix: lazy_textpack reads a stream from its position
 when called

Preparse was made from there but data was read from the start.
---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 64bbdd3..9ddf5fb 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -261,6 +261,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        start = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -272,7 +273,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(start)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From 7528434bf8b793dd30387d300f2f9b55333d385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 13/39] fix: preparse returns an empty dict given only blank
 lines

It failed with IndexError.
---
 channelpack/readtext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 9ddf5fb..a01350a 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -117,6 +117,9 @@ def preparse(lines, firstfieldrx=r'\w'):
     ccounts = [Triplet(len(tup[0]), len(tup[1]), len(set(tup[1]))) for tup
                in cresults]
 
+    if not dcounts:
+        return {}               # nothing but blank lines
+
     # check last line, let the lowest numcnt be valid. Require the set
     # of seps to be 1.
 
-- 
2.43.0


From c1433fea92b88cd5e200f114c8ce5dcdd1240015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 14/39] fix: dbfpack with names skips deleted records as a
 whole

After a deleted record reading went on in the middle of it.
---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..6edae71 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -127,6 +127,7 @@ def dbfrecords(f, names):
         for field in selfields:
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
 
         if record[0] != b' ':
             continue                        # deleted record
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From 9b92d5a9b86e19a3f6ad3221319d2e162f9058f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:59 +0000
Subject: [PATCH 15/39] fix: textpack debug raises the error of a failing first
 data line

It raised KeyError instead.
---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index a01350a..c0bfc84 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -365,7 +365,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
                                 bytehint=bytehint, converters=converters,
                                 stripstrings=stripstrings, hasnames=hasnames)
 
-        debugdict = dict(funcs=next(linetupler))
+        debugdict = dict(funcs=next(linetupler), linum=-1)
 
         if hasnames and usecols is not None:
             for col, name in zip(usecols, next(linetupler)):
-- 
2.43.0


From ef924ad7b71091c4df5b4b44645215a3698e2164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:39 +0000
Subject: [PATCH 16/39] fix: dbfpack with names reads a stream from its
 position

It went back to the start of the stream, unlike without names.
---
 channelpack/dbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 6edae71..0170160 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -191,9 +191,10 @@ def dbfpack(dbf, names=None):
 
     with contextopen(dbf, 'rb') as context:
         fo = context.fo
+        start = fo.tell()
         sniffnames = dbfreader(fo)
         allnames = next(sniffnames)
-        fo.seek(0)
+        fo.seek(start)
         dbfrecs = dbfrecords(fo, names)
         next(dbfrecs)
         next(dbfrecs)
-- 
2.43.0


From d2bd3ea4ac571b940d5710251411b7fe94657d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:15 +0000
Subject: [PATCH 17/39] fix: strip text fields of encoded bytes after decoding

With stripstrings (and for field names), white space that is not ASCII white
space in bytes, a no-break space say, was left on fields of a bytes stream
with an encoding, but stripped from the same text read as text.
---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c0bfc84..c661d6a 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -458,7 +458,7 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
         return b.decode(encoding)
 
     def as_is_stripped_decode(b):
-        return b.strip().decode(encoding)
+        return b.decode(encoding).strip()
 
     def maybenan(s):
         return float(s) if s else np.nan
-- 
2.43.0


From 5e606a7b2e9f8093765b0ae8846bd39f5c589a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:35 +0000
Subject: [PATCH 18/39] fix: open xlsx sheet relations by their name in the
 archive

---
 channelpack/xlrd/xlsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a1ca2dd..0396c40 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -813,7 +813,7 @@ def open_workbook_2007_xml(zf,
 
         rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
         if rels_fname in component_names:
-            zfrels = zf.open(rels_fname)
+            zfrels = zf.open(component_names[rels_fname])
             x12sheet.process_rels(zfrels)
             del zfrels
 
@@ -821,7 +821,7 @@ def open_workbook_2007_xml(zf,
             if reltype == 'comments':
                 comments_fname = x12sheet.relid2path.get(relid)
                 if comments_fname and comments_fname in component_names:
-                    comments_stream = zf.open(comments_fname)
+                    comments_stream = zf.open(component_names[comments_fname])
                     x12sheet.process_comments_stream(comments_stream)
                     del comments_stream
 
-- 
2.43.0


From c4aa5e974d12044b21334b52d040d1d018eb0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:04 +0000
Subject: [PATCH 19/39] fix: a spread sheet column of text and numbers keeps
 the numbers

---
 channelpack/readxl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/channelpack/readxl.py b/channelpack/readxl.py
index fa06214..62373df 100644
--- a/channelpack/readxl.py
+++ b/channelpack/readxl.py
@@ -91,6 +91,10 @@ def sheet_columns(ws, startref, stopref, usecols):
                     value = value == 1
                 vals.append(value)
 
+            if xlrd.XL_CELL_TEXT in typeset:
+                # numpy would make text of everything
+                vals = np.array(vals, dtype=object)
+
             yield vals
 
 
-- 
2.43.0


From 20ca60c61511bf43a268006d863307d21ed59b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:13 +0000
Subject: [PATCH 20/39] fix: count the code units of a formula text result, not
 its code points

A text with characters outside the basic multilingual plane is fewer code
points than the UTF-16 code units the STRING record counts, and reading the
xls file ended in "Expected CONTINUE record".
---
 channelpack/xlrd/sheet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a831398..af5a2bb 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1516,15 +1516,18 @@ class Sheet(BaseObject):
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
+        charlen = 1
         result = UNICODE_LITERAL("")
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
+                charlen = flag + 1
                 offset += 1
             chunk = unicode(data[offset:], enc)
             result += chunk
-            nchars_found += len(chunk)
+            # The expected number counts code units, not code points.
+            nchars_found += (len(data) - offset) // charlen
             if nchars_found == nchars_expected:
                 return result
             if nchars_found > nchars_expected:
-- 
2.43.0


From 027112f539ce918f64d501808bada6831c227e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:08 +0000
Subject: [PATCH 21/39] fix: skip phonetic data of a shared string that spans
 several records

unpack_SST_table went on to the next CONTINUE record once only, so phonetic
data reaching over a whole record left it reading the following strings from
the wrong place.
---
 channelpack/xlrd/book.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 4851236..384593b 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1486,8 +1486,8 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
-            # adjust to correct position in next record
+        while pos >= datalen:
+            # adjust to correct position in the record it ends in
             pos = pos - datalen
             datainx += 1
             if datainx < ndatas:
@@ -1495,5 +1495,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 4392f10a1ae66a1d11c9e7d5704d7e2caad997f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:14 +0000
Subject: [PATCH 22/39] fix: read a character whose two code units are in
 different records

A shared or formula text is cut between code units when it goes on in a
CONTINUE record. Each part was decoded by itself, so a cut inside a surrogate
pair raised UnicodeDecodeError.
---
 channelpack/xlrd/book.py  | 17 +++++------------
 channelpack/xlrd/sheet.py |  9 ++++++---
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 384593b..07ea297 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1438,7 +1438,8 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        # Collected as UTF-16, a surrogate pair may be split between records.
+        accraw = b''
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1447,22 +1448,14 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1496,5 +1489,5 @@ def unpack_SST_table(datatab, nstrings):
             else:
                 assert _unused_i == nstrings - 1
                 break
-        strappend(accstrg)
+        strappend(unicode(accraw, "utf_16_le"))
     return strings, richtext_runs
diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index af5a2bb..3cc5a68 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1517,19 +1517,22 @@ class Sheet(BaseObject):
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
         charlen = 1
-        result = UNICODE_LITERAL("")
+        # Collected raw, a character may be split between records.
+        result = b""
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 charlen = flag + 1
                 offset += 1
-            chunk = unicode(data[offset:], enc)
+            chunk = data[offset:]
+            if bv >= 80 and not flag:
+                chunk = unicode(chunk, enc).encode("utf_16_le")
             result += chunk
             # The expected number counts code units, not code points.
             nchars_found += (len(data) - offset) // charlen
             if nchars_found == nchars_expected:
-                return result
+                return unicode(result, "utf_16_le" if bv >= 80 else enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From 1335a22705787fec4afd91a60eff8c11da6f3786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:28 +0000
Subject: [PATCH 23/39] fix: refuse a looping chain of short sectors

The sectors seen are not recorded for short sectors, so a workbook smaller
than 4096 bytes whose chain leads back into itself was read for ever.
---
 channelpack/xlrd/compdoc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..cf6c1db 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -306,6 +306,9 @@ class CompDoc(object):
         else:
             todo = size
             while s >= 0:
+                if len(sectors) > len(sat):
+                    raise CompDocError(
+                        "%s corruption: the sector chain has a loop" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
-- 
2.43.0


From 7750472f1205abaea1767cf4855e8ce92a6ab290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 24/39] fix: close an xlsx file when reading it fails

---
 channelpack/xlrd/__init__.py | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/channelpack/xlrd/__init__.py b/channelpack/xlrd/__init__.py
index 5153bf2..41e1fda 100644
--- a/channelpack/xlrd/__init__.py
+++ b/channelpack/xlrd/__init__.py
@@ -112,37 +112,37 @@ def open_workbook(filename=None,
             peek = f.read(peeksz)
     if peek == b"PK\x03\x04": # a ZIP file
         if file_contents:
-            zf = zipfile.ZipFile(timemachine.BYTES_IO(file_contents))
+            fo = timemachine.BYTES_IO(file_contents)
         else:
-            zf = zipfile.ZipFile(filename)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = dict([(X12Book.convert_filename(name), name)
-                                for name in zf.namelist()])
-
-        if verbosity:
-            logfile.write('ZIP component_names:\n')
-            pprint.pprint(component_names, logfile)
-        if 'xl/workbook.xml' in component_names:
-            from . import xlsx
-            bk = xlsx.open_workbook_2007_xml(
-                zf,
-                component_names,
-                logfile=logfile,
-                verbosity=verbosity,
-                use_mmap=use_mmap,
-                formatting_info=formatting_info,
-                on_demand=on_demand,
-                ragged_rows=ragged_rows,
-            )
-            return bk
-        if 'xl/workbook.bin' in component_names:
-            raise XLRDError('Excel 2007 xlsb file; not supported')
-        if 'content.xml' in component_names:
-            raise XLRDError('Openoffice.org ODS file; not supported')
-        raise XLRDError('ZIP file contents not a known type of workbook')
+            fo = open(filename, "rb")
+        with fo, zipfile.ZipFile(fo) as zf:
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = dict([(X12Book.convert_filename(name), name)
+                                    for name in zf.namelist()])
+
+            if verbosity:
+                logfile.write('ZIP component_names:\n')
+                pprint.pprint(component_names, logfile)
+            if 'xl/workbook.xml' in component_names:
+                from . import xlsx
+                bk = xlsx.open_workbook_2007_xml(
+                    zf,
+                    component_names,
+                    logfile=logfile,
+                    verbosity=verbosity,
+                    use_mmap=use_mmap,
+                    formatting_info=formatting_info,
+                    on_demand=on_demand,
+                    ragged_rows=ragged_rows,
+                )
+                return bk
+            if 'xl/workbook.bin' in component_names:
+                raise XLRDError('Excel 2007 xlsb file; not supported')
+            if 'content.xml' in component_names:
+                raise XLRDError('Openoffice.org ODS file; not supported')
+            raise XLRDError('ZIP file contents not a known type of workbook')
 
     from . import book
     bk = book.open_workbook_xls(
-- 
2.43.0


From 3820dc5c61fd9d2c8aaf51ad86e88356af2a85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:35 +0000
Subject: [PATCH 25/39] fix: count the bytes of a link's address in code units

An address with a character outside the basic multilingual plane made
reading the workbook fail with AssertionError.
---
 channelpack/xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 3cc5a68..6c95a3f 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1789,7 +1789,8 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                # The size counts code units, not code points.
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From 1a66241f0278a932e951911b038777c76fc02cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:35 +0000
Subject: [PATCH 26/39] fix: decode the text of a note when it is complete

A surrogate pair split between CONTINUE records raised UnicodeDecodeError.
---
 channelpack/xlrd/sheet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 6c95a3f..533bc69 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -2034,7 +2034,8 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        # Collected as UTF-16, a surrogate pair may be split between records.
+        rawtext = b''
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2045,10 +2046,11 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+                rawtext += data2[1:]
+            else:
+                rawtext += unicode(data2[1:], 'latin_1').encode('UTF-16le')
             totchars += nchars
+        o.text = unicode(rawtext, 'UTF-16le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 683520213fe0f878a1962027618e071677686993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:35 +0000
Subject: [PATCH 27/39] fix: find the comments of an xlsx sheet by absolute
 targets

Notes were lost when the target of the relationship was absolute or had
upper case letters.
---
 channelpack/xlrd/xlsx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 0396c40..7eb991d 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -523,12 +523,13 @@ class X12Sheet(X12General):
         r_tag = U_PKGREL + 'Relationship'
         for elem in tree.findall(r_tag):
             rid = elem.get('Id')
-            target = elem.get('Target')
+            target = X12Book.convert_filename(elem.get('Target'))
             reltype = elem.get('Type').split('/')[-1]
             if self.verbosity >= 2:
                 self.dumpout('Id=%r Type=%r Target=%r', rid, reltype, target)
             self.relid2reltype[rid] = reltype
-            self.relid2path[rid] = normpath(join('xl/worksheets', target))
+            # The target may be absolute.
+            self.relid2path[rid] = normpath(join('/xl/worksheets', target))[1:]
 
     def process_comments_stream(self, stream):
         root = ET.parse(stream).getroot()
-- 
2.43.0


From a129710ed1c9b36472add5345834d6b079fa24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 28/39] fix: keep an operand for a range with an error

The result of a name's formula became a bare int, and evaluating anything
more on it raised AttributeError.
---
 channelpack/xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index e26639b..00e4464 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -953,7 +953,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     if aop.value is not None and bop.value is not None:
                         assert len(aop.value) == 1
-- 
2.43.0


From 07bb5f6db47e3da4917b6de118893c2b99866c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 29/39] fix: let a list of references hold another list

A name for a list with a nested list, as by another name, raised
AssertionError and the workbook could not be read.
---
 channelpack/xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 00e4464..4f0abbd 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -929,7 +929,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
                         assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
+                        assert len(bop.value) >= 1
                         res.value = aop.value + bop.value
                 else:
                     pass
-- 
2.43.0


From 0601a1151da272ab08d0d6cd4ee732ac57e10269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 30/39] fix: keep the other operands at a function without
 arguments

stack[-0:] is the whole stack: a name with ROW() among other operands
raised AssertionError and the workbook could not be read.
---
 channelpack/xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 4f0abbd..6d7362e 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -1085,7 +1085,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argtext = listsep.join(arg.text for arg in stack[len(stack) - nargs:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1118,7 +1118,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[len(stack) - nargs:] # nargs may be zero
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 90a9a04fce1b5bd85781d27095152cae8d590489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 31/39] fix: compare texts with numbers in the formula of a
 name

It raised TypeError in python 3, and the workbook could not be read.
---
 channelpack/xlrd/formula.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 6d7362e..4d0b4bd 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -719,8 +719,9 @@ def num2strg(num):
     return s
 
 _arith_argdict = {oNUM: nop,     oSTRG: float}
-_cmp_argdict =   {oNUM: nop,     oSTRG: nop}
-# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
+# No conversions done on relops; in Excel, any text is greater than any
+# number: "1" > 9 produces TRUE.
+_cmp_argdict =   {oNUM: lambda x: (0, x), oSTRG: lambda x: (1, x)}
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
 binop_rules = {
     tAdd:   (_arith_argdict, oNUM, opr.add,  30, '+'),
-- 
2.43.0


From 5016c80b5eadf112f53d1639c57b3714b2accb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 32/39] fix: raise XLRDError for the cells of a reference not
 evaluated

Name.cell and Name.area2d raised TypeError when the value is None.
---
 channelpack/xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 07ea297..f5368b6 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -227,7 +227,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -264,7 +264,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From 3d6d7245c9a5a1ac325142f8e52ca77af681fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 33/39] fix: read a workbook with names that cannot be
 evaluated

A name as =1/0 or referring to itself made opening the workbook fail.
As documented, the result is None when evaluation has problems.
---
 channelpack/xlrd/book.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index f5368b6..ca092e7 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1067,7 +1067,13 @@ class Book(BaseObject):
             # Parse the formula ...
             if nobj.macro or nobj.binary: continue
             if nobj.evaluated: continue
-            evaluate_name_formula(self, nobj, namex, blah=blah)
+            try:
+                evaluate_name_formula(self, nobj, namex, blah=blah)
+            except Exception as e:
+                # Reading the cells does not depend on the names.
+                if self.verbosity >= 1:
+                    fprintf(f, '*** WARNING: cannot evaluate name %r: %r\n', nobj.name, e)
+                nobj.result = None
 
         if self.verbosity >= 2:
             print("---------- name object dump ----------", file=f)
-- 
2.43.0


From b8badaa8a7f772aed4a325672e7b6bafa4fb51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:53 +0000
Subject: [PATCH 34/39] fix: append_pack to an empty pack copies the arrays of
 the other pack

---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 0be175c..698f2dc 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -305,7 +305,8 @@ class ChannelPack(object):
                 raise ValueError('names dicts set of keys not equal')
 
         if not self.data:
-            self.data = NpDict(other.data)
+            self.data = NpDict((key, other.data[key].copy())
+                               for key in other.data)
         elif other.data:
             for key in other.data:
                 self.data[key] = np.append(self.data[key], other.data[key])
-- 
2.43.0


From 421dc30b3c9f311c0d51c9e913365131a9e14cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:53 +0000
Subject: [PATCH 35/39] fix: the mask of a pack cannot be deleted, as the other
 attributes

---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 698f2dc..4690e8e 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -265,7 +265,7 @@ class ChannelPack(object):
 
     def __delattr__(self, name):
         if name in ('FALLBACK_PREFIX', 'data', 'fn',
-                    'filenames', 'names', 'nof', 'mindur'):
+                    'filenames', 'names', 'nof', 'mindur', 'mask'):
             raise AttributeError('Cannot delete {}'.format(name))
         else:
             object.__delattr__(self, name)
-- 
2.43.0


From 39a9864b420eb1bf874bad7051a90fd7772abe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:53 +0000
Subject: [PATCH 36/39] fix: a style name before any font or format is decoded

---
 channelpack/xlrd/formatting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/formatting.py b/channelpack/xlrd/formatting.py
index ca637b8..f199874 100644
--- a/channelpack/xlrd/formatting.py
+++ b/channelpack/xlrd/formatting.py
@@ -633,6 +633,8 @@ def palette_epilogue(book):
 def handle_style(book, data):
     if not book.formatting_info:
         return
+    if not book.encoding:
+        book.derive_encoding()
     blah = DEBUG or book.verbosity >= 2
     bv = book.biff_version
     flag_and_xfx, built_in_id, level = unpack('<HBB', data[:4])
-- 
2.43.0


From aa879f4a5b8ff7cc11ba134d178c56104fc00834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 37/39] fix: a spread sheet column of booleans and numbers
 keeps the booleans

---
 channelpack/readxl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/readxl.py b/channelpack/readxl.py
index 62373df..25ef520 100644
--- a/channelpack/readxl.py
+++ b/channelpack/readxl.py
@@ -91,8 +91,8 @@ def sheet_columns(ws, startref, stopref, usecols):
                     value = value == 1
                 vals.append(value)
 
-            if xlrd.XL_CELL_TEXT in typeset:
-                # numpy would make text of everything
+            if len(typeset.difference(missingtypes)) > 1:
+                # numpy would make text or numbers of everything
                 vals = np.array(vals, dtype=object)
 
             yield vals
-- 
2.43.0


From 054d7f2f9bc4abd16a0d676a6eb88dbb58585dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:54 +0000
Subject: [PATCH 38/39] fix: lazy_textpack accepts usecols=None, the default of
 textpack

---
 channelpack/readtext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c661d6a..38c4b5c 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -279,8 +279,8 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         fo.seek(start)
         derived.update(textkwargs)
 
-        if 'usecols' in textkwargs and 'names' not in textkwargs:
-            usecols = textkwargs['usecols']
+        usecols = textkwargs.get('usecols')
+        if usecols is not None and 'names' not in textkwargs:
             usecols = (usecols,) if type(usecols) is int else usecols
             for key in list(derived.get('names', {})):  # no names no loop
                 if key not in usecols:
-- 
2.43.0


From 1308d2fba472f5a94a763ca0bbdb25fcd8551b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:54 +0000
Subject: [PATCH 39/39] fix: lazy_textpack reads bytes with encoding=None, the
 default of textpack

---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 38c4b5c..90e7d28 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -261,7 +261,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         keyword arguments if duplicated.
 
     """
-    encoding = textkwargs.get('encoding', locale.getpreferredencoding())
+    encoding = textkwargs.get('encoding') or locale.getpreferredencoding()
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
         start = fo.tell()
-- 
2.43.0

