From 67b5b7a53e86cdf4ebe5a1442d416a2ec67f5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 01/33] fix: check the last list member in eq-diff2/3 and
 prp-adp

---
 owlrl/OWLRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 33f1b63..751ac8e 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -424,7 +424,7 @@ class OWLRL_Semantics(Core):
                 zis = self._list(y)
                 for i in range(0, len(zis) - 1):
                     zi = zis[i]
-                    for j in range(i + 1, len(zis) - 1):
+                    for j in range(i + 1, len(zis)):
                         zj = zis[j]
                         if (
                             (zi, OWL.sameAs, zj) in self.graph
@@ -520,7 +520,7 @@ class OWLRL_Semantics(Core):
                     pis = self._list(y)
                     for i in range(0, len(pis) - 1):
                         pi = pis[i]
-                        for j in range(i + 1, len(pis) - 1):
+                        for j in range(i + 1, len(pis)):
                             pj = pis[j]
                             for x, y in self.graph.subject_objects(pi):
                                 if (x, pj, y) in self.graph:
-- 
2.43.0


From dcaea8cbc48c26ef7153dc3845f0c1529e48ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 02/33] fix: compare the last key property in prp-key

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 751ac8e..f288010 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -610,7 +610,7 @@ class OWLRL_Semantics(Core):
                             # 'calculate' the keys for the y values and see if there is a match
                             for vals in valueList:
                                 same = True
-                                for i in range(0, len(pis) - 1):
+                                for i in range(0, len(pis)):
                                     if (y, pis[i], vals[i]) not in self.graph:
                                         same = False
                                         # No use going with this property line
-- 
2.43.0


From 849542de60d08fc47399ee833e61bf10336fb7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 03/33] fix: do not fail on a maximum cardinality that is not a
 literal

---
 owlrl/OWLRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f288010..3367e46 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -726,7 +726,7 @@ class OWLRL_Semantics(Core):
                     self.store_triple((u, RDF.type, xx))
 
         # RULES cls-maxc1 and cls-maxc1
-        elif p == OWL.maxCardinality:
+        elif p == OWL.maxCardinality and isinstance(x, rdflib.Literal):
             # This one is a bit complicated, because the literals have been
             # exchanged against bnodes...
             #
@@ -753,7 +753,7 @@ class OWLRL_Semantics(Core):
                                     self.store_triple((y1, OWL.sameAs, y2))
 
         # RULES cls-maxqc1, cls-maxqc2, cls-maxqc3, cls-maxqc4
-        elif p == OWL.maxQualifiedCardinality:
+        elif p == OWL.maxQualifiedCardinality and isinstance(x, rdflib.Literal):
             # This one is a bit complicated, because the literals have been
             # exchanged against bnodes...
             #
-- 
2.43.0


From a9f205584c1366f88e107b2cb95c5a40200c7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 04/33] fix: a term the same as a datatyped term gets its
 datatypes, it is not one

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 3367e46..e61c8ff 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -185,7 +185,7 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _append_to_explicit(s, o):
-            explicit[s].add(o)
+            explicit[s].update(explicit[o])
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-- 
2.43.0


From 45f5f17f29c2f791baf607c23d7a54b3b8ec2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 05/33] fix: signal an invalid xsd:decimal by ValueError and
 reject NaN and infinities

---
 owlrl/DatatypeHandling.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 19b3531..ae63989 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -129,7 +129,13 @@ def _strToDecimal(v):
         # this is an invalid lexical form, though would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
     else:
-        return Decimal(v)
+        try:
+            value = Decimal(v)
+        except ArithmeticError:
+            raise ValueError("Invalid decimal literal value %s" % v)
+        if not value.is_finite():
+            raise ValueError("Invalid decimal literal value %s" % v)
+        return value
 
 
 # ANY URIS ##################################################
-- 
2.43.0


From 2e811ce260c647122a4408619d2a3904a4dec4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 06/33] fix: do not fail on an empty date or time literal

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index ae63989..28d2060 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -78,7 +78,7 @@ def _returnTimeZone(incoming_v):
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
     """
-    if incoming_v[-1] == "Z":
+    if incoming_v[-1:] == "Z":
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
-- 
2.43.0


From b2872335617915c4ba100a07120646bf54008b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 07/33] fix: accept zero, INF and NaN as xsd:double and
 xsd:float values

---
 owlrl/DatatypeHandling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 28d2060..8e486cf 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -280,11 +280,13 @@ def _strToDouble(v):
     @return Decimal
     @raise ValueError: invalid value
     """
+    if v in ("INF", "+INF", "-INF", "NaN"):
+        return float(v)
     try:
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
-        if lower < abs(value) < upper:
+        if value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
@@ -303,11 +305,13 @@ def _strToFloat(v):
     @return Decimal if the local python version is >= 2.4, float otherwise
     @raise ValueError: invalid value
     """
+    if v in ("INF", "+INF", "-INF", "NaN"):
+        return float(v)
     try:
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
-        if lower < abs(value) < upper:
+        if value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
-- 
2.43.0


From 800f036a642e315ea76301637911bdbfb909eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 08/33] fix: reject an odd number of digits in xsd:hexBinary

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8e486cf..96a2d2e 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -331,7 +331,7 @@ def _strToHexBinary(v):
     """
     # first of all, the number of characters must be even according to the xsd spec:
     length = len(v)
-    if (length / 2) * 2 != length:
+    if length % 2 != 0:
         raise ValueError("Invalid hex binary number %s" % v)
     return int(v, 16)
 
-- 
2.43.0


From eff7c54d832f6a7d8f81c71bb62b8ef57c9704b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 09/33] fix: negative UTC offsets were off by an hour or by
 twice the minutes

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 96a2d2e..359dc99 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -89,9 +89,9 @@ def _returnTimeZone(incoming_v):
             tzone = None
         else:
             hours = int(match.groups()[1])
-            if match.groups()[0] == "-":
-                hours = -hours - 1
             minutes = int(match.groups()[2])
+            if match.groups()[0] == "-":
+                hours, minutes = -hours, -minutes
             v = incoming_v[:-6]
             tzone = _namelessTZ(hours, minutes)
     return v, tzone
-- 
2.43.0


From 439819e0fcaeb3072d4b72a56aa4c461c369d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 10/33] fix: read fractional seconds as a decimal fraction

---
 owlrl/DatatypeHandling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 359dc99..57a9cc6 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -357,13 +357,13 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
+    milpattern = r"(.*)(\.)([0-9]+)\Z"
     match = re.match(milpattern, v)
     if match is not None:
         # we have a millisecond portion...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            milliseconds = int(match.groups()[2].ljust(6, "0")[:6])
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
@@ -411,13 +411,13 @@ def _strToTime(incoming_v):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
+    milpattern = r"(.*)(\.)([0-9]+)\Z"
     match = re.match(milpattern, v)
     if match is not None:
         # we have a millisecond portion...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            milliseconds = int(match.groups()[2].ljust(6, "0")[:6])
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
-- 
2.43.0


From 7c71e74ab72bf9a61afb7232f5fac08b14dc20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 11/33] fix: xsd:NMTOKEN is not derived from xsd:Name

---
 owlrl/XsdDatatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/XsdDatatypes.py b/owlrl/XsdDatatypes.py
index adb4a9a..d881af3 100755
--- a/owlrl/XsdDatatypes.py
+++ b/owlrl/XsdDatatypes.py
@@ -145,7 +145,6 @@ _Common_Datatype_Subsumptions = {
         XSD.string,
     ],
     XSD.NMTOKEN: [
-        XSD.Name,
         XSD.token,
         XSD.normalizedString,
         XSD.string,
-- 
2.43.0


From a95a75a91ff31995b9e074a21c722c244c342fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 12/33] fix: owl:Class is the domain of owl:unionOf, not a
 second range

---
 owlrl/AxiomaticTriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 5eeec22..4e4a4df 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -451,7 +451,7 @@ _OWL_axiomatic_triples_Properties = [
     (OWL.onDatatype, RDFS.range, OWL.DataRange),
     (OWL.oneOf, RDFS.domain, OWL.Class),
     (OWL.someValuesFrom, RDFS.range, OWL.Class),
-    (OWL.unionOf, RDFS.range, OWL.Class),
+    (OWL.unionOf, RDFS.domain, OWL.Class),
     #    (OWL.withRestrictions, RDFS.domain, OWL.DataRange)
 ]
 
-- 
2.43.0


From 24c05c34fe57b23d58fb3e674023809116aec125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 13/33] fix: apply rdfs4a and rdfs4b to derived triples, too

---
 owlrl/RDFSClosure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index c3020b8..5bfc2f6 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -157,11 +157,9 @@ class RDFS_Semantics(Core):
         # rdf1
         self.store_triple((p, RDF.type, RDF.Property))
         # rdfs4a
-        if cycle_num == 1:
-            self.store_triple((s, RDF.type, RDFS.Resource))
+        self.store_triple((s, RDF.type, RDFS.Resource))
         # rdfs4b
-        if cycle_num == 1:
-            self.store_triple((o, RDF.type, RDFS.Resource))
+        self.store_triple((o, RDF.type, RDFS.Resource))
         if p == RDFS.domain:
             # rdfs2
             for uuu, Y, yyy in self.graph.triples((None, s, None)):
-- 
2.43.0


From 57a7bc5f26d21cb69364b169ef028c697c6fefd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 14/33] fix: the value of xsd:hexBinary is its octets, so
 length facets apply to it

---
 owlrl/DatatypeHandling.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 57a9cc6..0bc152f 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -38,7 +38,7 @@ from rdflib.namespace import RDF, XSD
 
 from rdflib.term import XSDToPython, Literal, _toPythonMapping
 
-import datetime, time, re
+import binascii, datetime, time, re
 from decimal import Decimal
 
 
@@ -326,14 +326,17 @@ def _strToFloat(v):
 def _strToHexBinary(v):
     """Test (and convert) hexa integer values. The number of characters should be even.
     @param v: the literal string defined as a hexa number
-    @return long value
+    @return the octets as bytes
     @raise ValueError: invalid value
     """
     # first of all, the number of characters must be even according to the xsd spec:
     length = len(v)
     if length % 2 != 0:
         raise ValueError("Invalid hex binary number %s" % v)
-    return int(v, 16)
+    try:
+        return binascii.unhexlify(v)
+    except ValueError:
+        raise ValueError("Invalid hex binary number %s" % v)
 
 
 # Datetime, date timestamp, etc ################################
-- 
2.43.0


From 3c34b57aa2cbff72e90a0be736d0bf65f815864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 15/33] fix: check the facets of a restricted datatype in
 allValuesFrom

---
 owlrl/OWLRLExtras.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 64c3734..aa20e3e 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -42,7 +42,7 @@ __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/L
 from typing import Union
 
 import rdflib
-from rdflib import Graph
+from rdflib import Graph, Literal
 from rdflib.namespace import RDF, RDFS, OWL, XSD
 
 from fractions import Fraction as Rational
@@ -201,10 +201,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if v in self.literal_proxies.bnode_to_lit:
-                        return rt.checkValue(
-                            self.literal_proxies.bnode_to_lit[v].lit.toPython()
-                        )
+                    if isinstance(v, Literal):
+                        return rt.checkValue(v.toPython())
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From ca84258d5f889c03d7738eee41fd8bfa8228b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 16/33] fix: a pattern facet covers the whole string and
 applies to plain literals

---
 owlrl/RestrictedDatatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ac45d78..98ebaad 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -419,6 +419,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 RestrictedDatatype._check_min_length,
                 RestrictedDatatype._check_max_length,
                 RestrictedDatatype._check_length,
+                RestrictedDatatype._check_pattern,
                 RestrictedDatatype._check_lang_range,
             ],
         }
@@ -541,7 +542,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             val = value
         for p in self.pattern:
-            if p.match(val) is None:
+            if p.fullmatch(val) is None:
                 return False
         return True
 
-- 
2.43.0


From db551910a00b05521f6cf8cc30e3a9dcdc403f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 17/33] fix: facets on xsd:int and xsd:token were ignored

---
 owlrl/RestrictedDatatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 98ebaad..1438457 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -83,6 +83,7 @@ Datatypes_per_facets = {
         XSD.positiveInteger,
         XSD.negativeInteger,
         XSD.long,
+        XSD.int,
         XSD.short,
         XSD.byte,
         XSD.unsignedLong,
@@ -105,6 +106,7 @@ Datatypes_per_facets = {
         XSD.NCName,
         XSD.language,
         XSD.normalizedString,
+        XSD.token,
     ],
     LENGTH_PATTERN_LRANGE: [RDF.PlainLiteral],
 }
-- 
2.43.0


From 9e21320fffba959eeaba02430f33ca38565108b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 18/33] fix: a literal that cannot be compared to a facet is
 invalid, not a failure

---
 owlrl/RestrictedDatatype.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 1438457..88899f0 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -144,7 +144,12 @@ def _lit_to_value(dt, v):
     for cat in Datatypes_per_facets:
         if dt.base_type in Datatypes_per_facets[cat]:
             # yep, this is to be checked.
-            if not dt.checkValue(value):
+            try:
+                valid = dt.checkValue(value)
+            except Exception:
+                # the value and a facet cannot be compared
+                valid = False
+            if not valid:
                 raise ValueError(
                     "Literal value %s does not fit the faceted datatype %s" % (v, dt)
                 )
-- 
2.43.0


From 72a8a759e31516dcf36ec9cf054aea67ce7195e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 19/33] fix: record facet problems as text, as any other error

---
 owlrl/RestrictedDatatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 88899f0..b7b70b7 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -261,7 +261,7 @@ def extract_faceted_datatypes(core, graph):
                                                     )
                                                 )
                                         except Exception as msg:
-                                            core.add_error(msg)
+                                            core.add_error(str(msg))
                                             continue
                                 # We do have everything we need:
                             new_datatype = RestrictedDatatype(
@@ -274,7 +274,7 @@ def extract_faceted_datatypes(core, graph):
             # print sys.exc_type
             # print sys.exc_value
             # print sys.exc_traceback
-            core.add_error(msg)
+            core.add_error(str(msg))
             continue
     return retval
 
-- 
2.43.0


From ca568bb74e2b619b86ee8c25083e9cf55b3a45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 20/33] fix: cyclic owl:imports never terminated

---
 owlrl/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 8f86445..6528278 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -243,6 +243,7 @@ def interpret_owl_imports(iformat, graph):
     :param graph: The RDFLib Graph instance to parse into.
     :type graph: :class:`RDFLib.Graph`
     """
+    visited = set()
     while True:
         # 1. collect the import statements:
         all_imports = [t for t in graph.triples((None, OWL.imports, None))]
@@ -254,6 +255,10 @@ def interpret_owl_imports(iformat, graph):
             graph.remove(t)
         # 3. get all the imported vocabularies and import them
         for (s, p, uri) in all_imports:
+            # a document is imported only once, imports may be cyclic
+            if str(uri) in visited:
+                continue
+            visited.add(str(uri))
             # this is not 100% kosher. The expected object for an import statement is a URI. However,
             # on local usage, a string would also make sense, so I do that one, too
             if isinstance(uri, Literal):
-- 
2.43.0


From 3054bec09390e9636863b4d72c65954e88cea738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 21/33] fix: honour the output format name the command line
 uses for RDF/XML

---
 owlrl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 6528278..1b8af1a 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -591,7 +591,7 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
-    if options.format == "rdfxml":
+    if options.format == "rdfxml" or options.format == RDFXML:
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
-- 
2.43.0


From 4edb08bb44847e4ecbab87a3543c7741b3b07ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 22/33] fix: rdf:_n axioms depend on the largest n in use, not
 on the number of triples

---
 owlrl/Closure.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 6cfd747..d1465d2 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -25,11 +25,12 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+import re
 from typing import Union
 
 import rdflib
 from rdflib.namespace import RDF
-from rdflib import BNode, Literal, Graph, Dataset
+from rdflib import BNode, Literal, Graph, Dataset, URIRef
 from .Namespaces import ERRNS
 
 try:
@@ -41,6 +42,18 @@ debugGlobal = False
 offlineGeneration = False
 
 
+def _container_index(predicate):
+    """
+    The index of a container membership property.
+
+    :param predicate: Any term.
+    :return: n if the term is rdf:_n, 0 otherwise
+    :rtype: int
+    """
+    match = re.fullmatch(re.escape(str(RDF)) + "_([1-9][0-9]*)", str(predicate), re.ASCII)
+    return int(match.group(1)) if match is not None and isinstance(predicate, URIRef) else 0
+
+
 ######################################################################################################
 # noinspection PyMethodMayBeStatic,PyPep8Naming,PyPep8Naming
 class Core:
@@ -108,24 +121,13 @@ class Core:
         """
         self._debug = debugGlobal
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        n = 1
-        maxnum = 0
-        cont = True
-        while cont:
-            cont = False
-            predicate = RDF[("_%d" % n)]
-            for (s, p, o) in graph.triples((None, predicate, None)):
-                # there is at least one if we got here
-                maxnum = n
-                n += 1
-                cont = True
-        self.IMaxNum = maxnum
-
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
+        self.IMaxNum = max((_container_index(p) for (s, p, o) in graph.triples((None, None, None))), default=0)
+
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
-- 
2.43.0


From 060ea0a8fce829ca610b1f5e6cf865b808ad4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 23/33] fix: switching the improved conversions off left the
 added ones behind

---
 owlrl/DatatypeHandling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 0bc152f..c366b9a 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -708,6 +708,9 @@ def use_RDFLib_lexical_conversions():
     """
     Restore the original (ie, RDFLib) set of lexical conversion routines.
     """
+    for datatype in AltXSDToPYTHON:
+        if datatype not in XSDToPython:
+            _toPythonMapping.pop(datatype, None)
     _toPythonMapping.update(XSDToPython)
 
 
-- 
2.43.0


From 5c18ae91304a50b448f73cbf383b57eadd90f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 24/33] fix: an expansion restores the datatype tables, also
 after an exception

---
 owlrl/__init__.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 1b8af1a..27fab98 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -165,6 +165,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+from functools import wraps
 from typing import Union
 
 # noinspection PyPackageRequirements,PyPackageRequirements,PyPackageRequirements
@@ -176,6 +177,8 @@ from .OWLRLExtras import OWLRL_Extension, OWLRL_Extension_Trimming
 from .OWLRL import OWLRL_Semantics
 from .RDFSClosure import RDFS_Semantics
 from .CombinedClosure import RDFS_OWLRL_Semantics
+from .DatatypeHandling import AltXSDToPYTHON, _toPythonMapping
+from .XsdDatatypes import OWL_RL_Datatypes, OWL_Datatype_Subsumptions
 from rdflib.namespace import OWL
 
 RDFXML = "xml"
@@ -307,6 +310,32 @@ def return_closure_class(owl_closure, rdfs_closure, owl_extras, trimming=False):
         return None
 
 
+def _restoring_datatype_tables(method):
+    """
+    Decorator: whatever happens in the method, the process-wide datatype tables (RDFLib's conversions and the tables
+    of this package, which closures may extend) are the same after it as before.
+    """
+
+    @wraps(method)
+    def wrapper(*args, **kwargs):
+        conversions = dict(_toPythonMapping)
+        improved = dict(AltXSDToPYTHON)
+        datatypes = list(OWL_RL_Datatypes)
+        subsumptions = dict(OWL_Datatype_Subsumptions)
+        try:
+            return method(*args, **kwargs)
+        finally:
+            _toPythonMapping.clear()
+            _toPythonMapping.update(conversions)
+            AltXSDToPYTHON.clear()
+            AltXSDToPYTHON.update(improved)
+            OWL_RL_Datatypes[:] = datatypes
+            OWL_Datatype_Subsumptions.clear()
+            OWL_Datatype_Subsumptions.update(subsumptions)
+
+    return wrapper
+
+
 # noinspection PyCallingNonCallable
 class DeductiveClosure:
     """
@@ -391,6 +420,7 @@ class DeductiveClosure:
         self.rdfs_closure = rdfs_closure
         self.improved_datatypes = improved_datatypes
 
+    @_restoring_datatype_tables
     def expand(self, graph: Graph, destination: Union[None, Graph] = None):
         """
         Expand the graph using forward chaining, and with the relevant closure type.
-- 
2.43.0


From 9211958276346c3e4091332faef20301e0c65c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 25/33] fix: length, pattern and language range facets made the
 restricted datatype fail

---
 owlrl/RestrictedDatatype.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index b7b70b7..c1a7434 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -57,11 +57,14 @@ __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/L
 import re
 
 from rdflib.namespace import OWL, RDF, RDFS, XSD
-from rdflib import Literal as rdflibLiteral
+from rdflib import Literal as rdflibLiteral, URIRef
 
 from .DatatypeHandling import AltXSDToPYTHON
 from functools import reduce
 
+# Not in RDFLib's (closed) RDF namespace, so RDF.langRange would raise an exception
+RDF_langRange = URIRef(str(RDF) + "langRange")
+
 # Constant for datatypes using min, max (inclusive and exclusive):
 MIN_MAX = 0
 # Constant for datatypes using length, minLength, and maxLength (and nothing else)
@@ -388,7 +391,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.maxExclusive is None or value < self.maxExclusive
             ):
                 self.maxExclusive = value
-            elif facet == RDF.langRange:
+            elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
                 self.length = value
-- 
2.43.0


From f9e088b45f09a5da48c7b0791edda481aef2755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 26/33] fix: a second xsd:length facet replaced the first

---
 owlrl/RestrictedDatatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index c1a7434..1688c13 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -394,7 +394,8 @@ class RestrictedDatatype(RestrictedDatatypeCore):
             elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
-                self.length = value
+                # no value has two different lengths
+                self.length = value if self.length in (None, value) else -1
             elif facet == XSD.maxLength and (
                 self.maxLength is None or value < self.maxLength
             ):
-- 
2.43.0


From a421b3ce5db5145d896a404e73df337d60e03515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:32 +0000
Subject: [PATCH 27/33] fix: do not duplicate literal-predicate triples for
 equal valued literals

---
 owlrl/RDFSClosure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 5bfc2f6..1c6307f 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -141,7 +141,7 @@ class RDFS_Semantics(Core):
             # effect. In RDFS this is not possible, so the sameAs rule is,
             # essentially replicated...
             for (s, p, o) in self.graph.triples((None, None, lt1)):
-                self.destination.add((s, p, lt2))
+                self.store_triple((s, p, lt2))
 
     def rules(self, t, cycle_num):
         """
-- 
2.43.0


From 13e96f7dea0dc67af25617907f0f72557c9b9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:16 +0000
Subject: [PATCH 28/33] fix: check facets on the converted value of a literal,
 not on RDFLib's

RDFLib's value of a literal may be missing (xsd:dateTimeStamp) or of another
type than that of the facets (float against Decimal for xsd:double), so
restricted datatypes rejected values within their facets and accepted others.
---
 owlrl/OWLRLExtras.py        |  4 ++--
 owlrl/RestrictedDatatype.py | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index aa20e3e..283bd7e 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -174,7 +174,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(lt.toPython()):
+                        if rt.checkLiteral(lt):
                             # yep, this is also of type 'rt'
                             self.store_triple((lt, RDF.type, rt.datatype))
                     except:
@@ -202,7 +202,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if rt.datatype == t:
                     # bingo
                     if isinstance(v, Literal):
-                        return rt.checkValue(v.toPython())
+                        return rt.checkLiteral(v)
                     else:
                         return True
             # if we got here, no restriction applies
diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 1688c13..b772f5e 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -453,6 +453,20 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 return False
         return True
 
+    def checkLiteral(self, literal):
+        """
+        Check whether the value of a literal of the base type abides to the constraints defined by the current facets.
+        The value is what the converter of this datatype makes of the lexical form: RDFLib's own value
+        (:code:`literal.value`) may be missing, or of another Python type than the values of the facets.
+
+        :param literal: The literal to be checked.
+        :rtype: bool
+        :raise ValueError: The lexical form is not one of the base type.
+        """
+        if self.base_type == RDF.PlainLiteral:
+            return self.checkValue(literal)
+        return self.checkValue(self.converter(str(literal)))
+
     def _check_min_exclusive(self, value):
         """
         Check  the (python) value against min exclusive facet.
-- 
2.43.0


From 928636c664a468b7784aa402a95e67436038840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:32 +0000
Subject: [PATCH 29/33] fix: reject literals without language tag against a
 language range

The check raised AttributeError on them, which allValuesFrom took for
acceptance.
---
 owlrl/RestrictedDatatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index b772f5e..2570cec 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -582,6 +582,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             return False
         for r in self.langRange:
-            if not _lang_range_check(r, lang):
+            # a literal without language tag matches no range
+            if lang is None or not _lang_range_check(r, lang):
                 return False
         return True
-- 
2.43.0


From 24425cc237fb025b4c0a8cb8199bb4726e50ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:11 +0000
Subject: [PATCH 30/33] fix: compare the unrounded magnitude of doubles and
 floats with the range

abs() rounds a Decimal to 28 digits, so numbers just inside of a limit
were rejected.
---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index c366b9a..a041b05 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -286,7 +286,7 @@ def _strToDouble(v):
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
-        if value == 0 or lower < abs(value) < upper:
+        if value == 0 or lower < value.copy_abs() < upper:
             # bingo
             return value
         else:
@@ -311,7 +311,7 @@ def _strToFloat(v):
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
-        if value == 0 or lower < abs(value) < upper:
+        if value == 0 or lower < value.copy_abs() < upper:
             # bingo
             return value
         else:
-- 
2.43.0


From 8d702fa57275002835c3d646611d4c40770aff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:39 +0000
Subject: [PATCH 31/33] fix: accept the documented input format name "rdfxml"

---
 owlrl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 27fab98..076f24e 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -214,7 +214,7 @@ def __parse_input(iformat, inp, graph):
         format = "turtle"
     elif iformat == RDFA:
         format = "rdfa1.1"
-    elif iformat == RDFXML:
+    elif iformat == RDFXML or iformat == "rdfxml":
         format = "xml"
     elif iformat == JSON:
         format = "json-ld"
-- 
2.43.0


From f63baf348e01304e38da5f43523e10b1b4682ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 32/33] fix: a rational literal with several slashes was read
 as its numerator

---
 owlrl/OWLRLExtras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 283bd7e..549b501 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -79,9 +79,11 @@ def _strToRational(v):
         if len(r) == 2:
             n_str = r[0]
             d_str = r[1]
-        else:
+        elif len(r) == 1:
             n_str = r[0]
             d_str = "1"
+        else:
+            raise ValueError("Invalid Rational literal value %s" % v)
         if d_str.strip()[0] == "+":
             raise ValueError("Invalid Rational literal value %s" % v)
         else:
-- 
2.43.0


From 2120a3ad5e2934e7390a4596ddda3cadefaeb0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:26 +0000
Subject: [PATCH 33/33] fix: plain literals may have several lines

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index a041b05..ef6eb37 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -625,7 +625,7 @@ def _strToPlainLiteral(v):
     """
     reg = "(.*)@([^@]*)"
     # a plain literal must match this regexp!
-    match = re.match(reg, v)
+    match = re.match(reg, v, re.DOTALL)
     if match is None:
         raise ValueError("Invalid plain literal %s" % v)
     else:
-- 
2.43.0

