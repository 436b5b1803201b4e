From 6cebad996e566875b3d6f4d17f94f3f83a468a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 01/31] fix: C generator failed with KeyError for the basic and
 extended scopes

---
 src/acetimetools/generator/cgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..456d5a4 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -302,7 +302,7 @@ extern "C" {{
                 at_time_modifier_comment = \
                     f'{label} + minute={remaining_minutes}'
                 delta_code = rule['delta_code_encoded']
-                delta_minutes = rule['delta_minutes']
+                delta_minutes = rule['delta_seconds_truncated'] // 60
                 delta_code_comment = f"(delta_minutes={delta_minutes})/15 + 4"
 
             if self.generate_tiny_years:
@@ -657,7 +657,7 @@ const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name} {progmem} = {{
             offset_code = era['offset_code']
             delta_code = era['delta_code_encoded']
             offset_minute = era['offset_minute']
-            delta_minutes = era['delta_minutes']
+            delta_minutes = era['era_delta_seconds_truncated'] // 60
             delta_code_comment = (
                 f"((offset_minute={offset_minute}) << 4) + "
                 f"((delta_minutes={delta_minutes})/15 + 4)"
-- 
2.43.0


From f10158dfe8baa4a9965ed683ca3a7ccbc7194367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 02/31] fix: allocation failure while parsing a line was
 counted as an invalid line

The handler that skips malformed lines also swallowed MemoryError, so the run
went on without a well-formed rule or era and ended with status 0.
---
 src/acetimetools/extractor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..2742cc3 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -193,6 +193,8 @@ class Extractor:
                         _add_policies_map(self.policies_map, name, rule_entry)
                     else:
                         self.ignored_rule_lines += 1
+                except MemoryError:
+                    raise
                 except Exception as e:
                     logging.exception(f'Exception {e}: {line}')
                     self.invalid_rule_lines += 1
@@ -209,6 +211,8 @@ class Extractor:
                         _add_zones_map(self.zones_map, name, zone_era)
                     else:
                         self.ignored_zone_lines += 1
+                except MemoryError:
+                    raise
                 except Exception as e:
                     logging.exception(f'Exception {e}: {line}')
                     self.invalid_zone_lines += 1
-- 
2.43.0


From 1b6a30b19237471ef955d6303fba01365cad6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 03/31] fix: allocation failure while parsing a time string was
 taken for an invalid time

The zone or rule set was then removed as having a bad field and the run ended
with status 0.
---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..0f999c3 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1727,7 +1727,7 @@ def time_string_to_seconds(time_string: str) -> int:
         second = int(elems[2]) if len(elems) > 2 else 0
         if len(elems) > 3:
             return INVALID_SECONDS
-    except Exception:
+    except ValueError:
         return INVALID_SECONDS
 
     # A number of countries use 24:00, and Japan uses 25:00(!).
-- 
2.43.0


From 8b1c44a53b58d67f83e6122dd93995297ef5faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 04/31] fix: include list was decoded with the encoding of the
 locale

The same list was accepted or refused depending on the environment.
---
 src/acetimetools/tzcompiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..ba1bc93 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -652,7 +652,7 @@ def read_include_list(filename: str) -> Set[str]:
     if not filename:
         return zones
 
-    with open(filename) as f:
+    with open(filename, 'r', encoding='utf-8') as f:
         for line in f:
             line = line.strip()
             if not line:
-- 
2.43.0


From 1c118808779e1492e51bcf418118755289917ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 05/31] fix: unknown lines of the TZ files were dropped without
 a trace

A line whose keyword was not understood, or a continuation line without a
Zone, was skipped silently. If it was a damaged Zone line, its continuation
lines were added to the previous Zone. A keyword that ran into the next field
('ZoneXAmerica/...') was taken for a Zone of another name.
---
 src/acetimetools/extractor/extractor.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 2742cc3..cb3dec5 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -122,6 +122,7 @@ class Extractor:
         self.invalid_rule_lines: int = 0
         self.invalid_zone_lines: int = 0
         self.invalid_link_lines: int = 0
+        self.unknown_lines: int = 0
 
     def parse(self) -> None:
         """Read the zoneinfo files from TZ Database and create the 'zones_map'
@@ -158,28 +159,34 @@ class Extractor:
             if line is None:
                 break
 
-            tag: str = line[:4]
+            tokens: List[str] = line.split()
+            tag: str = '\t' if line[0] == '\t' else tokens[0]
             if tag == 'Rule':
-                tokens: List[str] = line.split()
                 policy_name: str = tokens[1]
                 _add_item(self.rule_lines, policy_name, line)
                 in_zone_mode = False
             elif tag == 'Link':
-                tokens = line.split()
                 link_name: str = tokens[2]
                 _add_item(self.link_lines, link_name, tokens[1])
                 in_zone_mode = False
             elif tag == 'Zone':
-                tokens = line.split()
                 zone_name: str = tokens[1]
                 _add_item(self.zone_lines, zone_name, ' '.join(tokens[2:]))
                 in_zone_mode = True
                 # prev_tag = tag
                 prev_name = zone_name
-            elif tag[0] == '\t' and in_zone_mode:
+            elif tag == '\t' and in_zone_mode:
                 # Collect subsequent lines that begin with a TAB character into
                 # the current 'Zone' entry.
                 _add_item(self.zone_lines, prev_name, line)
+            else:
+                # Not a Rule, Zone or Link, or a continuation line without a
+                # Zone. The continuation lines which follow cannot be assigned
+                # to the previous Zone, because this line may have been another
+                # Zone.
+                logging.error(f'Unknown line: {line}')
+                self.unknown_lines += 1
+                in_zone_mode = False
 
     def _process_rules(self) -> None:
         name: str
@@ -265,6 +272,7 @@ class Extractor:
             self.invalid_zone_lines,
             self.invalid_link_lines,
         )
+        logging.info('Summary: Unknown lines: %d', self.unknown_lines)
 
 
 def _read_line(input: TextIO) -> Optional[str]:
-- 
2.43.0


From 1cc38ec354a7a34fb4780e5b3552b94cd4d38bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 06/31] fix: extra fields on a line of the TZ files were
 ignored without a trace

Two records that ran together were read as the first one only. Such lines are
now counted as invalid, like the ones with missing fields.
---
 src/acetimetools/extractor/extractor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index cb3dec5..73a4ca7 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -166,6 +166,11 @@ class Extractor:
                 _add_item(self.rule_lines, policy_name, line)
                 in_zone_mode = False
             elif tag == 'Link':
+                if len(tokens) != 3:
+                    logging.error(f'Invalid Link: {line}')
+                    self.invalid_link_lines += 1
+                    in_zone_mode = False
+                    continue
                 link_name: str = tokens[2]
                 _add_item(self.link_lines, link_name, tokens[1])
                 in_zone_mode = False
@@ -388,6 +393,8 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
     These represent transitions from Daylight to/from Standard.
     """
     tokens: List[str] = line.split()
+    if len(tokens) != 10:
+        raise Exception(f'Expected 10 fields, found {len(tokens)}')
 
     # Check for valid year.
     from_year: int = int(tokens[2])
@@ -442,6 +449,8 @@ def _process_zone_line(line: str) -> ZoneEraRaw:
     -6:00    US     C%sT    1920
     """
     tokens: List[str] = line.split()
+    if len(tokens) < 3 or len(tokens) > 7:
+        raise Exception(f'Expected 3 to 7 fields, found {len(tokens)}')
 
     # STDOFF
     offset_string: str = tokens[0]
-- 
2.43.0


From b2611a4f80cbf54dc7b0b2e7d9dfae05b4d9f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 07/31] fix: quotes and other characters of damaged TZ files
 broke the generated sources

The names, formats and letters are copied into string literals, comments and
identifiers of the generated files. Lines with characters that never appear in
valid entries are now logged and counted.
---
 src/acetimetools/extractor/extractor.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 73a4ca7..bdd2a94 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -69,6 +69,7 @@ from typing import TextIO
 from typing import Tuple
 import logging
 import os
+import re
 
 from acetimetools.datatypes.attyping import (
     ZoneRuleRaw,
@@ -81,6 +82,10 @@ from acetimetools.datatypes.attyping import (
 )
 
 
+# The characters which appear in valid Rule, Zone, and Link entries.
+VALID_LINE = re.compile(r'[A-Za-z0-9 \t%+./:<=>_-]*')
+
+
 class Extractor:
     """Reads each test data section from the given file-like object (e.g.
     sys.stdin).
@@ -159,6 +164,15 @@ class Extractor:
             if line is None:
                 break
 
+            # The names, formats and letters are copied into the source files
+            # of several languages. Quotes, backslashes and so on would break
+            # them.
+            if not VALID_LINE.fullmatch(line):
+                logging.error(f'Unsupported character: {line}')
+                self.unknown_lines += 1
+                in_zone_mode = False
+                continue
+
             tokens: List[str] = line.split()
             tag: str = '\t' if line[0] == '\t' else tokens[0]
             if tag == 'Rule':
-- 
2.43.0


From 6bbfb22eb588b3f9867454b84ebf6f87e11a7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:01 +0000
Subject: [PATCH 08/31] fix: years that no zonedb can hold were accepted

A damaged year like 32767 or 99999 was taken for 'max', or did not fit into the
generated fields, or kept the basic scope busy for hours. A rule whose TO year is
before its FROM year was emitted as is. Such lines are now counted as invalid.
---
 src/acetimetools/extractor/extractor.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index bdd2a94..2086287 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -411,14 +411,16 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
         raise Exception(f'Expected 10 fields, found {len(tokens)}')
 
     # Check for valid year.
-    from_year: int = int(tokens[2])
+    from_year: int = parse_year(tokens[2])
     to_year_string: str = tokens[3]
     if to_year_string == 'only':
         to_year: int = from_year
     elif to_year_string == 'max':
         to_year = MAX_TO_YEAR
     else:
-        to_year = int(to_year_string)
+        to_year = parse_year(to_year_string)
+    if to_year < from_year:
+        raise Exception(f'Invalid years {from_year} to {to_year}')
 
     in_month: int = month_to_index(tokens[5])
     on_day: str = tokens[6]
@@ -439,6 +441,15 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
     }
 
 
+def parse_year(year: str) -> int:
+    """Convert a year of 1 to 4 digits. Other years do not fit into the fields
+    of the zonedb, or collide with the symbolic values (e.g. MAX_UNTIL_YEAR).
+    """
+    if not re.fullmatch('[0-9]{1,4}', year) or int(year) == 0:
+        raise Exception(f"Invalid year '{year}'")
+    return int(year)
+
+
 def parse_at_time_string(at_string: str) -> Tuple[str, str]:
     """Parses the '2:00s' string into '2:00' and 's'. If there is no suffix,
     returns a '' as the suffix.
@@ -474,7 +485,7 @@ def _process_zone_line(line: str) -> ZoneEraRaw:
 
     # check 'until' year
     if len(tokens) >= 4:
-        until_year: int = int(tokens[3])
+        until_year: int = parse_year(tokens[3])
     else:
         until_year = MAX_UNTIL_YEAR
 
-- 
2.43.0


From b30cc7bfb351283dd904ad9e29983a2ab2ef9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:33 +0000
Subject: [PATCH 09/31] fix: days of the month which do not exist were accepted

'0', '32' or 'Sun>=32' were copied into the zonedb, 'Sun>=0' was taken for
'lastSun', and 'Sun>=' stopped the compiler with a ValueError instead of
removing the zone or policy.
---
 src/acetimetools/transformer/transformer.py | 24 +++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 0f999c3..30336a1 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1682,7 +1682,7 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
 
     """
     if on_string.isdigit():
-        return (0, int(on_string))
+        return (0, _parse_day_of_month(on_string))
 
     if on_string[:4] == 'last':
         dayOfWeek = on_string[4:]
@@ -1693,22 +1693,32 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
     greater_than_equal_index = on_string.find('>=')
     if greater_than_equal_index >= 0:
         dayOfWeek = on_string[:greater_than_equal_index]
-        dayOfMonth = on_string[greater_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[greater_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], dayOfMonth)
 
     less_than_equal_index = on_string.find('<=')
     if less_than_equal_index >= 0:
         dayOfWeek = on_string[:less_than_equal_index]
-        dayOfMonth = on_string[less_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[less_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -dayOfMonth)
 
     return (0, 0)
 
 
+def _parse_day_of_month(day_string: str) -> int:
+    """Return the day of month (1-31), or 0 if invalid."""
+    if not day_string.isdigit():
+        return 0
+    day = int(day_string)
+    return day if day <= 31 else 0
+
+
 def time_string_to_seconds(time_string: str) -> int:
     """Converts the '[-]hh:mm:ss' string into +/- total seconds from 00:00.
     Returns INVALID_SECONDS if there is a parsing error.
-- 
2.43.0


From cadf2bfaa3ddfea109b5f21800596e720d647ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 10/31] fix: SAVE of a rule that does not fit in 1 byte was
 written in the complete scope

The era check of the same field already refuses to write a value the
int8_t field cannot hold; the rule check was missing.
---
 src/acetimetools/transformer/artransformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..0584292 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -225,7 +225,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
-- 
2.43.0


From d4200d7d8a77c2040beed980e854fc60a111cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 11/31] fix: an era was dropped from the middle of a zone whose
 UNTIL years decrease

The filters for eras which are too old or too new ran before the check of
the order, and assume that the eras are in order. A mistyped UNTIL year
made them remove an era from the middle of a zone without a trace, or,
with tiny years, left two eras without an end.
---
 src/acetimetools/transformer/transformer.py | 32 +++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 30336a1..da21067 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -140,6 +140,7 @@ class Transformer:
         expected_links_count = len(links_map)
 
         # Part 3: Transform the zones_map.
+        zones_map = self._remove_zones_with_decreasing_until_year(zones_map)
         zones_map = self._remove_zone_eras_too_old(zones_map)
         zones_map = self._remove_zone_eras_too_new(zones_map)
         zones_map = self._extend_zone_eras_until(zones_map)
@@ -341,6 +342,37 @@ class Transformer:
     # Part 3: Transform the zones_map.
     # --------------------------------------------------------------------
 
+    def _remove_zones_with_decreasing_until_year(
+        self, zones_map: ZonesMap,
+    ) -> ZonesMap:
+        """Remove Zone infos whose UNTIL years decrease. This must be done
+        before any eras are removed, because _remove_zone_eras_too_old() and
+        _remove_zone_eras_too_new() assume that the eras are in order, and would
+        remove an era from the middle. The UNTIL fields of the remaining eras
+        are verified by _remove_zones_with_non_monotonic_until().
+        """
+        results: ZonesMap = {}
+        removed_zones: CommentsMap = {}
+        for name, info in zones_map.items():
+            valid = True
+            prev_until_year = MIN_YEAR
+            for era in info['eras']:
+                if era['until_year'] < prev_until_year:
+                    valid = False
+                    add_comment(
+                        removed_zones, name,
+                        f"decreasing UNTIL year: {era['until_year']:04}")
+                    break
+                prev_until_year = era['until_year']
+            if valid:
+                results[name] = info
+
+        self._print_comments_map(
+            'Removed %s zone infos with decreasing UNTIL years', removed_zones,
+        )
+        merge_comments(self.all_removed_zones, removed_zones)
+        return results
+
     def _remove_zone_eras_too_old(self, zones_map: ZonesMap) -> ZonesMap:
         """Remove zone eras which are too old, i.e. before (self.start_year-1).
         If the start_year is 2000, ZoneProcessor.init_for_year() could be called
-- 
2.43.0


From f065dff4e4d92013d66ec73a3d3e2a695556cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:30 +0000
Subject: [PATCH 12/31] fix: delta that does not fit in 1 byte made the Go
 generator fail half-way

The transformer now refuses it, before any of the files is overwritten.
---
 src/acetimetools/transformer/gotransformer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index 471128a..3ed8e2e 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -242,6 +242,7 @@ def _generate_zone_era_time_codes(zones_map: ZonesMap) -> None:
                     f"ERROR: Zone {name} should have delta_seconds "
                     "in units of one minute"
                 )
+            _check_delta_minutes(f'Zone {name}', delta_seconds // 60)
 
             # UntilSeconds
             until_seconds = era['until_seconds_truncated']
@@ -265,6 +266,7 @@ def _generate_zone_rule_time_codes(policies_map: PoliciesMap) -> None:
                     f"ERROR: Policy {name} should have delta_seconds "
                     "in units of one minute"
                 )
+            _check_delta_minutes(f'Policy {name}', delta_seconds // 60)
             rule['go_delta_minutes'] = delta_seconds // 60
 
             # AtSeconds
@@ -279,6 +281,16 @@ def _generate_zone_rule_time_codes(policies_map: PoliciesMap) -> None:
             )
 
 
+def _check_delta_minutes(label: str, delta_minutes: int) -> None:
+    """Check that the value fits into the int8 field before any file is written.
+    """
+    if delta_minutes < -128 or delta_minutes > 127:
+        raise Exception(
+            f"ERROR: {label}: delta_minutes={delta_minutes} "
+            "does not fit in 1 byte"
+        )
+
+
 def _generate_memory_map(
     zones_map: ZonesMap,
     links_map: LinksMap,
-- 
2.43.0


From 39935497a0d40aa515e8378af5568420abe1cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 13/31] fix: tzcompiler.sh could remove files that it had not
 created

---
 tzcompiler.sh | 52 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/tzcompiler.sh b/tzcompiler.sh
index 6381a47..779afc4 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -19,11 +19,14 @@ set -eu
 shopt -s extglob # needed by copy_tzfiles()
 
 # Can't use $(realpath $(dirname $0)) because realpath doesn't exist on MacOS
-DIRNAME=$(dirname $0)
+DIRNAME=$(dirname -- "$0")
 
 # Location of the TZDB files after copying them from the source git repo.
 TZFILES=$PWD/tzfiles
 
+# Becomes 1 when this run has created $TZFILES, which is when it may remove it.
+created=0
+
 # Output generated code to the current directory
 OUTPUT_DIR=$PWD
 
@@ -32,9 +35,14 @@ function usage() {
     exit 1
 }
 
+# Remove $TZFILES, but only if it was created by this run. The job is completed
+# even if the output is a broken pipe, or if another signal arrives.
 function clean_tzfiles() {
-    echo "+ rm -rf $TZFILES"
-    rm -fr $TZFILES
+    trap '' HUP INT PIPE TERM
+    if [[ $created == 1 ]]; then
+        echo "+ rm -rf $TZFILES" || true
+        rm -fr -- "$TZFILES"
+    fi
 }
 
 # Copy the tz git repo at the specified tag. If no tag given, copy the current
@@ -50,14 +58,26 @@ function copy_tzfiles() {
         exit 1
     fi
 
+    # Create $dst. The mkdir(1) fails if another run just created it, or if it
+    # is a dangling symlink. Signals are ignored until that is recorded. After
+    # that, they cause an exit when the current command has finished, so that
+    # the command does not recreate $dst after it was cleaned up.
+    trap '' HUP INT TERM
+    mkdir -- "$dst"
+    created=1
+    trap 'exit 129' HUP
+    trap 'exit 130' INT
+    trap 'exit 143' TERM
+
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
-        echo "+ cp -a $src/ $dst/"
-        cp -a $src/ $dst/
+        echo "+ cp -a $src/. $dst/"
+        cp -a -- "$src/." "$dst/"
     else
         # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
         echo "+ git clone --quiet --branch $tag $src $dst"
-        git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+        git -c advice.detachedHead=false clone --quiet --branch "$tag" \
+            -- "$src" "$dst"
     fi
 
     # Remove all files other than the zone info files with Rule and Zone
@@ -66,7 +86,7 @@ function copy_tzfiles() {
     # directories. See src/acetimetools/extractor/extractor.py for the master
     # list of zone info files. This requires the 'shopt -s extglob' to be set.
     echo "+ rm -rf $dst/{clutter}"
-    (cd $dst; rm -rf !(\
+    (cd "$dst"; rm -rf -- !(\
 africa|\
 antarctica|\
 asia|\
@@ -82,14 +102,14 @@ southamerica|\
 # Run the tzcompiler.py.
 function run_tzcompiler() {
     echo "+ $DIRNAME/src/acetimetools/tzcompiler.py" \
-        --input_dir $TZFILES \
-        --output_dir $OUTPUT_DIR \
-        --tz_version $tz_version \
-        $@
-    $DIRNAME/src/acetimetools/tzcompiler.py \
-        --input_dir $TZFILES \
-        --output_dir $OUTPUT_DIR \
-        --tz_version $tz_version \
+        --input_dir "$TZFILES" \
+        --output_dir "$OUTPUT_DIR" \
+        --tz_version "$tz_version" \
+        "$@"
+    "$DIRNAME/src/acetimetools/tzcompiler.py" \
+        --input_dir "$TZFILES" \
+        --output_dir "$OUTPUT_DIR" \
+        --tz_version "$tz_version" \
         "$@"
 }
 
@@ -125,5 +145,5 @@ if [[ $cleanup == 1 ]]; then
 fi
 
 # Do the actual work.
-copy_tzfiles $tzrepo $TZFILES
+copy_tzfiles "$tzrepo" "$TZFILES"
 run_tzcompiler "$@"
-- 
2.43.0


From 562e1f9061e54f16a814230d66a6352c14e99f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 14/31] fix: copytz.sh could remove files outside of its target

---
 copytz.sh | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/copytz.sh b/copytz.sh
index 75c5898..4d0709e 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -42,18 +42,29 @@ fi
 src=$1
 dst=$2
 
+# Prevent 'cd' from going anywhere but the target: to a directory in $CDPATH, to
+# $OLDPWD if the target is '-', or to $HOME if it is empty.
+[[ "$dst" == /* ]] || dst="./$dst"
+
 # Either the current repo, or perform a shallow clone at the given '$tag'.
 if [[ -e "$dst" ]]; then
     echo "ERROR: Cannot overwrite existing '$dst'"
     exit 1
 fi
+
+# Create the target. The mkdir(1) fails if another run just created it, or if it
+# is a dangling symlink.
+mkdir -p -- "$(dirname -- "$dst")"
+mkdir -- "$dst"
+
 if [[ "$tag" == '' ]]; then
-    echo "+ cp -a $src/ $dst/"
-    cp -a $src/ $dst/
+    echo "+ cp -a $src/. $dst/"
+    cp -a -- "$src/." "$dst/"
 else
     # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
     echo "+ git clone --quiet --branch $tag $src $dst"
-    git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+    git -c advice.detachedHead=false clone --quiet --branch "$tag" \
+        -- "$src" "$dst"
 fi
 
 # Remove all files other than the zone info files with Rule and Zone entries.
@@ -63,8 +74,8 @@ fi
 # files.
 echo "+ rm -rf $dst/{clutter}"
 shopt -s extglob # in case it isn't enabled by default
-cd $dst
-rm -rf !(\
+cd "$dst"
+rm -rf -- !(\
 africa|\
 antarctica|\
 asia|\
-- 
2.43.0


From 8c035a3819d9186c578cf338fe570994413a2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 15/31] fix: honour the --granularity flag

The flag is documented as overriding the UNTIL/AT, STDOFF and SAVE
granularities, but its value was never used.
---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index ba1bc93..5a219ec 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -473,6 +473,10 @@ def main() -> None:
         offset_granularity = args.offset_granularity
     if args.delta_granularity:
         delta_granularity = args.delta_granularity
+    if args.granularity:
+        until_at_granularity = args.granularity
+        offset_granularity = args.granularity
+        delta_granularity = args.granularity
 
     logging.info('======== TZ Compiler settings')
     logging.info(f'Scope: {args.scope}')
-- 
2.43.0


From 2b407f7c4e19d335377040b013d43933ceea2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 16/31] fix: reset the whole UNTIL of an extended last era

Only the year became MAX_UNTIL_YEAR: the month, day, time and suffix of the
truncated era were kept, and a weekday UNTIL (e.g. lastSun) failed with "year
32767 is out of range".
---
 src/acetimetools/transformer/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index da21067..ca41059 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -464,6 +464,11 @@ class Transformer:
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From 580936e0f931de9e982779eced669798425357a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 17/31] fix: account for saturated tiny years in the accurate
 years

A year which does not fit in one byte is saturated, so the database is not
accurate there.
---
 src/acetimetools/transformer/transformer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index ca41059..2c267af 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1020,6 +1020,13 @@ class Transformer:
                     raise Exception(f"{name}: UNTIL {until_year} not tiny")
                 era['until_year_tiny'] = until_year_tiny
 
+                # A year which had to be saturated is no longer accurate.
+                if until_year_tiny == MIN_YEAR_TINY:
+                    info['lower_era_truncated'] = True
+                if (until_year_tiny == MAX_UNTIL_YEAR_TINY
+                        and until_year != MAX_UNTIL_YEAR):
+                    info['upper_era_truncated'] = True
+
         return zones_map
 
     # --------------------------------------------------------------------
@@ -1498,6 +1505,12 @@ class Transformer:
                         f"{name}: to_year={to_year} not tiny")
                 rule['to_year_tiny'] = to_year_tiny
 
+                # A year which had to be saturated is no longer accurate.
+                if from_year_tiny == MIN_YEAR_TINY and from_year != MIN_YEAR:
+                    policy['lower_rule_truncated'] = True
+                if to_year_tiny == MAX_TO_YEAR_TINY and to_year != MAX_TO_YEAR:
+                    policy['upper_rule_truncated'] = True
+
         return policies_map
 
     # --------------------------------------------------------------------
-- 
2.43.0


From 424726ddb4cd226a99279529ee6ad075dd588e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 18/31] fix: create the anchor rule when no standard time rule
 remains

A single remaining rule with a non-zero SAVE was turned into a SAVE=0 anchor,
which lost the daylight saving time, and two or more of them failed an
assertion.
---
 src/acetimetools/transformer/transformer.py | 45 ++++++++++++++++-----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 2c267af..aa468fb 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -100,6 +100,9 @@ class Transformer:
         self.all_notable_policies: CommentsMap = {}
         self.all_notable_links: CommentsMap = {}
 
+        # LETTER of standard time for each policy name
+        self.standard_letters: Dict[str, str] = {}
+
     def transform(self, tresult: TransformerResult) -> None:
         """
         Transforms the given tresult in-situ through a series of filters.
@@ -1076,6 +1079,10 @@ class Transformer:
             for rule in priors:
                 rule['truncated'] = 0
 
+            # Remember the LETTER of standard time, because the anchor rule needs
+            # it even if no standard time rule remains.
+            self.standard_letters[name] = find_standard_letter(rules)
+
             # Collect used rules.
             used_rules: List[ZoneRuleRaw] = []
             lower_truncated = False
@@ -1412,10 +1419,11 @@ class Transformer:
         """
         for name, policy in policies_map.items():
             rules = policy['rules']
-            if len(rules) == 1:
+            if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
-                anchor_rule = _get_anchor_rule(rules)
+                anchor_rule = _get_anchor_rule(
+                    rules, self.standard_letters[name])
                 rules.insert(0, anchor_rule)
         return policies_map
 
@@ -1870,6 +1878,21 @@ def find_latest_prior_rules(
     return candidates
 
 
+def find_standard_letter(rules: List[ZoneRuleRaw]) -> str:
+    """Return the LETTER of the earliest Rule whose SAVE is 0. If there is no
+    such Rule, return '-' (i.e. no letter).
+    """
+    standard_rules = [
+        rule for rule in rules
+        if time_string_to_seconds(rule['delta_offset']) == 0
+    ]
+    if not standard_rules:
+        return '-'
+    earliest = min(
+        standard_rules, key=lambda r: (r['from_year'], r['in_month']))
+    return earliest['letter']
+
+
 def find_earliest_subsequent_rules(
     rules: List[ZoneRuleRaw],
     year: int,
@@ -2247,9 +2270,12 @@ def _detect_tzdb_years(
     return min_year, max_year
 
 
-def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
+def _get_anchor_rule(
+    rules: List[ZoneRuleRaw],
+    standard_letter: str,
+) -> ZoneRuleRaw:
     """Return the anchor rule that will act as the earliest rule with SAVE
-    == 0.
+    == 0. If no such rule remains, it uses the given LETTER.
     """
     AnchorInfo = TypedDict('AnchorInfo', {
         'earliestDate': Tuple[int, int, int],
@@ -2258,9 +2284,7 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
 
     # Find the earliest rule with a DSTOFF of 0. The `rules` array will
     # never be empty, but the [start_year, until_year) cutoff may eliminate
-    # too many rules which may result in no rule with DSTOFF of 0. In
-    # practice, I haven't seen this happen, so let's just throw an exception
-    # if that is the case. It would take extra logic to fix this.
+    # all rules with DSTOFF of 0.
     anchor_info: AnchorInfo = {
         'earliestDate': (MAX_UNTIL_YEAR, 12, 31),
         'rule': None,
@@ -2290,8 +2314,11 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
     # to the start of the ZoneEra transition, but they were using 2
     # different suffixes (9/30 24:00u versus 10/1 00:00w), and the current
     # zone_processor.py code was not able to handle them.
-    assert anchor_info['rule'] is not None
-    anchor_rule = anchor_info['rule'].copy()
+    if anchor_info['rule'] is not None:
+        anchor_rule = anchor_info['rule'].copy()
+    else:
+        anchor_rule = rules[0].copy()
+        anchor_rule['letter'] = standard_letter
     _convert_to_anchor(anchor_rule)
     return anchor_rule
 
-- 
2.43.0


From ac1efd0885ac0c5c2165bb46ce9b3478decfbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 19/31] fix: keep prior rules which shift into the last prior
 month

The most recent rule before the start year was looked up by the month in the IN
field. A rule like "Sep Sun>=29" may take effect in October, after a rule of
"Oct 1", and was dropped.
---
 src/acetimetools/transformer/transformer.py | 36 +++++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index aa468fb..83d11d8 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1861,21 +1861,29 @@ def find_latest_prior_rules(
         * Ghana (Transition in late year (1920-12-31))
 
     By grabbing all Rules in the last month, we avoid the risk of accidentally
-    leaving some Rules out.
+    leaving some Rules out. This includes Rules whose ON field may shift the
+    transition into the last month (e.g. 'Sun>=29' in the month before it).
     """
-    candidates = []
-    candidate_date = (0, 0)  # sentinel date earlier than all real Rules
-    for rule in rules:
-        rule_year = rule['to_year']
-        rule_month = rule['in_month']
-        if rule_year < year:
-            rule_date = (rule_year, rule_month)
-            if rule_date > candidate_date:
-                candidate_date = rule_date
-                candidates = [rule]
-            elif rule_date == candidate_date:
-                candidates.append(rule)
-    return candidates
+    prior_rules = [rule for rule in rules if rule['to_year'] < year]
+    last_month = max(
+        (find_month_range(rule)[0] for rule in prior_rules), default=0)
+    return [
+        rule for rule in prior_rules
+        if find_month_range(rule)[1] >= last_month
+    ]
+
+
+def find_month_range(rule: ZoneRuleRaw) -> Tuple[int, int]:
+    """Return the earliest and latest possible month (counted from year 0) of
+    the last transition of the given Rule.
+    """
+    month = rule['to_year'] * 12 + rule['in_month'] - 1
+    on_day_of_week, on_day_of_month = _parse_on_day_string(rule['on_day'])
+    if on_day_of_week != 0 and on_day_of_month > 22:
+        return month, month + 1
+    if on_day_of_week != 0 and -7 < on_day_of_month < 0:
+        return month - 1, month
+    return month, month
 
 
 def find_standard_letter(rules: List[ZoneRuleRaw]) -> str:
-- 
2.43.0


From 42eac24a69471d1e8cd74d251d80bd7eb2fc76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 20/31] fix: refuse policies whose names give the same symbol

---
 src/acetimetools/transformer/transformer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 83d11d8..ae2e7c8 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -133,6 +133,7 @@ class Transformer:
         _detect_links_to_links(links_map)
         _detect_hash_collisions(zones_map=zones_map, links_map=links_map)
         _detect_zones_and_links_with_similar_names(zones_map, links_map)
+        _detect_policies_with_similar_names(policies_map)
         original_min_year, original_max_year = \
             _detect_tzdb_years(zones_map, policies_map)
 
@@ -2249,6 +2250,21 @@ def _detect_zones_and_links_with_similar_names(
         result_links[link_name] = zone_name
 
 
+def _detect_policies_with_similar_names(policies_map: PoliciesMap) -> None:
+    """If there were 2 policies with names like "A-B" and "A_B", both would
+    normalize to "A_B", producing the same symbol for both of them. Make this a
+    fatal error, like similar names of zones and links.
+    """
+    normalized_names: Dict[str, str] = {}  # normalized_name, name
+    for policy_name in policies_map.keys():
+        nname = normalize_name(policy_name)
+        if normalized_names.get(nname):
+            raise Exception(
+                f"Duplicate normalized policy name: {policy_name} -> {nname}"
+            )
+        normalized_names[nname] = policy_name
+
+
 def _detect_tzdb_years(
     zones_map: ZonesMap, policies_map: PoliciesMap,
 ) -> Tuple[int, int]:
-- 
2.43.0


From 8b89107a17084f35cffb8fa900d0df33bb6d30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 21/31] fix: count the null policy in the memory of the Go
 database

---
 src/acetimetools/transformer/gotransformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index 3ed8e2e..75d8b9b 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -316,7 +316,8 @@ def _generate_memory_map(
     rule_size = num_rules * rule_chunk_size
 
     policy_chunk_size = 4
-    policy_size = num_policies * policy_chunk_size
+    # Includes the null policy at index 0.
+    policy_size = (num_policies + 1) * policy_chunk_size
 
     era_chunk_size = 14
     era_size = num_eras * era_chunk_size
-- 
2.43.0


From 568b4d948807af87a7a84052f568f94aecc758c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 22/31] fix: number of notable zones left out the notes on
 their policies

---
 src/acetimetools/generator/cgenerator.py  | 2 +-
 src/acetimetools/generator/gogenerator.py | 2 +-
 src/acetimetools/generator/pygenerator.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 456d5a4..fa76e4b 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -430,7 +430,7 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{link_normalized_name}; \
         notable_link_items = render_comments_map(self.notable_links)
 
         num_removed_infos = len(self.removed_zones)
-        num_notable_infos = len(self.notable_zones)
+        num_notable_infos = len(self.merged_notable_zones)
         num_removed_links = len(self.removed_links)
         num_notable_links = len(self.notable_links)
 
diff --git a/src/acetimetools/generator/gogenerator.py b/src/acetimetools/generator/gogenerator.py
index 4f54d3c..2235090 100644
--- a/src/acetimetools/generator/gogenerator.py
+++ b/src/acetimetools/generator/gogenerator.py
@@ -549,7 +549,7 @@ const ZoneInfosData = {zone_infos_data_string}
 {removed_info_items}
 
 // ---------------------------------------------------------------------------
-// Notable zones: {len(self.notable_zones)}
+// Notable zones: {len(self.merged_notable_zones)}
 // ---------------------------------------------------------------------------
 
 {notable_info_items}
diff --git a/src/acetimetools/generator/pygenerator.py b/src/acetimetools/generator/pygenerator.py
index 9d0c708..ec623f6 100644
--- a/src/acetimetools/generator/pygenerator.py
+++ b/src/acetimetools/generator/pygenerator.py
@@ -286,7 +286,7 @@ UNTIL_YEAR_ACCURATE = {self.until_year_accurate}
 {removed_info_items}
 
 # ---------------------------------------------------------------------------
-# Notable zones: {len(self.notable_zones)}
+# Notable zones: {len(self.merged_notable_zones)}
 # ---------------------------------------------------------------------------
 
 {notable_info_items}
-- 
2.43.0


From 3d7997dce3fb8e1448fe3f7b7de0ae4e077be120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 23/31] fix: notes on truncated values dropped the seconds

---
 src/acetimetools/transformer/transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index ae2e7c8..c929a6e 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -2060,17 +2060,19 @@ def seconds_to_hms(seconds: int) -> Tuple[int, int, int]:
 
 
 def seconds_to_hm_string(seconds: int) -> str:
-    """Convert seconds to hh:mm. Assumes that seconds is multiples of 60.
+    """Convert seconds to hh:mm, or to hh:mm:ss if seconds is not a multiple of
+    60, which can happen if the granularity is not.
     """
     if seconds < 0:
         sign = '-'
         seconds = -seconds
     else:
         sign = ''
+    s = seconds % 60
     minutes = seconds // 60
     m = minutes % 60
     h = minutes // 60
-    return f'{sign}{h:02}:{m:02}'
+    return f'{sign}{h:02}:{m:02}:{s:02}' if s else f'{sign}{h:02}:{m:02}'
 
 
 def hms_to_seconds(h: int, m: int, s: int) -> int:
-- 
2.43.0


From 82d6f15f0a5bbf206db1fbc7e60a5961ab574982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 24/31] fix: times with a second sign or an underscore were
 accepted

---
 src/acetimetools/transformer/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index c929a6e..5ec92ad 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1789,7 +1789,8 @@ def time_string_to_seconds(time_string: str) -> int:
 
     try:
         elems = time_string.split(':')
-        if len(elems) == 0:
+        # int() also accepts signs and underscores, e.g. '--5:00' or '1_0'.
+        if not all(elem.isdigit() for elem in elems):
             return INVALID_SECONDS
         hour = int(elems[0])
         minute = int(elems[1]) if len(elems) > 1 else 0
-- 
2.43.0


From cd976154ba2e7cb3ed3dffdc6ec91c2c132d3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 25/31] fix: accept Sun<=7 in January, which cannot shift, and
 not Sun<=1

Sun<=7 may be Jan 1, which the basic scope does not support.
---
 src/acetimetools/transformer/transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 5ec92ad..9db8aec 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1383,8 +1383,8 @@ class Transformer:
                 # "dayOfWeek<=6" or "dayOfWeek>=26" if the shift causes the year
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
-                    if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                    if (-6 <= on_day_of_month
+                            and on_day_of_month <= -1
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
@@ -1476,12 +1476,13 @@ class Transformer:
                 month = rule['in_month']
                 on_day_of_month = rule['on_day_of_month']
                 if from_year > MIN_YEAR and to_year > MIN_YEAR:
-                    if month == 1 and on_day_of_month == 1:
+                    # Sun<=7 is the same as Sun>=1
+                    if month == 1 and on_day_of_month in (1, -7):
                         valid = False
                         add_comment(
                             removed_policies, name,
                             "Transition on Jan 1 not supported "
-                            f"({from_year:04}-{month:02}-{on_day_of_month:02})"
+                            f"({from_year:04}-{month:02}-01)"
                         )
                         break
             if valid:
-- 
2.43.0


From 054ac10321d31a7aff544ab219f79e0c2a6cd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 26/31] fix: rule sets, zones and letters beyond 255 were
 accepted for the arduino and c languages

---
 src/acetimetools/transformer/artransformer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 0584292..f8050e5 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -99,6 +99,7 @@ class ArduinoTransformer:
 
         self.letters_map = _collect_letter_strings(self.policies_map)
         self.formats_map = _collect_format_strings(self.zones_map)
+        self._check_record_counts()
 
         self._process_rules_from_to_at(self.policies_map)
         self._process_rules_letter(self.policies_map, self.letters_map)
@@ -145,6 +146,24 @@ class ArduinoTransformer:
             f"; {len(tresult.links_map)} Links"
         )
 
+    def _check_record_counts(self) -> None:
+        """Check that the counts and indexes which are stored as uint8 (the
+        number of rules in a policy, the number of eras in a zone, and the
+        letterIndex) fit, before any file is written.
+        """
+        for policy_name, policy in self.policies_map.items():
+            if len(policy['rules']) > 255:
+                raise Exception(
+                    f"Policy {policy_name}: number of rules exceeds uint8 max "
+                    "of 255")
+        for zone_name, info in self.zones_map.items():
+            if len(info['eras']) > 255:
+                raise Exception(
+                    f"Zone {zone_name}: number of eras exceeds uint8 max "
+                    "of 255")
+        if len(self.letters_map) > 255:
+            raise Exception("Number of letters exceeds uint8 max of 255")
+
     def _process_rules_from_to_at(self, policies_map: PoliciesMap) -> None:
         """Convert the FROM, TO, and AT fields of ZoneRuleRaw into values that
         are consumed by the ZonePolicy classes of the Arduino AceTime library.
-- 
2.43.0


From 1049a595315aa94b6555b598a829dd5eae605d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 27/31] fix: missing --db_namespace or buffer sizes were
 noticed after files were written

---
 src/acetimetools/tzcompiler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 5a219ec..d576f5e 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -428,6 +428,16 @@ def main() -> None:
         print(f'Invalid --languages: {languages - allowed_languages}')
         sys.exit(1)
 
+    # Validate the flags which are needed only by some of the languages, before
+    # the files of the other languages are written.
+    if 'zonedb' in actions:
+        if languages - {'python'} and not args.db_namespace:
+            print('Must provide --db_namespace for --languages arduino, c, go')
+            sys.exit(1)
+        if languages & {'arduino', 'c'} and args.skip_bufestimator:
+            print('Cannot use --skip_bufestimator for --languages arduino, c')
+            sys.exit(1)
+
     # Configure logging. This should normally be executed after the
     # parser.parse_args() because it allows us set the logging.level using a
     # flag.
-- 
2.43.0


From c5a0b42599d8b1e2931093cff0f876a446dbc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 28/31] fix: newlines and bytes that are not UTF-8 in the flags
 broke the generated files

---
 src/acetimetools/tzcompiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index d576f5e..234a267 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -443,8 +443,12 @@ def main() -> None:
     # flag.
     logging.basicConfig(level=logging.INFO)
 
-    # How the script was invoked
-    invocation = ' '.join(sys.argv)
+    # How the script was invoked. This is written into comments of the generated
+    # files, so escape newlines, and bytes which are not UTF-8.
+    invocation = ''.join(
+        c if c.isprintable() else c.encode('unicode_escape').decode()
+        for c in ' '.join(sys.argv)
+    )
 
     # Read the zone list filter file.
     include_list = read_include_list(args.include_list)
-- 
2.43.0


From cdd01d30f6201cb5d6e645afc5dafbf9808a3191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 29/31] fix: tz versions without a release number, like HEAD,
 were refused

---
 src/acetimetools/datatypes/attyping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/datatypes/attyping.py b/src/acetimetools/datatypes/attyping.py
index 8f38210..30d128d 100644
--- a/src/acetimetools/datatypes/attyping.py
+++ b/src/acetimetools/datatypes/attyping.py
@@ -4,6 +4,7 @@
 
 from collections import OrderedDict
 from dataclasses import dataclass
+import re
 from typing import Collection
 from typing import Dict
 from typing import List
@@ -561,8 +562,10 @@ def _sort_merged_comments(
 def _to_version_number(version: str) -> int:
     """Convert version string (e.g. '2020a') to an integer of the form YYNN
     (e.g. '2001'), where YY is (year - 2000) and NN is the patch number,
-    where 'a' is 01.
+    where 'a' is 01. Other versions, like the 'HEAD' of tzcompiler.sh, become 0.
     """
+    if not re.match(r'[0-9]{4}[a-z]', version):
+        return 0
     year = version[0:4]
     patch = version[4]
     return (int(year) - 2000) * 100 + (ord(patch) - ord('a') + 1)
-- 
2.43.0


From 379081d702d6d2969be1f6617dfe61f71631a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 30/31] fix: a --db_namespace or --tz_version that cannot be
 written was accepted

---
 src/acetimetools/tzcompiler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 234a267..8d53e42 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -120,6 +120,7 @@ Examples:
 
 import argparse
 import logging
+import re
 import sys
 from typing import Set
 from typing_extensions import Protocol
@@ -434,10 +435,20 @@ def main() -> None:
         if languages - {'python'} and not args.db_namespace:
             print('Must provide --db_namespace for --languages arduino, c, go')
             sys.exit(1)
+        if languages - {'python'} and not re.fullmatch(
+            '[a-zA-Z_][a-zA-Z0-9_]*', args.db_namespace
+        ):
+            print(f'Invalid --db_namespace: {args.db_namespace!r}')
+            sys.exit(1)
         if languages & {'arduino', 'c'} and args.skip_bufestimator:
             print('Cannot use --skip_bufestimator for --languages arduino, c')
             sys.exit(1)
 
+    # Validate the --tz_version flag, which is quoted in the generated files.
+    if not args.tz_version.isprintable() or set(args.tz_version) & set('\'"\\'):
+        print(f'Invalid --tz_version: {args.tz_version!r}')
+        sys.exit(1)
+
     # Configure logging. This should normally be executed after the
     # parser.parse_args() because it allows us set the logging.level using a
     # flag.
-- 
2.43.0


From f0b3c3015e24dc9fd6c717e26cf5a93dde7750d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:40 +0000
Subject: [PATCH 31/31] fix: an invalid or negative AT ended the run with a
 TypeError instead of removing its rules

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 9db8aec..5ea9ba9 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1193,13 +1193,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0

