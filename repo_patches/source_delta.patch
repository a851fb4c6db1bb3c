From b3f7b314154c04662a73899c6395f83a41231e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 01/84] fix: only treat comments, white space and index prefix
 lengths as such outside of quotes

Comment markers, runs of spaces and '(word(123)' inside of string values were
altered, and a '#' or '--' comment after a statement swallowed what followed.
---
 mygrations/core/parse/parser.py               |  6 +--
 mygrations/core/parse/text.py                 | 38 +++++++++++++++++++
 .../mysql/file_reader/create_parser.py        |  6 +--
 .../formats/mysql/file_reader/reader.py       |  3 +-
 4 files changed, 46 insertions(+), 7 deletions(-)
 create mode 100644 mygrations/core/parse/text.py

diff --git a/mygrations/core/parse/parser.py b/mygrations/core/parse/parser.py
index 8ebab47..6754e5b 100644
--- a/mygrations/core/parse/parser.py
+++ b/mygrations/core/parse/parser.py
@@ -1,4 +1,4 @@
-import re
+from .text import collapse_whitespace
 from .rule_children import RuleChildren
 from .rule_delimited import RuleDelimited
 from .rule_literal import RuleLiteral
@@ -66,8 +66,8 @@ class Parser:
     def parse(self, string=""):
 
         # first thing first, some initial string cleaning.  Clean spaces
-        # from start and end and replace any multi-spaces with a single space.
-        string = re.sub("\s+", " ", string).strip()
+        # from start and end and replace any multi-spaces (outside of quotes) with a single space.
+        string = collapse_whitespace(string)
         number_rules = len(self.rules)
         self._values = {}
 
diff --git a/mygrations/core/parse/text.py b/mygrations/core/parse/text.py
new file mode 100644
index 0000000..6161f0e
--- /dev/null
+++ b/mygrations/core/parse/text.py
@@ -0,0 +1,38 @@
+import re
+
+# A quoted piece of SQL: a string in single or double quotes or an identifier in backticks.
+# In strings a backslash escapes the next character.  A doubled quote simply ends one quoted
+# piece and starts the next, which makes no difference here.
+_QUOTED = r"""'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|`[^`]*`"""
+
+_SPACES = re.compile(_QUOTED + r"|\s+", re.DOTALL)
+_NEEDS_COLLAPSING = re.compile(r"\s\s|[^\S ]")
+
+
+def collapse_whitespace(string: str) -> str:
+    """Replaces any run of white space outside of quotes with a single space"""
+    if not _NEEDS_COLLAPSING.search(string):
+        return string.strip()
+    return _SPACES.sub(lambda match: " " if match.group(0).isspace() else match.group(0), string).strip()
+
+
+_COMMENTS = re.compile(_QUOTED + r"|--[^\n]*|\#[^\n]*|/\*.*?\*/", re.DOTALL)
+
+
+def strip_comments(string: str) -> str:
+    """Replaces comments (`-- ...`, `# ...` and `/* ... */`) with a space, unless they are inside of quotes"""
+    return _COMMENTS.sub(lambda match: match.group(0) if match.group(0)[0] in "'\"`" else " ", string)
+
+
+def sub_unquoted(pattern: str, replacement: str, string: str) -> str:
+    """Like `re.sub`, but ignores anything inside of single or double quotes
+
+    The replacement can refer to groups by name only.
+    """
+    skip = r"""(?P<quoted>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")|"""
+    return re.sub(
+        skip + "(?:" + pattern + ")",
+        lambda match: match.group(0) if match.group("quoted") else match.expand(replacement),
+        string,
+        flags=re.DOTALL,
+    )
diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 47d578c..0aece3f 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -1,7 +1,7 @@
-import re
 from collections import OrderedDict
 
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.text import strip_comments, sub_unquoted
 from mygrations.formats.mysql.definitions.constraint import Constraint
 from mygrations.formats.mysql.definitions.index import Index
 from mygrations.formats.mysql.definitions.table import Table
@@ -70,13 +70,13 @@ class CreateParser(Table, Parser):
         # parser.py:68 does re.sub('\s+', ' ', string) which turns newlines into
         # spaces, so '-- comment\ncolumn' becomes '-- comment column' and the
         # comment eats the next line. Stripping here prevents that.
-        string = re.sub(r"--[^\n]*", "", string)
+        string = strip_comments(string)
         # Strip index prefix-lengths like full_path(255) → full_path.
         # The delimited parser splits column lists on ')' which conflicts with
         # the inner ')' of prefix-lengths. We match word(digits) preceded by
         # '(' or ',' (index column-list context) which avoids type lengths like
         # INT(11) or VARCHAR(255) that are preceded by the type keyword.
-        string = re.sub(r"(\(|\,)(\s*`?\w+`?)\(\d+\)", r"\1\2", string)
+        string = sub_unquoted(r"(?P<column>[(,]\s*`?\w+`?)\(\d+\)", r"\g<column>", string)
         return super().parse(string)
 
     def process(self):
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 92d8291..91b2949 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -1,4 +1,5 @@
 import io, os
+from mygrations.core.parse.text import strip_comments
 from .comment_parser import CommentParser
 from .create_parser import CreateParser
 from .insert_parser import InsertParser
@@ -152,7 +153,7 @@ class Reader:
 
     def parse(self, filename):
 
-        data = self._unpack(filename)
+        data = strip_comments(self._unpack(filename))
 
         # okay then!  This is our main parsing loop.
         c = 0
-- 
2.43.0


From 89b3d29ddf77d45bca0d0d923757173f6043f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 02/84] fix: read quotes, escapes and NULL in row values the
 way MySQL does

\' ended in a syntax error, '' was read as two values, 'NULL' became NULL,
null became the text, and double quotes ended up as part of the value.
---
 mygrations/core/parse/rule_delimited.py       | 36 ++++++++++++++++---
 mygrations/core/parse/text.py                 |  4 +++
 .../mysql/file_reader/insert_parser.py        |  1 +
 .../file_reader/parsers/insert_values.py      | 21 ++++++++---
 4 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 71888d0..198c87b 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -1,4 +1,5 @@
 from .rule_base import RuleBase
+from .text import QuotedString
 class RuleDelimited(RuleBase):
     """ rule = rule_delimited( parser, rule, next_rule )
 
@@ -81,23 +82,48 @@ class RuleDelimited(RuleBase):
         has_word = False
         vals = []
         current = ''
-        in_quote = False
+        in_quote = ''
+        escaped = False
+
+        # SQL strings can use single or double quotes, and can contain escaped characters
+        is_string = self.quote == "'"
+        quotes = "'\"" if is_string else self.quote
         for (index, char) in enumerate(string):
 
+            # the second character of an escape sequence.  Only quotes and backslashes need unescaping
+            if escaped:
+                current += char if char in "\\'\"" else '\\' + char
+                escaped = False
+                continue
+
+            if in_quote and is_string:
+                if char == '\\':
+                    escaped = True
+                    continue
+
+                # a doubled quote is a quote inside of the string: treat the first like a backslash
+                if char == in_quote and string[index + 1:index + 2] == in_quote:
+                    escaped = True
+                    continue
+
             # if we hit a quote then we need to start/finish a word
-            if self.quote and char == self.quote:
+            if (char == in_quote) if in_quote else (char in quotes):
 
                 # open word
                 if not in_quote:
-                    in_quote = True
+                    # things like b'101' are not just strings
+                    if has_word:
+                        raise SyntaxError("Unexpected quote after '%s' at %s" % (current, string))
+                    in_quote = char
                     has_word = True
                     current = ''
 
                 # close word
                 else:
-                    vals.append(current)
+                    vals.append(QuotedString(current))
+                    current = ''
                     has_word = False
-                    in_quote = False
+                    in_quote = ''
 
                 continue
 
diff --git a/mygrations/core/parse/text.py b/mygrations/core/parse/text.py
index 6161f0e..568e04b 100644
--- a/mygrations/core/parse/text.py
+++ b/mygrations/core/parse/text.py
@@ -36,3 +36,7 @@ def sub_unquoted(pattern: str, replacement: str, string: str) -> str:
         string,
         flags=re.DOTALL,
     )
+
+
+class QuotedString(str):
+    """A value which was given inside of quotes, unlike e.g. a number or NULL"""
diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index 1f407fa..3c865d1 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -49,6 +49,7 @@ class InsertParser(Parser, Rows):
 
         had_comma = True
         for row in self._values['inserts']:
+            self._parsing_errors.extend(row.parsing_errors)
 
             if not had_comma:
                 self._parsing_warnings.append('Missing comma between insert value groups')
diff --git a/mygrations/formats/mysql/file_reader/parsers/insert_values.py b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
index 4aed6f1..d6a6b45 100644
--- a/mygrations/formats/mysql/file_reader/parsers/insert_values.py
+++ b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
@@ -1,7 +1,11 @@
+import re
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.text import QuotedString
 
 
 class InsertValues(Parser):
+    _number = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", re.IGNORECASE)
+
     has_comma = False
     values = []
 
@@ -14,7 +18,16 @@ class InsertValues(Parser):
 
     def process(self):
 
-        self.values = [
-            str(val).replace("\\\\", "\\").replace("\\'", "'") if val != "NULL" else None
-            for val in self._values["values"]
-        ]
+        self._parsing_errors = []
+        self.values = [self._value(val) for val in self._values["values"]]
+
+    def _value(self, val):
+        if isinstance(val, QuotedString):
+            return str(val)
+        if val.upper() == "NULL":
+            return None
+        if val.upper() in ("TRUE", "FALSE"):
+            return "1" if val.upper() == "TRUE" else "0"
+        if not self._number.fullmatch(val):
+            self._parsing_errors.append("Unsupported insert value: %s" % val)
+        return val
-- 
2.43.0


From 006d07803b21c043cbc14e8ffd0ce4b048036e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 03/84] fix: report everything in *.sql files that can not be
 parsed as an error

Statements which did not match ended up in an endless retry, whose exception was
only printed: the rest of the file was silently ignored.
---
 .../formats/mysql/file_reader/database.py     |  6 ++---
 .../formats/mysql/file_reader/reader.py       | 22 +++++++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 58fa0ed..595a2f3 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -78,12 +78,12 @@ class Database(BaseDatabase):
         :type contents: string
         """
 
+        reader = Reader()
         try:
-            reader = Reader()
             reader.parse(contents)
 
-        except ValueError as e:
-            print("Error in file %s: %s" % (contents, e))
+        except (ValueError, SyntaxError) as e:
+            self._global_errors.append("Error in file %s: %s" % (contents, e))
 
         # keep rows and tables separate while we are reading
         for (table_name, table) in reader.tables.items():
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 91b2949..839690f 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -164,31 +164,45 @@ class Reader:
 
             # never hurts
             data = data.strip()
+            if not data:
+                break
 
             # now we are looking for one of three things:
             # comment, create, insert
             if data[:2] == '--' or data[:2] == '/*' or data[0] == '#':
                 parser = CommentParser()
                 data = parser.parse(data)
+                if not parser.matched:
+                    return self._give_up(data)
 
             elif data[:6].lower() == 'create':
                 parser = CreateParser()
+                unparsed = data
                 data = parser.parse(data)
+                if not parser.matched:
+                    return self._give_up(unparsed)
                 self._tables[parser.name] = parser
 
             elif data[:6].lower() == 'insert':
                 parser = InsertParser()
+                unparsed = data
                 data = parser.parse(data)
+                if not parser.matched:
+                    return self._give_up(unparsed)
                 if not parser.table in self._rows:
                     self._rows[parser.table] = []
 
                 self._rows[parser.table].append(parser)
 
             else:
-                if self._global_errors is None:
-                    self._global_errors = []
-                self._global_errors.append("Unrecognized MySQL command: %s%s" % (data, self._filename_notice()))
-                return data
+                return self._give_up(data)
 
         self._matched = True
         return data
+
+    """ Records that (the beginning of) the remaining data is not something we understand
+    """
+
+    def _give_up(self, data):
+        self._global_errors.append("Unrecognized MySQL command: %s%s" % (data, self._filename_notice()))
+        return data
-- 
2.43.0


From 6985c0e23c0ec363adc21873bf6bbc4d62e419f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 04/84] fix: report tables which are defined twice

The error was added to a list which was thrown away (and which cached the errors
found up to that point), and was missing altogether inside of one file.
---
 mygrations/formats/mysql/file_reader/database.py | 2 +-
 mygrations/formats/mysql/file_reader/reader.py   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 595a2f3..65d033d 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -88,7 +88,7 @@ class Database(BaseDatabase):
         # keep rows and tables separate while we are reading
         for (table_name, table) in reader.tables.items():
             if table.name in self._tables:
-                self.errors.append('Found two definitions for table %s' % table.name)
+                self._global_errors.append('Found two definitions for table %s' % table.name)
             self._tables[table.name] = table
 
         self._global_errors.extend(reader._global_errors)
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 839690f..f98914f 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -181,6 +181,10 @@ class Reader:
                 data = parser.parse(data)
                 if not parser.matched:
                     return self._give_up(unparsed)
+                if parser.name in self._tables:
+                    self._global_errors.append(
+                        "Found two definitions for table %s%s" % (parser.name, self._filename_notice())
+                    )
                 self._tables[parser.name] = parser
 
             elif data[:6].lower() == 'insert':
-- 
2.43.0


From 6b7c12a035c1512291aa879a2dcb423fa49f61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 05/84] fix: report rows for a table which does not exist
 instead of failing with a KeyError

---
 mygrations/core/definitions/database.py          | 6 ++++--
 mygrations/formats/mysql/file_reader/database.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 32aee1b..7893a3b 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -99,8 +99,10 @@ class Database:
                         f"Insert error: found an insert for table '{table_name}' but this table does not exist"
                     )
 
-                elif row.num_explicit_columns:
-                    table = self.tables[table_name]
+                    continue
+
+                table = self.tables[table_name]
+                if row.num_explicit_columns:
                     for column_name in row.columns:
                         if column_name not in table.columns:
                             errors.append(
diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 65d033d..b5e6089 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -103,8 +103,9 @@ class Database(BaseDatabase):
     def _combine_tables_and_rows(self):
         for (table_name, rows_list) in self._rows.items():
             if table_name not in self._tables:
-                self._global_errors.extend(
+                self._global_errors.append(
                     f"Found rows for table {table_name}, but this table does not exist in the database"
                 )
+                continue
             for rows in rows_list:
                 self._tables[table_name].add_rows(rows)
-- 
2.43.0


From 0d702c1f876b8a700e8d9e5fb1edf3ad887f77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 06/84] fix: report duplicate columns, keys, constraints and
 row ids and missing semicolons

These errors were collected by the tables, but never made it to the database.
---
 mygrations/formats/mysql/file_reader/database.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index b5e6089..ed5247f 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -34,6 +34,16 @@ class Database(BaseDatabase):
 
         self._combine_tables_and_rows()
 
+    @property
+    def errors(self):
+        """ Public getter.  Returns a list of errors, including those about table definitions as a whole
+
+        :returns: A list of errors
+        :rtype: list
+        """
+        table_errors = [error for table in self.tables.values() for error in table.global_errors]
+        return [*table_errors, *super().errors]
+
     def process(self, string):
         """ Processes a string.
 
-- 
2.43.0


From 8e8bb9b67bad6be95e517a78881abbc52a8f37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 07/84] fix: keep, compare and quote the values of ENUM and SET
 columns

---
 mygrations/core/definitions/columns/column.py       |  9 +++++++--
 mygrations/core/definitions/columns/enum.py         | 13 +++++++------
 .../formats/mysql/file_reader/parsers/type.py       |  2 +-
 .../formats/mysql/file_reader/parsers/type_enum.py  |  2 +-
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 95a6c4e..a5281d3 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -211,7 +211,7 @@ class Column(Base):
 
         type_string = self.column_type
         if self.enum_values:
-            type_string += "('%s')" % ("', '".join(self.enum_values))
+            type_string += "(%s)" % ", ".join(self._quote(value) for value in self.enum_values)
         elif self.length is not None and self.length != "":
             type_string += "(%s)" % self.length
         parts.append(type_string)
@@ -228,13 +228,18 @@ class Column(Base):
             elif type(self.default) != str or self.default.isnumeric():
                 parts.append("DEFAULT %s" % self.default)
             else:
-                parts.append("DEFAULT '%s'" % self.default)
+                parts.append("DEFAULT %s" % self._quote(self.default))
 
         if self.auto_increment:
             parts.append("AUTO_INCREMENT")
 
         return " ".join(parts)
 
+    @staticmethod
+    def _quote(value: str) -> str:
+        """Returns the SQL string literal for the given value"""
+        return "'%s'" % value.replace("\\", "\\\\").replace("'", "\\'")
+
     def is_really_the_same_as(self, column: Column) -> bool:
         """Takes care of a pesky false-positive when checking columns
 
diff --git a/mygrations/core/definitions/columns/enum.py b/mygrations/core/definitions/columns/enum.py
index abc049f..f59d3bc 100644
--- a/mygrations/core/definitions/columns/enum.py
+++ b/mygrations/core/definitions/columns/enum.py
@@ -46,13 +46,14 @@ class Enum(String):
         if not self.enum_values or type(self.enum_values) != list:
             self._schema_errors.append(f"column '{self.name}' of type '{self.column_type}' must have a list of values")
 
-        if self.default and self.default not in self.enum_values:
+        # the default of a SET column is a (possibly empty) list of values
+        defaults = [] if self.default is None else [self.default]
+        if self.column_type == 'SET' and defaults:
+            defaults = self.default.split(',') if self.default else []
+        if set(defaults) - set(self.enum_values or []):
             self._schema_errors.append(
                 f"Default value for '{self.column_type}' column '{self.name}' is not in the list of allowed values"
             )
 
-        if self.auto_increment and self.column_type in no_auto_increment:
-            self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
-
-        if self.unsigned:
-            self._schema_errors.append("Column %s cannot be unsigned" % self._name)
+    def is_really_the_same_as(self, column) -> bool:
+        return self.enum_values == column.enum_values and super().is_really_the_same_as(column)
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c66554b..c028ba1 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -110,7 +110,7 @@ class Type:
             character_set=getattr(self, "_character_set", None),
             collate=getattr(self, "_collate", None),
             auto_increment=getattr(self, "_auto_increment", None),
-            enum_values=getattr(self, "enum_values", None),
+            enum_values=getattr(self, "_enum_values", None),
             parsing_errors=getattr(self, "_parsing_errors", None),
             parsing_warnings=getattr(self, "_parsing_warnings", None),
         )
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index ec86893..f25efe4 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -28,7 +28,7 @@ class TypeEnum(Parser, Type):
         self._name = self._extract_name()
         self._column_type = self._values["type"]
         self._enum_values = self._values["enum_values"]
-        self._length = self._enum_values
+        self._length = ""
         self._null = self._extract_null()
         self._has_default = "default" in self._values
         self._default = self._values.get("default")
-- 
2.43.0


From e236ea43a458dc222ace26efd600e6009644106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 08/84] fix: check date columns without failing on undefined
 names

---
 mygrations/core/definitions/columns/date.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 720ee2f..1b44776 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -52,10 +52,10 @@ class Date(Column):
         if self.collate is not None:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a collate")
 
-        if self.auto_increment and self.column_type in no_auto_increment:
+        if self.auto_increment:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
 
-        if self.values:
+        if self.enum_values:
             self._schema_errors.append(
                 "Column '%s' of type %s is not allowed to have a list of values for its length" %
                 (self.name, self.column_type)
-- 
2.43.0


From eea842150a8f7d3a1d29360033decba3c3b5d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 09/84] fix: read quoted default values with any content

---
 mygrations/core/parse/text.py                  | 14 ++++++++++++++
 .../formats/mysql/file_reader/parsers/type.py  | 18 +++++++++++++++---
 .../file_reader/parsers/type_character.py      |  6 +++---
 .../mysql/file_reader/parsers/type_datetime.py |  7 +++----
 .../mysql/file_reader/parsers/type_decimal.py  |  6 +++---
 .../mysql/file_reader/parsers/type_enum.py     |  6 +++---
 .../mysql/file_reader/parsers/type_numeric.py  |  6 +++---
 .../mysql/file_reader/parsers/type_plain.py    | 13 ++++++++-----
 .../mysql/file_reader/parsers/type_text.py     |  6 +++---
 9 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/mygrations/core/parse/text.py b/mygrations/core/parse/text.py
index 568e04b..0ea373e 100644
--- a/mygrations/core/parse/text.py
+++ b/mygrations/core/parse/text.py
@@ -40,3 +40,17 @@ def sub_unquoted(pattern: str, replacement: str, string: str) -> str:
 
 class QuotedString(str):
     """A value which was given inside of quotes, unlike e.g. a number or NULL"""
+
+
+_STRING = re.compile(r"""'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*\"""", re.DOTALL)
+
+
+def is_quoted(string: str) -> bool:
+    """Whether or not the text is one complete SQL string literal"""
+    return bool(string) and bool(_STRING.fullmatch(string))
+
+
+def unquote(string: str) -> str:
+    """Returns the value of an SQL string literal"""
+    quote = string[0]
+    return re.sub(r"\\([\\'\"])|" + quote + quote, lambda match: match.group(1) or quote, string[1:-1])
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c028ba1..4bb8219 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -1,17 +1,29 @@
 from mygrations.formats.mysql.definitions import columns
 from mygrations.core.definitions.columns.column import Column
+from mygrations.core.parse.text import is_quoted, unquote
 
 
 class Type:
+    # the value of a default: a string, a call to get the current time, or a single word
+    DEFAULT = (
+        r"""DEFAULT ('(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|"""
+        r"""(?:CURRENT_TIMESTAMP|NOW|LOCALTIMESTAMP|LOCALTIME)\(\)|[^\(\s\),'"]+)"""
+    )
+
+    @staticmethod
+    def _is_quoted(value):
+        """Return True if *value* is a complete string in quotes."""
+        return is_quoted(value)
+
     @staticmethod
     def _unquote(value):
-        """Strip surrounding single quotes from *value* if present.
+        """Strip surrounding quotes from *value* if present.
 
         Returns the stripped string, or the original value unchanged if
         it is not quoted.
         """
-        if value and len(value) >= 2 and value[0] == "'" and value[-1] == "'":
-            return value.strip("'")
+        if is_quoted(value):
+            return unquote(value)
         return value
 
     def _init_errors(self):
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index e60381f..dcc49ca 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -37,7 +37,7 @@ class TypeCharacter(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -57,8 +57,8 @@ class TypeCharacter(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index c70ece5..45f50e6 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -34,8 +34,7 @@ class TypeDateTime(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT '([^']+)'", "optional": True, "name": "default"},
-        {"type": "regexp", "value": 'DEFAULT "([^"]+)"', "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -54,8 +53,8 @@ class TypeDateTime(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 0a095a1..806f016 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -19,7 +19,7 @@ class TypeDecimal(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
@@ -36,8 +36,8 @@ class TypeDecimal(Parser, Type):
         self._default = self._values.get("default")
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
             self._parsing_warnings.append(
                 "Column '%s' has a numeric type but its default value is a string" % self._name
             )
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index f25efe4..88503f2 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -16,7 +16,7 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
@@ -36,8 +36,8 @@ class TypeEnum(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index e4afca8..7fa2514 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -29,7 +29,7 @@ class TypeNumeric(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "name": "default", "optional": True},
+        {"type": "regexp", "value": Type.DEFAULT, "name": "default", "optional": True},
         {"type": "literal", "value": "AUTO_INCREMENT", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
@@ -48,8 +48,8 @@ class TypeNumeric(Parser, Type):
         self.is_char = self._column_type in ["char", "varchar"]
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index b40e14a..28a0212 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -21,7 +21,7 @@ class TypePlain(Parser, Type):
         {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {
             "type": "regexp",
-            "value": "DEFAULT ([^\(\s\),]+)",
+            "value": Type.DEFAULT,
             "optional": True,
             "name": "default",
         },
@@ -41,7 +41,7 @@ class TypePlain(Parser, Type):
         self._column_type = self._normalize_type(self._values["type"])
         self._unsigned = "UNSIGNED" in self._values
         self._has_default = "default" in self._values
-        self._default = self._unquote(self._values.get("default"))
+        self._default = self._values.get("default")
         self._auto_increment = "AUTO_INCREMENT" in self._values
         self._is_primary_key = "PRIMARY KEY" in self._values
 
@@ -56,6 +56,12 @@ class TypePlain(Parser, Type):
         else:
             self._null = True
 
+        # make sense of the default
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
+        elif self._default and self._default.lower() == "null":
+            self._default = None
+
         if self._column_type.upper() in ("BOOLEAN", "BOOL"):
             self._column_type = "TINYINT"
             self._length = "1"
@@ -64,6 +70,3 @@ class TypePlain(Parser, Type):
             elif self._default is not None and self._default.upper() == "TRUE":
                 self._default = "1"
 
-        # make sense of the default
-        if self._default and self._default.lower() == "null":
-            self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index 1f44ae4..707aa5c 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -29,7 +29,7 @@ class TypeText(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -49,8 +49,8 @@ class TypeText(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # slightly more work on the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
-- 
2.43.0


From dc89fe908d5c73db1c05f50970e35e989156ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 10/84] fix: understand BIT columns without a default or with a
 length

---
 mygrations/core/definitions/columns/numeric.py        |  5 +++--
 mygrations/formats/mysql/file_reader/parsers/type.py  | 11 +++++++++--
 .../formats/mysql/file_reader/parsers/type_numeric.py |  2 +-
 .../formats/mysql/file_reader/parsers/type_plain.py   |  2 +-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index a59ddfa..70feef3 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -55,7 +55,7 @@ class Numeric(Column):
         super()._check_for_schema_errors_and_warnings()
 
         allow_float = ["DECIMAL", "NUMERIC", "FLOAT", "DOUBLE"]
-        no_length = ["FLOAT", "DOUBLE", "BIT"]
+        no_length = ["FLOAT", "DOUBLE"]
         no_auto_increment = ["FLOAT", "DOUBLE", "BIT"]
 
         # I should probably have the parser auto-convert the type based on quotes/whatever, but
@@ -86,7 +86,8 @@ class Numeric(Column):
                 self._schema_errors.append(
                     f"Column '{self.name}' of type '{self.column_type}' must have an integer value as a default"
                 )
-            if self.column_type == "BIT" and int(self.default) != 0 and int(self.default) != 1:
+            is_flag = self.column_type == "BIT" and (not self.length or int(self.length) == 1)
+            if is_flag and self.default is not None and float(self.default) not in (0, 1):
                 self._schema_errors.append(f"Column '{self.name}' of type 'BIT' must have a default of 1 or 0")
 
         if self.length:
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 4bb8219..a43f2c8 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -4,12 +4,19 @@ from mygrations.core.parse.text import is_quoted, unquote
 
 
 class Type:
-    # the value of a default: a string, a call to get the current time, or a single word
+    # the value of a default: a bit literal, a string, a call to get the current time, or a single word
     DEFAULT = (
-        r"""DEFAULT ('(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|"""
+        r"""DEFAULT (b'[01]+'|'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|"""
         r"""(?:CURRENT_TIMESTAMP|NOW|LOCALTIMESTAMP|LOCALTIME)\(\)|[^\(\s\),'"]+)"""
     )
 
+    @staticmethod
+    def _clean_bit(value):
+        """Turn bit literals into numbers: MySQL always gives the default of BIT columns as `b'1'`"""
+        if value and value[0] in "bB" and value[-1] == "'":
+            return str(int(value[2:-1], 2))
+        return value
+
     @staticmethod
     def _is_quoted(value):
         """Return True if *value* is a complete string in quotes."""
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index 7fa2514..af25c21 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -43,7 +43,7 @@ class TypeNumeric(Parser, Type):
         self._unsigned = "UNSIGNED" in self._values
         self._null = self._extract_null()
         self._has_default = "default" in self._values
-        self._default = self._values.get("default")
+        self._default = self._clean_bit(self._values.get("default"))
         self._auto_increment = "AUTO_INCREMENT" in self._values
         self.is_char = self._column_type in ["char", "varchar"]
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index 28a0212..d0a9553 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -41,7 +41,7 @@ class TypePlain(Parser, Type):
         self._column_type = self._normalize_type(self._values["type"])
         self._unsigned = "UNSIGNED" in self._values
         self._has_default = "default" in self._values
-        self._default = self._values.get("default")
+        self._default = self._clean_bit(self._values.get("default"))
         self._auto_increment = "AUTO_INCREMENT" in self._values
         self._is_primary_key = "PRIMARY KEY" in self._values
 
-- 
2.43.0


From 4d144fb6fb1e35d99bdf2e2c92db69d22b8aded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 11/84] fix: compare columns without a length with the length
 MySQL gives them

---
 mygrations/core/definitions/columns/column.py | 13 ++++++++++++-
 mygrations/core/definitions/columns/date.py   |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index a5281d3..67f5ee7 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -247,9 +247,11 @@ class Column(Base):
         :returns: True if the column really is the same, even for apparent differences
         """
         # if any of these attributes change then it really isn't the same
-        for attr in ["name", "length", "null", "column_type"]:
+        for attr in ["name", "null", "column_type"]:
             if getattr(self, attr) != getattr(column, attr):
                 return False
+        if self._effective_length() != column._effective_length():
+            return False
 
         # unsigned needs a looser comparison: None (not applicable) and False (not unsigned)
         # are functionally equivalent.  Different parsers may produce different falsy values
@@ -268,6 +270,15 @@ class Column(Base):
         # (see tests.formats.mysql.definitions.test_table_text_false_positives)
         return True
 
+    # the length that MySQL uses (and prints) for columns without a length
+    _default_lengths = {"BIT": "1", "BINARY": "1", "CHAR": "1", "DECIMAL": "10,0", "YEAR": "4"}
+
+    def _effective_length(self) -> str:
+        length = "" if self.length is None else str(self.length)
+        if self.column_type == "DECIMAL" and length and "," not in length:
+            length += ",0"
+        return length or self._default_lengths.get(self.column_type, "")
+
     def _default_none_mismatch(self, column: Column) -> bool:
         if self.default is not None and column.default is None:
             return True
diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 1b44776..799d48b 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -44,7 +44,7 @@ class Date(Column):
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-        if self.length:
+        if self.length and self.column_type != 'YEAR':
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a length")
 
         if self.character_set is not None:
-- 
2.43.0


From 122a145d5ab85f85754d25e4eba96f82b3ea3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 12/84] fix: notice when AUTO_INCREMENT is added to or removed
 from a column

---
 mygrations/core/definitions/columns/numeric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 70feef3..05b3fe5 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -124,6 +124,8 @@ class Numeric(Column):
     ]
 
     def is_really_the_same_as(self, column: Column) -> bool:
+        if bool(self.auto_increment) != bool(column.auto_increment):
+            return False
         if self.column_type in self._integer_types_with_deprecated_width:
             for attr in ["name", "null", "column_type"]:
                 if getattr(self, attr) != getattr(column, attr):
-- 
2.43.0


From a55c70e008b0eff2289f3e861ec9692399926265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 13/84] fix: compare numeric defaults exactly and round them
 like MySQL

---
 mygrations/core/definitions/columns/numeric.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 05b3fe5..dd2a690 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -1,3 +1,4 @@
+from decimal import Context, Decimal, InvalidOperation, ROUND_HALF_UP
 from .column import Column
 from typing import List, Union
 
@@ -144,17 +145,18 @@ class Numeric(Column):
             return True
         if self.default is None or column.default is None:
             return False
+        try:
+            mine = Decimal(str(self.default))
+            theirs = Decimal(str(column.default))
+        except InvalidOperation:
+            return self.default == column.default
         if self.column_type != "DECIMAL":
-            return float(self.default) == float(column.default)
+            return mine == theirs
 
         # Default equality is mildly tricky for decimals because 0 and 0.000 are the same,
         # and if there are 4 digits after the decimal than 0.0000 and 0.00001 are the same too
         # This will come up if someone sets a default in an SQL file with too many (or too few) decimals,
         # while MySQL will report it properly rounded to the exact number of decimal places
-        split = self.length.split(",")
-        if len(split) == 2:
-            ndecimals = int(split[1])
-            if round(float(self.default), ndecimals) == round(float(column.default), ndecimals):
-                return True
-
-        return self.default == column.default
+        precision = Decimal(1).scaleb(-int(self._effective_length().split(",")[1]))
+        context = Context(prec=100, rounding=ROUND_HALF_UP)
+        return mine.quantize(precision, context=context) == theirs.quantize(precision, context=context)
-- 
2.43.0


From 7890cfafa06c69c0866e89a39fce0949bd46ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 14/84] fix: quote defaults of text columns which look like
 numbers

---
 mygrations/core/definitions/columns/column.py | 13 +++++++------
 mygrations/core/definitions/columns/string.py |  4 ++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 67f5ee7..0e9e7d1 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -223,18 +223,19 @@ class Column(Base):
             parts.append("NOT NULL")
 
         if self.default is not None:
-            if self.default == "":
-                parts.append("DEFAULT ''")
-            elif type(self.default) != str or self.default.isnumeric():
-                parts.append("DEFAULT %s" % self.default)
-            else:
-                parts.append("DEFAULT %s" % self._quote(self.default))
+            parts.append("DEFAULT %s" % self._default_as_sql())
 
         if self.auto_increment:
             parts.append("AUTO_INCREMENT")
 
         return " ".join(parts)
 
+    def _default_as_sql(self) -> str:
+        """Returns the default value in the form of an SQL expression"""
+        if type(self.default) != str or self.default.isdecimal():
+            return str(self.default)
+        return self._quote(self.default)
+
     @staticmethod
     def _quote(value: str) -> str:
         """Returns the SQL string literal for the given value"""
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index 0ff74d1..9c2e994 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -93,6 +93,10 @@ class String(Column):
 
         return as_string
 
+    def _default_as_sql(self) -> str:
+        # numbers have to be in quotes as well: without quotes 007 would end up as 7
+        return self._quote(str(self.default))
+
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-- 
2.43.0


From 05eb449f7f33c96f296ef79b698768d190108872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 15/84] fix: do not quote a default of CURRENT_TIMESTAMP

---
 mygrations/core/definitions/columns/date.py                | 6 ++++++
 mygrations/formats/mysql/file_reader/parsers/type.py       | 1 +
 mygrations/formats/mysql/file_reader/parsers/type_plain.py | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 799d48b..07edcb9 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -41,6 +41,12 @@ class Date(Column):
             parsing_warnings=parsing_warnings,
         )
 
+    def _default_as_sql(self) -> str:
+        # this is the one default which is not a value
+        if self.default == 'CURRENT_TIMESTAMP':
+            return self.default
+        return super()._default_as_sql()
+
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index a43f2c8..c4eb970 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -9,6 +9,7 @@ class Type:
         r"""DEFAULT (b'[01]+'|'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|"""
         r"""(?:CURRENT_TIMESTAMP|NOW|LOCALTIMESTAMP|LOCALTIME)\(\)|[^\(\s\),'"]+)"""
     )
+    CURRENT_TIME = ["current_timestamp", "now", "localtimestamp", "localtime"]
 
     @staticmethod
     def _clean_bit(value):
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index d0a9553..249bcf4 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -61,6 +61,10 @@ class TypePlain(Parser, Type):
             self._default = self._unquote(self._default)
         elif self._default and self._default.lower() == "null":
             self._default = None
+        elif self._default and self._column_type.upper() in ("DATETIME", "TIMESTAMP"):
+            # all of these are the same thing to MySQL
+            if self._default.lower().replace("()", "") in self.CURRENT_TIME:
+                self._default = "CURRENT_TIMESTAMP"
 
         if self._column_type.upper() in ("BOOLEAN", "BOOL"):
             self._column_type = "TINYINT"
-- 
2.43.0


From 313cb240b309f712ef2eae5b89c24ab3806cb0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 16/84] fix: treat the columns of the primary key as NOT NULL
 like MySQL does

---
 mygrations/formats/mysql/file_reader/create_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 0aece3f..e9ea3ef 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -135,5 +135,12 @@ class CreateParser(Table, Parser):
             else:
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
 
+        # the columns of the primary key can not be null, whether or not they say so
+        for index in self._indexes.values():
+            if index.index_type == "PRIMARY":
+                for column_name in index.columns:
+                    if column_name in self._columns:
+                        self._columns[column_name]._null = False
+
         if not self.semicolon:
             self._global_errors.append("Missing ending semicolon for table %s" % self._name)
-- 
2.43.0


From 2df24903e9e731b4ab7b65d60831f3b01a8fcfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 17/84] fix: keep the primary key apart from an index named
 like its first column

---
 mygrations/core/definitions/index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/index.py b/mygrations/core/definitions/index.py
index e647b73..fa65f87 100644
--- a/mygrations/core/definitions/index.py
+++ b/mygrations/core/definitions/index.py
@@ -43,9 +43,12 @@ class Index:
 
         :returns: The index name
         """
-        # if we don't have a name then assume it's name matches the name of our first column
         if self._name:
             return self._name
+        # primary keys have no name, but MySQL calls them PRIMARY (and does not allow that name for anything else)
+        if self.is_primary():
+            return "PRIMARY"
+        # if we don't have a name then assume it's name matches the name of our first column
         if len(self._columns) > 0:
             return self._columns[0] if type(self._columns[0]) == str else self._columns[0].name
         return ""
-- 
2.43.0


From e56d7ce5b1952f1d3373170b415d801621b6fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 18/84] fix: drop a changed primary key with valid SQL

---
 mygrations/core/operations/change_index.py                   | 2 ++
 mygrations/formats/mysql/mygrations/operations/change_key.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mygrations/core/operations/change_index.py b/mygrations/core/operations/change_index.py
index df6b709..e409b58 100644
--- a/mygrations/core/operations/change_index.py
+++ b/mygrations/core/operations/change_index.py
@@ -10,4 +10,6 @@ class ChangeIndex:
         table.change_index(self.index)
 
     def __str__(self):
+        if self.index.index_type == 'PRIMARY':
+            return 'DROP PRIMARY KEY, ADD %s' % str(self.index)
         return 'DROP KEY `%s`, ADD %s' % (self.index.name, str(self.index))
diff --git a/mygrations/formats/mysql/mygrations/operations/change_key.py b/mygrations/formats/mysql/mygrations/operations/change_key.py
index c4647a7..52b3256 100644
--- a/mygrations/formats/mysql/mygrations/operations/change_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/change_key.py
@@ -12,4 +12,6 @@ class ChangeKey:
         table.change_key(self.key)
 
     def __str__(self):
+        if self.key.index_type == 'PRIMARY':
+            return 'DROP PRIMARY KEY, ADD %s' % str(self.key)
         return 'DROP KEY `%s`, ADD %s' % (self.key.name, str(self.key))
-- 
2.43.0


From 5b0d4667e395b475ce5721c38004939c57ab555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 19/84] fix: apply index and remove operations to tables

---
 mygrations/core/operations/remove_column.py                  | 2 +-
 mygrations/formats/mysql/mygrations/operations/add_key.py    | 2 +-
 mygrations/formats/mysql/mygrations/operations/change_key.py | 2 +-
 mygrations/formats/mysql/mygrations/operations/remove_key.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/operations/remove_column.py b/mygrations/core/operations/remove_column.py
index 03172d2..bc50a66 100644
--- a/mygrations/core/operations/remove_column.py
+++ b/mygrations/core/operations/remove_column.py
@@ -7,7 +7,7 @@ class RemoveColumn:
 
     def apply_to_table(self, table: Table):
         """ Removes the column from the table """
-        table.remove_column(self.column)
+        table.remove_column(self._column)
 
     def __str__(self):
         return 'DROP `%s`' % self._column.name
diff --git a/mygrations/formats/mysql/mygrations/operations/add_key.py b/mygrations/formats/mysql/mygrations/operations/add_key.py
index 7b9cb21..74cd843 100644
--- a/mygrations/formats/mysql/mygrations/operations/add_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/add_key.py
@@ -9,7 +9,7 @@ class AddKey:
         :param table: The table to add the key to
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.add_key(self.key)
+        table.add_index(self.key)
 
     def __str__(self):
         return 'ADD %s' % str(self.key)
diff --git a/mygrations/formats/mysql/mygrations/operations/change_key.py b/mygrations/formats/mysql/mygrations/operations/change_key.py
index 52b3256..0ac0381 100644
--- a/mygrations/formats/mysql/mygrations/operations/change_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/change_key.py
@@ -9,7 +9,7 @@ class ChangeKey:
         :param table: The table to change the key on
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.change_key(self.key)
+        table.change_index(self.key)
 
     def __str__(self):
         if self.key.index_type == 'PRIMARY':
diff --git a/mygrations/formats/mysql/mygrations/operations/remove_key.py b/mygrations/formats/mysql/mygrations/operations/remove_key.py
index 65ea169..0d2e80a 100644
--- a/mygrations/formats/mysql/mygrations/operations/remove_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/remove_key.py
@@ -9,7 +9,7 @@ class RemoveKey:
         :param table: The table to remove the key from
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.remove_key(self.key)
+        table.remove_index(self.key)
 
     def __str__(self):
         if self.key.index_type == 'PRIMARY':
-- 
2.43.0


From afa437fce0ceff69590e2009fc7d3889cc7fe9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 20/84] fix: add columns at the beginning of tables which were
 not parsed

---
 mygrations/core/definitions/table.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 40708e3..e4dd126 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -446,8 +446,7 @@ class Table:
 
         # beginning is also easy
         if position == True:
-            self._columns[column.name] = column
-            self._columns.move_to_end(column.name, last=False)
+            self._columns = OrderedDict([(column.name, column), *self._columns.items()])
             return None
 
         # now it is tricky
-- 
2.43.0


From b59a73178c86971ddc1897254c4084a213db8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 21/84] fix: remember indexed columns and the primary key
 correctly when indexes change

---
 mygrations/core/definitions/table.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index e4dd126..a905386 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -506,10 +506,11 @@ class Table:
         if index_name not in self._indexes:
             raise ValueError("Cannot remove index %s because index %s does not exist" % (index_name, index_name))
 
-        indexed_column = self._indexes[index_name].columns[0]
-        self._indexes.pop(index_name, None)
-        if self._indexed_columns is not None:
-            self._indexed_columns.discard(indexed_column)
+        removed = self._indexes.pop(index_name)
+        if removed is self._primary:
+            self._primary = None
+        # other indexes may start with the same column
+        self._indexed_columns = None
 
     def change_index(self, new_index: Index):
         """Changes an index.  This does not currently support renaming"""
@@ -520,12 +521,13 @@ class Table:
                 "Cannot modify index %s because index %s does not exist" % (new_index.name, new_index.name)
             )
 
-        if self._indexed_columns is not None:
-            self._indexed_columns.discard(self._indexes[new_index.name].columns[0])
+        if self._indexes[new_index.name] is self._primary:
+            self._primary = None
+        if new_index.index_type == "PRIMARY":
+            self._primary = new_index
         self._indexes[new_index.name] = new_index
-
-        if self._indexed_columns is not None:
-            self._indexed_columns.add(new_index.columns[0])
+        # other indexes may start with the same column as the old one
+        self._indexed_columns = None
 
     def add_constraint(self, constraint: Constraint):
         """Adds a constraint to the table"""
-- 
2.43.0


From 75269e0385f600e8742c95769fb1b26e899a2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 22/84] fix: do not take names which start with UNIQUE, KEY or
 INDEX for these keywords

---
 mygrations/formats/mysql/file_reader/parsers/index_key.py    | 2 +-
 mygrations/formats/mysql/file_reader/parsers/index_unique.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 9d6234c..75eefc8 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -7,7 +7,7 @@ class IndexKey(Parser, Index):
 
     # KEY account_id (account_id,name)
     rules = [
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)"},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
         {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index becdf76..d681809 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -7,8 +7,8 @@ class IndexUnique(Parser, Index):
 
     # UNIQUE account_id (account_id)
     rules = [
-        {"type": "literal", "value": "UNIQUE"},
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)", "optional": True},
+        {"type": "regexp", "name": "UNIQUE", "value": r"UNIQUE\b"},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
         {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
-- 
2.43.0


From 860873514f36fd47e702d9bfbbeea69f086b5bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 23/84] fix: do not take parts of the next statement for a
 table option

---
 mygrations/formats/mysql/file_reader/parsers/table_option.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index 4e45a14..b930c8d 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -7,14 +7,14 @@ class TableOption(Parser):
     # UNIQUE account_id (account_id)
     rules = [{
         'type': 'regexp',
-        'value': '[^=]{1,30}',
+        'value': r'\w[\w ]{0,29}',
         'name': 'name'
     }, {
         'type': 'literal',
         'value': '='
     }, {
         'type': 'regexp',
-        'value': '[^\s;]+',
+        'value': r"""(?:'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|[^\s;'"])+""",
         'name': 'value'
     }]
 
-- 
2.43.0


From 8d659da9f12b76af3d6f001cf365e87923c86ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 24/84] fix: read the name of a table without a space behind it

---
 mygrations/formats/mysql/file_reader/create_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index e9ea3ef..66bfc57 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -30,7 +30,7 @@ class CreateParser(Table, Parser):
             "optional": True,
             "name": "if_not_exists",
         },
-        {"type": "regexp", "value": "\S+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`]+`|[^\s\(]+", "name": "name"},
         {"type": "literal", "value": "("},
         {
             "type": "children",
-- 
2.43.0


From 9cbbae521d95148d2407ee7515b9f87106b13dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 25/84] fix: escape quotes and backslashes in updated rows and
 in row ids

---
 mygrations/core/operations/change_row.py                  | 8 ++++++--
 mygrations/core/operations/remove_row.py                  | 3 ++-
 .../formats/mysql/mygrations/operations/row_delete.py     | 3 ++-
 .../formats/mysql/mygrations/operations/row_update.py     | 8 ++++++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/operations/change_row.py b/mygrations/core/operations/change_row.py
index 7146653..98c15e4 100644
--- a/mygrations/core/operations/change_row.py
+++ b/mygrations/core/operations/change_row.py
@@ -16,9 +16,13 @@ class ChangeRow:
         """ Public getter.  Returns the name of the table. """
         return self._table_name
 
+    @staticmethod
+    def _escape(val):
+        return str(val).replace('\\', '\\\\').replace("'", "\\'")
+
     def __str__(self):
         updates = ', '.join([
-            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\')) if val is not None else ('`%s`=NULL' % key)
+            "`%s`='%s'" % (key, self._escape(val)) if val is not None else ('`%s`=NULL' % key)
             for (key, val) in self._data.items() if key != 'id'
         ])
-        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self._data['id'])
+        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self._escape(self._data['id']))
diff --git a/mygrations/core/operations/remove_row.py b/mygrations/core/operations/remove_row.py
index 138834e..1c9d86b 100644
--- a/mygrations/core/operations/remove_row.py
+++ b/mygrations/core/operations/remove_row.py
@@ -15,4 +15,5 @@ class RemoveRow:
         return self._table_name
 
     def __str__(self):
-        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, self.row_id)
+        row_id = str(self.row_id).replace('\\', '\\\\').replace("'", "\\'")
+        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, row_id)
diff --git a/mygrations/formats/mysql/mygrations/operations/row_delete.py b/mygrations/formats/mysql/mygrations/operations/row_delete.py
index 3bff403..0668009 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_delete.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_delete.py
@@ -18,4 +18,5 @@ class RowDelete:
         return self._table_name
 
     def __str__(self):
-        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, self.row_id)
+        row_id = str(self.row_id).replace('\\', '\\\\').replace("'", "\\'")
+        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, row_id)
diff --git a/mygrations/formats/mysql/mygrations/operations/row_update.py b/mygrations/formats/mysql/mygrations/operations/row_update.py
index 116a2a5..f920470 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_update.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_update.py
@@ -20,9 +20,13 @@ class RowUpdate:
 
         return self._table_name
 
+    @staticmethod
+    def _escape(val):
+        return str(val).replace('\\', '\\\\').replace("'", "\\'")
+
     def __str__(self):
         updates = ', '.join([
-            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\')) if val is not None else ('`%s`=NULL' % key)
+            "`%s`='%s'" % (key, self._escape(val)) if val is not None else ('`%s`=NULL' % key)
             for (key, val) in self.data.items() if key != 'id'
         ])
-        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self.data['id'])
+        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self._escape(self.data['id']))
-- 
2.43.0


From be9768b066d065104b0de4c74ea031252859b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 26/84] fix: compare NULL, numbers and times in rows by value

---
 mygrations/core/definitions/table.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index a905386..9c8a664 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 from typing import Any, Dict, List, Set, Union
 from collections import OrderedDict
+from datetime import timedelta
+from decimal import Decimal, InvalidOperation
 from .rows import Rows
 from .option import Option
 from .columns.column import Column
@@ -567,13 +569,38 @@ class Table:
 
         Returns true if the two values are equal, even if one is a string and the other an int.
         """
+        # NULL is only equal to NULL, and especially not to the text 'None'
+        if val1 is None or val2 is None:
+            return val1 is val2
+
         # if we don't have a type mistmatch then this is easy
         if type(val1) == type(val2):
             return val1 == val2
 
+        # the database gives us numbers for numeric columns, e.g. 1.50 for '1.5'
+        if isinstance(val1, (int, float, Decimal)) or isinstance(val2, (int, float, Decimal)):
+            try:
+                return Decimal(str(val1)) == Decimal(str(val2))
+            except InvalidOperation:
+                return False
+
+        # and time differences for TIME columns
+        if isinstance(val1, timedelta) or isinstance(val2, timedelta):
+            return self._time_as_string(val1) == self._time_as_string(val2)
+
         # otherwise see if we can cheat and just convert to strings
         return str(val1) == str(val2)
 
+    def _time_as_string(self, value: Union[str, timedelta]) -> str:
+        """Returns the value of a TIME column in the format used by MySQL: [-]HH:MM:SS[.ffffff]"""
+        if not isinstance(value, timedelta):
+            return str(value)
+        sign = "-" if value < timedelta(0) else ""
+        seconds = abs(value) // timedelta(seconds=1)
+        fraction = abs(value).microseconds
+        formatted = "%s%02d:%02d:%02d" % (sign, seconds // 3600, seconds // 60 % 60, seconds % 60)
+        return formatted + (".%06d" % fraction if fraction else "")
+
     def to(self, comparison_table, split_operations=False):
         """Compares two tables to eachother and returns a list of operations which can bring the structure of the second in line with the first
 
-- 
2.43.0


From 38590e94eab73f8470d289435bb4027e73759426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 27/84] fix: insert rows after deleting and updating others,
 which may free unique values

---
 mygrations/formats/mysql/definitions/table.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index a542fbc..b78aca9 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -188,9 +188,6 @@ class Table(BaseTable):
         (inserted_ids, deleted_ids, updated_ids) = self._differences(from_table.rows if from_table else {}, self.rows)
 
         operations = []
-        for row_id in inserted_ids:
-            operations.append(RowInsert(self.name, self.rows[row_id]))
-
         for row_id in deleted_ids:
             operations.append(RowDelete(self.name, row_id))
 
@@ -206,4 +203,8 @@ class Table(BaseTable):
             if differences:
                 operations.append(RowUpdate(self.name, self.rows[row_id]))
 
+        # inserts go last: they may need values for unique columns which other rows had until now
+        for row_id in inserted_ids:
+            operations.append(RowInsert(self.name, self.rows[row_id]))
+
         return operations
-- 
2.43.0


From 60a899b6f7947f1c0c4fe652fd1a1c956175b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 28/84] fix: set the values of existing rows for columns which
 are being added

---
 mygrations/formats/mysql/definitions/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index b78aca9..3450dfb 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -195,6 +195,10 @@ class Table(BaseTable):
             # try to be smart and not update if we don't have to
             (inserted_cols, deleted_cols, updated_cols) = self._differences(self.rows[row_id], from_table.rows[row_id])
             differences = False
+            # columns which are just being added will start out with their default
+            for col in deleted_cols:
+                if col in self.columns and not self._loose_equal(self.rows[row_id][col], self.columns[col].default):
+                    differences = True
             for col in updated_cols:
                 if not self._loose_equal(self.rows[row_id][col], from_table.rows[row_id][col]):
                     differences = True
-- 
2.43.0


From 669c637599235d57caf421483b352a54c94459aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 29/84] fix: report rows with an id of NULL

---
 mygrations/core/definitions/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 9c8a664..e03c4d1 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -327,7 +327,7 @@ class Table:
                 continue
 
             # we need to know the id of this record
-            row_id = str(values[id_index])
+            row_id = "" if values[id_index] is None else str(values[id_index])
             if not row_id:
                 self._global_errors.append(
                     "Row is missing a value for the id column for table %s and row %s" % (self._name, values)
-- 
2.43.0


From 5bb89e2910dcb4b236d42b14729169237adc954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 30/84] fix: do not drop and add foreign keys again and again
 for columns which do not change

---
 mygrations/formats/mysql/mygrations/mygration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 7cc1bfe..39620f5 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -348,6 +348,10 @@ class Mygration:
         :returns: True if the columns differ in type
         :rtype: bool
         """
+        # only columns which will actually be changed matter: something like a missing display width
+        # does not lead to a change, and repeating the drop/add on every run would be rather expensive
+        if str(source_col) == str(target_col) or source_col.is_really_the_same_as(target_col):
+            return False
         if source_col.column_type != target_col.column_type:
             return True
         if source_col.length != target_col.length:
-- 
2.43.0


From 5b6eebc5598ff1bad1c3abdc482509405ae6056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 31/84] fix: remove foreign keys before changing the tables
 they refer to

---
 mygrations/formats/mysql/mygrations/mygration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 39620f5..46d0f65 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -149,6 +149,10 @@ class Mygration:
         # new FK constraints are added — preventing MySQL error 3780 when a child table
         # (e.g. company_domains) is processed before its parent (e.g. businesses)
         # alphabetically and tries to ADD FK before the parent column type is updated.
+        #
+        # Likewise all foreign keys have to be removed before any table is changed, because some other table
+        # may be about to lose (or change) a column or an index that these foreign keys need.
+        changed_tables_ops = []
         deferred_fk_ops = []
         for table_name in tables_to_update:
             target_table = self.db_to.tables[table_name]
@@ -160,12 +164,13 @@ class Mygration:
                 if filtered:
                     operations.append(filtered)
             if "kitchen_sink" in split_ops:
-                operations.append(split_ops["kitchen_sink"])
+                changed_tables_ops.append(split_ops["kitchen_sink"])
             if "fks" in split_ops:
                 filtered = self._strip_cycled_fk_ops(split_ops["fks"], cycled_fks)
                 if filtered:
                     deferred_fk_ops.append(filtered)
 
+        operations.extend(changed_tables_ops)
         operations.extend(deferred_fk_ops)
         operations.extend(fk_add_ops)
 
-- 
2.43.0


From 752cc1ed61315a3f1a93818e33d5cb4159583a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 32/84] fix: do not take NO ACTION and RESTRICT for different
 foreign keys

---
 mygrations/core/definitions/constraint.py     | 13 +++++++++++++
 mygrations/formats/mysql/definitions/table.py |  4 +++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/constraint.py b/mygrations/core/definitions/constraint.py
index b42c269..775d2f7 100644
--- a/mygrations/core/definitions/constraint.py
+++ b/mygrations/core/definitions/constraint.py
@@ -114,6 +114,19 @@ class Constraint(Base):
             if not getattr(self, required):
                 self._schema_errors.append(f"Missing {required} for constraint '{self.name}'")
 
+    def is_really_the_same_as(self, constraint: Constraint) -> bool:
+        """ Returns True if the constraint works the same way as the other one """
+        # NO ACTION and RESTRICT are the same thing to MySQL, and SHOW CREATE TABLE does not always tell which it was
+        for attr in ['name', 'column_name', 'foreign_table_name', 'foreign_column_name', 'on_delete', 'on_update']:
+            mine = getattr(self, attr)
+            theirs = getattr(constraint, attr)
+            if attr in ['on_delete', 'on_update']:
+                mine = 'RESTRICT' if mine == 'NO ACTION' else mine
+                theirs = 'RESTRICT' if theirs == 'NO ACTION' else theirs
+            if mine != theirs:
+                return False
+        return True
+
     def __str__(self) -> str:
         """ Returns the MySQL command that would create the constraint
 
diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 3450dfb..83c8462 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -137,7 +137,9 @@ class Table(BaseTable):
         for added_constraint in added_constraints:
             constraints.add_operation(AddConstraint(comparison_table.constraints[added_constraint]))
         for overlap_constraint in overlap_constraints:
-            if str(self.constraints[overlap_constraint]) == str(comparison_table.constraints[overlap_constraint]):
+            if self.constraints[overlap_constraint].is_really_the_same_as(
+                comparison_table.constraints[overlap_constraint]
+            ):
                 continue
 
             # foreign key constraints are modified by first dropping the constraint and
-- 
2.43.0


From 2b48a1584e1722202526d2e37ece11077b9aada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 33/84] fix: create new tables late if their foreign keys need
 it, and drop foreign keys of removed tables early

---
 .../formats/mysql/mygrations/mygration.py     | 64 ++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 46d0f65..1290019 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -137,8 +137,11 @@ class Mygration:
         db_from_tables = self.db_from.tables if self.db_from else {}
         (tables_to_add, tables_to_remove, tables_to_update) = self._differences(db_from_tables, self.db_to.tables)
 
+        # most new tables can be created right away, but some have foreign keys which are only possible later
+        deferred_tables = [name for name in tables_to_add if self._must_create_late(self.db_to.tables[name])]
         for table_name in tables_to_add:
-            operations.append(self.db_to.tables[table_name].create())
+            if table_name not in deferred_tables:
+                operations.append(self.db_to.tables[table_name].create())
 
         fk_drop_ops, fk_add_ops, cycled_fks = self._find_fk_ops_for_column_type_changes(tables_to_update)
 
@@ -170,7 +173,9 @@ class Mygration:
                 if filtered:
                     deferred_fk_ops.append(filtered)
 
+        operations.extend(self._find_fk_ops_for_removed_tables(tables_to_remove, cycled_fks))
         operations.extend(changed_tables_ops)
+        operations.extend(self.db_to.tables[table_name].create() for table_name in deferred_tables)
         operations.extend(deferred_fk_ops)
         operations.extend(fk_add_ops)
 
@@ -182,6 +187,63 @@ class Mygration:
 
         return operations
 
+    def _must_create_late(self, table):
+        """Finds out if a new table has foreign keys which the current structure of the database does not allow
+
+        :param table: The new table
+        :returns: True if the table can only be created after the other tables have been changed
+        :rtype: bool
+        """
+        if not self.db_from:
+            return False
+
+        for constraint in table.constraints.values():
+            # constraint names are unique in the whole database
+            if any(constraint.name in other.constraints for other in self.db_from.tables.values()):
+                return True
+
+            foreign_table = self.db_from.tables.get(constraint.foreign_table_name)
+            target_table = self.db_to.tables.get(constraint.foreign_table_name)
+            if not foreign_table or not target_table:
+                continue
+
+            column_name = constraint.foreign_column_name
+            if not foreign_table.column_is_indexed(column_name):
+                return True
+            if column_name in target_table.columns and self._column_type_differs(
+                foreign_table.columns[column_name], target_table.columns[column_name]
+            ):
+                return True
+
+        return False
+
+    def _find_fk_ops_for_removed_tables(self, tables_to_remove, cycled_fks):
+        """Finds foreign keys of tables which will be removed, but which are in the way until then
+
+        :param tables_to_remove: List of table names being removed
+        :param cycled_fks: Set of (table_name, constraint_name) tuples which are dropped already
+        :returns: A list of operations to drop these foreign keys
+        :rtype: list
+        """
+        names_in_use = set()
+        for table in self.db_to.tables.values():
+            names_in_use.update(table.constraints.keys())
+
+        operations = []
+        for table_name in tables_to_remove:
+            alter = AlterTable(table_name)
+            for constraint in self.db_from.tables[table_name].constraints.values():
+                if (table_name, constraint.name) in cycled_fks:
+                    continue
+                target_table = self.db_to.tables.get(constraint.foreign_table_name)
+                if constraint.name in names_in_use or (
+                    target_table and not target_table.column_is_indexed(constraint.foreign_column_name)
+                ):
+                    alter.add_operation(RemoveConstraint(constraint))
+            if alter:
+                operations.append(alter)
+        return operations
+
     def _find_fk_ops_for_column_type_changes(self, tables_to_update):
         """Finds FK constraints that must be temporarily dropped due to column type changes.
 
-- 
2.43.0


From a4c67f9289f1ff702c2373ec888071dbc8c4c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 34/84] fix: stop if the definition of an existing table can
 not be understood

---
 mygrations/core/commands/plan.py              |  6 ++++++
 mygrations/core/definitions/database.py       |  9 +++++++++
 .../formats/mysql/db_reader/database.py       | 20 ++++++++++++++-----
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/mygrations/core/commands/plan.py b/mygrations/core/commands/plan.py
index f7cd71c..53162dd 100644
--- a/mygrations/core/commands/plan.py
+++ b/mygrations/core/commands/plan.py
@@ -38,6 +38,12 @@ class Plan(Base):
         # use the credentials to load up a database connection
         live_database = DatabaseReader(self.get_driver())
 
+        if live_database.global_errors and not self.options.get('force'):
+            print('Errors found in database', file=sys.stderr)
+            for error in live_database.global_errors:
+                print(error, file=sys.stderr)
+            return []
+
         # we have to tell the live database to load records
         # for any tables we are tracking records for.
         # We use the "files" database as the "truth" because
diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 7893a3b..30de43a 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -50,6 +50,15 @@ class Database:
         parsing_warnings = self.find_parsing_warnings()
         return [*global_warnings, *parsing_warnings, *schema_warnings]
 
+    @property
+    def global_errors(self):
+        """ Public getter.  Returns a list of errors from reading the database as a whole
+
+        :returns: A list of errors
+        :rtype: list
+        """
+        return self._global_errors if self._global_errors is not None else []
+
     def find_schema_warnings(self):
         """ Returns a list of human-readable warning messages (strings) that give any warnings about the schema itself.
         :return: List of warning messages
diff --git a/mygrations/formats/mysql/db_reader/database.py b/mygrations/formats/mysql/db_reader/database.py
index 47a9a23..7f030b5 100644
--- a/mygrations/formats/mysql/db_reader/database.py
+++ b/mygrations/formats/mysql/db_reader/database.py
@@ -11,7 +11,7 @@ class Database(DatabaseDefinition):
         """
         self.conn = conn
         self._tables = {}
-        self._rows = []
+        self._rows = {}
         self._global_errors = []
         self._global_warnings = []
 
@@ -27,12 +27,22 @@ class Database(DatabaseDefinition):
         :type conn: mygrations.drivers.mysqldb.mysqldb
         """
         for (table, create_table) in conn.tables().items():
+            reader = Reader()
             try:
-                reader = Reader()
-                reader.parse(create_table)
+                # the definitions MySQL gives us have no semicolon at the end
+                reader.parse(create_table.rstrip().rstrip(';') + ';')
+                if not reader.tables:
+                    reader._global_errors.append("No table definition found")
 
-            except ValueError as e:
-                print("Error in table %s: %s" % (create_table, e))
+            except (ValueError, SyntaxError) as e:
+                reader._global_errors.append(str(e))
+
+            # we can not do anything sensible without knowing the whole structure of the database
+            for error in reader._global_errors:
+                self._global_errors.append("Error in definition of table %s: %s" % (table, error))
+            for parsed in reader.tables.values():
+                for error in [*parsed.global_errors, *parsed.parsing_errors]:
+                    self._global_errors.append("Error in definition of table %s: %s" % (table, error))
 
             for (table_name, table) in reader.tables.items():
                 if table.name in self._tables:
-- 
2.43.0


From 28f0d09c9f5f4a80db5ca0566279c0e65d5ac35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 35/84] fix: do not answer with outdated errors after a table
 of a database has changed

---
 mygrations/core/definitions/database.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 30de43a..425b90f 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -64,9 +64,7 @@ class Database:
         :return: List of warning messages
         :rtype: list
         """
-        if self._schema_warnings is not None:
-            return self._schema_warnings
-
+        # not cached: the tables can change at any time without telling us
         self._schema_warnings = [
             *self.find_all_row_schema_warnings(),
             *self.find_all_table_schema_warnings(),
@@ -79,9 +77,7 @@ class Database:
         :return: List of error messages
         :rtype: list
         """
-        if self._schema_errors is not None:
-            return self._schema_errors
-
+        # not cached: the tables can change at any time without telling us
         self._schema_errors = [
             *self.find_all_database_schema_errors(),
             *self.find_all_table_schema_errors(),
@@ -194,9 +190,7 @@ class Database:
         :return: List of error messages
         :rtype: list
         """
-        if self._parsing_errors is not None:
-            return self._parsing_errors
-
+        # not cached: the tables can change at any time without telling us
         self._parsing_errors = [
             *self.find_all_table_parsing_errors(),
             *self.find_all_row_parsing_errors(),
@@ -209,9 +203,7 @@ class Database:
         :return: List of error messages
         :rtype: list
         """
-        if self._parsing_warnings is not None:
-            return self._parsing_warnings
-
+        # not cached: the tables can change at any time without telling us
         self._parsing_warnings = [
             *self.find_all_table_parsing_warnings(),
             *self.find_all_row_parsing_warnings(),
-- 
2.43.0


From c97d1d2af7a18a1129934fce13c76949c559a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 36/84] fix: report failure when plan or apply refuse to run

---
 mygrations/core/commands/apply.py | 2 ++
 mygrations/core/commands/plan.py  | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/commands/apply.py b/mygrations/core/commands/apply.py
index 1f97bce..9fd3369 100644
--- a/mygrations/core/commands/apply.py
+++ b/mygrations/core/commands/apply.py
@@ -9,6 +9,8 @@ class Apply(Plan):
     def execute(self, print_results):
 
         commands = self.build_commands()
+        if self.refused:
+            return ([], False)
         to_apply = ['%s' % command for command in commands]
         connection = self.get_driver()
         connection.execute(to_apply)
diff --git a/mygrations/core/commands/plan.py b/mygrations/core/commands/plan.py
index 53162dd..731941d 100644
--- a/mygrations/core/commands/plan.py
+++ b/mygrations/core/commands/plan.py
@@ -12,13 +12,14 @@ def execute(options, print_results=True):
     return obj.execute(print_results=print_results)
 class Plan(Base):
     needs_cursor = True
+    refused = False
 
     def execute(self, print_results=True):
 
         commands = ['%s' % command for command in self.build_commands()]
         if print_results:
             print("\n".join(commands))
-        return (commands, True)
+        return (commands, not self.refused)
 
     def build_commands(self):
 
@@ -29,6 +30,7 @@ class Plan(Base):
         if files_database.errors and not self.options.get('force'):
             print('Errors found in *.sql files', file=sys.stderr)
             quit_early = True
+            self.refused = True
             for error in files_database.errors:
                 print(error, file=sys.stderr)
 
@@ -42,6 +44,7 @@ class Plan(Base):
             print('Errors found in database', file=sys.stderr)
             for error in live_database.global_errors:
                 print(error, file=sys.stderr)
+            self.refused = True
             return []
 
         # we have to tell the live database to load records
-- 
2.43.0


From 60340ef0c42b032cd7ed6c95c2122122abbd20d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 37/84] fix: make the version command run and print the version

---
 mygrations/core/commands/version.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/commands/version.py b/mygrations/core/commands/version.py
index 9c17d78..5ea004c 100644
--- a/mygrations/core/commands/version.py
+++ b/mygrations/core/commands/version.py
@@ -1,10 +1,10 @@
-from .base import base
+from .base import Base
 import mygrations
 def execute(options, print_results=True):
 
     obj = Version(options)
     return obj.execute(print_results=print_results)
-class Version(base):
+class Version(Base):
     def execute(self, print_results=True):
         version_info = [
             f'mygrations v{mygrations.__version__}',
@@ -12,5 +12,5 @@ class Version(base):
             'MIT License',
         ]
         if print_results:
-            "\n".join(version_info)
-        return (print_results, True)
+            print("\n".join(version_info))
+        return (version_info, True)
-- 
2.43.0


From 9d29f806a46d9f56ee873383ee7ef8d004e4d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 38/84] fix: make the plan_export command run

---
 mygrations/core/commands/plan_export.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/commands/plan_export.py b/mygrations/core/commands/plan_export.py
index 995a32b..cf59f7d 100644
--- a/mygrations/core/commands/plan_export.py
+++ b/mygrations/core/commands/plan_export.py
@@ -6,18 +6,23 @@ from mygrations.formats.mysql.db_reader.database import Database as DatabaseRead
 from mygrations.formats.mysql.mygrations.mygration import Mygration
 from mygrations.formats.mysql.mygrations.row_mygration import RowMygration
 from mygrations.formats.mysql.mygrations.operations.row_insert import RowInsert
-from mygrations.drivers.mysqldb.mysqldb import mysqldb
+import sys
 def execute(options, print_results=True):
 
     obj = PlanExport(options)
     return obj.execute(print_results=print_results)
-class PlanExport(base):
+class PlanExport(Base):
     def execute(self, print_results=True):
 
         files_database = DatabaseParser(self.get_sql_files())
 
         # use the credentials to load up a database connection
         live_database = DatabaseReader(self.get_driver())
+        if live_database.errors:
+            print('Errors found in database', file=sys.stderr)
+            for error in live_database.errors:
+                print(error, file=sys.stderr)
+            return ([], False)
 
         # we aren't outputting operations.  Instead we just need to know what tables
         # have changed (either structure or records).  The easiest (and slightly hack)
@@ -48,6 +53,10 @@ class PlanExport(base):
         for table_name in self.modified_tables.keys():
             if print_results:
                 print('\033[1;33m\033[41m%s\033[0m' % table_name)
+            if table_name not in live_database.tables:
+                if print_results:
+                    print('This table does not exist in the database')
+                continue
             table = live_database.tables[table_name]
             operations.append(table.nice())
             if print_results:
@@ -57,7 +66,7 @@ class PlanExport(base):
                 if print_results:
                     print('\n')
                 for row in table.rows.values():
-                    operation = row_insert(table.name, row)
+                    operation = str(RowInsert(table.name, row))
                     if print_results:
                         print(operation)
                     operations.append(operation)
-- 
2.43.0


From 389d72d13187d0ee64a1a135434fea6dca525140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 39/84] fix: read binary and TIME values from the database in
 the format used in SQL

---
 mygrations/core/definitions/table.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index e03c4d1..8d8de30 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -372,7 +372,7 @@ class Table:
         converted_row = OrderedDict()
         for column in self._columns.keys():
             if column in row:
-                converted_row[column] = row[column]
+                converted_row[column] = self._from_driver(row[column])
             else:
                 converted_row[column] = self._columns[column].default
         converted_row["id"] = row_id
@@ -584,17 +584,22 @@ class Table:
             except InvalidOperation:
                 return False
 
-        # and time differences for TIME columns
-        if isinstance(val1, timedelta) or isinstance(val2, timedelta):
-            return self._time_as_string(val1) == self._time_as_string(val2)
-
         # otherwise see if we can cheat and just convert to strings
         return str(val1) == str(val2)
 
-    def _time_as_string(self, value: Union[str, timedelta]) -> str:
-        """Returns the value of a TIME column in the format used by MySQL: [-]HH:MM:SS[.ffffff]"""
+    def _from_driver(self, value: Any) -> Any:
+        """Converts values which the database driver returns as something that SQL files can not contain"""
+        # binary columns.  SQL files are text, so if this fails then the value did not come from there
+        if isinstance(value, bytes):
+            try:
+                return value.decode("utf-8")
+            except UnicodeDecodeError:
+                return value
+
         if not isinstance(value, timedelta):
-            return str(value)
+            return value
+
+        # TIME columns: [-]HH:MM:SS[.ffffff]
         sign = "-" if value < timedelta(0) else ""
         seconds = abs(value) // timedelta(seconds=1)
         fraction = abs(value).microseconds
-- 
2.43.0


From 0efcc687a6254c1495e6f2b43d0f48d608a1a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 40/84] fix: keep configuration keys that have an empty value

---
 mygrations/helpers/dotenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index 39afe58..c68d14f 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -86,7 +86,7 @@ class dotenv(dict):
 
             # we will get a non-value for key and value if this wasn't
             # a valid data line
-            if not key or not value:
+            if not key:
                 continue
 
             # store it!
-- 
2.43.0


From dcc844765d9d2e8968591045eec6ee9e659b2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 41/84] fix: reject text after an empty quoted configuration
 value

---
 mygrations/helpers/dotenv.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index c68d14f..6866fc6 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -159,15 +159,11 @@ class dotenv(dict):
         if not value.count(quote):
             raise DotEnvSyntaxError("Syntax error: unclosed quote in line %s" % line)
 
-        # do we have an empty string?
-        if value[0] == quote:
-            return [key, '']
-
         # make sure we don't have an escaped quote in our quoted string
-        index = 0
-        while value.count(quote, index):
+        index = -1
+        while value.count(quote, index + 1):
             index = value.index(quote, index + 1)
-            if value[index - 1] == '\\':
+            if index and value[index - 1] == '\\':
                 continue
 
             # if we get here then we have found the ending quote!
-- 
2.43.0


From 54577b4aee4cc91e22cd35fb55418549df8a8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 42/84] fix: report an empty files_directory or env_file as
 missing configuration

---
 mygrations/core/commands/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/commands/base.py b/mygrations/core/commands/base.py
index 8b0d637..97572ac 100644
--- a/mygrations/core/commands/base.py
+++ b/mygrations/core/commands/base.py
@@ -43,7 +43,7 @@ class Base(object):
         # while self.config is a dictionary containing configuration settings loaded out of the mygrate.conf file.
         config_abs_path = self._resolve_and_check_config_file_path(self.options['config'])
         self.config = dotenv(config_abs_path)
-        if 'files_directory' not in self.config:
+        if not self.config.get('files_directory'):
             raise ValueError(
                 "Configuration file is missing 'files_directory' configuration, which should point to the directory containing your *.sql files"
             )
@@ -51,7 +51,7 @@ class Base(object):
             self.config['files_directory'], config_abs_path
         )
 
-        if 'env_file' not in self.config:
+        if not self.config.get('env_file'):
             raise ValueError(
                 "Configuration file is missing 'env_file' configuration, which should point to the .env file for your application (so mygrations can fetch database credentials"
             )
-- 
2.43.0


From 79d6f07dbb84218b83ad476062ccdd90e7045fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 43/84] fix: understand the charset of ENUM and SET columns
 where MySQL prints it

---
 mygrations/formats/mysql/file_reader/parsers/type_enum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 88503f2..97ae43b 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -14,6 +14,8 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
         {"type": "literal", "value": ")"},
+        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
-- 
2.43.0


From 0a2d9745f2b8f836f4c2a1d8f2ed682ec2c67afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 44/84] fix: understand default values of BIT columns with a
 length

---
 mygrations/formats/mysql/file_reader/parsers/type_character.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index dcc49ca..982846a 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -53,6 +53,8 @@ class TypeCharacter(Parser, Type):
         self._null = self._extract_null()
         self._has_default = "default" in self._values
         self._default = self._values.get("default")
+        if self._column_type.lower() == "bit":
+            self._default = self._clean_bit(self._default)
         self._character_set = self._unquote(self._values.get("character_set"))
         self._collate = self._unquote(self._values.get("collate"))
 
-- 
2.43.0


From e7311b09a317e5f4b762f27ab715335b0a04286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 45/84] fix: rename the index of a removed constraint right
 away instead of in the next migration

---
 mygrations/formats/mysql/definitions/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 83c8462..6966e69 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -95,7 +95,8 @@ class Table(BaseTable):
         # index with a shorter name the diff sees an ADD + DROP pair.  Suppress
         # these false-positives by matching removed/added indexes that cover the
         # same columns & type AND where one of the names is a known constraint.
-        all_constraint_names = set(self.constraints.keys()) | set(comparison_table.constraints.keys())
+        # Constraints that go away don't count: without them the next comparison would see the difference again.
+        all_constraint_names = set(comparison_table.constraints.keys())
         matched_added = set()
         matched_removed = set()
         for rk in removed_keys:
-- 
2.43.0


From fe65877193a1b9c41afc14860e5af235cc1fd293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 46/84] fix: read foreign keys regardless of spaces around
 their brackets

---
 .../mysql/file_reader/parsers/constraint_foreign.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
index 3b178da..fd58703 100644
--- a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
+++ b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
@@ -7,9 +7,11 @@ class ConstraintForeign(Parser, Constraint):
     rules = [
         {"type": "literal", "value": "CONSTRAINT"},
         {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
-        {"type": "literal", "value": "FOREIGN KEY ("},
+        {"type": "literal", "value": "FOREIGN KEY"},
+        {"type": "literal", "value": "("},
         {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
-        {"type": "literal", "value": ") REFERENCES"},
+        {"type": "literal", "value": ")"},
+        {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
@@ -62,9 +64,11 @@ class ConstraintForeignBare(ConstraintForeign):
     # No CONSTRAINT name prefix. A placeholder name is set in process(); CreateParser.process()
     # overwrites it with '{table}_{col}_{ref}_fk' once the source table name is known.
     rules = [
-        {"type": "literal", "value": "FOREIGN KEY ("},
+        {"type": "literal", "value": "FOREIGN KEY"},
+        {"type": "literal", "value": "("},
         {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
-        {"type": "literal", "value": ") REFERENCES"},
+        {"type": "literal", "value": ")"},
+        {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
-- 
2.43.0


From a053480b026a7c9591a12e54a2b136577da9a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 47/84] fix: a stray comma is not the beginning of a column,
 index or constraint name

---
 .../formats/mysql/file_reader/parsers/constraint_foreign.py | 6 +++---
 mygrations/formats/mysql/file_reader/parsers/index_key.py   | 2 +-
 .../formats/mysql/file_reader/parsers/type_character.py     | 2 +-
 .../formats/mysql/file_reader/parsers/type_datetime.py      | 2 +-
 .../formats/mysql/file_reader/parsers/type_decimal.py       | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_enum.py   | 2 +-
 .../formats/mysql/file_reader/parsers/type_numeric.py       | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_plain.py  | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_text.py   | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
index fd58703..2c9b82f 100644
--- a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
+++ b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
@@ -6,10 +6,10 @@ class ConstraintForeign(Parser, Constraint):
     # CONSTRAINT `accounts_status_id_ref_account_statuses_id` FOREIGN KEY (`status_id`) REFERENCES `account_statuses` (`id`) ON UPDATE CASCADE
     rules = [
         {"type": "literal", "value": "CONSTRAINT"},
-        {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
@@ -66,7 +66,7 @@ class ConstraintForeignBare(ConstraintForeign):
     rules = [
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 75eefc8..5d26ccc 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -8,7 +8,7 @@ class IndexKey(Parser, Index):
     # KEY account_id (account_id,name)
     rules = [
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
-        {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index 982846a..2cfe595 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -24,7 +24,7 @@ class TypeCharacter(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index 45f50e6..fd14e04 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -24,7 +24,7 @@ class TypeDateTime(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 806f016..73f22cb 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -9,7 +9,7 @@ class TypeDecimal(Parser, Type):
 
     # longitude float(20,4) unsigned default null
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 97ae43b..64217ff 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -9,7 +9,7 @@ class TypeEnum(Parser, Type):
 
     # types enum( `young`,`middle`,`old` )
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index af25c21..5df83c4 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -21,7 +21,7 @@ class TypeNumeric(Parser, Type):
 
     # `created` int(10) unsigned not null default 0 AUTO_INCREMENT
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index 249bcf4..ec778fd 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -12,7 +12,7 @@ class TypePlain(Parser, Type):
     # "bare_null" tokens are parsed only to consume the NULL keyword from the
     # remaining input — the actual nullability logic in process() uses "NOT NULL".
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         # Consume bare NULL before DEFAULT so it doesn't confuse subsequent rules.
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index 707aa5c..b74efbf 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -19,7 +19,7 @@ class TypeText(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-- 
2.43.0


From 61598f269b9b9ca18f09b2c22fe4e73ed9b3311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 48/84] fix: unique index and table names end at white space
 and commas

---
 mygrations/formats/mysql/file_reader/create_parser.py        | 2 +-
 mygrations/formats/mysql/file_reader/parsers/index_unique.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 66bfc57..86430b5 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -30,7 +30,7 @@ class CreateParser(Table, Parser):
             "optional": True,
             "name": "if_not_exists",
         },
-        {"type": "regexp", "value": r"`[^`]+`|[^\s\(]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`]+`|[^\s\(,]+", "name": "name"},
         {"type": "literal", "value": "("},
         {
             "type": "children",
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index d681809..4ad67b1 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -9,7 +9,7 @@ class IndexUnique(Parser, Index):
     rules = [
         {"type": "regexp", "name": "UNIQUE", "value": r"UNIQUE\b"},
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
-        {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
-- 
2.43.0


From b95a615e3863a82d05e0c606937d838cc8e4a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 49/84] fix: keywords only match whole words

---
 mygrations/core/parse/rule_literal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mygrations/core/parse/rule_literal.py b/mygrations/core/parse/rule_literal.py
index 474b864..db2f0ac 100644
--- a/mygrations/core/parse/rule_literal.py
+++ b/mygrations/core/parse/rule_literal.py
@@ -1,3 +1,4 @@
+import re
 from .rule_base import RuleBase
 class RuleLiteral(RuleBase):
     """ rule = rule_children( parser, rule, next_rule )
@@ -50,6 +51,12 @@ class RuleLiteral(RuleBase):
             self.leftovers = string
             return False
 
+        # a word only matches a whole word: "NULL" is not the beginning of "null_ok"
+        if re.match(r'\w\w', string[val_len - 1:val_len + 1]):
+            self.result = ''
+            self.leftovers = string
+            return False
+
         # if we matched then clean!
         self.leftovers = string[val_len:].strip()
         self.result = self.literal
-- 
2.43.0


From 2f6684617f270efe4ed1e1b0250ae8f9fbf47ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 50/84] fix: a name is either completely in backticks or not at
 all

---
 mygrations/formats/mysql/file_reader/create_parser.py       | 2 +-
 .../formats/mysql/file_reader/parsers/constraint_foreign.py | 6 +++---
 mygrations/formats/mysql/file_reader/parsers/index_key.py   | 2 +-
 .../formats/mysql/file_reader/parsers/index_unique.py       | 2 +-
 .../formats/mysql/file_reader/parsers/type_character.py     | 2 +-
 .../formats/mysql/file_reader/parsers/type_datetime.py      | 2 +-
 .../formats/mysql/file_reader/parsers/type_decimal.py       | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_enum.py   | 2 +-
 .../formats/mysql/file_reader/parsers/type_numeric.py       | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_plain.py  | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_text.py   | 2 +-
 11 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 86430b5..9182bcd 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -30,7 +30,7 @@ class CreateParser(Table, Parser):
             "optional": True,
             "name": "if_not_exists",
         },
-        {"type": "regexp", "value": r"`[^`]+`|[^\s\(,]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`]+`|[^`\s\(,]+", "name": "name"},
         {"type": "literal", "value": "("},
         {
             "type": "children",
diff --git a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
index 2c9b82f..b2b44e8 100644
--- a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
+++ b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
@@ -6,10 +6,10 @@ class ConstraintForeign(Parser, Constraint):
     # CONSTRAINT `accounts_status_id_ref_account_statuses_id` FOREIGN KEY (`status_id`) REFERENCES `account_statuses` (`id`) ON UPDATE CASCADE
     rules = [
         {"type": "literal", "value": "CONSTRAINT"},
-        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
+        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
@@ -66,7 +66,7 @@ class ConstraintForeignBare(ConstraintForeign):
     rules = [
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
+        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 5d26ccc..9c0d8d5 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -8,7 +8,7 @@ class IndexKey(Parser, Index):
     # KEY account_id (account_id,name)
     rules = [
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
-        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+"},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index 4ad67b1..c5500ca 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -9,7 +9,7 @@ class IndexUnique(Parser, Index):
     rules = [
         {"type": "regexp", "name": "UNIQUE", "value": r"UNIQUE\b"},
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
-        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "optional": True},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index 2cfe595..6b1aa76 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -24,7 +24,7 @@ class TypeCharacter(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index fd14e04..d1144bb 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -24,7 +24,7 @@ class TypeDateTime(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 73f22cb..f943cec 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -9,7 +9,7 @@ class TypeDecimal(Parser, Type):
 
     # longitude float(20,4) unsigned default null
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 64217ff..41f1f12 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -9,7 +9,7 @@ class TypeEnum(Parser, Type):
 
     # types enum( `young`,`middle`,`old` )
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index 5df83c4..0c5f3b7 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -21,7 +21,7 @@ class TypeNumeric(Parser, Type):
 
     # `created` int(10) unsigned not null default 0 AUTO_INCREMENT
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index ec778fd..830ce9a 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -12,7 +12,7 @@ class TypePlain(Parser, Type):
     # "bare_null" tokens are parsed only to consume the NULL keyword from the
     # remaining input — the actual nullability logic in process() uses "NOT NULL".
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         # Consume bare NULL before DEFAULT so it doesn't confuse subsequent rules.
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index b74efbf..a57a4b2 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -19,7 +19,7 @@ class TypeText(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-- 
2.43.0


From 44c871cad821ac87669cb8a090de8f1252857d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:40 +0000
Subject: [PATCH 51/84] fix: an unquoted default ends at a semicolon

---
 mygrations/formats/mysql/file_reader/parsers/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c4eb970..a427c03 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -7,7 +7,7 @@ class Type:
     # the value of a default: a bit literal, a string, a call to get the current time, or a single word
     DEFAULT = (
         r"""DEFAULT (b'[01]+'|'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|"""
-        r"""(?:CURRENT_TIMESTAMP|NOW|LOCALTIMESTAMP|LOCALTIME)\(\)|[^\(\s\),'"]+)"""
+        r"""(?:CURRENT_TIMESTAMP|NOW|LOCALTIMESTAMP|LOCALTIME)\(\)|[^\(\s\),;'"]+)"""
     )
     CURRENT_TIME = ["current_timestamp", "now", "localtimestamp", "localtime"]
 
-- 
2.43.0


From c6d416721a2793b1b32c0d02e52872bbbed37d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 52/84] fix: values, columns and enum values have to be
 separated by commas

---
 mygrations/core/parse/rule_delimited.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 198c87b..32e8e0b 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -80,6 +80,7 @@ class RuleDelimited(RuleBase):
 
         # it's ugly, but we will do this one character at a time
         has_word = False
+        has_value = False
         vals = []
         current = ''
         in_quote = ''
@@ -111,6 +112,8 @@ class RuleDelimited(RuleBase):
 
                 # open word
                 if not in_quote:
+                    if has_value and not has_word:
+                        raise SyntaxError("Missing '%s' at %s" % (self.separator, string[index:]))
                     # things like b'101' are not just strings
                     if has_word:
                         raise SyntaxError("Unexpected quote after '%s' at %s" % (current, string))
@@ -123,6 +126,7 @@ class RuleDelimited(RuleBase):
                     vals.append(QuotedString(current))
                     current = ''
                     has_word = False
+                    has_value = True
                     in_quote = ''
 
                 continue
@@ -143,6 +147,7 @@ class RuleDelimited(RuleBase):
                     if has_word:
                         vals.append(current)
                         has_word = False
+                    has_value = False
                     current = ''
 
                     continue
@@ -152,11 +157,14 @@ class RuleDelimited(RuleBase):
                     if has_word:
                         vals.append(current)
                         has_word = False
+                        has_value = True
 
                     current = ''
                     continue
 
                 # otherwise we have a character for a word
+                if has_value:
+                    raise SyntaxError("Missing '%s' at %s" % (self.separator, string[index:]))
                 has_word = True
                 current += char
                 continue
-- 
2.43.0


From 840a25dba8470ad550701a97922b3135f690b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:42 +0000
Subject: [PATCH 53/84] fix: unquoted names consist of word characters

---
 mygrations/formats/mysql/file_reader/create_parser.py       | 2 +-
 .../formats/mysql/file_reader/parsers/constraint_foreign.py | 6 +++---
 mygrations/formats/mysql/file_reader/parsers/index_key.py   | 2 +-
 .../formats/mysql/file_reader/parsers/index_unique.py       | 2 +-
 .../formats/mysql/file_reader/parsers/type_character.py     | 2 +-
 .../formats/mysql/file_reader/parsers/type_datetime.py      | 2 +-
 .../formats/mysql/file_reader/parsers/type_decimal.py       | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_enum.py   | 2 +-
 .../formats/mysql/file_reader/parsers/type_numeric.py       | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_plain.py  | 2 +-
 mygrations/formats/mysql/file_reader/parsers/type_text.py   | 2 +-
 11 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 9182bcd..33caffd 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -30,7 +30,7 @@ class CreateParser(Table, Parser):
             "optional": True,
             "name": "if_not_exists",
         },
-        {"type": "regexp", "value": r"`[^`]+`|[^`\s\(,]+", "name": "name"},
+        {"type": "regexp", "value": r"""`[^`]+`|[^`\s\(,;'\"=]+""", "name": "name"},
         {"type": "literal", "value": "("},
         {
             "type": "children",
diff --git a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
index b2b44e8..05b9cfb 100644
--- a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
+++ b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
@@ -6,10 +6,10 @@ class ConstraintForeign(Parser, Constraint):
     # CONSTRAINT `accounts_status_id_ref_account_statuses_id` FOREIGN KEY (`status_id`) REFERENCES `account_statuses` (`id`) ON UPDATE CASCADE
     rules = [
         {"type": "literal", "value": "CONSTRAINT"},
-        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
+        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
@@ -66,7 +66,7 @@ class ConstraintForeignBare(ConstraintForeign):
     rules = [
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
+        {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 9c0d8d5..0379386 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -8,7 +8,7 @@ class IndexKey(Parser, Index):
     # KEY account_id (account_id,name)
     rules = [
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
-        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+"},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index c5500ca..9e73949 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -9,7 +9,7 @@ class IndexUnique(Parser, Index):
     rules = [
         {"type": "regexp", "name": "UNIQUE", "value": r"UNIQUE\b"},
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
-        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "optional": True},
+        {"type": "regexp", "name": "name", "value": r"`[^`\(\s\)]+`|[\w$]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index 6b1aa76..f4701fc 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -24,7 +24,7 @@ class TypeCharacter(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index d1144bb..19e9337 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -24,7 +24,7 @@ class TypeDateTime(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index f943cec..cc5cb3a 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -9,7 +9,7 @@ class TypeDecimal(Parser, Type):
 
     # longitude float(20,4) unsigned default null
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 41f1f12..7b5d9ce 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -9,7 +9,7 @@ class TypeEnum(Parser, Type):
 
     # types enum( `young`,`middle`,`old` )
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index 0c5f3b7..6f5ad2a 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -21,7 +21,7 @@ class TypeNumeric(Parser, Type):
 
     # `created` int(10) unsigned not null default 0 AUTO_INCREMENT
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index 830ce9a..b2630a1 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -12,7 +12,7 @@ class TypePlain(Parser, Type):
     # "bare_null" tokens are parsed only to consume the NULL keyword from the
     # remaining input — the actual nullability logic in process() uses "NOT NULL".
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         # Consume bare NULL before DEFAULT so it doesn't confuse subsequent rules.
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index a57a4b2..a179721 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -19,7 +19,7 @@ class TypeText(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[^`\(\s\),]+", "name": "name"},
+        {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-- 
2.43.0


From 208fc9b67b25613bd45954112a14e5aed2ed5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 54/84] fix: the names in REFERENCES follow the same rule as
 others

---
 .../mysql/file_reader/parsers/constraint_foreign.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
index 05b9cfb..4e651e6 100644
--- a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
+++ b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
@@ -12,9 +12,9 @@ class ConstraintForeign(Parser, Constraint):
         {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
-        {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
+        {"type": "regexp", "name": "foreign_table_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
+        {"type": "regexp", "name": "foreign_column_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "ON DELETE CASCADE", "optional": True},
         {"type": "literal", "value": "ON DELETE NO ACTION", "optional": True},
@@ -69,9 +69,9 @@ class ConstraintForeignBare(ConstraintForeign):
         {"type": "regexp", "name": "column_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
-        {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
+        {"type": "regexp", "name": "foreign_table_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
+        {"type": "regexp", "name": "foreign_column_name", "value": r"`[^`\(\s\)]+`|[\w$]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "ON DELETE CASCADE", "optional": True},
         {"type": "literal", "value": "ON DELETE NO ACTION", "optional": True},
-- 
2.43.0


From 810d4f429702e687daf0d81f2bbcee6faf98fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 55/84] fix: charset and collation are words, perhaps in quotes

---
 .../file_reader/parsers/type_character.py      | 18 +++++++++---------
 .../mysql/file_reader/parsers/type_datetime.py | 18 +++++++++---------
 .../mysql/file_reader/parsers/type_enum.py     |  8 ++++----
 .../mysql/file_reader/parsers/type_text.py     | 18 +++++++++---------
 4 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index f4701fc..be2a369 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -29,18 +29,18 @@ class TypeCharacter(Parser, Type):
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
         {"type": "literal", "value": ")"},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index 19e9337..b72f6ff 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -26,18 +26,18 @@ class TypeDateTime(Parser, Type):
     rules = [
         {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 7b5d9ce..a234735 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -14,13 +14,13 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
         {"type": "literal", "value": ")"},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index a179721..59e6676 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -21,18 +21,18 @@ class TypeText(Parser, Type):
     rules = [
         {"type": "regexp", "value": r"`[^`\(\s\)]+`|[\w$]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
+        {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
-- 
2.43.0


From cb9a5a0b9040964aac0d8a0798ea9477b292d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 56/84] fix: the table name of an INSERT is completely in
 backticks or not at all

---
 mygrations/formats/mysql/file_reader/insert_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index 3c865d1..c88fbb4 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -8,7 +8,7 @@ class InsertParser(Parser, Rows):
         'value': 'INSERT INTO'
     }, {
         'type': 'regexp',
-        'value': '[^\s\(]+',
+        'value': r"""`[^`]+`|[^`\s\(,;'\"=]+""",
         'name': 'table'
     }, {
         'type': 'literal',
-- 
2.43.0


From 128d06f1f84cf23a29bba241df463ce784e7a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 57/84] fix: read the files of a directory whose name has
 pattern characters

---
 mygrations/formats/mysql/file_reader/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index ed5247f..6070b23 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -74,7 +74,7 @@ class Database(BaseDatabase):
         if directory[-1] != os.sep:
             directory += os.sep
 
-        for filename in glob.glob('%s*.sql' % directory):
+        for filename in glob.glob('%s*.sql' % glob.escape(directory)):
             self._read(filename)
 
     def _read(self, contents):
-- 
2.43.0


From df7d84aaf47d7f4fb93bca36202d51d87468c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 58/84] fix: keep line breaks in values of SQL files as they
 are

---
 mygrations/formats/mysql/file_reader/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index f98914f..436a611 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -135,7 +135,7 @@ class Reader:
             # which could be a filename
             if os.path.isfile(filename):
                 self.filename = filename
-                fp = open(filename, 'r')
+                fp = open(filename, 'r', newline='')
                 contents = fp.read()
                 fp.close()
             else:
-- 
2.43.0


From 0006d2b9548fc4196b6e9e491795fa3e54c93ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 59/84] fix: DECIMAL columns can not be AUTO_INCREMENT

---
 mygrations/core/definitions/columns/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index dd2a690..2fded8d 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -57,7 +57,7 @@ class Numeric(Column):
 
         allow_float = ["DECIMAL", "NUMERIC", "FLOAT", "DOUBLE"]
         no_length = ["FLOAT", "DOUBLE"]
-        no_auto_increment = ["FLOAT", "DOUBLE", "BIT"]
+        no_auto_increment = ["DECIMAL", "NUMERIC", "FLOAT", "DOUBLE", "BIT"]
 
         # I should probably have the parser auto-convert the type based on quotes/whatever, but
         # currently it doesn't and I'm apparently being lazy.  I'll probably regret this.
-- 
2.43.0


From 2e52c4477e5421c131f93b64e931bfc2276c803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 60/84] fix: BIT columns can not be unsigned

---
 mygrations/core/definitions/columns/numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 2fded8d..63e21a2 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -107,6 +107,9 @@ class Numeric(Column):
         if self.auto_increment and self.column_type in no_auto_increment:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
 
+        if self.unsigned and self.column_type == "BIT":
+            self._schema_errors.append(f"Column '{self.name}' of type 'BIT' cannot be unsigned")
+
         if self.enum_values:
             self._schema_errors.append(
                 "Column '%s' of type %s is not allowed to have a list of values for its length"
-- 
2.43.0


From ff6b63a50ca6cc4f9ac1083225b1e034748e0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:20 +0000
Subject: [PATCH 61/84] fix: a missing length is the same on both sides of a
 foreign key, however it is noted

---
 mygrations/core/definitions/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 425b90f..f5195c0 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -296,7 +296,8 @@ class Database:
         for attr in ['column_type', 'length', 'character_set', 'collate']:
             table_value = getattr(table_column, attr)
             foreign_value = getattr(foreign_column, attr)
-            if table_value != foreign_value:
+            # a missing value is None or an empty string, depending on where the column came from
+            if (table_value or None) != (foreign_value or None):
                 return "Constraint error for foreign key `%s`: %s mismatch. `%s`.`%s` is '%s' but `%s`.`%s` is '%s'" % (
                     constraint.name, attr.replace('_', ' '), table.name, constraint.column_name, table_value,
                     foreign_table.name, foreign_column.name, foreign_value
-- 
2.43.0


From 131fab933d7f78267dc802a52feab2130dcd61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 62/84] fix: name the table and values, not a memory address,
 when an insert's values do not match its columns

---
 mygrations/formats/mysql/file_reader/insert_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index c88fbb4..e4d270f 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -55,7 +55,9 @@ class InsertParser(Parser, Rows):
                 self._parsing_warnings.append('Missing comma between insert value groups')
 
             if self._num_explicit_columns and len(row.values) != self._num_explicit_columns:
-                self._parsing_errors.append('Insert values has different number of columns and values for %s' % (row))
+                self._parsing_errors.append(
+                    'Insert values has different number of columns and values for table %s: %s' % (self._table, row.values)
+                )
                 continue
 
             self._raw_rows.append(row.values)
-- 
2.43.0


From c29c4c7b53a168a83e51f8d31d0e19e146e2bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 63/84] fix: drop a changed foreign key although another one,
 dropped for a column type change, is replaced under its name

---
 .../formats/mysql/mygrations/mygration.py     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 1290019..0ffc045 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -221,7 +221,7 @@ class Mygration:
         """Finds foreign keys of tables which will be removed, but which are in the way until then
 
         :param tables_to_remove: List of table names being removed
-        :param cycled_fks: Set of (table_name, constraint_name) tuples which are dropped already
+        :param cycled_fks: Set of (operation class, table_name, constraint_name) tuples which are dropped already
         :returns: A list of operations to drop these foreign keys
         :rtype: list
         """
@@ -233,7 +233,7 @@ class Mygration:
         for table_name in tables_to_remove:
             alter = AlterTable(table_name)
             for constraint in self.db_from.tables[table_name].constraints.values():
-                if (table_name, constraint.name) in cycled_fks:
+                if (RemoveConstraint, table_name, constraint.name) in cycled_fks:
                     continue
                 target_table = self.db_to.tables.get(constraint.foreign_table_name)
                 if constraint.name in names_in_use or (
@@ -257,8 +257,9 @@ class Mygration:
 
         :param tables_to_update: List of table names being updated
         :returns: (drop_ops, add_ops, cycled_fk_names) where cycled_fk_names is a set of
-            (table_name, constraint_name) tuples for deduplication with table.to().
-            When source and target FK names differ, BOTH names are included in cycled_fk_names.
+            (operation class, table_name, constraint_name) tuples for deduplication with table.to().
+            When source and target FK names differ, the source name is only dropped here (and
+            the target name only added): another live FK may already use the target name.
         :rtype: tuple(list, list, set)
         """
         if not self.db_from:
@@ -342,9 +343,9 @@ class Mygration:
                 if add_key not in added_targets:
                     add_by_table.setdefault(table_name, []).append(AddConstraint(target_constraint))
                     added_targets.add(add_key)
-            cycled_fk_names.add((table_name, constraint_name))
-            if target_constraint_name and target_constraint_name != constraint_name:
-                cycled_fk_names.add((table_name, target_constraint_name))
+            cycled_fk_names.add((RemoveConstraint, table_name, constraint_name))
+            if target_constraint_name:
+                cycled_fk_names.add((AddConstraint, table_name, target_constraint_name))
 
         drop_ops = []
         for table_name, ops in drop_by_table.items():
@@ -370,7 +371,7 @@ class Mygration:
         (e.g. if the constraint definition also changed).  This method strips the duplicates.
 
         :param alter: An AlterTable operation from table.to()
-        :param cycled_fks: Set of (table_name, constraint_name) tuples being cycled
+        :param cycled_fks: Set of (operation class, table_name, constraint_name) tuples being cycled
         :returns: The AlterTable with duplicate FK operations removed (or original if no overlap)
         :rtype: AlterTable
         """
@@ -381,8 +382,7 @@ class Mygration:
         filtered = AlterTable(table_name)
         for op in alter:
             if isinstance(op, (AddConstraint, RemoveConstraint)):
-                constraint_name = op.constraint.name
-                if (table_name, constraint_name) in cycled_fks:
+                if (type(op), table_name, op.constraint.name) in cycled_fks:
                     continue
             filtered.add_operation(op)
 
-- 
2.43.0


From 83877cc14e8b30c188cbabeede566bf182a98cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 64/84] fix: keep leading spaces of a quoted configuration
 value when a comment follows

---
 mygrations/helpers/dotenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index 6866fc6..d3a3d97 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -170,7 +170,7 @@ class dotenv(dict):
 
             # check for a comment
             if value.count(comment, index):
-                value = value[:value.index(comment, index)].strip()
+                value = value[:value.index(comment, index)].rstrip()
 
             # our string should end at the closing quote, although safely ignore a closing semi-colon
             if len(value) > index + 1 and value[index + 1:].strip() != ';':
-- 
2.43.0


From 55ac1415994498de7687fc3a9e3622c703f6bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 65/84] fix: take a JSON object, even an empty one, but no
 other JSON as configuration

---
 mygrations/helpers/dotenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index d3a3d97..e817cd1 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -72,7 +72,7 @@ class dotenv(dict):
             pass
 
         # because if it is, this is very easy
-        if parsed:
+        if isinstance(parsed, dict):
             return parsed
 
         # This will hold our results
-- 
2.43.0


From b8b58dbe25b0b195037be791fae1e40cd7a62c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 66/84] fix: plan_export listed tables whose rows match the
 files, because the rows leave out columns

---
 mygrations/core/commands/plan_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/commands/plan_export.py b/mygrations/core/commands/plan_export.py
index cf59f7d..5f4b2cc 100644
--- a/mygrations/core/commands/plan_export.py
+++ b/mygrations/core/commands/plan_export.py
@@ -44,7 +44,8 @@ class PlanExport(Base):
                 continue
             live_database.read_rows(table)
 
-        rows = RowMygration(live_database, files_database)
+        # the files only fix the columns which their rows mention, so find the changed rows the way `plan` does
+        rows = RowMygration(files_database, live_database)
         if rows.operations:
             for op in rows.operations:
                 self.modified_tables[op.table_name] = True
-- 
2.43.0


From 5a234b9223b3f66afc96633c8f239a6956f554fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 67/84] fix: plan_export listed unchanged tables whose foreign
 keys depend on a changed column

---
 mygrations/core/commands/plan_export.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mygrations/core/commands/plan_export.py b/mygrations/core/commands/plan_export.py
index 5f4b2cc..445ac5d 100644
--- a/mygrations/core/commands/plan_export.py
+++ b/mygrations/core/commands/plan_export.py
@@ -3,7 +3,6 @@ from collections import OrderedDict
 from .base import Base
 from mygrations.formats.mysql.file_reader.database import Database as DatabaseParser
 from mygrations.formats.mysql.db_reader.database import Database as DatabaseReader
-from mygrations.formats.mysql.mygrations.mygration import Mygration
 from mygrations.formats.mysql.mygrations.row_mygration import RowMygration
 from mygrations.formats.mysql.mygrations.operations.row_insert import RowInsert
 import sys
@@ -24,15 +23,16 @@ class PlanExport(Base):
                 print(error, file=sys.stderr)
             return ([], False)
 
-        # we aren't outputting operations.  Instead we just need to know what tables
-        # have changed (either structure or records).  The easiest (and slightly hack)
-        # way to do that is to simply run an actual mygration and grab out the names
-        # of the tables that have changed.  Cheating, I know
+        # we aren't outputting operations.  Instead we just need to know what tables have changed (either structure or
+        # records).  Just compare them: the operations of a mygration may also involve tables which haven't changed
+        # (because their foreign keys are dropped for a while)
         self.modified_tables = {}
-        mygrate = Mygration(live_database, files_database, False)
-        if mygrate.operations:
-            for op in mygrate.operations:
-                self.modified_tables[op.table_name] = True
+        for table in live_database.tables.values():
+            if table.name not in files_database.tables or files_database.tables[table.name].to(table):
+                self.modified_tables[table.name] = True
+        for table in files_database.tables.values():
+            if table.name not in live_database.tables:
+                self.modified_tables[table.name] = True
 
         # we have to tell the live database to load records
         # for any tables we are tracking records for, according
-- 
2.43.0


From 992ad499c477bc9ff213abe528d824799d49fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 68/84] fix: a table option with an unclosed backtick in its
 value is an error

---
 mygrations/formats/mysql/file_reader/parsers/table_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index b930c8d..48eb307 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -14,7 +14,7 @@ class TableOption(Parser):
         'value': '='
     }, {
         'type': 'regexp',
-        'value': r"""(?:'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|[^\s;'"])+""",
+        'value': r"""(?:'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|[^\s;'"`])+""",
         'name': 'value'
     }]
 
-- 
2.43.0


From aaba31e82a7258b377793a079f045d9528ae5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 69/84] fix: a foreign key column may take its character set
 from the options of its table

---
 mygrations/core/definitions/database.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index f5195c0..c105417 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -257,6 +257,26 @@ class Database:
                     warnings.extend(row.parsing_warnings)
         return warnings
 
+    @staticmethod
+    def _effective_value(table, column, attr):
+        """ Returns the value of an attribute of a column, which may come from the options of its table
+
+        MySQL does not print the character set of a column if it is the one of the table
+
+        :param table: The table that the column belongs to
+        :param column: The column
+        :param attr: The name of the attribute
+        :rtype: string|None
+        """
+        value = getattr(column, attr) or None
+        if value or attr not in ['character_set', 'collate'] or (attr == 'collate' and column.character_set):
+            return value
+        names = ['CHARSET', 'CHARACTER SET'] if attr == 'character_set' else ['COLLATE']
+        for option in table.options:
+            if ' '.join(option.name.upper().split()).removeprefix('DEFAULT ') in names:
+                value = option.value.strip('\'"').upper()
+        return value
+
     def find_constraint_errors(self, table, constraint):
         """ Returns None or a string with an error message for the given table and constraint
 
@@ -297,7 +317,9 @@ class Database:
             table_value = getattr(table_column, attr)
             foreign_value = getattr(foreign_column, attr)
             # a missing value is None or an empty string, depending on where the column came from
-            if (table_value or None) != (foreign_value or None):
+            if (table_value or None) == (foreign_value or None):
+                continue
+            if self._effective_value(table, table_column, attr) != self._effective_value(foreign_table, foreign_column, attr):
                 return "Constraint error for foreign key `%s`: %s mismatch. `%s`.`%s` is '%s' but `%s`.`%s` is '%s'" % (
                     constraint.name, attr.replace('_', ' '), table.name, constraint.column_name, table_value,
                     foreign_table.name, foreign_column.name, foreign_value
-- 
2.43.0


From 10f34d3f22743712c72760f6d7c3978a06d6bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 70/84] fix: utf8mb3 is the same character set as utf8

---
 mygrations/core/definitions/columns/column.py | 10 ++++++++++
 mygrations/core/definitions/columns/string.py |  4 ++--
 mygrations/core/definitions/database.py       |  6 ++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 0e9e7d1..59a180c 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -241,6 +241,16 @@ class Column(Base):
         """Returns the SQL string literal for the given value"""
         return "'%s'" % value.replace("\\", "\\\\").replace("'", "\\'")
 
+    @staticmethod
+    def canonical_charset(value: str) -> str:
+        """Returns the name of a character set (or collation) in the form which can be compared
+
+        MySQL knows UTF8 by two names, and newer versions print the long one
+
+        :param value: The name of the character set or collation, in upper case, or None
+        """
+        return value.replace("UTF8MB3", "UTF8") if value else value
+
     def is_really_the_same_as(self, column: Column) -> bool:
         """Takes care of a pesky false-positive when checking columns
 
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index 9c2e994..5d61504 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -163,8 +163,8 @@ class String(Column):
         # if collate or character_set are different and *both* have a value,
         # then these aren't really the same
         for attr in ["collate", "character_set"]:
-            my_val = getattr(self, attr)
-            that_val = getattr(column, attr)
+            my_val = self.canonical_charset(getattr(self, attr))
+            that_val = self.canonical_charset(getattr(column, attr))
             if my_val and that_val and my_val != that_val:
                 return False
 
diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index c105417..1e0540a 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -269,12 +269,14 @@ class Database:
         :rtype: string|None
         """
         value = getattr(column, attr) or None
-        if value or attr not in ['character_set', 'collate'] or (attr == 'collate' and column.character_set):
+        if attr not in ['character_set', 'collate'] or (attr == 'collate' and not value and column.character_set):
             return value
+        if value:
+            return column.canonical_charset(value)
         names = ['CHARSET', 'CHARACTER SET'] if attr == 'character_set' else ['COLLATE']
         for option in table.options:
             if ' '.join(option.name.upper().split()).removeprefix('DEFAULT ') in names:
-                value = option.value.strip('\'"').upper()
+                value = column.canonical_charset(option.value.strip('\'"').upper())
         return value
 
     def find_constraint_errors(self, table, constraint):
-- 
2.43.0


From 8c3f646a132ca5425fe82e001819a802ffb21338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 71/84] fix: a column with a numeric length may be part of a
 foreign key

---
 mygrations/core/definitions/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 1e0540a..2dd11b4 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -269,6 +269,9 @@ class Database:
         :rtype: string|None
         """
         value = getattr(column, attr) or None
+        if attr == 'length' and value:
+            # a column may be given its length as a number
+            return str(value)
         if attr not in ['character_set', 'collate'] or (attr == 'collate' and not value and column.character_set):
             return value
         if value:
-- 
2.43.0


From d7d8ee71ebae00412d4912e0a7761c993cdb9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 72/84] fix: an INSERT may have any number of rows, a table any
 number of columns and indexes

---
 mygrations/core/parse/rule_children.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mygrations/core/parse/rule_children.py b/mygrations/core/parse/rule_children.py
index 2ebf7f9..9a25d06 100644
--- a/mygrations/core/parse/rule_children.py
+++ b/mygrations/core/parse/rule_children.py
@@ -52,13 +52,8 @@ class RuleChildren(RuleBase):
 
         # we need to keep looping through the children looking for matches
         # to the string until we no longer get any matches.  Then return.
-        c = 0
         while string:
 
-            c += 1
-            if c > 1000:
-                raise ValueError('Max depth reached')
-
             shortest_leftover = False
             best_match = False
             best_leftover = ''
@@ -89,6 +84,9 @@ class RuleChildren(RuleBase):
 
             # we have a match!
             if best_match:
+                # never loop forever: every match has to consume something
+                if len(best_leftover) >= len(string):
+                    raise ValueError('Max depth reached')
                 string = best_leftover
                 matches.append(best_match)
 
-- 
2.43.0


From 5cbc6872736eb7d6aace27a979ead4ac77c80389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 73/84] fix: NOT NULL may follow the default of a column of any
 type

---
 mygrations/formats/mysql/file_reader/parsers/type_character.py | 2 ++
 mygrations/formats/mysql/file_reader/parsers/type_datetime.py  | 2 ++
 mygrations/formats/mysql/file_reader/parsers/type_decimal.py   | 2 ++
 mygrations/formats/mysql/file_reader/parsers/type_enum.py      | 2 ++
 mygrations/formats/mysql/file_reader/parsers/type_numeric.py   | 2 ++
 mygrations/formats/mysql/file_reader/parsers/type_text.py      | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index be2a369..8d8be39 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -38,6 +38,8 @@ class TypeCharacter(Parser, Type):
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index b72f6ff..6900600 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -35,6 +35,8 @@ class TypeDateTime(Parser, Type):
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index cc5cb3a..6f58027 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -20,6 +20,8 @@ class TypeDecimal(Parser, Type):
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index a234735..400c6ca 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -19,6 +19,8 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index 6f5ad2a..975a588 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -30,6 +30,8 @@ class TypeNumeric(Parser, Type):
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "name": "default", "optional": True},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "literal", "value": "AUTO_INCREMENT", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index 59e6676..12f3ffa 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -30,6 +30,8 @@ class TypeText(Parser, Type):
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
-- 
2.43.0


From d194db7e51db6841448549486347a36f3c446da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 74/84] fix: PRIMARY KEY and NOT NULL may follow
 AUTO_INCREMENT, and PRIMARY KEY a type with a length

---
 .../mysql/file_reader/parsers/type_character.py       |  8 +++++++-
 .../formats/mysql/file_reader/parsers/type_numeric.py | 11 ++++++++++-
 .../formats/mysql/file_reader/parsers/type_plain.py   |  3 +++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index 8d8be39..e312f84 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -3,6 +3,8 @@ from .type import Type
 
 
 class TypeCharacter(Parser, Type):
+    _is_primary_key = False
+
     allowed_collation_types = {"char": True, "varchar": True}
 
     # in this case we have much less disallowed than allowed
@@ -34,12 +36,14 @@ class TypeCharacter(Parser, Type):
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
+        {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "optional": True, "name": "default"},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
+        {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
         {"type": "regexp", "value": r"""CHARACTER SET ('\w+'|"\w+"|\w+)""", "name": "character_set", "optional": True},
         {"type": "regexp", "value": r"""COLLATE ('\w+'|"\w+"|\w+)""", "name": "collate", "optional": True},
@@ -52,7 +56,9 @@ class TypeCharacter(Parser, Type):
         self._name = self._extract_name()
         self._column_type = self._normalize_type(self._values["type"])
         self._length = self._values["length"]
-        self._null = self._extract_null()
+        # the columns of the primary key can not be null, whether or not they say so
+        self._is_primary_key = "PRIMARY KEY" in self._values
+        self._null = self._extract_null() and not self._is_primary_key
         self._has_default = "default" in self._values
         self._default = self._values.get("default")
         if self._column_type.lower() == "bit":
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index 975a588..97e5e43 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -3,6 +3,8 @@ from .type import Type
 
 
 class TypeNumeric(Parser, Type):
+    _is_primary_key = False
+
     allowed_types = {
         "bit": True,
         "tinyint": True,
@@ -29,10 +31,15 @@ class TypeNumeric(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
+        {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {"type": "regexp", "value": Type.DEFAULT, "name": "default", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
+        {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {"type": "literal", "value": "AUTO_INCREMENT", "optional": True},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
+        {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
@@ -43,7 +50,9 @@ class TypeNumeric(Parser, Type):
         self._column_type = self._normalize_type(self._values["type"])
         self._length = self._values["length"]
         self._unsigned = "UNSIGNED" in self._values
-        self._null = self._extract_null()
+        # the columns of the primary key can not be null, whether or not they say so
+        self._is_primary_key = "PRIMARY KEY" in self._values
+        self._null = self._extract_null() and not self._is_primary_key
         self._has_default = "default" in self._values
         self._default = self._clean_bit(self._values.get("default"))
         self._auto_increment = "AUTO_INCREMENT" in self._values
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index b2630a1..8af9c03 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -30,6 +30,9 @@ class TypePlain(Parser, Type):
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {"type": "literal", "value": "AUTO_INCREMENT", "optional": True},
+        {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
+        {"type": "literal", "value": "NOT NULL", "optional": True},
+        {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
-- 
2.43.0


From edfe333f341c9dd1186a9a78dc2d8703b729e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 75/84] fix: table options may be separated by commas

---
 .../formats/mysql/file_reader/parsers/table_option.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index 48eb307..04cd85b 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -14,8 +14,13 @@ class TableOption(Parser):
         'value': '='
     }, {
         'type': 'regexp',
-        'value': r"""(?:'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|[^\s;'"`])+""",
+        'value': r"""(?:'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|[^\s,;'"`])+""",
         'name': 'value'
+    }, {
+        'type': 'literal',
+        'value': ',',
+        'optional': True,
+        'name': 'ending_comma'
     }]
 
     def process(self):
-- 
2.43.0


From ddd746033ab0e94d6b9a8eb86e07248543fc3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 76/84] fix: the option AUTO_INCREMENT is ignored in lower case
 as well

---
 mygrations/formats/mysql/file_reader/create_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 33caffd..f644bf4 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -91,7 +91,7 @@ class CreateParser(Table, Parser):
         self._primary = ""
 
         # ignore the AUTO_INCREMENT option: there is no reason for us to ever manage that
-        self._options = [opt for opt in self._options if opt.name != "AUTO_INCREMENT"]
+        self._options = [opt for opt in self._options if opt.name.upper() != "AUTO_INCREMENT"]
 
         for definition in self._definitions:
             if hasattr(definition, "as_definition"):
-- 
2.43.0


From 2ad0a9aed2446b8e456423644ec8c76d3d75ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 77/84] fix: a configuration file in the root directory is
 found as well

---
 mygrations/core/commands/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/commands/base.py b/mygrations/core/commands/base.py
index 97572ac..696010e 100644
--- a/mygrations/core/commands/base.py
+++ b/mygrations/core/commands/base.py
@@ -79,8 +79,8 @@ class Base(object):
         directories = ('%s/%s' % (os.getcwd(), file_path)).strip('/').split('/')
         filename = directories.pop()
         ndirectories = len(directories)
-        for i in range(ndirectories):
-            abs_path = '/%s/%s' % ('/'.join(directories[:ndirectories - i]), filename)
+        for i in range(ndirectories + 1):
+            abs_path = '/'.join(['', *directories[:ndirectories - i], filename])
             if os.path.isfile(abs_path):
                 return abs_path
 
-- 
2.43.0


From f8aed0a6658107a560fc55044a9990fac47a127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 78/84] fix: a backtick is no default value

---
 mygrations/formats/mysql/file_reader/parsers/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index a427c03..9f7ede5 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -7,7 +7,7 @@ class Type:
     # the value of a default: a bit literal, a string, a call to get the current time, or a single word
     DEFAULT = (
         r"""DEFAULT (b'[01]+'|'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|"""
-        r"""(?:CURRENT_TIMESTAMP|NOW|LOCALTIMESTAMP|LOCALTIME)\(\)|[^\(\s\),;'"]+)"""
+        r"""(?:CURRENT_TIMESTAMP|NOW|LOCALTIMESTAMP|LOCALTIME)\(\)|[^\(\s\),;'"`]+)"""
     )
     CURRENT_TIME = ["current_timestamp", "now", "localtimestamp", "localtime"]
 
-- 
2.43.0


From cf00cdbac5010c0176daaaca9f52823980e311b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 79/84] fix: a foreign key without a name gets its index unless
 one starts with its column

---
 .../formats/mysql/file_reader/create_parser.py    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index f644bf4..f3e6d24 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -127,10 +127,17 @@ class CreateParser(Table, Parser):
 
                 if isinstance(definition, ConstraintForeignBare):
                     col = definition._column_name
-                    has_index = col in self._indexes or any(col in idx._columns for idx in self._indexes.values())
-                    has_future_index = any(isinstance(d, Index) and col in d._columns for d in self._definitions)
-                    if not has_index and not has_future_index:
-                        self.add_index(Index(name=col, columns=[col], index_type="index"))
+                    # only an index which starts with the column will do
+                    indexes = [*self._indexes.values(), *(d for d in self._definitions if isinstance(d, Index))]
+                    has_index = any(index._columns[0] == col for index in indexes)
+                    if not has_index:
+                        # like MySQL: the name of the column, or else the first one of the form `column_2` that is free
+                        names = [index.name for index in indexes]
+                        name, number = col, 1
+                        while name in names:
+                            number += 1
+                            name = f"{col}_{number}"
+                        self.add_index(Index(name=name, columns=[col], index_type="index"))
 
             else:
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
-- 
2.43.0


From 2f0c66d5274819b9e57670af666e994ef2436ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 80/84] fix: a unique key without a name gets a free one

---
 .../formats/mysql/file_reader/create_parser.py  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index f3e6d24..e56bca3 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -106,6 +106,8 @@ class CreateParser(Table, Parser):
                     self.add_index(primary_index)
 
             elif isinstance(definition, Index):
+                if not definition._name and not definition.is_primary():
+                    definition._name = self._free_index_name(definition._columns[0], self._indexes)
                 if definition._name in self._indexes:
                     self._global_errors.append(f"Table '{self._name}' has two indexes named '{definition._name}'")
                     continue
@@ -131,12 +133,7 @@ class CreateParser(Table, Parser):
                     indexes = [*self._indexes.values(), *(d for d in self._definitions if isinstance(d, Index))]
                     has_index = any(index._columns[0] == col for index in indexes)
                     if not has_index:
-                        # like MySQL: the name of the column, or else the first one of the form `column_2` that is free
-                        names = [index.name for index in indexes]
-                        name, number = col, 1
-                        while name in names:
-                            number += 1
-                            name = f"{col}_{number}"
+                        name = self._free_index_name(col, [index.name for index in indexes])
                         self.add_index(Index(name=name, columns=[col], index_type="index"))
 
             else:
@@ -151,3 +148,11 @@ class CreateParser(Table, Parser):
 
         if not self.semicolon:
             self._global_errors.append("Missing ending semicolon for table %s" % self._name)
+
+    def _free_index_name(self, column_name, names):
+        """Names an index without a name like MySQL: after its first column, with the first free number if it is in use"""
+        name, number = column_name, 1
+        while name in names:
+            number += 1
+            name = f"{column_name}_{number}"
+        return name
-- 
2.43.0


From 3c7057669ce80e13c9886788a329dd8698963d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 81/84] fix: recognize the id of a row however it is written

---
 mygrations/core/definitions/table.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 8d8de30..05436de 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -1,11 +1,13 @@
 from __future__ import annotations
 from typing import Any, Dict, List, Set, Union
 from collections import OrderedDict
+import re
 from datetime import timedelta
 from decimal import Decimal, InvalidOperation
 from .rows import Rows
 from .option import Option
 from .columns.column import Column
+from .columns.numeric import Numeric
 from .index import Index
 from .constraint import Constraint
 from ..operations.create_table import CreateTable
@@ -21,6 +23,7 @@ class Table:
     _primary: Index = None
     _rows: Dict[int, List[Union[str, int]]] = None
     _tracking_rows: bool = False
+    _number = re.compile(r"\s*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]{1,2})?\s*", re.IGNORECASE)
     _schema_errors: List[str] = None
     _schema_warnings: List[str] = None
     _global_errors: List[str] = None
@@ -327,7 +330,7 @@ class Table:
                 continue
 
             # we need to know the id of this record
-            row_id = "" if values[id_index] is None else str(values[id_index])
+            row_id = "" if values[id_index] is None else self._as_row_id(values[id_index])
             if not row_id:
                 self._global_errors.append(
                     "Row is missing a value for the id column for table %s and row %s" % (self._name, values)
@@ -362,7 +365,7 @@ class Table:
         if self._rows is None:
             self._rows = OrderedDict()
 
-        row_id = str(row.get("id"))
+        row_id = self._as_row_id(row.get("id"))
         if not row_id:
             raise ValueError("Cannot manage records without an 'id' column and value")
         if row_id in self._rows:
@@ -587,6 +590,14 @@ class Table:
         # otherwise see if we can cheat and just convert to strings
         return str(val1) == str(val2)
 
+    def _as_row_id(self, value: Any) -> str:
+        """Returns the id of a row in the form in which it can be compared: 01, +1 and 1.0 are all the row with the number 1"""
+        row_id = str(self._from_driver(value))
+        if isinstance(self._columns.get("id"), Numeric) and self._number.fullmatch(row_id):
+            number = Decimal(row_id)
+            row_id = str(int(number)) if number == int(number) else format(number, "f").rstrip("0")
+        return row_id
+
     def _from_driver(self, value: Any) -> Any:
         """Converts values which the database driver returns as something that SQL files can not contain"""
         # binary columns.  SQL files are text, so if this fails then the value did not come from there
-- 
2.43.0


From 5e9d4e1ec7bb41296a36f381ac75ed28a953003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 82/84] fix: recognize the time of a row however it is written

---
 mygrations/core/definitions/table.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 05436de..72dc6f4 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 from typing import Any, Dict, List, Set, Union
 from collections import OrderedDict
 import re
-from datetime import timedelta
+from datetime import datetime, timedelta
 from decimal import Decimal, InvalidOperation
 from .rows import Rows
 from .option import Option
@@ -587,6 +587,13 @@ class Table:
             except InvalidOperation:
                 return False
 
+        # and dates with a time, e.g. 2020-01-01 00:00:00 for '2020-01-01'
+        if isinstance(val1, datetime) or isinstance(val2, datetime):
+            try:
+                return datetime.fromisoformat(str(val1)) == datetime.fromisoformat(str(val2))
+            except ValueError:
+                return False
+
         # otherwise see if we can cheat and just convert to strings
         return str(val1) == str(val2)
 
-- 
2.43.0


From 42dc901c0d2096dccac490a3ef9b92fe9b98e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 83/84] fix: recognize a CHAR value with trailing spaces, which
 the server does not keep

---
 mygrations/core/definitions/table.py          | 12 +++++++++++-
 mygrations/formats/mysql/definitions/table.py |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 72dc6f4..acf7e59 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -597,9 +597,19 @@ class Table:
         # otherwise see if we can cheat and just convert to strings
         return str(val1) == str(val2)
 
+    def _same_value(self, column_name: str, val1: Union[str, int], val2: Union[str, int]) -> bool:
+        """Returns true if the column ends up with the same content for both values"""
+        return self._loose_equal(self._without_padding(column_name, val1), self._without_padding(column_name, val2))
+
+    def _without_padding(self, column_name: str, value: Any) -> Any:
+        """CHAR columns do not keep trailing spaces"""
+        if isinstance(value, str) and column_name in self._columns and self._columns[column_name].column_type == "CHAR":
+            return value.rstrip(" ")
+        return value
+
     def _as_row_id(self, value: Any) -> str:
         """Returns the id of a row in the form in which it can be compared: 01, +1 and 1.0 are all the row with the number 1"""
-        row_id = str(self._from_driver(value))
+        row_id = self._without_padding("id", str(self._from_driver(value)))
         if isinstance(self._columns.get("id"), Numeric) and self._number.fullmatch(row_id):
             number = Decimal(row_id)
             row_id = str(int(number)) if number == int(number) else format(number, "f").rstrip("0")
diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 6966e69..de18c16 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -200,10 +200,10 @@ class Table(BaseTable):
             differences = False
             # columns which are just being added will start out with their default
             for col in deleted_cols:
-                if col in self.columns and not self._loose_equal(self.rows[row_id][col], self.columns[col].default):
+                if col in self.columns and not self._same_value(col, self.rows[row_id][col], self.columns[col].default):
                     differences = True
             for col in updated_cols:
-                if not self._loose_equal(self.rows[row_id][col], from_table.rows[row_id][col]):
+                if not self._same_value(col, self.rows[row_id][col], from_table.rows[row_id][col]):
                     differences = True
                     break
 
-- 
2.43.0


From 765da932fe04465bd9f477b39bf351d6cfd06b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 84/84] fix: contradictory attributes of a column are an error

---
 mygrations/core/parse/parser.py                      | 5 +++++
 mygrations/formats/mysql/file_reader/parsers/type.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/mygrations/core/parse/parser.py b/mygrations/core/parse/parser.py
index 6754e5b..a63eeaa 100644
--- a/mygrations/core/parse/parser.py
+++ b/mygrations/core/parse/parser.py
@@ -88,6 +88,11 @@ class Parser:
                 # otherwise just keep going
                 continue
 
+            # the same thing twice with different values can not be understood
+            if self._values.get(rule_parser.name, rule_parser.result) != rule_parser.result:
+                self.matched = False
+                return string
+
             # we did match!  Yeah!
             self._values[rule_parser.name] = rule_parser.result
             string = rule_parser.leftovers
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 9f7ede5..8325e5a 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -40,6 +40,8 @@ class Type:
         self._parsing_warnings = []
         self._schema_errors = []
         self._schema_warnings = []
+        if "bare_null" in self._values and "NOT NULL" in self._values:
+            self._parsing_errors.append("Column '%s' is both NULL and NOT NULL" % self._extract_name())
 
     def _extract_name(self):
         """Return the column name with surrounding backticks removed."""
-- 
2.43.0

