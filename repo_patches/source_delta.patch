From a99544e942d50b7c40af7871e48744adf780ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 01/54] fix: report unterminated or malformed triple-quoted
 strings at end of file

The lexer built source references beyond the end of the content (assertion
failure), and flagged a triple-quoted string whose closing quotes are the
last characters of a file as unterminated.
---
 trlc/lexer.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 259364b..7c80c4e 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -414,11 +414,6 @@ class TRLC_Lexer(Lexer_Base):
                 self.advance()
                 quotes_seen = 0
                 while quotes_seen < 3:
-                    self.advance()
-                    if self.cc == '"':
-                        quotes_seen += 1
-                    else:
-                        quotes_seen = 0
                     if self.nc is None:
                         self.mh.lex_error(
                             Source_Reference(lexer      = self,
@@ -427,6 +422,11 @@ class TRLC_Lexer(Lexer_Base):
                                              start_pos  = start_pos,
                                              end_pos    = self.lexpos),
                             "unterminated triple-quoted string")
+                    self.advance()
+                    if self.cc == '"':
+                        quotes_seen += 1
+                    else:
+                        quotes_seen = 0
             else:
                 while self.nc != '"':
                     if self.nc is None:
@@ -462,15 +462,11 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(self.lexpos,
+                                                          self.length - 1)),
                         "malformed triple-quoted string")
             quotes_seen = 0
             while quotes_seen < 3:
-                self.advance()
-                if self.cc == "'":
-                    quotes_seen += 1
-                else:
-                    quotes_seen = 0
                 if self.nc is None:
                     self.mh.lex_error(
                         Source_Reference(lexer      = self,
@@ -479,6 +475,11 @@ class TRLC_Lexer(Lexer_Base):
                                          start_pos  = start_pos,
                                          end_pos    = self.lexpos),
                         "unterminated triple-quoted string")
+                self.advance()
+                if self.cc == "'":
+                    quotes_seen += 1
+                else:
+                    quotes_seen = 0
 
         elif self.is_numeric(self.cc):
             # lobster-trace: LRM.Integers
-- 
2.43.0


From 282552ddd4f751ca02b32c94028774ed136694ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 02/54] fix: do not treat /*/ as a complete comment

The asterisk opening the comment was also accepted as the first character
of the closing delimiter, so the comment text was lexed as source.
---
 trlc/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 7c80c4e..14dddfc 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -342,6 +342,8 @@ class TRLC_Lexer(Lexer_Base):
         elif self.cc == "/" and self.nc == "*":
             # lobster-trace: LRM.Comments
             kind = "COMMENT"
+            self.advance()
+            self.advance()
             while self.nc and not (self.cc == "*" and self.nc == "/"):
                 self.advance()
             self.advance()
-- 
2.43.0


From 11080f823c0bf7a8d859d599ec103bbfe7f4369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 03/54] fix: value of triple-quoted strings

Trailing whitespace was not removed from the first line, and characters
such as form feed or U+2028 were turned into line breaks (only a newline
starts a new line).
---
 trlc/lexer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 14dddfc..1791ddf 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -31,13 +31,11 @@ def triple_quoted_string_value(raw_value):
     assert raw_value.startswith("'''") or raw_value.startswith('"""')
     assert raw_value[:3] == raw_value[-3:]
 
-    lines = raw_value[3:-3].strip().splitlines()
-    if not lines:
-        return ""
+    lines = raw_value[3:-3].strip().split("\n")
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-    value      = lines[0]
+    value      = lines[0].rstrip()
     common_ws  = ""
     common_len = 0
     if len(non_empty_lines) >= 2:
-- 
2.43.0


From 64028c70c505e099b3cb22e3694d51ea8b171550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 04/54] fix: report over-long numeric literals instead of
 crashing

Python limits the number of digits it converts; exceeding that limit
raised an unhandled ValueError.
---
 trlc/lexer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 1791ddf..7e76f71 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -608,7 +608,10 @@ class TRLC_Lexer(Lexer_Base):
             # lobster-trace: LRM.Integer_Values
             base_text = sref.text().replace("_", "")
             if int_base == 10:
-                value = int(base_text)
+                try:
+                    value = int(base_text)
+                except ValueError:
+                    self.mh.lex_error(sref, "integer literal is too long")
             elif int_base == 2:
                 value = int(base_text[2:], base=2)
             else:
@@ -616,7 +619,10 @@ class TRLC_Lexer(Lexer_Base):
 
         elif kind == "DECIMAL":
             # lobster-trace: LRM.Decimal_Values
-            value = Fraction(sref.text().replace("_", ""))
+            try:
+                value = Fraction(sref.text().replace("_", ""))
+            except ValueError:
+                self.mh.lex_error(sref, "decimal literal is too long")
 
         elif kind == "COMMENT":
             value = sref.text()
-- 
2.43.0


From 6da8f1b22d25dace2738d31034c24275f5c9fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 05/54] fix: report truncated source files instead of crashing

Three places used the location of the next token without checking if
there is one.
---
 trlc/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5c75a4c..936dfab 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -637,7 +637,7 @@ class Parser(Parser_Base):
             elif self.peek("OPERATOR") and self.nt.value == "*":
                 self.match("OPERATOR")
             else:
-                self.mh.error(self.nt.location,
+                self.mh.error((self.nt or self.ct).location,
                               "expected INTEGER or * for upper bound")
             t_hi = self.ct
             loc_hi = self.ct.location
@@ -1593,7 +1593,7 @@ class Parser(Parser_Base):
                 elif self.peek("STRING"):
                     has_extrainfo = True
                 else:
-                    self.mh.error(self.nt.location,
+                    self.mh.error((self.nt or self.ct).location,
                                   "expected either a details string or"
                                   " identifier to anchor the check message")
 
@@ -1820,7 +1820,7 @@ class Parser(Parser_Base):
 
         elif isinstance(typ, ast.Tuple_Type) and typ.has_separators():
             # lobster-trace: LRM.Tuple_Separator_Form
-            rv = ast.Tuple_Aggregate(self.nt.location, typ)
+            rv = ast.Tuple_Aggregate((self.nt or self.ct).location, typ)
 
             next_is_optional = False
             for n_item in typ.iter_sequence():
-- 
2.43.0


From 4d0a8cfedd992f88efd9fb0f6647aacb30e8d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 06/54] fix: report wrong number of parameters for type
 conversions

The error message used an attribute that only functions have.
---
 trlc/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 936dfab..267328c 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1270,12 +1270,12 @@ class Parser(Parser_Base):
             if required_arity != len(parameters):
                 self.mh.error(t_name.location,
                               "function requires %u parameters" %
-                              n_name.arity)
+                              required_arity)
         else:
             if required_arity > len(parameters):
                 self.mh.error(t_name.location,
                               "function requires at least %u parameters" %
-                              n_name.arity)
+                              required_arity)
 
         # Enforce types
         if n_name.name == "len":
-- 
2.43.0


From c3d64d298245c8750257c1bf09dfce7df551984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 07/54] fix: report membership test in null instead of crashing

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 267328c..78c4544 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -916,7 +916,7 @@ class Parser(Parser_Base):
                 self.mh.error(
                     n_a.location,
                     "membership test only defined for Strings and Arrays,"
-                    " not for %s" % n_a.typ.name)
+                    " not for %s" % (n_a.typ.name if n_a.typ else "null"))
 
             if t_not is not None:
                 a_unary_op = ast.Unary_Operator.LOGICAL_NOT
-- 
2.43.0


From e517f6e955b23857fcff9211b61416ad8c346828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 08/54] fix: require separators before mandatory tuple fields

The separator could be left out, as long as a value followed.
---
 trlc/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 78c4544..1a51650 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1828,6 +1828,10 @@ class Parser(Parser_Base):
                     if next_is_optional and n_item.optional:
                         break
                     value = self.parse_value(n_item.n_typ)
+                    if next_is_optional:
+                        self.mh.error(value.location,
+                                      "expected separator before tuple"
+                                      " field %s" % n_item.name)
                     rv.assign(n_item.name, value)
 
                 elif n_item.token.kind in ("AT", "COLON", "SEMICOLON"):
-- 
2.43.0


From 80a951d833931f93a5671f5c9594e5e1e5d69604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 09/54] fix: null operands of logical operators, oneof, and
 quantifiers are errors

Null is only permitted in (in)equality, but the rhs of and, or, and
implies, and the choices of oneof, were not checked; a quantifier body
evaluating to null crashed.
---
 trlc/ast.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ff2acf9..45b36cf 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1636,23 +1636,17 @@ class Binary_Expression(Expression):
         # Check for the short-circuit operators first
         if self.operator == Binary_Operator.LOGICAL_AND:
             assert isinstance(v_lhs.value, bool)
-            if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
-            else:
+            if not v_lhs.value:
                 return v_lhs
 
         elif self.operator == Binary_Operator.LOGICAL_OR:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
                 return v_lhs
-            else:
-                return self.n_rhs.evaluate(mh, context, gstab)
 
         elif self.operator == Binary_Operator.LOGICAL_IMPLIES:
             assert isinstance(v_lhs.value, bool)
-            if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
-            else:
+            if not v_lhs.value:
                 return Value(location = self.location,
                              value    = True,
                              typ      = self.typ)
@@ -1667,7 +1661,13 @@ class Binary_Expression(Expression):
                      (self.to_string(),
                       mh.cross_file_reference(self.location)))
 
-        if self.operator == Binary_Operator.LOGICAL_XOR:
+        if self.operator in (Binary_Operator.LOGICAL_AND,
+                             Binary_Operator.LOGICAL_OR,
+                             Binary_Operator.LOGICAL_IMPLIES):
+            assert isinstance(v_rhs.value, bool)
+            return v_rhs
+
+        elif self.operator == Binary_Operator.LOGICAL_XOR:
             assert isinstance(v_lhs.value, bool)
             assert isinstance(v_rhs.value, bool)
             return Value(location = self.location,
@@ -2049,8 +2049,16 @@ class OneOf_Expression(Expression):
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
-        v_choices = [n_choice.evaluate(mh, context, gstab).value
-                     for n_choice in self.choices]
+        v_choices = []
+        for n_choice in self.choices:
+            v_choice = n_choice.evaluate(mh, context, gstab)
+            if v_choice.value is None:
+                mh.error(v_choice.location,
+                         "choice %s of %s (%s) must not be null" %
+                         (n_choice.to_string(),
+                          self.to_string(),
+                          mh.cross_file_reference(self.location)))
+            v_choices.append(v_choice.value)
 
         return Value(location = self.location,
                      value    = v_choices.count(True) == 1,
@@ -2312,6 +2320,12 @@ class Quantified_Expression(Expression):
         for binding in array_values.value:
             new_ctx[self.n_var.name] = binding
             result = self.n_expr.evaluate(mh, new_ctx, gstab)
+            if result.value is None:
+                mh.error(result.location,
+                         "body of quantified expression %s (%s) "
+                         "must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
             assert isinstance(result.value, bool)
             if self.universal and not result.value:
                 rv  = False
-- 
2.43.0


From 28e88a8bc37fd6b3f2fca5057ef9103745c61be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 10/54] fix: report quantifiers in static contexts instead of
 crashing

---
 trlc/ast.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 45b36cf..6e30ce4 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2296,9 +2296,10 @@ class Quantified_Expression(Expression):
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
         if context is None:
-            new_ctx = {}
-        else:
-            new_ctx = copy(context)
+            mh.error(self.location,
+                     "cannot be used in a static context")
+
+        new_ctx = copy(context)
 
         # This is going to be a bit tricky. We essentially eliminate
         # the quantifier and substitute; for the sake of making better
-- 
2.43.0


From 45599dabc146a5fd04a240201305c1da84e5bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 11/54] fix: array index equal to the array length is out of
 range

This caused an unhandled IndexError.
---
 trlc/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 6e30ce4..ae18bed 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1806,13 +1806,13 @@ class Binary_Expression(Expression):
                          (self.to_string(),
                           mh.cross_file_reference(self.location)))
             elif v_lhs.typ.upper_bound is not None and \
-                 v_rhs.value > v_lhs.typ.upper_bound:
+                 v_rhs.value >= v_lhs.typ.upper_bound:
                 mh.error(v_rhs.location,
-                         "index cannot be more than %u in %s (%s)" %
-                         (v_lhs.typ.upper_bound,
+                         "index cannot be more than %i in %s (%s)" %
+                         (v_lhs.typ.upper_bound - 1,
                           self.to_string(),
                           mh.cross_file_reference(self.location)))
-            elif v_rhs.value > len(v_lhs.value):
+            elif v_rhs.value >= len(v_lhs.value):
                 mh.error(v_lhs.location,
                          "array is not big enough in %s (%s)" %
                          (self.to_string(),
-- 
2.43.0


From f960561e9d7d22855100715682aa3bd9e2ea18dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 12/54] fix: record references are equal only if they refer to
 the same record

References were evaluated to the fields of their target, so two different
records whose types have no components (or only frozen ones) were
considered equal.
---
 trlc/ast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ae18bed..5b68a60 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -62,7 +62,7 @@ class Value:
 
     :attribute value: the value or None (for null values)
     :type: str, int, bool, fractions.Fraction, list[Value], \
-    Record_Reference, Enumeration_Literal_Spec
+    Record_Object, Enumeration_Literal_Spec
 
     :attribute typ: type of the value (or None for null values)
     :type: Type
@@ -76,7 +76,7 @@ class Value:
                                list,  # for arrays
                                dict,  # for tuples
                                Fraction,
-                               Record_Reference,
+                               Record_Object,
                                Enumeration_Literal_Spec))
         assert typ is None or isinstance(typ, Type)
         assert (typ is None) == (value is None)
@@ -1147,7 +1147,7 @@ class Record_Reference(Expression):
         assert isinstance(mh, Message_Handler)
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
-        return Value(self.location, copy(self.target.field), self.typ)
+        return Value(self.location, self.target, self.typ)
 
     def resolve_references(self, mh):
         # lobster-trace: LRM.References_To_Extensions
@@ -1893,6 +1893,8 @@ class Field_Access_Expression(Expression):
             # lobster-trace: LRM.Dereference
             mh.error(self.n_prefix.location,
                      "null dereference")
+        if isinstance(v_prefix, Record_Object):
+            v_prefix = v_prefix.field
 
         # lobster-trace: LRM.Union_Type_Partial_Field_Access
         # lobster-trace: LRM.Union_Type_Partial_Field_Null
-- 
2.43.0


From eaad5e0e3049324d0eaa1a746498000097ff3612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 13/54] fix: array membership ignored items of a different but
 compatible type

X in A is defined as (exists item in A => item == X), but the test also
compared the declared types. For example a reference of an extension type
was never found in an array of its parent type.
---
 trlc/ast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 5b68a60..4e16478 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1732,7 +1732,8 @@ class Binary_Expression(Expression):
             assert isinstance(v_rhs.value, list)
 
             return Value(location = self.location,
-                         value    = v_lhs in v_rhs.value,
+                         value    = any(v_item.value == v_lhs.value
+                                        for v_item in v_rhs.value),
                          typ      = self.typ)
 
         elif self.operator == Binary_Operator.PLUS:
-- 
2.43.0


From b54f09eb5f0b9efd40a34878bae9a327108cf639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 14/54] fix: permit equality between a record type and its
 extensions

LRM.Equality_Domain considers these types compatible.
---
 trlc/ast.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 4e16478..17a9e74 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1505,6 +1505,13 @@ class Binary_Expression(Expression):
                                  "type mismatch: %s and %s do not match" %
                                  (self.n_lhs.typ.name,
                                   self.n_rhs.typ.name))
+            elif isinstance(self.n_lhs.typ, Record_Type) and \
+                 isinstance(self.n_rhs.typ, Record_Type) and \
+                 (self.n_lhs.typ.is_subclass_of(self.n_rhs.typ) or
+                  self.n_rhs.typ.is_subclass_of(self.n_lhs.typ)):
+                # We can compare record references if one type extends
+                # the other
+                pass
             elif self.n_lhs.typ != self.n_rhs.typ:
                 # Otherwise we can compare anything, as long as the
                 # types match
-- 
2.43.0


From c7257a5426ce466e888c87e6305ae56aac337ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 15/54] fix: permit access to inherited fields of record
 references

For a reference to an extension only the fields declared on the extension
itself could be accessed.
---
 trlc/ast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 17a9e74..420c6f5 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1878,7 +1878,9 @@ class Field_Access_Expression(Expression):
         self.is_union_access = is_union_access
         self.is_universal    = is_universal
 
-        if not is_union_access:
+        if not is_union_access and \
+           not (isinstance(self.n_prefix.typ, Record_Type) and
+                self.n_prefix.typ.is_subclass_of(self.n_field.member_of)):
             self.n_prefix.ensure_type(mh, self.n_field.member_of)
 
     def dump(self, indent=0):  # pragma: no cover
-- 
2.43.0


From 265a967c8631b4699b668de5f070d7d554435575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 16/54] fix: array membership tests require the matching
 enumeration or tuple type

Any enumeration was accepted on the left-hand side for an array of a
different enumeration (likewise for tuples).
---
 trlc/ast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 420c6f5..e6dc92c 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1536,7 +1536,11 @@ class Binary_Expression(Expression):
 
         elif operator == Binary_Operator.ARRAY_CONTAINS:
             self.n_rhs.ensure_type(mh, Array_Type)
-            self.n_lhs.ensure_type(mh, self.n_rhs.typ.element_type.__class__)
+            n_element_typ = self.n_rhs.typ.element_type
+            if isinstance(n_element_typ, (Enumeration_Type, Tuple_Type)):
+                self.n_lhs.ensure_type(mh, n_element_typ)
+            else:
+                self.n_lhs.ensure_type(mh, n_element_typ.__class__)
 
         elif operator == Binary_Operator.PLUS:
             if isinstance(self.n_lhs.typ, Builtin_Numeric_Type):
-- 
2.43.0


From 1d30e98f4adc8b980edfce38fdf8e1ae1d2660ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 17/54] fix: evaluate tuple checks for all elements of an array

The first element failing a check hid all failures in the elements
following it.
---
 trlc/ast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index e6dc92c..0087563 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2598,8 +2598,11 @@ class Array_Type(Type):
         assert isinstance(gstab, Symbol_Table)
 
         if isinstance(value, Array_Aggregate):
-            return all(self.element_type.perform_type_checks(mh, v, gstab)
-                       for v in value.value)
+            ok = True
+            for v in value.value:
+                if not self.element_type.perform_type_checks(mh, v, gstab):
+                    ok = False
+            return ok
         else:
             assert isinstance(value, Implicit_Null)
             return True
-- 
2.43.0


From da97939c20ab6ee6f4515b3352d716bf5227b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 18/54] fix: evaluate tuple checks for nested tuples

The checks of a tuple type were ignored when it was used inside another
tuple.
---
 trlc/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 0087563..852bd85 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3132,6 +3132,10 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
+            for n_field in self.components.values():
+                if not n_field.n_typ.perform_type_checks(
+                        mh, value.value[n_field.name], gstab):
+                    ok = False
             for check in self.iter_checks():
                 if not check.perform(mh, value, gstab):
                     ok = False
-- 
2.43.0


From 0d7e79b7f06514c2a7afc07b03d1515fc32b0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 19/54] fix: linter crash on ambiguous separators before an
 enumeration field

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 852bd85..c2f0908 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3222,7 +3222,7 @@ class Enumeration_Type(Concrete_Type):
         # lobster-exclude: utility method
         options = list(self.literals.values())
         if options:
-            choice = len(options) // 2
+            choice = options[len(options) // 2]
             return self.name + "." + choice.name
         else:
             return "ERROR"
-- 
2.43.0


From ad076e59b0daf122fd1f9519c6d3d6530d4d5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 20/54] fix: enforce an array upper bound of zero

---
 trlc/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 1a51650..d0463d9 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1763,7 +1763,8 @@ class Parser(Parser_Base):
                               (typ.lower_bound,
                                len(rv.value)),
                               fatal=False)
-            if typ.upper_bound and len(rv.value) > typ.upper_bound:
+            if typ.upper_bound is not None and \
+               len(rv.value) > typ.upper_bound:
                 self.mh.error(rv.value[typ.upper_bound].location,
                               "this array requires at most %u elements "
                               "(%u provided)" %
-- 
2.43.0


From d9f9df7f50516aa5e727d44177cba6b5fde608a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 21/54] fix: --verify crash on range, division, index, or oneof
 in quantifiers

---
 trlc/vcg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 5eee6ec..4734d96 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -166,9 +166,8 @@ class VCG:
         assert isinstance(bool_expr, smt.Expression)
         assert bool_expr.sort is smt.BUILTIN_BOOLEAN
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -186,9 +185,8 @@ class VCG:
         assert isinstance(int_expr, smt.Expression)
         assert int_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -207,9 +205,8 @@ class VCG:
         assert isinstance(real_expr, smt.Expression)
         assert real_expr.sort is smt.BUILTIN_REAL
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -231,9 +228,8 @@ class VCG:
         assert index_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Binary_Expression)
         assert origin.operator == Binary_Operator.INDEX
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
-- 
2.43.0


From 6ea1b5ece9224f1b8ed096efde87c53f24b3f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 22/54] fix: linter crash and false warning for tuples with
 several separators

---
 trlc/lint.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 9002cb8..0723041 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -137,21 +137,16 @@ class Linter:
                     "separator_based_literal_ambiguity",
                     "\n".join(explanation))
 
-            elif isinstance(n_item, ast.Composite_Component) and \
-               isinstance(n_item.n_typ, ast.Builtin_Integer):
-                previous_was_int = True
+            if isinstance(n_item, ast.Composite_Component):
+                previous_was_int     = isinstance(n_item.n_typ,
+                                                  ast.Builtin_Integer)
+                previous_was_bad_sep = False
 
-            elif isinstance(n_item, ast.Separator) and \
-                 previous_was_int and \
-                 n_item.to_string() in ("x", "b"):
+            elif previous_was_int and n_item.to_string() in ("x", "b"):
                 previous_was_bad_sep = True
                 bad_separator        = n_item.to_string()
                 location             = n_item.location
 
-            else:
-                previous_was_int     = False
-                previous_was_bad_sep = False
-
         # Walk over components
         for n_component in n_tuple_type.components.values():
             self.verify_type(n_component.n_typ)
-- 
2.43.0


From f8c84ce823b6592608401a697f4d45eea657a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 23/54] fix: text representation of tuple values

---
 trlc/ast.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index c2f0908..de9889c 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1050,18 +1050,16 @@ class Tuple_Aggregate(Expression):
             rv = "("
         for n_item in self.typ.iter_sequence():
             if isinstance(n_item, Separator):
-                rv += " %s " % n_item.token.value
+                rv += " %s " % n_item.to_string()
             elif first:
                 first = False
-            else:
+            elif not self.typ.has_separators():
                 rv += ", "
 
             if isinstance(n_item, Composite_Component):
                 rv += self.value[n_item.name].to_string()
-        if self.typ.has_separators():
-            rv = ""
-        else:
-            rv = ")"
+        if not self.typ.has_separators():
+            rv += ")"
         return rv
 
     def evaluate(self, mh, context, gstab):
-- 
2.43.0


From 763c00b5fa3f8ac6c2d20c9e9e70849143e50723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 24/54] fix: report regular expressions with too large
 repetitions

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index d0463d9..6b63802 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1314,7 +1314,7 @@ class Parser(Parser_Base):
                 value = parameters[1].evaluate(self.mh, None, None)
                 assert isinstance(value.typ, ast.Builtin_String)
                 re.compile(value.value)
-            except re.error as err:
+            except (re.error, OverflowError, RecursionError) as err:
                 self.mh.error(value.location,
                               str(err))
             return ast.Binary_Expression(
-- 
2.43.0


From e5767cd3c1281e3970bc2369c69cff021eac9595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 25/54] fix: order of unused import messages depended on memory
 layout

---
 trlc/lint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 0723041..4ab4f7d 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -229,7 +229,8 @@ class Linter:
                 continue
             if not file.cu.imports:
                 continue
-            for item in file.cu.imports:
+            for item in sorted(file.cu.imports,
+                               key=lambda n_pkg: n_pkg.name):
                 import_tokens = [t for t in file.lexer.tokens
                                  if t.value == item.name]
                 markup = self.markup_ref(item,
-- 
2.43.0


From 0742ec324ed4938bf131b1244c0d7582c716af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:45 +0000
Subject: [PATCH 26/54] fix: end column of tokens following a line break at the
 start of a file

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 7e76f71..2764f4f 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -113,7 +113,7 @@ class Source_Reference(Location):
         end_line = self.line_no + lines_in_between
 
         end_col = self.end_pos + 1
-        for n in range(self.end_pos, 1, -1):
+        for n in range(self.end_pos, -1, -1):
             if self.lexer.content[n] == "\n":
                 end_col = max(self.end_pos - n, 1)
                 break
-- 
2.43.0


From 81fad3cae645d84818694736a3ffab8071d90bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 27/54] fix: do not parse the body of RSL files with a broken
 preamble

---
 trlc/trlc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5d7f5dd..9494578 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -418,11 +418,14 @@ class Source_Manager:
                 return False
 
             for node in sorted(candidates):
-                try:
-                    ok &= rsl_map[node].parse_rsl_file()
-                    self.signal_progress()
-                except TRLC_Error:
-                    ok = False
+                # If the preamble is already broken, then there is no
+                # point in continuing with this file
+                if rsl_map[node].cu.imports is not None:
+                    try:
+                        ok &= rsl_map[node].parse_rsl_file()
+                        self.signal_progress()
+                    except TRLC_Error:
+                        ok = False
                 processed.add(node)
 
             work_list -= candidates
-- 
2.43.0


From d4f6dab8418e443a47187faa65586c7b5a15b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 28/54] fix: --verify crash on conversions to the type of the
 operand

---
 trlc/vcg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 4734d96..fc76e42 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -879,10 +879,16 @@ class VCG:
             sym_value = smt.Sequence_Length(operand_value)
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_DECIMAL:
-            sym_value = smt.Conversion_To_Real(operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Decimal):
+                sym_value = operand_value
+            else:
+                sym_value = smt.Conversion_To_Real(operand_value)
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_INT:
-            sym_value = smt.Conversion_To_Integer("rna", operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Integer):
+                sym_value = operand_value
+            else:
+                sym_value = smt.Conversion_To_Integer("rna", operand_value)
 
         else:
             self.mh.ice_loc(n_expr,
-- 
2.43.0


From d3427122774ae32262701168e51961e98c0dde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 29/54] fix: --verify crash if the solver does not provide a
 usable model

---
 trlc/vcg.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index fc76e42..42303ef 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -379,7 +379,14 @@ class VCG:
             for name, value in CVC5_OPTIONS.items():
                 solver.set_solver_option(name, value)
 
-            status, values = vc["script"].solve_vc(solver)
+            try:
+                status, values = vc["script"].solve_vc(solver)
+            except (RuntimeError, ValueError):
+                # The solver may not be able to provide a usable model
+                # (e.g. it ran out of time, or the model is too big)
+                if solver.result is None:
+                    raise
+                status, values = "unknown", {}
 
             message = vc["feedback"].message
             if self.debug:  # pragma: no cover
-- 
2.43.0


From 91011594b7698543a3920e683515a3bb9ba90c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 30/54] fix: unknown imports do not prevent a result

---
 trlc/ast.py  | 8 +++++---
 trlc/trlc.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index de9889c..2b50832 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -263,15 +263,17 @@ class Compilation_Unit(Node):
         assert isinstance(mh, Message_Handler)
         assert isinstance(stab, Symbol_Table)
         self.imports = set()
+        ok = True
         for t_import in self.raw_imports:
-            # We can ignore errors here, because that just means we
-            # generate more error later.
+            # We can continue after errors here, because that just
+            # means we generate more error later.
             try:
                 a_import = stab.lookup(mh, t_import, Package)
                 self.imports.add(a_import)
                 a_import.set_ast_link(t_import)
             except TRLC_Error:
-                pass
+                ok = False
+        return ok
 
     def is_visible(self, n_pkg):
         # lobster-trace: LRM.Import_Visibility
diff --git a/trlc/trlc.py b/trlc/trlc.py
index 9494578..074350f 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -341,7 +341,7 @@ class Source_Manager:
                 if parser.cu.package is None:
                     continue
                 pkg_name = parser.cu.package.name
-                parser.cu.resolve_imports(self.mh, self.stab)
+                ok &= parser.cu.resolve_imports(self.mh, self.stab)
 
                 graph[(pkg_name , kind)] |= \
                     {(imported_pkg.name , kind)
-- 
2.43.0


From 71210443349b030a370d3b5d569eabe2128167e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 31/54] fix: --verify crash on types first used in a reference

---
 trlc/vcg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 42303ef..6d77a37 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -696,7 +696,7 @@ class VCG:
                 for n_lit in n_type.literals.values():
                     s_sort.add_literal(n_lit.name)
                 self.enumerations[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Enumeration_Declaration(
                         s_sort,
                         "enumeration %s from %s" % (
@@ -715,7 +715,7 @@ class VCG:
                         s_sort.add_component(n_component.name + ".valid",
                                              smt.BUILTIN_BOOLEAN)
                 self.tuples[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Record_Declaration(
                         s_sort,
                         "tuple %s from %s" % (
-- 
2.43.0


From 75b340e32eb0dbe0e1c4362f4dddd0abe0ec96f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 32/54] fix: --verify crash on integer literals that do not fit
 32 bits

---
 trlc/vcg.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 6d77a37..ec9c8eb 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -123,6 +123,16 @@ class VCG:
         assert isinstance(node, Node)
         raise Unsupported(node, text)
 
+    @staticmethod
+    def create_integer_literal(value):
+        assert isinstance(value, int)
+        if -2**31 <= value < 2**31:
+            return smt.Integer_Literal(value)
+
+        # The CVC5 API only accepts small values for integers, but can
+        # deal with any rational number.
+        return smt.Conversion_To_Integer("rtn", smt.Real_Literal(value))
+
     def new_temp_name(self):
         self.tmp_id += 1
         return "tmp.%u" % self.tmp_id
@@ -647,7 +657,8 @@ class VCG:
         # length
         if isinstance(n_component.n_typ, Array_Type):
             if n_component.n_typ.lower_bound > 0:
-                s_lower = smt.Integer_Literal(n_component.n_typ.lower_bound)
+                s_lower = self.create_integer_literal(
+                    n_component.n_typ.lower_bound)
                 gn_locals.add_statement(
                     smt.Assertion(
                         smt.Comparison(">=",
@@ -655,7 +666,8 @@ class VCG:
                                        s_lower)))
 
             if n_component.n_typ.upper_bound is not None:
-                s_upper = smt.Integer_Literal(n_component.n_typ.upper_bound)
+                s_upper = self.create_integer_literal(
+                    n_component.n_typ.upper_bound)
                 gn_locals.add_statement(
                     smt.Assertion(
                         smt.Comparison("<=",
@@ -795,7 +807,7 @@ class VCG:
             value = smt.Boolean_Literal(n_expr.value)
 
         elif isinstance(n_expr, Integer_Literal):
-            value = smt.Integer_Literal(n_expr.value)
+            value = self.create_integer_literal(n_expr.value)
 
         elif isinstance(n_expr, Decimal_Literal):
             value = smt.Real_Literal(n_expr.value)
-- 
2.43.0


From 77aa1597b194677d43ae8ffe8d44c59ca19e4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 33/54] fix: union field access confused by unrelated fields of
 extensions

---
 trlc/ast.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 2b50832..cfa45ba 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1908,6 +1908,14 @@ class Field_Access_Expression(Expression):
             mh.error(self.n_prefix.location,
                      "null dereference")
         if isinstance(v_prefix, Record_Object):
+            n_field = v_prefix.n_typ.components.lookup_assuming(
+                mh, self.n_field.name)
+            if self.is_union_access and \
+               n_field is not None and \
+               n_field.n_typ is not self.n_field.n_typ:
+                # An extension of a member type without this field can
+                # declare an unrelated field with the same name.
+                return Value(self.location, None, None)
             v_prefix = v_prefix.field
 
         # lobster-trace: LRM.Union_Type_Partial_Field_Access
-- 
2.43.0


From 48af2716f511f8c4a37dc52c616b42c13cf3b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 34/54] fix: evaluate checks of nested tuples in order of
 declaration

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index cfa45ba..989ee42 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3140,7 +3140,7 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
-            for n_field in self.components.values():
+            for n_field in self.all_components():
                 if not n_field.n_typ.perform_type_checks(
                         mh, value.value[n_field.name], gstab):
                     ok = False
-- 
2.43.0


From 2bd7ffaa888496f82916ff98750dba701656e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 35/54] fix: compute the common root of files by path component

The previous code compared characters, so that the root could end in
the middle of a directory name, and kept the deeper of two directories
if one contains the other.
---
 trlc/trlc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 074350f..344c113 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -143,11 +143,8 @@ class Source_Manager:
             self.common_root = os.path.dirname(os.path.abspath(file_name))
         else:
             new_root = os.path.dirname(os.path.abspath(file_name))
-            for n, (char_a, char_b) in enumerate(zip(self.common_root,
-                                                     new_root)):
-                if char_a != char_b:
-                    self.common_root = self.common_root[0:n]
-                    break
+            self.common_root = os.path.commonpath([self.common_root,
+                                                   new_root])
 
     def create_parser(self, file_name, file_content=None, primary_file=True):
         assert os.path.isfile(file_name)
-- 
2.43.0


From 73494d9add0b007db75179b4e0baf9ebbdb5a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 36/54] fix: report a file that is given more than once

Naming a file twice on the command line (or a directory and a file in
it) ended in an AssertionError.
---
 trlc/trlc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 344c113..5ee83d1 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -194,8 +194,6 @@ class Source_Manager:
         :param file_name: name of the file
         :type file_name: str
         :raise AssertionError: if the file does not exist
-        :raise AssertionError: if the file is registed more than once
-        :raise TRLC_Error: if the file is not a rsl/trlc file
 
         :param file_content: content of the file
         :type file_content: str
@@ -212,6 +210,12 @@ class Source_Manager:
         assert isinstance(file_content, str) or file_content is None
         # lobster-trace: LRM.Layout
 
+        if file_name in self.all_files:
+            self.mh.error(Location(file_name),
+                          "is registered more than once",
+                          fatal = False)
+            return False
+
         try:
             if file_name.endswith(".rsl"):
                 self.register_rsl_file(file_name, file_content, primary)
-- 
2.43.0


From 879cfc3a4facbf271540365069ad1326783bd47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 37/54] fix: do not warn about the precedence of unary plus

The linter claimed that +x * 2 means -(x * 2).
---
 trlc/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 6b63802..6994580 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -959,6 +959,7 @@ class Parser(Parser_Base):
         if t_unary:
             # pylint: disable=possibly-used-before-assignment
             if self.lint_mode and \
+               a_unary == ast.Unary_Operator.MINUS and \
                isinstance(n_lhs, ast.Binary_Expression) and \
                not has_explicit_brackets:
                 self.mh.check(t_unary.location,
-- 
2.43.0


From dc50afc67183b9a815d7bb19a7e597e0c80638e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 38/54] fix: lint union types that are the element type of an
 array

---
 trlc/lint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 4ab4f7d..2e1ad90 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -216,6 +216,8 @@ class Linter:
                           "be an optional %s instead." %
                           n_typ.element_type.name)
 
+        self.verify_type(n_typ.element_type)
+
     def markup_ref(self, item, string_literals):
         for string_literal in string_literals:
             for reference in string_literal.references:
-- 
2.43.0


From 2099459baeacc560e36556d4a6acb06039f11d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 39/54] fix: do not warn about the precedence of unary minus
 before a name

An array element is a name, so -x[0] is not confusing.
---
 trlc/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 6994580..e745993 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -961,6 +961,7 @@ class Parser(Parser_Base):
             if self.lint_mode and \
                a_unary == ast.Unary_Operator.MINUS and \
                isinstance(n_lhs, ast.Binary_Expression) and \
+               n_lhs.operator != ast.Binary_Operator.INDEX and \
                not has_explicit_brackets:
                 self.mh.check(t_unary.location,
                               "expression means -(%s), place explicit "
-- 
2.43.0


From ef6af6a775ae248347eeccd60667d68df77c0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 40/54] fix: do not assume tuple checks for absent tuple values
 in --verify

---
 trlc/vcg.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index ec9c8eb..ddb3949 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -570,9 +570,10 @@ class VCG:
         return n_component.member_of.fully_qualified_name() + \
             "." + n_component.name + ".valid"
 
-    def emit_tuple_constraints(self, n_tuple, s_sym):
+    def emit_tuple_constraints(self, n_tuple, s_sym, s_valid):
         assert isinstance(n_tuple, Tuple_Type)
         assert isinstance(s_sym, smt.Constant)
+        assert isinstance(s_valid, smt.Constant)
 
         old_functional, self.functional = self.functional, True
         self.tuple_base[n_tuple] = s_sym
@@ -618,8 +619,11 @@ class VCG:
         del self.tuple_base[n_tuple]
         self.functional = old_functional
 
+        # None of this is known if there is no tuple value at all
+
         for cons in constraints:
-            self.start.add_statement(smt.Assertion(cons))
+            self.start.add_statement(
+                smt.Assertion(smt.Implication(s_valid, cons)))
 
     def tr_component_decl(self, n_component, gn_locals):
         assert isinstance(n_component, Composite_Component)
@@ -650,9 +654,6 @@ class VCG:
         gn_locals.add_statement(s_decl)
         self.constants[id_value] = s_sym
 
-        if isinstance(n_component.n_typ, Tuple_Type):
-            self.emit_tuple_constraints(n_component.n_typ, s_sym)
-
         # For arrays we need to add additional constraints for the
         # length
         if isinstance(n_component.n_typ, Array_Type):
@@ -675,16 +676,19 @@ class VCG:
                                        s_upper)))
 
         id_valid = self.tr_component_valid_name(n_component)
-        s_sym  = smt.Constant(smt.BUILTIN_BOOLEAN, id_valid)
-        s_val  = (None
-                  if n_component.optional and not frozen
-                  else smt.Boolean_Literal(True))
+        s_valid  = smt.Constant(smt.BUILTIN_BOOLEAN, id_valid)
+        s_val    = (None
+                    if n_component.optional and not frozen
+                    else smt.Boolean_Literal(True))
         s_decl = smt.Constant_Declaration(
-            symbol   = s_sym,
+            symbol   = s_valid,
             value    = s_val,
             relevant = True)
         gn_locals.add_statement(s_decl)
-        self.constants[id_valid] = s_sym
+        self.constants[id_valid] = s_valid
+
+        if isinstance(n_component.n_typ, Tuple_Type):
+            self.emit_tuple_constraints(n_component.n_typ, s_sym, s_valid)
 
     def tr_type(self, n_type):
         assert isinstance(n_type, Type)
-- 
2.43.0


From 896910230b5f9e9ccbfbbba7b13a3f68acd2070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 41/54] fix: --verify crashed if the solver rejects a constant
 division by zero

---
 trlc/vcg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index ddb3949..0511793 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -392,10 +392,9 @@ class VCG:
             try:
                 status, values = vc["script"].solve_vc(solver)
             except (RuntimeError, ValueError):
-                # The solver may not be able to provide a usable model
+                # The solver may not be able to decide this (e.g. if the
+                # selected logic does not fit), or to provide a usable model
                 # (e.g. it ran out of time, or the model is too big)
-                if solver.result is None:
-                    raise
                 status, values = "unknown", {}
 
             message = vc["feedback"].message
-- 
2.43.0


From 98c0244a30f8cb2cc844531aa4b9faf56ffea05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 42/54] fix: show the right line for errors at the end of a
 line

---
 trlc/lexer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 2764f4f..a707f94 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -85,19 +85,24 @@ class Source_Reference(Location):
     def context_lines(self):
         line = ""
         n = self.start_pos
+        if self.lexer.content[n] == "\n":
+            # The end of a line is part of the line it ends
+            n -= 1
         while n >= 0:
             if self.lexer.content[n] == "\n":
                 break
             line = self.lexer.content[n] + line
             n -= 1
         offset = self.start_pos - n - 1
-        n = self.start_pos + 1
+        n = self.start_pos
+        if self.lexer.content[n] != "\n":
+            n += 1
         while n < self.lexer.length:
             if self.lexer.content[n] == "\n":
                 break
             line = line + self.lexer.content[n]
             n += 1
-        maxtrail = n - self.start_pos
+        maxtrail = max(n - self.start_pos, 1)
         tlen = self.end_pos + 1 - self.start_pos
 
         stripped_line = line.lstrip()
-- 
2.43.0


From 46e2549504a2b474f077ed3f85c76dbc0973ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 43/54] fix: trlc_rst rendered records without a section below
 the heading of an earlier section

---
 tools/trlc_rst/trlc_rst.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index a57bc84..4b3ab5b 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -198,7 +198,7 @@ class TRLCRST:
             # are promoted: depth 2 -> key 1 ("="), depth 3 -> key 2 ("-"), etc.
             depth_offset = 1 if not title else 0
 
-            for node in preorder_iter(self._requirements_tree):
+            for node in self._iter_in_document_order(self._requirements_tree):
                 if node.is_root:
                     continue
 
@@ -224,6 +224,17 @@ class TRLCRST:
                     )
                     file.write("\n")
 
+    @classmethod
+    def _iter_in_document_order(cls, node):
+        """Yield *node* and all nodes below it, records before sections.
+
+        A heading stays in effect until the next heading, hence a record that
+        is rendered after a section would end up inside of that section.
+        """
+        yield node
+        for child in sorted(node.children, key=lambda n: not n.is_leaf):
+            yield from cls._iter_in_document_order(child)
+
     @staticmethod
     def _is_markup_field(trlc_obj, field_name: str) -> bool:
         """Return True when *field_name* is a ``Markup_String`` field."""
-- 
2.43.0


From 51dfeaf75a35f2e566d5de2be3b6b495658dec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 44/54] fix: trlc_rst field_value_for lost zero and false and
 returned other values unconverted

---
 tools/trlc_rst/trlc_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 4b3ab5b..5ad4cf4 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -346,12 +346,12 @@ class TRLCRST:
         if obj is None:
             return None
         value = self._field_value(obj, field_name)
-        if not value:
+        if value is None or value == "":
             return None
         field_node = obj.field.get(field_name)
         if isinstance(field_node, trlc.ast.String_Literal):
             return self._preprocess_description(value, indent=0)
-        return value
+        return str(value)
 
     def render_records_to_string(
         self,
-- 
2.43.0


From 2d878f39797ebfe280074624fd1b151560c06676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 45/54] fix: column of references in the first line of triple
 quoted strings

---
 trlc/nested.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trlc/nested.py b/trlc/nested.py
index 339b975..a36c6e3 100644
--- a/trlc/nested.py
+++ b/trlc/nested.py
@@ -50,7 +50,9 @@ class Nested_Lexer(Lexer_Base):
             loc = Source_Reference(
                 lexer      = self.origin_location.lexer,
                 start_line = self.origin_location.line_no + (start_line - 1),
-                start_col  = (self.origin_location.col_no + self.base_offset
+                start_col  = (self.origin_location.col_no +
+                              self.base_offset +
+                              (start_col - 1)
                               if start_line == 1
                               else start_col),
                 start_pos  = (self.origin_location.start_pos +
-- 
2.43.0


From 43f4db9a35e884b924785a455171a51648950a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 46/54] fix: iter_record_objects_by_section lost files and
 sections when called again

---
 trlc/ast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 989ee42..514fc4c 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3448,8 +3448,6 @@ class Symbol_Table:
         self.parent   = parent
         self.imported = []
         self.table    = OrderedDict()
-        self.trlc_files = []
-        self.section_names = []
 
     @staticmethod
     def simplified_name(name):
@@ -3477,16 +3475,18 @@ class Symbol_Table:
         Output: Information about sections and level of sections,
         record objects and levels of record object
         """
+        trlc_files    = []
+        section_names = []
         for record_object in self.iter_record_objects():
             location = record_object.location.file_name
-            if location not in self.trlc_files:
-                self.trlc_files.append(location)
+            if location not in trlc_files:
+                trlc_files.append(location)
                 yield location
             if record_object.section:
                 object_level = len(record_object.section) - 1
                 for level, section in enumerate(record_object.section):
-                    if section not in self.section_names:
-                        self.section_names.append(section)
+                    if section not in section_names:
+                        section_names.append(section)
                         yield section.name, level
                 yield record_object, object_level
             else:
-- 
2.43.0


From b123bf7bc75bd294a4cc0ec6195bf3755926c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 47/54] fix: is_component_implicit_null returned the opposite
 of its name

---
 trlc/ast.py    | 4 ++--
 trlc/parser.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 514fc4c..724c259 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3342,7 +3342,7 @@ class Record_Object(Typed_Entity):
                 for name, value in self.field.items()}
 
     def is_component_implicit_null(self, component) -> bool:
-        return not isinstance(self.field[component.name], Implicit_Null)
+        return isinstance(self.field[component.name], Implicit_Null)
 
     def assign(self, component, value):
         assert isinstance(component, Composite_Component)
@@ -3353,7 +3353,7 @@ class Record_Object(Typed_Entity):
                                   Implicit_Null,
                                   Unary_Expression)), \
                 "value is %s" % value.__class__.__name__
-        if self.is_component_implicit_null(component):
+        if not self.is_component_implicit_null(component):
             raise KeyError(f"Component {component.name} already \
                            assigned to {self.n_typ.name} {self.name}!")
         self.field[component.name] = value
diff --git a/trlc/parser.py b/trlc/parser.py
index e745993..f3e69a4 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1926,7 +1926,7 @@ class Parser(Parser_Base):
             comp = r_typ.components.lookup(self.mh,
                                            self.ct,
                                            ast.Composite_Component)
-            if obj.is_component_implicit_null(comp):
+            if not obj.is_component_implicit_null(comp):
                 self.mh.error(self.ct.location,
                               "component '%s' already assigned at line %i" %
                               (comp.name,
-- 
2.43.0


From 3bbd234aad615d4b63f4ab0fa3773a6471eefbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 48/54] fix: report only genuine errors without error recovery

---
 trlc/trlc.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5ee83d1..bc57952 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -394,6 +394,7 @@ class Source_Manager:
         # dependencies).
         work_list = set(rsl_map)
         processed = set()
+        failed = set()
         while work_list:
             candidates = {node
                           for node in work_list
@@ -420,13 +421,22 @@ class Source_Manager:
 
             for node in sorted(candidates):
                 # If the preamble is already broken, then there is no
-                # point in continuing with this file
-                if rsl_map[node].cu.imports is not None:
+                # point in continuing with this file. Without error
+                # recovery the same is true if we depend on a broken
+                # file, since we may then complain about missing
+                # declarations that are in fact there.
+                if rsl_map[node].cu.imports is None:
+                    failed.add(node)
+                elif not self.error_recovery and \
+                        self.dep_graph.get(node, set()) & failed:
+                    failed.add(node)
+                else:
                     try:
                         ok &= rsl_map[node].parse_rsl_file()
                         self.signal_progress()
                     except TRLC_Error:
                         ok = False
+                        failed.add(node)
                 processed.add(node)
 
             work_list -= candidates
-- 
2.43.0


From f24ca1738a562d6ad140f58a499019e9cc1f9360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 49/54] fix: forget the requirements of removed or changed
 documents

Sphinx calls clear_doc of each domain before a document is read again.
Without it the definitions of the previous build stay, so an incremental
build reports references as ambiguous or links to what no longer exists.
---
 tools/sphinx/extensions/trlc/trlc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index 25e2c20..eb1d241 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -138,6 +138,11 @@ class RequirementsDomain(Domain):
     def resolve_any_xref(self, env, fromdocname, builder, target, node, contnode):
         return []
 
+    def clear_doc(self, docname):
+        self.data["requirements"] = [
+            requirement for requirement in self.data["requirements"] if requirement[3] != docname
+        ]
+
     def merge_domaindata(self, docnames, otherdata):
         existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
         for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-- 
2.43.0


From 3dff93fb8575fcd47568fe99f1d90ca86c63e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 50/54] fix: keep duplicate requirements when documents are
 read in parallel

A sequential build reports a reference to a requirement which is defined
twice as ambiguous. When reading in parallel the second definition was
dropped, so that the reference linked to whichever was merged first.
---
 tools/sphinx/extensions/trlc/trlc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index eb1d241..9d5e8bd 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -144,11 +144,9 @@ class RequirementsDomain(Domain):
         ]
 
     def merge_domaindata(self, docnames, otherdata):
-        existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
         for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-            if docname in docnames and anchor not in existing_anchors:
+            if docname in docnames:
                 self.data["requirements"].append((_name, _sig, _typ, docname, anchor, _prio))
-                existing_anchors.add(anchor)
 
 
 def setup(app: Sphinx):
-- 
2.43.0


From d4e1b90e620716b8700c9fdfc227d11f8065e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 51/54] fix: name the package of enumeration literals in
 counter-examples

---
 trlc/vcg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 0511793..2a3d6af 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -503,7 +503,10 @@ class VCG:
             return "true" if value else "false"
 
         elif isinstance(n_typ, Enumeration_Type):
-            return n_typ.name + "." + value
+            if n_typ.n_package is self.n_ctyp.n_package:
+                return n_typ.name + "." + value
+            else:
+                return n_typ.fully_qualified_name() + "." + value
 
         elif isinstance(n_typ, Builtin_String):
             if "\n" in value:
-- 
2.43.0


From 81dde4e4107ad2e0845c3dfa2842f5a773fbc1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 52/54] fix: escape quotes in strings of counter-examples

---
 trlc/vcg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 2a3d6af..439eada 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -509,10 +509,12 @@ class VCG:
                 return n_typ.fully_qualified_name() + "." + value
 
         elif isinstance(n_typ, Builtin_String):
-            if "\n" in value:
+            if "\n" not in value and not value.endswith("\\"):
+                return '"%s"' % value.replace('"', '\\"')
+            elif "'''" not in value and not value.endswith("'"):
                 return "'''%s'''" % value
             else:
-                return '"%s"' % value
+                return '"""%s"""' % value
 
         elif isinstance(n_typ, (Record_Type, Union_Type)):
             # lobster-trace: LRM.Union_Type_Equality
-- 
2.43.0


From 921ef793b7c3bd3b713e96dd2c55c0e4a5bacd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 53/54] fix: put spaces around word separators in
 counter-examples

---
 trlc/vcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 439eada..6f68509 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -549,7 +549,7 @@ class VCG:
                         "AT"        : "@",
                         "COLON"     : ":",
                         "SEMICOLON" : ";"
-                    }.get(n_item.token.kind, n_item.token.value)
+                    }.get(n_item.token.kind, " %s " % n_item.token.value)
                     parts.append(sep_text)
 
             if n_typ.has_separators():
-- 
2.43.0


From bf493d63c485fdaf3db5862be1aac888cc5dd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 54/54] fix: trlc_rst lost a record with the same full name as
 a section title

A section and a record with the same name shared one node of the tree,
and a section with an empty title ended in a TreeError.
---
 tools/trlc_rst/trlc_rst.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 5ad4cf4..edba143 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -142,7 +142,8 @@ class TRLCRST:
             parent_root = Node("root")
             parent_tree = self._build_parent_tree(obj.section, parent_root)
             # Store the TRLC object in the node so we can access its attributes later
-            parent_tree.append(Node(obj.fully_qualified_name(), trlc_obj=obj))
+            fqn = obj.fully_qualified_name()
+            parent_tree.append(Node(f"record {fqn}", title=fqn, trlc_obj=obj))
 
             # Merge both trees
             to_tree = requirements_root
@@ -203,7 +204,7 @@ class TRLCRST:
                     continue
 
                 if not node.is_leaf:
-                    file.write(f"{node.name}\n")
+                    file.write(f"{node.title}\n")
                     lookup = node.depth - depth_offset
                     if 0 < lookup <= len(RST_HEADLINE_SEPARATORS):
                         separator_char = RST_HEADLINE_SEPARATORS[lookup - 1]
@@ -211,16 +212,16 @@ class TRLCRST:
                         logger.warning(
                             "Section '%s' at depth %d exceeds max RST heading depth, "
                             'falling back to "\'" separator',
-                            node.name,
+                            node.title,
                             node.depth,
                         )
                         separator_char = "'"
-                    file.write(f"{separator_char * len(node.name)}\n")
+                    file.write(f"{separator_char * len(node.title)}\n")
 
                 else:
                     trlc_obj = getattr(node, "trlc_obj", None)
                     file.write(
-                        "\n".join(self._render_record_block(node.name, trlc_obj, normalized))
+                        "\n".join(self._render_record_block(node.title, trlc_obj, normalized))
                     )
                     file.write("\n")
 
@@ -612,7 +613,10 @@ class TRLCRST:
         current = root
 
         for section in sections:
-            current = Node(section.name, parent=current)
+            # A section can have the same title as the full name of a record
+            current = Node(
+                f"section {section.name}", title=section.name, parent=current
+            )
         return current
 
     def render(
-- 
2.43.0

