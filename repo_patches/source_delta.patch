From 67eae21eacd06590935c9ccedc18dc102f5cad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 01/99] fix: build the scanner tables for 8-bit input

The full (7-bit) flex tables were indexed out of bounds for any byte >= 0x80,
which are legitimate inside character literals.
---
 src/flpr/scan_fort.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index a274ae2..abc9d02 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -17,6 +17,7 @@ int curr_line_pos = 0;
 using FLPR::Syntax_Tags;
 %}
 %option full
+%option 8bit
 %option case-insensitive
 %option noyywrap
 %option stack
-- 
2.43.0


From 53e6e8d6981576d07d41d48ae68f23f416017727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 02/99] fix: leave the real-literal scanner state at the end of
 the text

A logical line ending in a real literal left the scanner in real_parse, so
the first token of the next tokenized line was misread (e.g. 'd1' as an
exponent, leading digits as a significand).
---
 src/flpr/scan_fort.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index abc9d02..f6ea0f0 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -261,6 +261,8 @@ write { return Syntax_Tags::KW_WRITE; }
                    yyless(0); yy_push_state(kind_parse); }
   .|\n           { curr_line_pos -= yyleng;
                    yyless(0);  BEGIN(INITIAL); }
+  <<EOF>>        { /* don't carry this state over to the next scanned text */
+                   BEGIN(INITIAL); yyterminate(); }
 }
 
   /* R714: real-literal-constant (7.4.3.2) */
-- 
2.43.0


From 1a30d5a02534846b57210b34e59067adb7b70431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 03/99] fix: tokenize an integer followed by a dot operator

'1.eq.n' was scanned as the significand '1.' followed by 'eq' and '.'.
---
 src/flpr/scan_fort.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index f6ea0f0..7f6eeb8 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -12,6 +12,7 @@
 
 %{
 #include "flpr/Syntax_Tags.hh"
+#include <cstring>
 int curr_line_pos = 0;
 #define YY_USER_ACTION curr_line_pos += yyleng;
 using FLPR::Syntax_Tags;
@@ -273,6 +274,13 @@ write { return Syntax_Tags::KW_WRITE; }
 {DIGIT}+{EXPONENT}(_{KIND})?  { curr_line_pos -= yyleng; 
                                 yyless(0); BEGIN(real_parse); }
   				  
+  /* digit-string directly followed by a dot operator, e.g. "1.eq.n": the dot
+     belongs to the operator, not to a significand */
+{DIGIT}+\.[a-z]+\.  { int const len = std::strspn(yytext, "0123456789");
+                     curr_line_pos -= yyleng - len;
+                     yyless(len);
+                     return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
+
   /* R708: int-literal-constant (7.4.3.1) */
 {DIGIT}+(_{KIND})?   { return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
 
-- 
2.43.0


From ce305535d4c11964fef80a5f934714c734a46dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 04/99] fix: keep continuation state across comment and blank
 lines

A comment or blank line between the lines of a continued statement dropped
the open character context (so the scan was rejected) and, for blank lines,
the continued state (so leading digits were taken for a statement label).
---
 src/flpr/Logical_File.cc | 11 ++++++++---
 src/flpr/Logical_Line.cc | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4b6b535..7a5ccb9 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -100,7 +100,9 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
                 << "scan_fixed error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
   }
 
   /* Identify "logical lines": blocks of lines that represent a
@@ -196,8 +198,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
                 << "scan_free error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
-    prev_line_cont = fl[i].is_continued();
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!fl[i].is_trivial()) {
+      prev_open_delim = fl[i].open_delim;
+      prev_line_cont = fl[i].is_continued();
+    }
   }
 
   // Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e4b5df..76df22a 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -81,8 +81,11 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text) {
   for (auto const &l : raw_text) {
     layout_.emplace_back(File_Line::analyze_free(
         line_no++, l, prev_open_delim, prev_line_cont, in_literal_block));
-    prev_open_delim = layout_.back().open_delim;
-    prev_line_cont = layout_.back().is_continued();
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!layout_.back().is_trivial()) {
+      prev_open_delim = layout_.back().open_delim;
+      prev_line_cont = layout_.back().is_continued();
+    }
   }
   init_from_layout();
 }
@@ -103,7 +106,9 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text,
   for (auto const &l : raw_text) {
     layout_.emplace_back(
         File_Line::analyze_fixed(line_no++, l, prev_open_delim, last_col));
-    prev_open_delim = layout_.back().open_delim;
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
   }
   init_from_layout();
 }
-- 
2.43.0


From d113574be9856cb5917bd6633f170ce4cb331bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 05/99] fix: skip leading whitespace when locating the first
 token

The first token was assumed to start at the beginning of the accumulated
text, so its position was wrong (or tripped an assertion) if the text begins
with blanks, as after a leading continuation mark.
---
 src/flpr/Logical_Line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 76df22a..908a6c7 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -763,6 +763,8 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
   const int N = la.accum().size();
   int tok_start_col = curr_line_pos;
+  while (tok_start_col < N && std::isspace(la.accum()[tok_start_col]))
+    tok_start_col += 1;
   int next_pre_sp = 0;
   int space_between;
 
-- 
2.43.0


From d5c33e312775b5172ecd68ad26114ef32553d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 06/99] fix: make token layout line numbers index layout_

Comment and blank lines inside a continued statement were not counted, so
Token_Text's layout line index (used by every text edit, the compound
splitter and the fixed-to-free conversion) pointed at the wrong File_Line
for all tokens following them.
---
 src/flpr/Logical_File.cc | 3 ++-
 src/flpr/Logical_Line.cc | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 7a5ccb9..3fca5c5 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -509,7 +509,8 @@ bool Logical_File::convert_fixed_to_free() {
       for (auto const &tt : ll.fragments()) {
         if (tt.is_split_token_()) {
           for (int fli = tt.mt_begin_line_ + 1; fli <= tt.mt_end_line_; ++fli) {
-            needs_front_continuation.push_back(static_cast<size_t>(fli));
+            if (layout[fli].is_fortran())
+              needs_front_continuation.push_back(static_cast<size_t>(fli));
           }
         }
       }
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 908a6c7..85338da 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -136,6 +136,9 @@ void Logical_Line::init_from_layout() noexcept {
          have the correct breaks between lexemes. */
       la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
                   fl.right_space.size());
+    } else {
+      /* no text, but keep the line indices in step with layout_ */
+      la.add_line(fl.linenum, 0, 0, std::string(), 0);
     }
   }
 
-- 
2.43.0


From 116ef653c511c0e7db8fc0e700d7b8ab6e887c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 07/99] fix: record the text positions of both halves of a
 split keyword

For keywords written without a separating blank ('enddo'), the first token
was left with uninitialized text positions and spacing, and the second one
with the position of the whole word.
---
 src/flpr/Logical_Line.cc | 27 +++++++++++++++++++++------
 src/flpr/Logical_Line.hh |  4 ++--
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 85338da..ae9d538 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -779,8 +779,22 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     la.linecolno(tok_start_col, li, ci, tli, tci);
     fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
     /* Break up keywords with no space. */
-    if (result_tok == Syntax_Tags::TK_NAME)
-      unsmash();
+    if (result_tok == Syntax_Tags::TK_NAME && unsmash()) {
+      /* Complete the first of the two tokens, and find where the second one
+         begins (which can be on a different line). */
+      Token_Text &first{*std::prev(fragments_.end(), 2)};
+      Token_Text &second{fragments_.back()};
+      int const split_col = tok_start_col + first.text().size();
+      int efl, efc;
+      first.mt_begin_line_ = tli;
+      first.mt_begin_col_ = tci;
+      la.linecolno(split_col - 1, efl, efc, first.mt_end_line_,
+                   first.mt_end_col_);
+      first.mt_end_col_ += 1;
+      first.pre_spaces_ = next_pre_sp;
+      next_pre_sp = 0;
+      la.linecolno(split_col, second.start_line, second.start_pos, tli, tci);
+    }
 
     /* calculate the "end" address (one character beyond the last character of
        the token */
@@ -838,18 +852,18 @@ void Logical_Line::append_comment(std::string const &comment_text) {
 }
 
 /* ------------------------------------------------------------------------ */
-void Logical_Line::unsmash() {
+bool Logical_Line::unsmash() {
   using details_::Smash_Hash;
   using details_::Smashed;
   if (fragments_.empty())
-    return;
+    return false;
   if (fragments_.back().token != Syntax_Tags::TK_NAME)
-    return;
+    return false;
 
   Smashed const *ptr = Smash_Hash::in_word_set(
       fragments_.back().lower().c_str(), fragments_.back().text().size());
   if (!ptr)
-    return;
+    return false;
   Token_Text new2{fragments_.back()};
 
   // Alter the first token in place
@@ -864,6 +878,7 @@ void Logical_Line::unsmash() {
   new2.start_pos += ptr->splitpos;
   new2.pre_spaces_ = 0;
   fragments_.emplace_back(std::move(new2));
+  return true;
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 6748d73..04e8779 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -226,8 +226,8 @@ private:
 
   //! If the last token in fragments is actually two (no space), split it
   /*! This handles the exception to the free-format spacing rules found
-    in section 6.3.2.2 of the standard */
-  void unsmash();
+    in section 6.3.2.2 of the standard.  Returns true if it was split. */
+  bool unsmash();
 
   //! Append a token to main_txt if it fits within max_len characters
   bool append_tt_if_(std::string &main_txt, size_t max_len,
-- 
2.43.0


From 44581af07559d5d02c99996d9cadeff67a44a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 08/99] fix: keep continued preprocessor lines verbatim

A line continuing a preprocessor directive was analysed as Fortran text
before being folded into the directive: in fixed form its leading blanks
were lost on output, and a quote in it opened a character context in the
following Fortran line.
---
 src/flpr/Logical_File.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 3fca5c5..14299ae 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -25,6 +25,14 @@
 #include <iostream>
 #include <set>
 
+namespace {
+//! True if the line after fl belongs to the same preprocessor directive
+bool is_continued_preprocessor(FLPR::File_Line const &fl) {
+  return (fl.is_preprocessor() || fl.is_flpr_pp() || fl.is_include()) &&
+         FLPR::last_non_blank_char(fl.left_txt) == '\\';
+}
+} // namespace
+
 namespace FLPR {
 void Logical_File::clear() {
   file_info.reset();
@@ -90,6 +98,14 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
   std::vector<File_Line> fl(N);
   char prev_open_delim = '\0';
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && is_continued_preprocessor(fl[i - 1])) {
+      /* not Fortran text, so keep it exactly as it is */
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].set_classification(File_Line::class_flags::fixed_format);
+      fl[i].set_classification(File_Line::class_flags::preprocessor);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
@@ -188,6 +204,13 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
   char prev_open_delim = '\0';
   bool prev_line_cont = false;
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && is_continued_preprocessor(fl[i - 1])) {
+      /* not Fortran text, so keep it exactly as it is */
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].set_classification(File_Line::class_flags::preprocessor);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
-- 
2.43.0


From e450f09e941d9ad0d545c5f0ceabfc1c8356b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 09/99] fix: treat a carriage return as blank after a
 continuation backslash

A preprocessor directive continued with a backslash in a file with CRLF
line ends was cut after its first line, and the rest of it was scanned as
Fortran text.
---
 src/flpr/utils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/utils.hh b/src/flpr/utils.hh
index 92ee6a9..d8602b9 100644
--- a/src/flpr/utils.hh
+++ b/src/flpr/utils.hh
@@ -64,7 +64,7 @@ inline void trim_back(std::string &s) {
 
 //! return the last non-blank character in s, or '\0'
 inline char last_non_blank_char(std::string const &s) {
-  std::string::size_type back = s.find_last_not_of(" \t");
+  std::string::size_type back = s.find_last_not_of(" \t\r");
   if (back == std::string::npos)
     return '\0';
   return s[back];
-- 
2.43.0


From d2c87e4de405a5c85d6633a45255f6b68950978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 10/99] fix: require the end of IMPORT and ABSTRACT INTERFACE
 statements

A misplaced parenthesis made the end of the statement an alternative of
its own, so text after IMPORT, NONE or ABSTRACT INTERFACE was accepted.
---
 src/flpr/parse_stmt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7fe6153..ff1bafe 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2081,7 +2081,7 @@ Stmt_Tree import_stmt(TT_Stream &ts) {
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA), TOK(KW_ONLY), TOK(TK_COLON),
                list(TAG(SG_IMPORT_NAME_LIST), name()), eol()),
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA),
-               h_alts(TOK(KW_NONE), TOK(KW_ALL))), eol());
+               h_alts(TOK(KW_NONE), TOK(KW_ALL)), eol()));
   EVAL(SG_IMPORT_STMT, p(ts));
 }
 
@@ -2171,7 +2171,7 @@ Stmt_Tree interface_stmt(TT_Stream &ts) {
   constexpr auto p =
     alts(rule_tag,
          h_seq(TOK(KW_INTERFACE), opt(rule(generic_spec)), eol()),
-         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE)), eol());
+         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE), eol()));
   EVAL(SG_INTERFACE_STMT, p(ts));
 }
 
-- 
2.43.0


From f68f8e7c13486ae678bb53f3c32b4eaa4fcfecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 11/99] fix: accept the submodule name in a SUBMODULE statement

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index ff1bafe..df1b451 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3279,6 +3279,7 @@ Stmt_Tree submodule_stmt(TT_Stream &ts) {
     seq(rule_tag, TOK(KW_SUBMODULE), TOK(TK_PARENL),
         name(), opt(h_seq(TOK(TK_COLON), name())),
         TOK(TK_PARENR),
+        name(),  // submodule-name
         eol());
   EVAL(SG_SUBMODULE_STMT, p(ts));
 }
-- 
2.43.0


From 326b910a42cb6b37b726a1137ee8e2d1ae6264e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 12/99] fix: a component coarray-spec is delimited by brackets

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index df1b451..f24d193 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -853,7 +853,7 @@ Stmt_Tree component_decl(TT_Stream &ts) {
     seq(rule_tag,
         name(), // component-name
         opt(h_parens(rule(component_array_spec))),
-        opt(h_parens(rule(coarray_spec))),
+        opt(h_brackets(rule(coarray_spec))),
         opt(h_seq(TOK(TK_ASTERISK), rule(char_length))),
         opt(rule(component_initialization)));
   EVAL(SG_COMPONENT_DECL, p(ts));
-- 
2.43.0


From a1b4a8f8067b408eb78abf2b310033ca57daff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 13/99] fix: accept OPERATOR(.EQV.) and OPERATOR(.NEQV.)

equiv-op matched == and /=, which are rel-ops, and nothing matched .EQV.
and .NEQV.
---
 src/flpr/parse_stmt.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index f24d193..f4b5e55 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1605,8 +1605,8 @@ Stmt_Tree equiv_op(TT_Stream &ts) {
   RULE(SG_EQUIV_OP);
   constexpr auto p =
     alts(rule_tag,
-         TOK(TK_REL_EQ),   // the lexer merges ".EQ." and "=="
-         TOK(TK_REL_NE));
+         TOK(TK_EQV_OP),
+         TOK(TK_NEQV_OP));
   EVAL(SG_EQUIV_OP, p(ts));
 }
 
@@ -3060,8 +3060,10 @@ Stmt_Tree rel_op(TT_Stream &ts) {
   RULE(SG_REL_OP);
   constexpr auto p =
     alts(rule_tag,
-         TOK(TK_REL_LT),  // the lexer merges .LT. and <
-         TOK(TK_REL_LE),  // similar for the rest of these
+         TOK(TK_REL_EQ),  // the lexer merges .EQ. and ==
+         TOK(TK_REL_NE),  // similar for the rest of these
+         TOK(TK_REL_LT),
+         TOK(TK_REL_LE),
          TOK(TK_REL_GT),
          TOK(TK_REL_GE));
   EVAL(SG_REL_OP, p(ts));
-- 
2.43.0


From 5326cc63712cd6c318d4a48d3ce49c1ccaac2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 14/99] fix: accept a substring of an array element in
 EQUIVALENCE

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index f4b5e55..0a1d3cf 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1615,8 +1615,8 @@ Stmt_Tree equivalence_object(TT_Stream &ts) {
   RULE(SG_EQUIVALENCE_OBJECT);
   constexpr auto p =
     alts(rule_tag,
+         rule(substring),  // may start with an array-element
          rule(array_element),
-         rule(substring),
          tag_if(TAG(SG_VARIABLE_NAME), name()));
   EVAL(SG_EQUIVALENCE_OBJECT, p(ts));
 }
-- 
2.43.0


From f6098d7cb883d401231a0f3945e7d671897f52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 15/99] fix: accept a construct name in a RANK statement

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 0a1d3cf..2256d98 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3177,6 +3177,7 @@ Stmt_Tree select_rank_case_stmt(TT_Stream &ts) {
         h_alts(TOK(KW_DEFAULT),
                h_parens(TOK(TK_ASTERISK)),
                h_parens(rule(int_constant_expr))),
+        opt(name()),
         eol());
   EVAL(SG_SELECT_RANK_CASE_STMT, p(ts));
 }
-- 
2.43.0


From 41296b9ba8c3dd4bd33d25a030a64e7659f8cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 16/99] fix: accept alternate return specifiers as actual
 arguments

---
 src/flpr/parse_stmt.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 2256d98..5a0c25c 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -244,9 +244,10 @@ Stmt_Tree actual_arg(TT_Stream &ts) {
   RULE(SG_ACTUAL_ARG);
   /* procedure-name and proc-component-ref reduce to data-ref in variable */
   constexpr auto p =
-    seq(rule_tag,
-        rule(expr)
-        );
+    alts(rule_tag,
+         rule(expr),
+         h_seq(TOK(TK_ASTERISK), rule(label))  // alt-return-spec
+         );
   EVAL(SG_ACTUAL_ARG, p(ts));
 }
 
-- 
2.43.0


From 38d7d223a53e8367acdacd4a4c2755421076f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 17/99] fix: the comma between the sets of a DATA statement is
 optional

---
 src/flpr/parse_stmt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 5a0c25c..f23e4bb 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1035,8 +1035,9 @@ Stmt_Tree data_stmt(TT_Stream &ts) {
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_DATA),
-        list(TAG(SG_DATA_STMT_SET_LIST),
-             rule(data_stmt_set)),
+        seq(TAG(SG_DATA_STMT_SET_LIST),
+            rule(data_stmt_set),
+            star(h_seq(opt(TOK(TK_COMMA)), rule(data_stmt_set)))),
         eol()
         );
   EVAL(SG_DATA_STMT, p(ts));
-- 
2.43.0


From c5483a654398c511b3e6c17ffcf1d14eb950e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 18/99] fix: accept NULL() before the end of DATA and procedure
 declarations

The function-reference rule takes its argument list from the end of the
statement, so NULL() was only recognized as the last thing in one.
---
 src/flpr/parse_stmt.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index f23e4bb..1e99dec 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -147,6 +147,17 @@ Stmt_Tree bind_c(TT_Stream &ts) {
   return p(ts);
 }
 
+//! helper: null_init (local)
+/*! function_reference() looks for its arguments at the end of the statement,
+    but more text can follow a null-init */
+Stmt_Tree null_init(TT_Stream &ts) {
+  auto p = seq(TAG(SG_NULL_INIT),
+               seq(TAG(SG_FUNCTION_REFERENCE),
+                   seq(TAG(SG_PROCEDURE_DESIGNATOR), literal("null")),
+                   TOK(TK_PARENL), TOK(TK_PARENR)));
+  return p(ts);
+}
+
 /**********************************************************************/
 
 // clang-format off
@@ -1052,7 +1063,7 @@ Stmt_Tree data_stmt_constant(TT_Stream &ts) {
          rule(signed_real_literal_constant),
          h_seq(opt(rule(sign)), TOK(SG_INT_LITERAL_CONSTANT)),
          rule(logical_literal_constant),
-         tag_if(TAG(SG_NULL_INIT), rule(function_reference)),
+         rule(null_init),
          tag_if(TAG(SG_INITIAL_DATA_TARGET), rule(designator)),
          rule(structure_constructor)
          );
@@ -2891,7 +2902,7 @@ Stmt_Tree proc_pointer_init(TT_Stream &ts) {
   RULE(SG_PROC_POINTER_INIT);
   constexpr auto p =
     alts(rule_tag,
-         tag_if(TAG(SG_NULL_INIT), rule(function_reference)),
+         rule(null_init),
          name() // initial-proc-target
          );
   EVAL(SG_PROC_POINTER_INIT, p(ts));
-- 
2.43.0


From dd73273615cad88c149912fd464042102183c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 19/99] fix: tag SYNC IMAGES statements as such

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 1e99dec..0ed0a88 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3365,7 +3365,7 @@ Stmt_Tree sync_all_stmt(TT_Stream &ts) {
 
 //! R1164: sync-images-stmt (11.6.3)
 Stmt_Tree sync_images_stmt(TT_Stream &ts) {
-  RULE(SG_SYNC_ALL_STMT);
+  RULE(SG_SYNC_IMAGES_STMT);
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_SYNC),
-- 
2.43.0


From 91e4f178bb99be1caefa26141bfd6dcb649fb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:22 +0000
Subject: [PATCH 20/99] fix: do not run off the end of a statement with
 unbalanced parentheses

The parsers which skip to a closing parenthesis or bracket went past the
last token of the statement when there was none: an assertion at best,
otherwise undefined behaviour. The statement doesn't match.
---
 src/flpr/parse_stmt.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 0ed0a88..4a94307 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -70,10 +70,13 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
       nesting_depth -= 1;
       if (!nesting_depth)
         break;
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      // There has to be a match for everything that was opened
+      if (nesting_depth > 1)
+        FAIL;
+      break;
     } else if (nesting_depth == 1) {
       // Other things you can run into that terminate an expression
-      if (Syntax_Tags::BAD == ts.peek())
-        break;
       if (Syntax_Tags::TK_COMMA == ts.peek())
         break;
       if (Syntax_Tags::TK_COLON == ts.peek())
@@ -103,6 +106,7 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
 
 //! helper function to consume until the matching PARENR
 Stmt_Tree consume_parens(TT_Stream &ts) {
+  INIT_FAIL;
   int nesting_depth = 1;
   if (Syntax_Tags::TK_PARENL != ts.peek())
     return Stmt_Tree{};
@@ -114,8 +118,8 @@ Stmt_Tree consume_parens(TT_Stream &ts) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
       nesting_depth -= 1;
-    } else {
-      assert(Syntax_Tags::BAD != ts.peek());
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      FAIL;
     }
     root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
   }
-- 
2.43.0


From 3102f9dba65c301e62a01682b648e860fb3c46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:22 +0000
Subject: [PATCH 21/99] fix: no procedure designator in front of its own start

Inside of parentheses the last parenthesis of the statement can open
before the designator begins. The resulting range ended before its begin,
and walking it is undefined behaviour.
---
 src/flpr/parse_stmt.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 4a94307..bcdb15d 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2968,6 +2968,8 @@ Stmt_Tree procedure_designator(TT_Stream &ts) {
      procedure-designator by: */
 
   //     - Capture where we start
+  INIT_FAIL;
+  int const start = ts.num_consumed();
   auto designator = ts.capture_begin();
 
   //     - Move to the last token
@@ -2980,6 +2982,10 @@ Stmt_Tree procedure_designator(TT_Stream &ts) {
   if (move_okay)
     ts.put_back();
 
+  //     - That could belong to something that we are inside of
+  if (ts.num_consumed() < start)
+    FAIL;
+
   //     - Mark this as the end of the (possible) designator sequence
   ts.capture_end(designator);
 
-- 
2.43.0


From 9d394649d162bcf34345b36457644622035802c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:22 +0000
Subject: [PATCH 22/99] fix: looking ahead past the end of a statement gives
 BAD

peek() and peek_tt() with an offset beyond the last token of the range
walked into the next statement of the line, or off the end of the list.
---
 src/flpr/TT_Stream.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flpr/TT_Stream.hh b/src/flpr/TT_Stream.hh
index 9430352..71d0d9c 100644
--- a/src/flpr/TT_Stream.hh
+++ b/src/flpr/TT_Stream.hh
@@ -184,8 +184,11 @@ inline int TT_Stream::curr() const { return curr_tt().token; }
 inline Token_Text const &TT_Stream::peek_tt(int const offset) const {
   static const Token_Text bad_tt;
   // the -1 is because next_token_ is already advanced one.
-  auto tmp = std::next(next_tok_, offset - 1);
-  if (tmp != ll_tt_range_.end())
+  TT_Range::const_iterator tmp{next_tok_};
+  TT_Range::const_iterator const last{ll_tt_range_.end()};
+  for (int i = 1; i < offset && tmp != last; ++i)
+    ++tmp;
+  if (tmp != last)
     return *tmp;
   else
     return bad_tt;
-- 
2.43.0


From e9c8c1daec0bae4c0066d64017586b5eaab25c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:22 +0000
Subject: [PATCH 23/99] fix: count every token when moving to a closing
 parenthesis

expect_tok() consumes the opening parenthesis, so the token after it was
skipped: "()" and "((a))" found no or the wrong match. Likewise,
ignore_bracket_expr() never reported success.
---
 src/flpr/TT_Stream.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flpr/TT_Stream.cc b/src/flpr/TT_Stream.cc
index a8e38ba..605b81a 100644
--- a/src/flpr/TT_Stream.cc
+++ b/src/flpr/TT_Stream.cc
@@ -109,7 +109,6 @@ void TT_Stream::w_general(char const *const warnmsg) const {
 // substrings.
 bool TT_Stream::move_to_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -128,7 +127,6 @@ bool TT_Stream::move_to_close_paren() {
 // substrings.
 bool TT_Stream::move_before_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -176,7 +174,7 @@ bool TT_Stream::ignore_bracket_expr() {
       break;
     consume();
   }
-  return nesting_depth == -1;
+  return nesting_depth == 0;
 }
 
 void TT_Stream::debug_print(std::ostream &os) const {
-- 
2.43.0


From 67d3b70cf32565a4ebb1b8b0749b1d8d2d7db4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:36 +0000
Subject: [PATCH 24/99] fix: recognize an assumed-rank array-spec

---
 src/flpr/parse_stmt.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index bcdb15d..4c1c756 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -441,7 +441,9 @@ Stmt_Tree array_spec(TT_Stream &ts) {
   RULE(SG_ARRAY_SPEC);
   constexpr auto p =
     alts(rule_tag,
-         /* This one first, because if it doesn't end with an
+         /* Before anything that starts with an expr, which would accept it */
+         tag_if(TAG(SG_ASSUMED_RANK_SPEC), TOK(TK_DBL_DOT)),
+         /* This one next, because if it doesn't end with an
             assumed-implied-spec, it is just an explicit-shape-spec-list */
          rule(assumed_size_spec),
          list(TAG(SG_EXPLICIT_SHAPE_SPEC_LIST), rule(explicit_shape_spec)),
@@ -451,8 +453,7 @@ Stmt_Tree array_spec(TT_Stream &ts) {
          // list(TAG(SG_DEFERRED_SHAPE_SPEC_LIST), rule(deferred_shape_spec)),
          /* implied-shape-spec goes first because it requires a longer match */
          rule(implied_shape_spec),
-         rule(implied_shape_or_assumed_size_spec),
-         tag_if(TAG(SG_ASSUMED_RANK_SPEC), TOK(TK_DBL_DOT))
+         rule(implied_shape_or_assumed_size_spec)
          );
   EVAL(SG_ARRAY_SPEC, p(ts));
 }
-- 
2.43.0


From 9b668862c28b573470e09f7ccf7dddd13b84146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 25/99] fix: accept a declaration-type-spec as proc-interface

---
 src/flpr/parse_stmt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 4c1c756..867c2ed 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2889,8 +2889,9 @@ Stmt_Tree proc_interface(TT_Stream &ts) {
   RULE(SG_PROC_INTERFACE);
   constexpr auto p =
     alts(rule_tag,
-         name(), // interface-name
-         rule(declaration_type_spec));
+         /* This one first, because the keywords are also names */
+         rule(declaration_type_spec),
+         name()); // interface-name
   EVAL(SG_PROC_INTERFACE, p(ts));
 }
 
-- 
2.43.0


From b998608989f5cc8bcc04b33353fba223ebb3f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 26/99] fix: no statements to link when parsing a file fails

---
 src/flpr/Parsed_File.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 960a0ba..338f892 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -183,7 +183,8 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
       bad_state_ = true;
     }
     parse_tree_.swap(result.parse_tree);
-    link_stmts_recurse_(*parse_tree_);
+    if (parse_tree_)
+      link_stmts_recurse_(*parse_tree_);
   }
   tree_ok_ = true;
 }
-- 
2.43.0


From a03774fcc1d1526e7d30e4db0b8d66ec8ab553db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 27/99] fix: do not look at a statement past the end of the
 statements

---
 src/flpr/Prgm_Parsers_impl.hh  |  3 ++-
 src/flpr/Prgm_Parsers_utils.hh | 26 ++++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index cedfa32..c026112 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -165,7 +165,8 @@ PPARSER(executable_construct) {
   /* If the current statement has a label that matches a label-do-stmt label
      that we are looking for, we force a non-match so that the end-do-stmt rule
      can look at it */
-  if(state.do_label_stack.is_top(state.ss->label())) return PP_Result{};
+  if(!state.ss || state.do_label_stack.is_top(state.ss->label()))
+    return PP_Result{};
   EVAL(PG_EXECUTABLE_CONSTRUCT, p(state));
 }
 
diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 01c48a2..0b85f26 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -79,6 +79,18 @@ static void cover_branches(typename Prgm_Tree::reference node) {
   }
 }
 
+//! Report the current statement (if any) as unexpected while parsing \p syntag
+static void report_unrecognized(State &state, int const syntag) {
+  if (state.ss) {
+    std::cerr << "Unrecognized statement\n";
+    state.ss->print_me(std::cerr, false);
+  } else {
+    std::cerr << "Unexpected end of statements";
+  }
+  FLPR::Syntax_Tags::print(std::cerr << "\nwhile parsing ", syntag)
+      << std::endl;
+}
+
 /******************************* COMBINATORS **********************************/
 
 //! Return a result if any of the alternatives match
@@ -267,9 +279,7 @@ public:
     };
     bool const match = std::apply(fold, parsers_);
     if (!match) {
-      std::cerr << "Unrecognized statement\n";
-      state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-      FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+      report_unrecognized(state, syntag_);
       return PP_Result{};
     }
     if (root)
@@ -323,9 +333,7 @@ public:
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
-        std::cerr << "Unrecognized statement\n";
-        state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-        FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+        report_unrecognized(state, syntag_);
         return PP_Result{};
       }
       if (root)
@@ -393,6 +401,8 @@ public:
   Statement_Parser(Statement_Parser const &) = default;
   constexpr explicit Statement_Parser(parser_function f) noexcept : f_{f} {}
   PP_Result operator()(State &state) const noexcept {
+    if (!state.ss)
+      return PP_Result{};
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::Stmt::Stmt_Tree st = f_(tts);
     if (!st)
@@ -497,6 +507,8 @@ public:
   PP_Result operator()(State &state) const noexcept {
 
     /****************************** DO-STMT ***********************************/
+    if (!state.ss)
+      return PP_Result{};
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
       FLPR::TT_Stream tts(*(state.ss));
@@ -543,6 +555,8 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    if (!state.ss)
+      return PP_Result{};
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
-- 
2.43.0


From 07bd55b2dae35629fb3197a98f6f9cc6955382f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 28/99] fix: give back the statements of a construct which does
 not match

---
 src/flpr/Prgm_Parsers_utils.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 0b85f26..a6b82f3 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -330,10 +330,12 @@ public:
       return FLPR::details_::and_fold(attach_if, as...);
     };
 
+    auto const start{state.ss};
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
         report_unrecognized(state, syntag_);
+        state.ss = start;
         return PP_Result{};
       }
       if (root)
-- 
2.43.0


From 4a58fa9762c986cba2949e45678540ded1f32997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:09 +0000
Subject: [PATCH 29/99] fix: end a DO construct at the statement its DO
 statement asks for

---
 src/flpr/Prgm_Parsers_utils.hh | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index a6b82f3..c0dfd91 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -523,9 +523,18 @@ public:
     int do_stmt_tag = (*do_stmt_tree)->syntag;
 
     /* if this is a label-do-stmt, add the label to the stack */
-    const int label = FLPR::Stmt::get_label_do_label(do_stmt_tree);
-    if (label > 0)
-      state.do_label_stack.push(label);
+    const int do_label = FLPR::Stmt::get_label_do_label(do_stmt_tree);
+    if (do_label > 0)
+      state.do_label_stack.push(do_label);
+
+    /* undo the effects on state when the construct turns out not to match */
+    auto const start{state.ss};
+    auto no_match = [&state, &start, do_label]() {
+      if (do_label > 0)
+        state.do_label_stack.pop();
+      state.ss = start;
+      return PP_Result{};
+    };
 
     /* attach the Stmt_Tree to the LL_Stmt */
     FLPR::LL_STMT_SEQ::iterator do_stmt_it{state.ss};
@@ -558,22 +567,25 @@ public:
     /*********************** TERMINATING STATEMENT ****************************/
 
     if (!state.ss)
-      return PP_Result{};
+      return no_match();
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
     int end_stmt_sg_tag{TAG(UNKNOWN)};
 
-    /* Without a label, the only end-do this can be is a end-do-statment */
-    if (!state.ss->has_label()) {
+    /* Without a label in the do-stmt, the only end-do this can be is a
+       end-do-statment (which may have a label of its own) */
+    if (do_label <= 0) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
-        return PP_Result{}; // wasn't end-do-stmt, so match fails
+        return no_match(); // wasn't end-do-stmt, so match fails
       end_stmt_sg_tag = (*end_stmt_tree)->syntag;
       end_stmt_pg_tag = TAG(HOIST);
       do_construct_tag = TAG(PG_DO_CONSTRUCT);
       end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
       state.ss.advance();
+    } else if (state.ss->label() != do_label) {
+      return no_match();
     } else {
       /* So, we've got a label. Let NL be the number of instances of this
          label on the stack. This means, evaluated in order:
@@ -588,8 +600,7 @@ public:
          label the layers of label-do-stmts, which is provided by Label_Stack
       */
 
-      int const label{state.ss->label()};
-      int const level{state.do_label_stack.level(label)};
+      int const level{state.do_label_stack.level(do_label)};
 
       assert(level > -1);
 
@@ -599,7 +610,7 @@ public:
            an outer-shared-do-construct form of a nonblock-do-construct. */
         FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::action_stmt(tts)};
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
 
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_pg_tag = TAG(PG_DO_TERM_SHARED_STMT);
@@ -632,7 +643,7 @@ public:
           end_stmt_pg_tag = TAG(HOIST);
         }
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
         state.ss.advance();
-- 
2.43.0


From 16a2726b180fb88ec4289c9b6976eb61ba427d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:35 +0000
Subject: [PATCH 30/99] fix: do not compare iterators of different lists in
 is_root

---
 src/flpr/Tree.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 77b8713..209f572 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -127,7 +127,8 @@ public:
   constexpr bool is_fork() const noexcept { return !is_leaf(); }
   constexpr bool is_root() const noexcept {
     assert(linked_);
-    return parent_ == self_itr_;
+    /* these iterators belong to different lists unless this is the root */
+    return &*parent_ == &*self_itr_;
   }
   //! Return a const reference to the list of branches
   /*! Note that this will allocate the branch list if it doesn't already exist
-- 
2.43.0


From cbe09e6e89515137dc871c853b62339c7b2b723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 31/99] fix: accept type parameter definitions, PRIVATE and
 SEQUENCE in a derived type

---
 src/flpr/Prgm_Parsers_impl.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index c026112..411105e 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -112,7 +112,8 @@ PPARSER(derived_type_def) {
   constexpr auto p =
     seq_if(rule_tag,
            STMT(derived_type_stmt),
-           opt(STMT(private_or_sequence)),
+           star(STMT(type_param_def_stmt)),
+           star(STMT(private_or_sequence)),
            component_part,
            opt(type_bound_procedure_part),
            STMT(end_type_stmt));
-- 
2.43.0


From c0b49de6e71304831a5ffbcd60c320bde1ff1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:24 +0000
Subject: [PATCH 32/99] fix: FORMAT and RANK statements are not macros

---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 867c2ed..d428de4 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2467,6 +2467,8 @@ Stmt_Tree macro_stmt(TT_Stream &ts) {
         neg(peek(TAG(KW_WHERE))),
         neg(peek(TAG(KW_FORALL))),
         neg(peek(TAG(KW_CASE))),
+        neg(peek(TAG(KW_FORMAT))),
+        neg(peek(TAG(KW_RANK))),
         name(),
         rule(consume_parens),
         eol());
-- 
2.43.0


From 92cd68dadd5b14e6ea5a10524b815c4253fd844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:40 +0000
Subject: [PATCH 33/99] fix: rebuild the trees of END DO, PRIVATE/SEQUENCE and
 type-bound procedure statements

---
 src/flpr/parse_stmt.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index d428de4..140b560 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3950,6 +3950,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_END_BLOCK_STMT):
     return end_block_stmt(ts);
     break;
+  case TAG(SG_END_DO):
+    return end_do(ts);
+    break;
   case TAG(SG_END_DO_STMT):
     return end_do_stmt(ts);
     break;
@@ -4139,6 +4142,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_PRIVATE_COMPONENTS_STMT):
     return private_components_stmt(ts);
     break;
+  case TAG(SG_PRIVATE_OR_SEQUENCE):
+    return private_or_sequence(ts);
+    break;
   case TAG(SG_PROC_COMPONENT_DEF_STMT):
     return proc_component_def_stmt(ts);
     break;
@@ -4208,6 +4214,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_TYPE_BOUND_GENERIC_STMT):
     return type_bound_generic_stmt(ts);
     break;
+  case TAG(SG_TYPE_BOUND_PROC_BINDING):
+    return type_bound_proc_binding(ts);
+    break;
   case TAG(SG_TYPE_BOUND_PROCEDURE_STMT):
     return type_bound_procedure_stmt(ts);
     break;
-- 
2.43.0


From e59967415ef2a83607381640f6c7ace72e33588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:41 +0000
Subject: [PATCH 34/99] fix: do not cut the text of fixed-format comments when
 indenting

---
 src/flpr/File_Line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 1d6250f..cf78fdf 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -459,8 +459,10 @@ size_t File_Line::size() const noexcept {
 
 bool File_Line::set_leading_spaces(int const spaces) {
   if (is_comment()) {
-    std::string::size_type pos = left_txt.find('!');
+    std::string::size_type pos = left_txt.find_first_not_of(" \t");
     if (pos != std::string::npos) {
+      if (left_txt[pos] != '!')
+        return false; // a fixed-format comment has to start in column 1
       left_space.clear();
       main_txt.clear();
       right_space.clear();
-- 
2.43.0


From 6cfb5462e76cd7d32e4c9459d2cb9734ea54b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:41 +0000
Subject: [PATCH 35/99] fix: indenting a continued line with a trailing comment
 to the left

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index cf78fdf..cec0d18 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -564,7 +564,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-          right_space.insert(pos, -offset, ' ');
+          right_space.append(-offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From 4eb2927fa7858c706d2db5915ca0a8cbf49448c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 36/99] fix: indenting fixed-format continuation lines and
 labelled lines

---
 src/flpr/File_Line.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index cec0d18..4c5123c 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -511,8 +511,12 @@ bool File_Line::set_leading_spaces(int const spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
-    int offset;
-    if (left_txt.empty()) {
+    int offset{0};
+    if (is_fixed_format() && is_continuation()) {
+      return false; // do not move continued text
+    } else if (left_txt.empty() || is_fixed_format()) {
+      /* fixed-format labels are in the control columns, which are not part of
+         left_space */
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
       orig_spaces = left_space.size();
@@ -538,7 +542,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
           offset = 1 - left_space.size();
           left_space.assign(1, ' ');
         }
-      } else if (is_continuation() && !is_fixed_format()) {
+      } else if (is_continuation()) {
         if (orig_spaces == spaces)
           return false; // no change needed
         if (orig_spaces < spaces) {
-- 
2.43.0


From 30c6d909688c55b09455952107148f6267f3984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 37/99] fix: do not indent a fixed-format comment into the
 continuation column

---
 src/flpr/File_Line.cc | 5 ++++-
 src/flpr/File_Line.hh | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 4c5123c..312c30b 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -457,7 +457,7 @@ size_t File_Line::size() const noexcept {
          right_space.size() + right_txt.size();
 }
 
-bool File_Line::set_leading_spaces(int const spaces) {
+bool File_Line::set_leading_spaces(int spaces) {
   if (is_comment()) {
     std::string::size_type pos = left_txt.find_first_not_of(" \t");
     if (pos != std::string::npos) {
@@ -467,6 +467,9 @@ bool File_Line::set_leading_spaces(int const spaces) {
       main_txt.clear();
       right_space.clear();
       right_txt.clear();
+      /* a comment starting in column 6 would be a fixed-format continuation */
+      if (is_fixed_format() && spaces == 5)
+        spaces = 6;
       if (static_cast<int>(pos) == spaces)
         return false; // no change needed
 
diff --git a/src/flpr/File_Line.hh b/src/flpr/File_Line.hh
index 7e3021a..3490191 100644
--- a/src/flpr/File_Line.hh
+++ b/src/flpr/File_Line.hh
@@ -185,7 +185,7 @@ public:
   //! Set the number of spaces aligning the main_txt or comment
   /*! Note that this will make no changes if not is_fortran() or is_comment().
       This function returns true if the spacing was altered, false otherwise. */
-  bool set_leading_spaces(int const spaces);
+  bool set_leading_spaces(int spaces);
   int get_leading_spaces() const noexcept;
 
   //! Set a new label (new_label == 0 clears it)
-- 
2.43.0


From cf98ca98b61e8d80554be62a9c9bf06fc5086e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:16 +0000
Subject: [PATCH 38/99] fix: report no change when a continuation line cannot
 be moved further left

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 312c30b..a26e576 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -583,7 +583,7 @@ bool File_Line::set_leading_spaces(int spaces) {
         }
       }
     }
-    return true;
+    return offset != 0;
   }
   return false; // wasn't a comment or fortran line
 }
-- 
2.43.0


From 66982c3cc3a232fb5ddc2ced63499cc4812e8fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 39/99] fix: keep labels apart and drop column 6 zeros when
 converting to free form

A label directly followed by statement text in column 7 was joined with it, and
a '0' in column 6 of an initial line became a label.
---
 src/flpr/Logical_File.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 14299ae..d36c0d4 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -558,7 +558,13 @@ bool Logical_File::convert_fixed_to_free() {
 
           /* Adjust left_txt and left_spaces */
           if (curr_fortran_line == 0) {
-            if (fl.left_txt.empty()) {
+            if (fl.has_label()) {
+              /* keep the text in its column, separated from the label */
+              if (fl.left_txt.size() < 6)
+                fl.left_space.insert(0, 6 - fl.left_txt.size(), ' ');
+            } else {
+              /* remove any '0' from column 6 */
+              fl.left_txt.clear();
               fl.left_space.insert(0, 6, ' ');
             }
           } else {
-- 
2.43.0


From a4aa5a2ba6ca0b1b6712601e66fb68b8f5f62877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 40/99] fix: text past the last column when converting to free
 form

It became part of an open character context, or an ampersand there became a
continuation mark.
---
 src/flpr/Logical_File.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index d36c0d4..3faade1 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -542,6 +542,21 @@ bool Logical_File::convert_fixed_to_free() {
       for (size_t curr_idx = 0; curr_idx < N_FL; ++curr_idx) {
         if (layout[curr_idx].is_fortran()) {
           File_Line &fl = layout[curr_idx];
+          /* Text past the last column is not Fortran text.  It can't be kept
+             as a comment in a character context, and an ampersand there would
+             be a continuation mark. */
+          if (fl.open_delim != '\0') {
+            fl.right_txt.clear();
+          } else {
+            auto const amp = fl.right_txt.find_first_not_of(" \t\r");
+            if (amp != std::string::npos && fl.right_txt[amp] == '&') {
+              if (fl.right_txt.find_first_not_of(" \t\r", amp + 1) ==
+                  std::string::npos)
+                fl.right_txt.clear();
+              else
+                fl.right_txt[amp] = '!';
+            }
+          }
           if (curr_fortran_line + 1 < total_fortran_lines) {
             /* Need to add a trailing continuation mark */
             if (fl.right_txt.empty()) {
-- 
2.43.0


From f8cce50a44aaa6d8b6a1a82971277307b5ac0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 41/99] fix: keep a continued real literal together when
 converting to free form

---
 src/flpr/Logical_File.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 3faade1..cb4917e 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -529,7 +529,19 @@ bool Logical_File::convert_fixed_to_free() {
       /* Scan the tokens to find multiline tokens (continued strings or tokens
          that are split across two lines */
       std::deque<size_t> needs_front_continuation;
+      int prev_end_line{0};
       for (auto const &tt : ll.fragments()) {
+        /* the pieces of a real-literal-constant are separate tokens, but must
+           not be separated */
+        if (tt.mt_begin_line_ != prev_end_line &&
+            (tt.token == Syntax_Tags::SG_EXPONENT_LETTER ||
+             tt.token == Syntax_Tags::SG_EXPONENT ||
+             tt.token == Syntax_Tags::TK_UNDERSCORE ||
+             tt.token == Syntax_Tags::SG_KIND_PARAM)) {
+          needs_front_continuation.push_back(
+              static_cast<size_t>(tt.mt_begin_line_));
+        }
+        prev_end_line = tt.mt_end_line_;
         if (tt.is_split_token_()) {
           for (int fli = tt.mt_begin_line_ + 1; fli <= tt.mt_end_line_; ++fli) {
             if (layout[fli].is_fortran())
-- 
2.43.0


From 9a53e85972894b9181c8aa930ee7d2b592569cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 42/99] fix: convert directive markers and empty continuation
 lines to free form

---
 src/flpr/Logical_File.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index cb4917e..52fd8e4 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -623,13 +623,16 @@ bool Logical_File::convert_fixed_to_free() {
           assert(!fl.left_txt.empty());
           if (fl.left_txt[0] != ' ')
             fl.left_txt[0] = '!';
+        } else if (layout[curr_idx].is_continuation()) {
+          /* A continuation line without any text */
+          layout[curr_idx].make_blank();
         }
       }
     } else {
       /* This is a non-Fortran Logical_Line, so we just have to adjust comments,
          and not worry about continuations. */
       for (size_t curr_idx = 0; curr_idx < N_FL; ++curr_idx) {
-        if (layout[curr_idx].is_comment()) {
+        if (layout[curr_idx].is_comment() || layout[curr_idx].is_flpr_pp()) {
           File_Line &fl = layout[curr_idx];
           assert(!fl.left_txt.empty());
           if (fl.left_txt[0] != ' ')
-- 
2.43.0


From e574596ff3927efcb2bdb042fda86f9a91f131e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:01 +0000
Subject: [PATCH 43/99] fix: keep the comment when a line is emptied

---
 src/flpr/File_Line.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index a26e576..18d439d 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -436,13 +436,18 @@ void File_Line::make_comment_or_blank() {
     right_txt[0] = ' ';
   }
   auto comment_start = right_txt.find('!');
-  if (comment_start != std::string::npos && comment_start > 0) {
-    /* transfer any leading blanks from right_txt to right_space */
-    right_space.append(comment_start, ' ');
-    right_txt.erase(0, comment_start);
-    /* set each of the earlier text fields to be blank of the same length */
-    left_txt.assign(left_txt.size(), ' ');
-    right_txt.assign(right_txt.size(), ' ');
+  if (comment_start != std::string::npos) {
+    /* keep the comment in its column: all of the text of a comment line is in
+       left_txt */
+    size_t const comment_col = left_txt.size() + left_space.size() +
+                               main_txt.size() + right_space.size() +
+                               comment_start;
+    left_txt.assign(comment_col, ' ');
+    left_txt.append(right_txt, comment_start);
+    left_space.clear();
+    main_txt.clear();
+    right_space.clear();
+    right_txt.clear();
     bool const is_fixed_format = classification_[ff];
     classification_.reset();
     classification_[ff] = is_fixed_format;
-- 
2.43.0


From c6aab4ac88a4b71869848aa8c10c5018b919389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:01 +0000
Subject: [PATCH 44/99] fix: clear a statement label

---
 src/flpr/File_Line.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 18d439d..5402fc9 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -633,14 +633,19 @@ bool File_Line::set_label(int new_label) {
       if (left_space.size() > 6)
         left_space.erase(0, 6);
     } else {
-      assert(has_label());
-      left_txt = std::to_string(new_label);
+      if (new_label == 0)
+        left_txt.clear();
+      else
+        left_txt = std::to_string(new_label);
       left_txt.append(6 - left_txt.size(), ' ');
     }
   } else {
     /* free-format */
     size_t const old_size = left_txt.size();
-    left_txt = std::to_string(new_label);
+    if (new_label == 0)
+      left_txt.clear();
+    else
+      left_txt = std::to_string(new_label);
     size_t const new_size = left_txt.size();
     if (new_size < old_size) {
       left_space.append(old_size - new_size, ' ');
@@ -653,7 +658,10 @@ bool File_Line::set_label(int new_label) {
       }
     }
   }
-  SET_CLASS(label);
+  if (new_label == 0)
+    UNSET_CLASS(label);
+  else
+    SET_CLASS(label);
   return true;
 }
 
-- 
2.43.0


From a916004b585723705d49870089d197c7f376ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:26 +0000
Subject: [PATCH 45/99] fix: keep both parts of a split line well-formed

---
 src/flpr/Logical_Line.cc | 54 +++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index ae9d538..cb0c122 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -509,7 +509,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   if (frag == fragments_.end())
     return false;
   int const split_line = frag->mt_end_line_;
-  assert(split_line < static_cast<int>(fragments_.size()));
+  assert(split_line < static_cast<int>(layout_.size()));
 
   auto const num_left_sp = layout_[0].main_first_col() - 1;
 
@@ -549,6 +549,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
     /* cleanup the source: remove any trailing ampersand continuations */
     layout_[split_line].make_uncontinued();
+    layout_[split_line].open_delim = '\0';
 
     /* clean new: remove main_txt before start of frag */
     export_beg->main_txt.erase(0, lr_beg->mt_begin_col_);
@@ -557,10 +558,14 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        needed */
     if (export_beg->is_continued()) {
       export_beg->right_txt = '&';
-      size_t const new_rs =
-          export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
-      if (export_beg->right_space.size() != new_rs) {
-        export_beg->right_space.assign(new_rs, ' ');
+      /* any space in front of the ampersand matters if the last token is
+         continued on the next line */
+      if (!std::prev(lr_end)->is_split_token_()) {
+        size_t const new_rs =
+            export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
+        if (export_beg->right_space.size() != new_rs) {
+          export_beg->right_space.assign(new_rs, ' ');
+        }
       }
     } else {
       export_beg->right_space.clear();
@@ -569,6 +574,8 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
     /* clean new: remove left_txt */
     export_beg->left_txt.clear();
+    export_beg->unset_classification(File_Line::class_flags::label);
+    export_beg->unset_classification(File_Line::class_flags::continuation);
     /* clean new: indent column */
     export_beg->set_leading_spaces(num_left_sp);
 
@@ -591,27 +598,25 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        continuation and adjust indent */
     export_beg = layout_.begin() + split_line + 1;
 
-    /* cleanup the source: remove any trailing ampersand continuations */
+    /* comments and blank lines stay with the source */
+    while (export_beg != layout_.end() && export_beg->is_trivial())
+      export_beg = std::next(export_beg);
+    if (export_beg == layout_.end())
+      return false;
+
+    /* cleanup the source: remove any semicolons and trailing ampersand
+       continuations */
+    layout_[split_line].main_txt.erase(frag->mt_end_col_);
     layout_[split_line].make_uncontinued();
 
-    /* skip comments */
-    auto non_trivial = export_beg;
-    while (non_trivial != layout_.end() && non_trivial->is_trivial()) {
-      if (non_trivial->left_txt.empty()) {
-        non_trivial->left_space.assign(num_left_sp, ' ');
-      }
-      non_trivial = std::next(non_trivial);
-    }
-    if (non_trivial != layout_.end()) {
-      non_trivial->left_txt.clear();
-      non_trivial->set_leading_spaces(num_left_sp);
-    }
+    export_beg->left_txt.clear();
+    export_beg->unset_classification(File_Line::class_flags::continuation);
+    export_beg->set_leading_spaces(num_left_sp);
   }
 
-  if (export_beg == layout_.end())
-    return false;
-
   new_ll.clear();
+  new_ll.file_info = file_info;
+  int const num_kept = std::distance(layout_.begin(), export_beg);
 
   /* Export all of the remainder lines out to new_ll */
   new_ll.layout_.insert(new_ll.layout_.end(),
@@ -625,14 +630,13 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
                            std::make_move_iterator(fragments_.end()));
 
   /* update the main_txt line numbers for the new fragments  */
-  int const move_up = new_ll.fragments_.front().mt_begin_line_;
   for (auto &tt : new_ll.fragments_) {
-    tt.mt_begin_line_ -= move_up;
-    tt.mt_end_line_ -= move_up;
+    tt.mt_begin_line_ -= num_kept;
+    tt.mt_end_line_ -= num_kept;
   }
 
   /* Trim down this layout_ */
-  layout_.resize(split_line + 1);
+  layout_.resize(num_kept);
 
   /* Statements is now invalid */
   clear_stmts();
-- 
2.43.0


From ef4dc3420b15a0800a465dd153a15b942ca4afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:48 +0000
Subject: [PATCH 46/99] fix: update the statement in front of a split

---
 src/flpr/Logical_File.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 52fd8e4..ce5e5d4 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -359,6 +359,12 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
     std::advance(update_stmt, 1);
   }
   assert(num_changed == ll_seq_new->stmts().size());
+
+  /* the fragment following prev_stmt is gone, so update its end */
+  prev_stmt->assign_range(ll_seq_orig->stmts().back());
+  prev_stmt->drop_stmt_tree();
+  if (ll_seq_orig->stmts().size() == 1)
+    prev_stmt->set_compound(0);
   return true;
 }
 
-- 
2.43.0


From 97821bf98730701b514c1d8d2b32160719cae615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:48 +0000
Subject: [PATCH 47/99] fix: find the edited text on lines starting with a
 semicolon

---
 src/flpr/Logical_File.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index ce5e5d4..4733d57 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -458,8 +458,8 @@ void Logical_File::replace_stmt_substr(LL_STMT_SEQ::iterator stmt,
   isolate_stmt(stmt);
 
   /* find the updated TT_Range using the offsets */
-  auto new_beg_it = std::next(stmt->ll().fragments().begin(), beg_off);
-  auto new_end_it = std::next(stmt->ll().fragments().begin(), end_off);
+  TT_SEQ::iterator new_beg_it = std::next(stmt->begin(), beg_off);
+  TT_SEQ::iterator new_end_it = std::next(stmt->begin(), end_off);
 
   stmt->ll().replace_stmt_substr(TT_Range{new_beg_it, new_end_it}, new_text);
   assert(stmt->ll().has_stmts());
@@ -474,7 +474,7 @@ void Logical_File::insert_text_after(LL_STMT_SEQ::iterator stmt,
                                      std::string const &new_text) {
   auto const frag_off = std::distance(stmt->begin(), frag);
   isolate_stmt(stmt);
-  auto new_frag_it = std::next(stmt->ll().fragments().begin(), frag_off);
+  TT_SEQ::iterator new_frag_it = std::next(stmt->begin(), frag_off);
   stmt->ll().insert_text_after(new_frag_it, new_text);
   stmt->assign_range(stmt->ll().stmts()[0]);
   stmt->drop_stmt_tree();
-- 
2.43.0


From fd529aa0f9737fcd664a0cea67a203e8f2d4b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:17 +0000
Subject: [PATCH 48/99] fix: keep a continued token together when splitting a
 line

---
 src/flpr/Logical_Line.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index cb0c122..6451703 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -558,9 +558,12 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        needed */
     if (export_beg->is_continued()) {
       export_beg->right_txt = '&';
-      /* any space in front of the ampersand matters if the last token is
-         continued on the next line */
-      if (!std::prev(lr_end)->is_split_token_()) {
+      /* any space in front of the ampersand matters if the next line begins
+         with one */
+      auto next_fl = std::next(export_beg);
+      while (next_fl != layout_.end() && next_fl->is_trivial())
+        next_fl = std::next(next_fl);
+      if (next_fl == layout_.end() || !next_fl->is_continuation()) {
         size_t const new_rs =
             export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
         if (export_beg->right_space.size() != new_rs) {
-- 
2.43.0


From 719defdba526da38a7923599917461a823d049ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:56 +0000
Subject: [PATCH 49/99] fix: continue replaced text over any number of lines

---
 src/flpr/Logical_Line.cc | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6451703..492e05c 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -395,9 +395,12 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   if (layout_.size() < new_text.size()) {
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
-    ref_fl.make_continued();
-    ref_fl.left_txt.clear();
+    if (!ref_fl.is_fixed_format())
+      ref_fl.left_txt.clear();
+    ref_fl.unset_classification(File_Line::class_flags::label);
+    ref_fl.right_space.clear();
     ref_fl.right_txt.clear();
+    ref_fl.open_delim = '\0';
     ref_fl.set_leading_spaces(indent);
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
   }
@@ -407,13 +410,27 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   for (std::string const &s : new_text) {
     layout_[fl_idx++].main_txt = s;
   }
-  assert(ref_line < fl_idx);
 
-  /* fix continuations */
-  if (ref_line < fl_idx - 1) {
-    layout_[ref_line].make_continued();
+  /* fix continuations: none of the new text is in a character context, and no
+     token of it is continued on the next line */
+  for (size_t i = 0; i < fl_idx; ++i) {
+    File_Line &fl = layout_[i];
+    if (fl.is_fixed_format())
+      continue;
+    if (i > 0 && fl.is_continuation()) {
+      fl.left_space.insert(0, fl.left_txt.size(), ' ');
+      fl.left_txt.clear();
+      fl.unset_classification(File_Line::class_flags::continuation);
+    }
+    fl.open_delim = '\0';
+    if (i + 1 < fl_idx) {
+      fl.make_continued();
+      if (fl.right_space.empty())
+        fl.right_space.assign(1, ' ');
+    } else {
+      fl.make_uncontinued();
+    }
   }
-  layout_[fl_idx - 1].make_uncontinued();
 
   /* clear any excess original lines, preserving comments */
   for (size_t i = fl_idx; i < layout_.size(); ++i) {
-- 
2.43.0


From 5830fb8d5a0f0f84ce5a581479ba994af505d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:44 +0000
Subject: [PATCH 50/99] fix: keep the continuation marks when replacing part of
 a statement

---
 src/flpr/Logical_Line.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 492e05c..d7fc2fa 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -461,17 +461,23 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
   assert(stcol >= 0);
   assert(ecol <= static_cast<int>(layout_[eln].main_txt.size()));
   layout_[stln].main_txt.erase(stcol, ecol - stcol);
-  if (layout_[stln].main_txt.find_first_not_of(' ') == std::string::npos) {
-    layout_[stln].main_txt.clear();
-    if (multiline)
-      layout_[stln].make_comment_or_blank();
+  if (!multiline)
+    return;
+
+  /* any character context or continued token on these lines is gone */
+  layout_[hold_stln].open_delim = '\0';
+  if (layout_[eln].main_txt.find_first_not_of(' ') == std::string::npos) {
+    layout_[eln].make_comment_or_blank();
   }
+  if (layout_[hold_stln].is_continued() &&
+      layout_[hold_stln].right_space.empty())
+    layout_[hold_stln].right_space.assign(1, ' ');
 
-  int count_fortran{0};
-  for (int i = hold_stln; i <= eln; ++i)
-    if (layout_[i].is_fortran())
-      count_fortran += 1;
-  if (count_fortran == 1)
+  /* continuation is only needed if there is some text left to continue with */
+  bool more_fortran{false};
+  for (size_t i = hold_stln + 1; i < layout_.size(); ++i)
+    more_fortran |= layout_[i].is_fortran();
+  if (!more_fortran)
     layout_[hold_stln].make_uncontinued();
 }
 
-- 
2.43.0


From 52f876bde4f5aa98bc6c7cced4704bed4cf4309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:34 +0000
Subject: [PATCH 51/99] fix: do not break a continued token when moving a line
 to the left

---
 src/flpr/File_Line.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 5402fc9..65c53cf 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -575,8 +575,12 @@ bool File_Line::set_leading_spaces(int spaces) {
       if (pos != std::string::npos) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
-             right */
-          right_space.append(-offset, ' ');
+             right (but not between a token and an ampersand that follows it
+             directly, as the token could be continued on the next line) */
+          if (is_continued() && right_space.empty())
+            right_txt.insert(pos, -offset, ' ');
+          else
+            right_space.append(-offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From 7cc927fa117a242d64d09a53708b8b2a425bc74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:24 +0000
Subject: [PATCH 52/99] fix: keep embedded comments when replacing the text of
 a statement

---
 src/flpr/Logical_Line.cc | 44 +++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d7fc2fa..e3f700c 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -371,50 +371,52 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   assert(!layout_.empty());
   assert(!is_compound());
 
-  size_t const old_size = layout_.size();
-
   /* find the last is_fortran() line in layout_ to use as a prototype for any
      needed new File_Lines, and to mark as continued if appending new text */
-  size_t ref_line = old_size - 1;
+  size_t ref_line = layout_.size() - 1;
   while (ref_line > 0 && !layout_[ref_line].is_fortran()) {
     ref_line -= 1;
   }
   assert(layout_[ref_line].is_fortran());
   assert(!layout_[ref_line].is_continued());
 
-  size_t num_orig_fortran_lines{0};
-  for (auto const &fl : layout_) {
-    if (fl.is_fortran())
-      num_orig_fortran_lines += 1;
+  /* embedded comments and blank lines are left where they are */
+  std::vector<size_t> fortran_lines;
+  for (size_t i = 0; i < layout_.size(); ++i) {
+    if (layout_[i].is_fortran())
+      fortran_lines.push_back(i);
   }
 
-  /* Currently, this routine will destroy embedded comment lines.  Prevent this
-     from happening until it is fixed. */
-  assert(num_orig_fortran_lines == layout_.size());
-
-  if (layout_.size() < new_text.size()) {
-    int const indent = layout_[ref_line].main_first_col() - 1;
+  if (fortran_lines.size() < new_text.size()) {
     File_Line ref_fl = layout_[ref_line];
-    if (!ref_fl.is_fixed_format())
-      ref_fl.left_txt.clear();
     ref_fl.unset_classification(File_Line::class_flags::label);
+    if (ref_fl.is_fixed_format()) {
+      ref_fl.left_txt = "     &";
+      ref_fl.set_classification(File_Line::class_flags::continuation);
+    } else {
+      int const indent = ref_fl.main_first_col() - 1;
+      ref_fl.left_txt.clear();
+      ref_fl.set_leading_spaces(indent);
+    }
     ref_fl.right_space.clear();
     ref_fl.right_txt.clear();
     ref_fl.open_delim = '\0';
-    ref_fl.set_leading_spaces(indent);
-    layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
+    while (fortran_lines.size() < new_text.size()) {
+      fortran_lines.push_back(layout_.size());
+      layout_.push_back(ref_fl);
+    }
   }
 
   /* copy the new text into place */
   size_t fl_idx{0};
   for (std::string const &s : new_text) {
-    layout_[fl_idx++].main_txt = s;
+    layout_[fortran_lines[fl_idx++]].main_txt = s;
   }
 
   /* fix continuations: none of the new text is in a character context, and no
      token of it is continued on the next line */
   for (size_t i = 0; i < fl_idx; ++i) {
-    File_Line &fl = layout_[i];
+    File_Line &fl = layout_[fortran_lines[i]];
     if (fl.is_fixed_format())
       continue;
     if (i > 0 && fl.is_continuation()) {
@@ -433,8 +435,8 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   }
 
   /* clear any excess original lines, preserving comments */
-  for (size_t i = fl_idx; i < layout_.size(); ++i) {
-    layout_[i].make_comment_or_blank();
+  for (size_t i = fl_idx; i < fortran_lines.size(); ++i) {
+    layout_[fortran_lines[i]].make_comment_or_blank();
   }
   init_from_layout();
 }
-- 
2.43.0


From 7b348d258ef514e60d67a71eef0079946a565ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:31 +0000
Subject: [PATCH 53/99] fix: separate tokens on free-format lines continued
 without an ampersand

---
 src/flpr/Logical_Line.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index e3f700c..24dec95 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -127,14 +127,21 @@ void Logical_Line::clear() noexcept {
 /* ------------------------------------------------------------------------ */
 void Logical_Line::init_from_layout() noexcept {
   Line_Accum la;
+  char prev_open_delim{'\0'};
 
   for (auto &fl : layout_) {
     if (!fl.is_trivial()) {
       int const first_col = fl.main_first_col();
 
       /* need to add the left and right space sizes here so that continued lines
-         have the correct breaks between lexemes. */
-      la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
+         have the correct breaks between lexemes.  In free-format, a lexeme is
+         only continued if there is a leading ampersand. */
+      size_t left_spaces = fl.left_space.size();
+      if (left_spaces == 0 && prev_open_delim == '\0' &&
+          !fl.is_fixed_format() && !fl.is_continuation())
+        left_spaces = 1;
+      prev_open_delim = fl.open_delim;
+      la.add_line(fl.linenum, left_spaces, first_col, fl.main_txt,
                   fl.right_space.size());
     } else {
       /* no text, but keep the line indices in step with layout_ */
-- 
2.43.0


From 972cdbf1f1030919c6c66f97a5e71976ca5457c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:31 +0000
Subject: [PATCH 54/99] fix: update the end position of a replaced token

---
 src/flpr/Logical_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 24dec95..11319a5 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -332,6 +332,7 @@ void Logical_Line::replace_fragment(typename TT_SEQ::iterator frag,
   frag->mod_text() = new_text;
 
   assert(!frag->is_split_token_());
+  frag->mt_end_col_ += len_change;
   int const layout_line = frag->mt_begin_line_;
   std::string &main_txt = layout_[layout_line].main_txt;
   main_txt.replace(frag->mt_begin_col_, old_text_len, new_text);
-- 
2.43.0


From 014c77e289b14a929dab98a242e90551e7d12c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:31 +0000
Subject: [PATCH 55/99] fix: append comments where they do not end a continued
 token

---
 src/flpr/Logical_Line.cc | 30 ++++++++++++++++++++----------
 src/flpr/Logical_Line.hh |  3 ++-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 11319a5..dacac22 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -873,21 +873,31 @@ void Logical_Line::tokenize(Line_Accum const &la) {
 void Logical_Line::append_comment(std::string const &comment_text) {
   if (comment_text.empty())
     return;
-  if (layout_[0].right_txt.empty()) {
-    int lline_len = layout_[0].main_first_col() + layout_[0].main_txt.size();
+  size_t idx{0};
+  /* A comment can't follow an open character context, and would separate a
+     token from its remainder on a fixed-format continuation line */
+  if (layout_[0].open_delim != '\0' ||
+      (layout_[0].is_fixed_format() && layout_[0].is_fortran())) {
+    for (size_t i = 0; i < layout_.size(); ++i)
+      if (layout_[i].is_fortran())
+        idx = i;
+  }
+  File_Line &fl = layout_[idx];
+  if (fl.right_txt.empty()) {
+    int lline_len = fl.main_first_col() + fl.main_txt.size();
     int c_len = 2 + comment_text.size();
     if (72 - c_len > lline_len)
-      layout_[0].right_space = std::string(72 - c_len - lline_len, ' ');
+      fl.right_space = std::string(72 - c_len - lline_len, ' ');
     else
-      layout_[0].right_space = "    ";
-    layout_[0].right_txt = "! ";
-    layout_[0].right_txt.append(comment_text);
+      fl.right_space = "    ";
+    fl.right_txt = "! ";
+    fl.right_txt.append(comment_text);
   } else {
-    if (layout_[0].right_txt.find('!') == std::string::npos)
-      layout_[0].right_txt.append(" ! ");
+    if (fl.right_txt.find('!') == std::string::npos)
+      fl.right_txt.append(" ! ");
     else
-      layout_[0].right_txt.append(" : ");
-    layout_[0].right_txt.append(comment_text);
+      fl.right_txt.append(" : ");
+    fl.right_txt.append(comment_text);
   }
 }
 
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 04e8779..63da7a5 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -172,7 +172,8 @@ public:
   //! Diagnostic output
   std::ostream &dump(std::ostream &os) const;
 
-  //! Appends an eol comment to first line.  Don't put a leading '!' in text
+  //! Appends an eol comment to the first line that can take one.  Don't put a
+  //! leading '!' in text
   void append_comment(std::string const &text);
 
   //! Returns true if this Logical_Line contains some Fortran statements
-- 
2.43.0


From 4a596cf49d0084e74faca04b0d3bea3a8b176eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:58 +0000
Subject: [PATCH 56/99] fix: rebuild the text of a line without losing or
 joining tokens

---
 src/flpr/Logical_Line.cc | 244 +++++++++++++++++++++------------------
 src/flpr/Logical_Line.hh |   4 -
 2 files changed, 130 insertions(+), 118 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index dacac22..9d9aac9 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -166,6 +166,7 @@ void Logical_Line::init_from_layout() noexcept {
 namespace {
 size_t max_main_txt_len(File_Line const &fl) noexcept {
   const size_t MAX_CHARS{76};
+  const size_t MIN_CHARS{20};
   if (fl.is_comment())
     return 0;
 
@@ -178,145 +179,160 @@ size_t max_main_txt_len(File_Line const &fl) noexcept {
   // over by fl.right_space
   if (mlen + rlen < MAX_CHARS / 2)
     mlen += rlen;
-  assert(mlen < MAX_CHARS);
-  return MAX_CHARS - mlen;
+  // Deeply indented lines have to exceed MAX_CHARS
+  return mlen + MIN_CHARS < MAX_CHARS ? MAX_CHARS - mlen : MIN_CHARS;
 }
 
-// Continue the current line
-Logical_Line::FL_VEC::iterator
-continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
-  curr->make_continued();
-
-  size_t spaces = curr->left_txt.size() + curr->left_space.size();
-  if (curr == text.begin())
+// Continue the line text[curr], and return the index of the line that follows.
+// If split_token is true, the last token on the line is continued too.
+size_t continue_fl(Logical_Line::FL_VEC &text, size_t curr, bool split_token) {
+  size_t spaces = text[curr].left_txt.size() + text[curr].left_space.size();
+  if (curr == 0)
     spaces += 2;
-  // Add (or move to) the next line in text
-  do
-    std::advance(curr, 1);
-  while (curr != text.end() && curr->is_comment());
 
-  if (curr == text.end())
-    curr = text.insert(text.end(), File_Line());
+  size_t next = curr + 1;
+  if (split_token) {
+    // There can't be a comment on this line (it would be part of a character
+    // literal), so move it to a line of its own
+    if (!text[curr].right_txt.empty()) {
+      File_Line comment{text[curr]};
+      comment.make_comment_or_blank();
+      text[curr].right_txt.clear();
+      if (comment.is_comment()) {
+        text.insert(text.begin() + next, comment);
+        next += 1;
+      }
+    }
+    text[curr].make_continued();
+    text[curr].right_space.clear();
+    text.insert(text.begin() + next, File_Line());
+    if (spaces == 0)
+      spaces = 1;
+    text[next].left_txt.assign(spaces - 1, ' ');
+    text[next].left_txt.append(1, '&');
+    text[next].set_classification(File_Line::class_flags::continuation);
+    return next;
+  }
+
+  text[curr].make_continued();
+  // Add (or move to) the next line in text
+  while (next < text.size() && text[next].is_trivial())
+    next += 1;
+  if (next == text.size())
+    text.emplace_back();
   else {
-    curr->left_txt.clear();
-    curr->make_uncontinued();
-    curr->main_txt.clear();
-  }
-  curr->left_space.assign(spaces, ' ');
-  return curr;
+    text[next].left_txt.clear();
+    text[next].unset_classification(File_Line::class_flags::continuation);
+    text[next].make_uncontinued();
+    text[next].open_delim = '\0';
+    text[next].main_txt.clear();
+  }
+  text[next].left_space.assign(spaces, ' ');
+  return next;
 }
 
-} // namespace
-
-/* ------------------------------------------------------------------------ */
-bool Logical_Line::append_tt_if_(std::string &main_txt, size_t max_len,
-                                 Token_Text const &tt, bool first) {
-  size_t len = tt.text().size();
-  if (!first && tt.pre_spaces_ > 0)
-    len += tt.pre_spaces_;
-  // Save room to end the line on a comma
-  if (tt.token != Syntax_Tags::TK_COMMA)
-    max_len -= 1;
-  if (main_txt.size() + len > max_len)
-    return false;
-  if (!first && tt.pre_spaces_ > 0)
-    main_txt.append(tt.pre_spaces_, ' ');
-  main_txt.append(tt.text());
-  return true;
+// The tokens that follow the significand of a real-literal-constant
+bool is_literal_part(int const token) noexcept {
+  return token == Syntax_Tags::SG_EXPONENT_LETTER ||
+         token == Syntax_Tags::SG_EXPONENT ||
+         token == Syntax_Tags::TK_UNDERSCORE ||
+         token == Syntax_Tags::SG_KIND_PARAM;
 }
 
+bool is_quote(char const c) noexcept { return c == '\'' || c == '"'; }
+
+} // namespace
+
 /* ------------------------------------------------------------------------ */
 void Logical_Line::text_from_frags() noexcept {
   if (layout_.empty())
     return;
-  auto fline_it = layout_.begin();
-  if (!fline_it->is_fortran())
+  if (!layout_[0].is_fortran())
     return;
-  fline_it->main_txt.clear();
-  fline_it->make_uncontinued();
+
+  size_t curr{0};
+  layout_[curr].main_txt.clear();
+  layout_[curr].make_uncontinued();
+  layout_[curr].open_delim = '\0';
 
   bool line_start{true};
-  size_t max_llen = max_main_txt_len(*fline_it);
-  for (auto tt_it = fragments_.begin(); tt_it != fragments_.end(); ++tt_it) {
-    int redo = 0;
-    do {
-      if (append_tt_if_(fline_it->main_txt, max_llen, *tt_it, line_start)) {
-        //	    std::cout << "APPEND " << redo << ' ' << *tt_it << '\n';
-        redo = 0;
-        line_start = false;
+  size_t max_llen = max_main_txt_len(layout_[curr]);
+  TT_SEQ::iterator tt_it = fragments_.begin();
+  while (tt_it != fragments_.end()) {
+    /* Collect the tokens that have to stay together */
+    size_t len = tt_it->text().size();
+    TT_SEQ::iterator unit_end = std::next(tt_it);
+    while (unit_end != fragments_.end() && is_literal_part(unit_end->token)) {
+      len += unit_end->text().size();
+      ++unit_end;
+    }
+    if (!line_start && tt_it->pre_spaces_ > 0)
+      len += tt_it->pre_spaces_;
+    // Save room to end the line on a comma
+    size_t const max_len =
+        tt_it->token == Syntax_Tags::TK_COMMA ? max_llen : max_llen - 1;
+
+    if (layout_[curr].main_txt.size() + len > max_len) {
+      if (!line_start) {
+        // Try again on a new line
+        curr = continue_fl(layout_, curr, false);
+        max_llen = max_main_txt_len(layout_[curr]);
+        line_start = true;
         continue;
       }
-      //	std::cout << "FAIL " << redo << ' ' << line_start << ' ' <<
-      //*tt_it << '\n';
-      // Couldn't append the token to the current line
-      bool add_line{true};
-      if (line_start) {
-        // I couldn't add the current token as the first one on a
-        // line!
-        size_t token_size = tt_it->text().size();
-        size_t splits = token_size / max_llen + 1;
-        size_t split_size = token_size / splits + 1;
-        size_t pos{0}, count{split_size};
-
-        for (size_t i = 0; i < splits; ++i) {
-          if (i > 0)
-            fline_it->main_txt.append(1, '&');
-          fline_it->main_txt.append(tt_it->text().substr(pos, count));
-          // Move the continuation ampersand in close
-          if (i + 1 != splits) {
-            fline_it->make_continued();
-            fline_it->right_space.clear();
-            fline_it = continue_fl(layout_, fline_it);
-          }
-          pos = pos + count;
+      if (std::next(tt_it) == unit_end) {
+        // This doesn't fit on any line, so it has to be split
+        std::string const &text = tt_it->text();
+        size_t const quote = text.find_first_of("'\"");
+        size_t pos{0};
+        tt_it->mt_begin_line_ = static_cast<int>(curr);
+        tt_it->mt_begin_col_ = 0;
+        while (text.size() - pos > max_llen - 1) {
+          size_t count = max_llen - 1;
+          // Do not separate doubled delimiters
+          while (count > 1 && is_quote(text[pos + count - 1]) &&
+                 is_quote(text[pos + count]))
+            count -= 1;
+          layout_[curr].main_txt = text.substr(pos, count);
+          pos += count;
+          if (quote < pos)
+            layout_[curr].open_delim = text[quote];
+          curr = continue_fl(layout_, curr, true);
+          max_llen = max_main_txt_len(layout_[curr]);
         }
+        layout_[curr].main_txt = text.substr(pos);
+        tt_it->mt_end_line_ = static_cast<int>(curr);
+        tt_it->mt_end_col_ = static_cast<int>(text.size() - pos);
         line_start = false;
-        add_line = false;
-        redo = 0;
-      }
-      if (add_line) {
-        //	    std::cout << "NEW LINE" << std::endl;
-        // Setup a new File_Line
-        fline_it = continue_fl(layout_, fline_it);
-        max_llen = max_main_txt_len(*fline_it);
-        line_start = true;
-        // Try again
-        redo += 1;
+        tt_it = unit_end;
+        continue;
       }
-    } while (redo > 0 && redo < 4);
-    if (redo == 4) {
-      std::cerr << "text_from_frags: couldn't add " << *tt_it
-                << " to any File_Line\n";
-      dump(std::cerr);
-      exit(1);
     }
-  }
 
-  if (!fragments_.empty())
-    std::advance(fline_it, 1);
-
-  bool blanked{false};
-  while (fline_it != layout_.end()) {
-    if (!fline_it->is_comment()) {
-      fline_it->make_uncontinued();
-      if (fline_it->right_txt.empty()) {
-        fline_it->set_classification(File_Line::class_flags::blank);
-        blanked = true;
-      } else {
-        fline_it->main_txt.clear();
-        fline_it->set_classification(File_Line::class_flags::comment);
-      }
+    /* Append the tokens to the current line */
+    std::string &main_txt{layout_[curr].main_txt};
+    if (!line_start && tt_it->pre_spaces_ > 0)
+      main_txt.append(tt_it->pre_spaces_, ' ');
+    for (; tt_it != unit_end; ++tt_it) {
+      tt_it->mt_begin_line_ = tt_it->mt_end_line_ = static_cast<int>(curr);
+      tt_it->mt_begin_col_ = static_cast<int>(main_txt.size());
+      main_txt.append(tt_it->text());
+      tt_it->mt_end_col_ = static_cast<int>(main_txt.size());
     }
-    std::advance(fline_it, 1);
-  }
-  if (blanked) {
-    auto newend =
-        std::remove_if(layout_.begin(), layout_.end(),
-                       [](File_Line const &fl) { return fl.is_blank(); });
-    layout_.erase(newend, layout_.end());
-    if (layout_.empty())
-      suppress = true;
+    line_start = false;
   }
+
+  /* Clean up the lines that are no longer needed */
+  if (!fragments_.empty())
+    curr += 1;
+  for (size_t i = curr; i < layout_.size(); ++i)
+    layout_[i].make_comment_or_blank();
+  layout_.erase(std::remove_if(
+                    layout_.begin() + curr, layout_.end(),
+                    [](File_Line const &fl) { return fl.is_blank(); }),
+                layout_.end());
+  if (layout_.empty())
+    suppress = true;
   init_stmts();
 }
 
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 63da7a5..f6adeac 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -230,10 +230,6 @@ private:
     in section 6.3.2.2 of the standard.  Returns true if it was split. */
   bool unsmash();
 
-  //! Append a token to main_txt if it fits within max_len characters
-  bool append_tt_if_(std::string &main_txt, size_t max_len,
-                     Token_Text const &tt, bool first);
-
   void erase_stmt_text_(int stln, int stcol, int eln, int ecol);
 
 private:
-- 
2.43.0


From a61c72d4b43c1cb7191550892194f6561f30f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:19 +0000
Subject: [PATCH 57/99] fix: keep the spaces around a removed token

---
 src/flpr/Logical_Line.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 9d9aac9..028e682 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -376,6 +376,14 @@ void Logical_Line::remove_fragment(typename TT_SEQ::iterator frag) {
 
   int const len_change = -(int)(old_text_len);
 
+  // The neighboring tokens are now separated by the spaces on both sides
+  TT_SEQ::iterator const next_frag = std::next(frag);
+  int const spaces = frag->pre_spaces_ + frag->post_spaces_;
+  if (next_frag != fragments_.end())
+    next_frag->pre_spaces_ = spaces;
+  if (frag != fragments_.begin())
+    std::prev(frag)->post_spaces_ = spaces;
+
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = fragments_.erase(frag);
        frag != fragments_.end() && frag->mt_begin_line_ == layout_line;
-- 
2.43.0


From c6aa10dc820c918dda3cb9c97972b5bf31796d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:09 +0000
Subject: [PATCH 58/99] fix: a .F90 file is free-format

---
 src/flpr/File_Info.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Info.cc b/src/flpr/File_Info.cc
index 0e5ae3f..1695227 100644
--- a/src/flpr/File_Info.cc
+++ b/src/flpr/File_Info.cc
@@ -50,9 +50,9 @@ FLPR::File_Type file_type_from_extension(std::string const &filename) {
               << "filename extension for \"" << filename << "\"\n";
   } else {
     const std::string extension = filename.substr(ptpos + 1);
-    if (extension == "f" || extension == "F" || extension == "F90") {
+    if (extension == "f" || extension == "F") {
       file_type = File_Type::FIXEDFMT;
-    } else if (extension == "f90") {
+    } else if (extension == "f90" || extension == "F90") {
       file_type = File_Type::FREEFMT;
     } else {
       std::cerr << "FLPR::file_type_from_extension: Error: unrecognized "
-- 
2.43.0


From cc76481cce7b96926fed31b846afee1bc821d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:09 +0000
Subject: [PATCH 59/99] fix: forget the previous contents when scanning a file

---
 src/flpr/Logical_File.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4733d57..ea2c353 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -72,6 +72,7 @@ bool Logical_File::read_and_scan(std::istream &is,
 
 bool Logical_File::scan(Line_Buf const &buf, std::string const &buffer_name,
                         int const last_fixed_col, File_Type buffer_type) {
+  clear();
   file_info = std::make_shared<File_Info>(buffer_name, buffer_type);
 
   bool res = false;
-- 
2.43.0


From 3dd2a653279af3584f1e47a2793761092a031c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:09 +0000
Subject: [PATCH 60/99] fix: report scan errors in lines that do not come from
 a file

---
 src/flpr/Logical_File.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index ea2c353..8ade53b 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -31,6 +31,12 @@ bool is_continued_preprocessor(FLPR::File_Line const &fl) {
   return (fl.is_preprocessor() || fl.is_flpr_pp() || fl.is_include()) &&
          FLPR::last_non_blank_char(fl.left_txt) == '\\';
 }
+
+//! The scan_fixed and scan_free functions can be called without a File_Info
+std::string
+display_name(std::shared_ptr<FLPR::File_Info> const &file_info) {
+  return file_info ? file_info->filename : std::string{"unnamed"};
+}
 } // namespace
 
 namespace FLPR {
@@ -111,7 +117,7 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
     } catch (std::exception &e) {
-      std::cerr << "At line " << i + 1 << " of \"" << file_info->filename
+      std::cerr << "At line " << i + 1 << " of \"" << display_name(file_info)
                 << "\":\n"
                 << raw_lines[i] << '\n'
                 << "scan_fixed error: " << e.what() << std::endl;
@@ -167,7 +173,7 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
     if (curr < N) {
       if (!fl[curr].is_fortran()) {
         std::cerr << "scan_fixed confused on line " << curr + 1 << "of \""
-                  << file_info->filename << "\": \n"
+                  << display_name(file_info) << "\": \n"
                   << fl[curr] << '\n';
         exit(1);
       }
@@ -216,7 +222,7 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
     } catch (std::exception &e) {
-      std::cerr << "At line " << i + 1 << " of \"" << file_info->filename
+      std::cerr << "At line " << i + 1 << " of \"" << display_name(file_info)
                 << "\":\n"
                 << raw_lines[i] << '\n'
                 << "scan_free error: " << e.what() << std::endl;
@@ -289,7 +295,7 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
     if (curr < N) {
       if (!fl[curr].is_fortran()) {
         std::cerr << "scan_free confused on line " << curr + 1 << "of \""
-                  << file_info->filename << "\": \n"
+                  << display_name(file_info) << "\": \n"
                   << fl[curr] << '\n';
         exit(1);
       }
-- 
2.43.0


From 6ea1b1f0f6bd10d0a0681759d6073e0c80ff7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:09 +0000
Subject: [PATCH 61/99] fix: read_file returns true on success and starts
 afresh

---
 src/flpr/Parsed_File.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 338f892..955ad5e 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -162,10 +162,13 @@ bool Parsed_File<PG_NODE_DATA>::read_file(std::string const &filename,
                                           int const last_fixed_col,
                                           File_Type file_type) {
   assert(bad_state_);
+  /* forget what an earlier attempt left behind */
+  parse_tree_ = Parse_Tree{};
+  stmts_ok_ = tree_ok_ = false;
   if (logical_file_.read_and_scan(filename, last_fixed_col, file_type)) {
     bad_state_ = false;
   }
-  return bad_state_;
+  return !bad_state_;
 }
 
 template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
-- 
2.43.0


From d93ff1d65b91b5ecf05f85a560bc950ca65641de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:11 +0000
Subject: [PATCH 62/99] fix: keep the partitions in order when inserting at the
 beginning of one

---
 src/flpr/Range_Partition.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index be97d04..7b2743e 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -138,15 +138,23 @@ public:
   void insert(const_index idx, iterator new_begin, iterator insert_pos) {
     assert(active_idx_(idx));
     difference_type const size_change = std::distance(new_begin, insert_pos);
-    iterator old_begin = begin();
+    iterator old_begin = begin(idx);
     if (insert_pos == old_begin) {
       /* inserting before the body changes our begin, and we tell the tracker
          for the previous partition that their end has changed. */
       parts_[idx].begin = new_begin;
       if (has_tracker(idx))
         parts_[idx].chg_trkr->update_begin(old_begin, new_begin, size_change);
-      if (valid_idx_(idx - 1) && has_tracker(idx - 1)) {
-        parts_[idx - 1].chg_trkr->update_end(old_begin, new_begin);
+      index_type pred = parts_[idx].pred;
+      /* empty partitions in front of this one have to stay empty */
+      while (pred != end_idx_ && parts_[pred].begin == old_begin) {
+        parts_[pred].begin = new_begin;
+        if (has_tracker(pred))
+          parts_[pred].chg_trkr->update_begin(old_begin, new_begin, 0);
+        pred = parts_[pred].pred;
+      }
+      if (pred != end_idx_ && has_tracker(pred)) {
+        parts_[pred].chg_trkr->update_end(old_begin, new_begin);
       }
     } else {
       /* inserting anywhere in the body only changes the length of tracked
-- 
2.43.0


From 3bbbf4fdfba3bcfccdc6eebcfe26d68998fcfd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:11 +0000
Subject: [PATCH 63/99] fix: a statement added to a procedure belongs to the
 region it was added to

---
 src/flpr/Procedure.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index e532ca8..3e73e18 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -167,8 +167,8 @@ public:
   //! emplace a single statement, stored in ll, before position pos
   /*! \param[in] new_syntag the Syntax_Tag for this statement
       \param[in] before_prefix if true, the new statement is inserted
-                 _under_ the prefix of pos.  If false, it is inserted _above_
-                 the prefix of pos.
+                 _above_ the prefix of pos.  If false, it is inserted _under_
+                 the prefix of pos (and takes over the prefix).
   */
   Region_Iterator emplace_stmt(Region_Iterator pos, Logical_Line &&ll,
                                int new_syntag, bool before_prefix) {
@@ -179,7 +179,7 @@ public:
     else
       iter = file_.logical_file().emplace_ll_stmt_after_prefix(
           pos, std::move(ll), new_syntag);
-    ranges_.insert(pos.get_region(), pos, iter);
+    ranges_.insert(pos.get_region(), iter, pos);
     return Region_Iterator(pos.get_region(), iter);
   }
 
-- 
2.43.0


From cdf1a191a52dfda47cd8ed111cd431de137f80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 64/99] fix: name and rename a main-program that had no
 program-stmt

---
 src/flpr/Procedure.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 3e73e18..015f16f 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -342,7 +342,9 @@ template <typename PFile_T> std::string Procedure<PFile_T>::name() const {
   if (headless_main_program())
     return std::string();
 
-  Stmt_Const_Cursor s = range_cursor(PROC_BEGIN)->stmt_tree().ccursor();
+  /* the program-stmt of a renamed headless main-program is not in the
+     Prgm_Tree, so go through the statement */
+  Stmt_Const_Cursor s = cbegin(PROC_BEGIN)->stmt_tree().ccursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
@@ -360,7 +362,9 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
     return false;
 
   if (headless_main_program()) {
-    std::string const program_stmt = "program " + new_name;
+    std::string program_stmt = "program " + new_name;
+    if (file_.logical_file().is_fixed_format())
+      program_stmt.insert(0, 6, ' ');
     emplace_stmt(end(PROC_BEGIN), Logical_Line(program_stmt),
                  Syntax_Tags::SG_PROGRAM_STMT, false);
     mark_prgm_tree_dirty_();
@@ -368,7 +372,7 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
   }
 
   /* fix the subprogram statement */
-  Stmt_Cursor s = range_cursor_(PROC_BEGIN)->stmt_tree().cursor();
+  Stmt_Cursor s = begin(PROC_BEGIN)->stmt_tree().cursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
-- 
2.43.0


From 48d6951015101dda5c181cb89806f7669a983db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 65/99] fix: rename a procedure whose name is split by a
 continuation

---
 src/flpr/Procedure.hh | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 015f16f..b07627e 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -240,6 +240,18 @@ private:
     /* consider dropping the subtree anchored at procedure_root_ here */
     dirty_ = true;
   }
+  void rename_token_(Stmt_Iterator stmt, LL_TT_Range &name_range,
+                     std::string const &new_name) {
+    auto name = name_range.begin();
+    if (name->main_txt_line() == name->main_txt_eline()) {
+      /* We can do this low-level manipulation ONLY because we are not changing
+         the structure or meaning of the statement */
+      name_range.ll().replace_fragment(name, Syntax_Tags::TK_NAME, new_name);
+    } else {
+      /* the name is continued on another line */
+      file_.logical_file().replace_stmt_substr(stmt, name_range, new_name);
+    }
+  }
   constexpr Prgm_Cursor copy_up(Prgm_Cursor c) { return c.up(); }
   constexpr Prgm_Cursor &range_cursor_(size_t idx) {
     return *(ranges_.get_tracker(idx));
@@ -380,20 +392,14 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
   if (Syntax_Tags::KW_PROCEDURE == s->syntag)
     s.next();
   assert(s->token_range.size() == 1);
-  /* We can do this low-level manipulation ONLY because we are not changing the
-     structure or meaning of the statement */
-  s->token_range.ll().replace_fragment(s->token_range.begin(),
-                                       Syntax_Tags::TK_NAME, new_name);
+  rename_token_(begin(PROC_BEGIN), s->token_range, new_name);
 
   /* fix the end statement */
   s = range_cursor_(PROC_END)->stmt_tree().cursor();
   s.down();
   if (s.try_next(2)) {
     assert(Syntax_Tags::is_name(s->syntag));
-    /* We can do this low-level manipulation ONLY because we are not changing
-       the structure or meaning of the statement */
-    s->token_range.ll().replace_fragment(s->token_range.begin(),
-                                         Syntax_Tags::TK_NAME, new_name);
+    rename_token_(begin(PROC_END), s->token_range, new_name);
   }
   mark_prgm_tree_dirty_();
   return true;
-- 
2.43.0


From 41da20ca720063f65ff8995bf5072b8093af2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 66/99] fix: a Procedure forgets the previous procedure when
 ingesting

---
 src/flpr/Procedure.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index b07627e..6828b2f 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -65,7 +65,8 @@ public:
 
 public:
   explicit Procedure(PFile_T &file)
-      : file_{file}, dirty_{false}, ranges_{NUM_REGION_TAG} {}
+      : file_{file}, dirty_{false}, subprogram_tag_{Syntax_Tags::UNKNOWN},
+        ranges_{NUM_REGION_TAG} {}
   Procedure(Procedure const &) = delete;
   Procedure(Procedure &&) = default;
   Procedure &operator=(Procedure const &) = delete;
@@ -275,6 +276,7 @@ template <typename PFile_T> void Procedure<PFile_T>::clear() {
 template <typename PFile_T>
 bool Procedure<PFile_T>::ingest(Prgm_Cursor procedure_root) {
   Prgm_Cursor pc{procedure_root};
+  clear();
   procedure_root_ = pc;
   subprogram_tag_ = pc->syntag();
   if (!(Syntax_Tags::PG_FUNCTION_SUBPROGRAM == subprogram_tag_ ||
-- 
2.43.0


From e8c3372b0c76c4fdea6b59d29ff8c75095581567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 67/99] fix: no trailing blank on the end statement of a
 nameless main-program

---
 src/flpr/Procedure.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 6828b2f..e5b0a01 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -430,7 +430,10 @@ template <typename PFile_T> bool Procedure<PFile_T>::complete_end_stmt() {
       break;
     }
     assert(!suffix.empty());
-    suffix.append(name());
+    if (headless_main_program())
+      suffix.pop_back();
+    else
+      suffix.append(name());
   } else {
     es.next();
     if (!es.has_next()) {
-- 
2.43.0


From fd4d4366bb26d842b3b710dbb419b031816f1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 68/99] fix: Range_Partition.hh can be included more than once

---
 src/flpr/Procedure.hh       |  2 ++
 src/flpr/Range_Partition.hh | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index e5b0a01..5e4a28f 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -20,6 +20,8 @@
 #include <cassert>
 #include <string>
 
+namespace FLPR {
+
 //! A helper class for instantiating a Range_Partition
 template <typename Cursor> class Prgm_Cursor_Tracker;
 
diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index 7b2743e..8db3c1c 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -12,7 +12,12 @@
   \file Range_Partition.hh
 */
 
+#ifndef FLPR_RANGE_PARTITION_HH
+#define FLPR_RANGE_PARTITION_HH 1
+
 #include "flpr/Safe_List.hh"
+#include <cassert>
+#include <iterator>
 #include <optional>
 #include <vector>
 
@@ -245,7 +250,7 @@ private:
       const_index pred = parts_[idx].pred;
       parts_[pred].succ = succ;
       parts_[succ].pred = pred;
-      parts_[idx].deactivate_(idx);
+      parts_[idx].deactivate(idx);
     }
   }
 };
@@ -278,3 +283,7 @@ bool Range_Partition<Range, Chg_Trkr>::validate() const {
   }
   return true;
 }
+
+} // namespace FLPR
+
+#endif
-- 
2.43.0


From fef25070bd2c63705dc3de07de83622b59ad4361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:29 +0000
Subject: [PATCH 69/99] fix: drop the statement tree when replacing a statement
 by one of the same kind

---
 src/flpr/Logical_File.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 8ade53b..408aefe 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -447,6 +447,7 @@ void Logical_File::replace_stmt_text(LL_STMT_SEQ::iterator stmt,
   assert(stmt->ll().has_stmts());
   assert(stmt->ll().stmts().size() == 1);
   stmt->assign_range(stmt->ll().stmts()[0]);
+  stmt->drop_stmt_tree();
   stmt->set_stmt_syntag(new_syntag);
   stmt->unhook();
 }
-- 
2.43.0


From c6053bb64e4c01efdf068eb9665e14843741bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:29 +0000
Subject: [PATCH 70/99] fix: a procedure that has only an END statement

---
 src/flpr/Range_Partition.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index 8db3c1c..a431c6c 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -180,7 +180,10 @@ private:
     std::optional<Chg_Trkr> chg_trkr;
 
   public:
-    constexpr bool active() const noexcept { return pred != succ; }
+    /* note that the only active partition has pred == succ == end_idx_ */
+    constexpr bool active(const_index my_idx) const noexcept {
+      return pred != my_idx;
+    }
     constexpr void deactivate(const_index my_idx) noexcept {
       pred = my_idx;
       succ = my_idx;
@@ -198,7 +201,7 @@ private:
     return /* idx >= 0 && */ idx < end_idx_ && parts_[idx].okay();
   }
   constexpr bool active_idx_(const_index idx) const noexcept {
-    return valid_idx_(idx) && parts_[idx].active();
+    return valid_idx_(idx) && parts_[idx].active(idx);
   }
   constexpr index_type first_active_idx_() const noexcept {
     return parts_.back().succ;
@@ -210,11 +213,11 @@ private:
     return parts_.back().pred == end_idx_;
   }
   constexpr index_type next_active_idx_(index_type idx) const noexcept {
-    if (parts_[idx].active())
+    if (parts_[idx].active(idx))
       return parts_[idx].succ;
     do {
       idx += 1;
-    } while (valid_idx_(idx) && !parts_[idx].active());
+    } while (valid_idx_(idx) && !parts_[idx].active(idx));
     /* note that this could be end_idx_ */
     return idx;
   }
@@ -234,7 +237,7 @@ private:
   }
 
   constexpr void activate_(const_index idx) noexcept {
-    if (!parts_[idx].active()) {
+    if (!parts_[idx].active(idx)) {
       const_index succ = next_active_idx_(idx);
       const_index pred = parts_[succ].pred;
       parts_[pred].succ = idx;
@@ -245,7 +248,7 @@ private:
     }
   }
   constexpr void deactivate_(const_index idx) noexcept {
-    if (parts_[idx].active()) {
+    if (parts_[idx].active(idx)) {
       const_index succ = parts_[idx].succ;
       const_index pred = parts_[idx].pred;
       parts_[pred].succ = succ;
@@ -268,7 +271,7 @@ bool Range_Partition<Range, Chg_Trkr>::validate() const {
   for (index_type i = 0; i < end_idx_; ++i) {
     assert(valid_idx_(i));
     if ((parts_[i].succ == i) && (parts_[i].pred == i)) {
-      assert(!parts_[i].active());
+      assert(!parts_[i].active(i));
     } else {
       assert(active_idx_(i));
       if (first_idx == my_bad) {
-- 
2.43.0


From 5419e34d8080e94a6b5fa691c2ebd3ff0cb4ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:55 +0000
Subject: [PATCH 71/99] fix: a Safe_List that was moved from is an empty list

---
 src/flpr/Safe_List.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index a4f2578..bbe6970 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -74,6 +74,7 @@ public:
   }
   constexpr Safe_List(Safe_List &&src) : list_{std::move(src.list_)} {
     my_end_ = std::prev(list_.end());
+    src.clear();
   }
   constexpr Safe_List &operator=(Safe_List const &src) {
     list_ = src.list_;
@@ -84,6 +85,7 @@ public:
     if (this != &src) {
       list_ = std::move(src.list_);
       my_end_ = std::prev(list_.end());
+      src.clear();
     }
     return *this;
   }
-- 
2.43.0


From 2e3394bee5558636bf02139ac680644cc27ea49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:55 +0000
Subject: [PATCH 72/99] fix: Safe_List::remove_if leaves the hidden end element
 alone

---
 src/flpr/Safe_List.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index bbe6970..0b67315 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -17,6 +17,7 @@
 
 #define DEBUG_SL_RANGE 0
 
+#include <algorithm>
 #include <cassert>
 #include <initializer_list>
 #include <iterator>
@@ -110,10 +111,13 @@ public:
   constexpr void push_back(T &&value) { list_.insert(my_end_, value); }
   constexpr void pop_back() { list_.erase(std::prev(my_end_)); }
   template <class UnaryPredicate> constexpr void remove_if(UnaryPredicate p) {
-    list_.remove_if(p);
-    // If the predicate removed our sentry, replace it
-    if (list_.empty() && std::prev(list_.end()) != my_end_)
-      append_sentry_();
+    // don't ask about (or remove) our sentry
+    for (iterator i = list_.begin(); i != my_end_;) {
+      if (p(*i))
+        i = list_.erase(i);
+      else
+        ++i;
+    }
   }
 
   /*********************** Pass-thru functions ***********************/
-- 
2.43.0


From a0104bbdc61d5d501e63d26adc9136cf032b99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:55 +0000
Subject: [PATCH 73/99] fix: make a Tree from a const value

---
 src/flpr/Tree.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 209f572..0b07480 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -591,7 +591,7 @@ public:
 
   constexpr explicit Tree(value const &src)
       : root_list_p_{std::make_unique<node_list>()} {
-    root_list_p_->push_front(node(src));
+    root_list_p_->emplace_front(src);
     root_list_p_->front().link(root_list_p_->begin());
   }
 
-- 
2.43.0


From ce6d8e374ba286ff077037ac42c7819d5eba2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 74/99] fix: rebuild the statement tree of action-stmt
 extensions

---
 src/flpr/parse_stmt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 140b560..75e5e4c 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -4307,7 +4307,8 @@ bool is_action_stmt(int const syntag) {
     res = true;
     break;
   default:
-    res = false;
+    // client tags are only found at this level on action-stmt extensions
+    res = syntag >= Syntax_Tags::CLIENT_EXTENSION;
   }
   return res;
 }
-- 
2.43.0


From 90d1f297f0f06573ae83a4382fe7e906455d4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 75/99] fix: Syntax_Tags::is_name of a client tag

---
 src/flpr/Syntax_Tags.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Syntax_Tags.hh b/src/flpr/Syntax_Tags.hh
index a232529..4b93ef3 100644
--- a/src/flpr/Syntax_Tags.hh
+++ b/src/flpr/Syntax_Tags.hh
@@ -35,7 +35,7 @@ public:
   static constexpr int pg_begin_tag() { return PG_000_LB + 1; }
   static constexpr int pg_end_tag() { return PG_ZZZ_UB; }
   static constexpr bool is_name(int const tag) {
-    return tag == TK_NAME || types_[tag] == 4;
+    return tag == TK_NAME || (tag < CLIENT_EXTENSION && types_[tag] == 4);
   }
   static int type(int const syntag);
 
-- 
2.43.0


From 8366a3a21e10c36392f3e1d01c6213987e90175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 76/99] fix: flpr-format keeps labels and comments when
 splitting compound statements

---
 apps/flpr_format_base.cc | 86 ++++++++++------------------------------
 1 file changed, 20 insertions(+), 66 deletions(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index bfcd0b5..11dc954 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -29,7 +29,7 @@ using Parse_Tree = typename File::Parse_Tree;
 
 bool elaborate_end_stmts(File &f);
 bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq);
-bool split_compound_stmts(typename FLPR::LL_SEQ &ll_seq);
+bool split_compound_stmts(File &file);
 
 /* -------------------------------------------------------------------------- */
 
@@ -52,22 +52,16 @@ int flpr_format_file(File &file, Options const &options,
 
     /* remove_empty_stmts doesn't even need the sequence: it just changes the
        internals of a logical_line.  We pass the sequence just to move the
-       iteration out of main() */
-    if (options[OPT(REMOVE_EMPTY_STMTS)] &&
-        !options[OPT(SPLIT_COMPOUND_STMTS)]) {
+       iteration out of main().  Rebuilding the text of a line is only
+       implemented for the free format. */
+    if ((options[OPT(REMOVE_EMPTY_STMTS)] ||
+         options[OPT(SPLIT_COMPOUND_STMTS)]) &&
+        !file.logical_file().is_fixed_format()) {
       VERBOSE_BEGIN("remove_empty_stmts");
       do_write |= remove_empty_stmts(file.logical_lines());
       VERBOSE_END;
     }
 
-    /* split_compound_stmts can create new Logical_Lines, so it needs to be
-       able to insert items into the sequence */
-    if (options[OPT(SPLIT_COMPOUND_STMTS)]) {
-      VERBOSE_BEGIN("split_compound_stmts");
-      do_write |= split_compound_stmts(file.logical_lines());
-      VERBOSE_END;
-    }
-
     /* Now do transformations that require the sequence of LL_Stmts, accessed
        via file.statements().  NOTE: any operations on LL_Stmts that will modify
        the underlying Logical_Line sequence should be performed via
@@ -89,6 +83,13 @@ int flpr_format_file(File &file, Options const &options,
     file.prefetch_statements();
     VERBOSE_END;
 
+    /* split_compound_stmts can create new Logical_Lines */
+    if (options[OPT(SPLIT_COMPOUND_STMTS)]) {
+      VERBOSE_BEGIN("split_compound_stmts");
+      do_write |= split_compound_stmts(file);
+      VERBOSE_END;
+    }
+
     /* Now do transformations that require the concrete syntax tree, accessed
        via file.parse_tree(). */
 
@@ -125,66 +126,19 @@ int flpr_format_file(File &file, Options const &options,
 bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
   bool changed = false;
   for (FLPR::Logical_Line &ll : ll_seq) {
-    if (!ll.has_fortran() && ll.has_empty_statements())
+    if (ll.has_fortran() && ll.has_empty_statements())
       changed |= ll.remove_empty_statements();
   }
   return changed;
 }
 
-/* This needs to be updated to take advantage of newer features. As it is, it
-   probably corrupts the Token_Text layout position information.  DON'T USE AS
-   AN EXAMPLE! */
-bool split_compound_stmts(typename FLPR::LL_SEQ &ll_seq) {
+/* Give each statement of a compound line a line of its own.  This works on the
+   statements, because Logical_File keeps them consistent with the lines. */
+bool split_compound_stmts(File &file) {
   bool changed = false;
-  bool cleanup_split = false;
-
-  for (FLPR::LL_SEQ::iterator ll_it = ll_seq.begin(); ll_it != ll_seq.end();
-       ++ll_it) {
-
-    if (!ll_it->has_fortran())
-      continue;
-    FLPR::Logical_Line &ll{*ll_it};
-    if (ll.stmts().size() < 2) {
-      if (cleanup_split) {
-        ll.fragments().erase(ll.stmts()[0].end(), ll.fragments().end());
-        ll.text_from_frags();
-        cleanup_split = false;
-      } else if (ll.has_empty_statements()) {
-        changed |= ll.remove_empty_statements();
-      }
-    } else {
-      assert(ll_it->stmts().size() > 1);
-      /* Insert a copy above the current LL. The Logical_Line copy constructor
-         updates the new stmt TT_Ranges to reference the new copy of lines. */
-      auto new_ll_it = ll_seq.insert(ll_it, *ll_it);
-      /* Fix it up to contain only one statement */
-      FLPR::Logical_Line &new_ll{*new_ll_it};
-      /* Remove trailing fragments from new LL (the semicolon and the rest of
-         the compound statments) */
-      new_ll.fragments().erase(new_ll.stmts()[0].end(),
-                               new_ll.fragments().end());
-      /* Remove leading fragments from new LL (this handles the case of there
-         being empty statements before the beginning of this one). */
-      new_ll.fragments().erase(new_ll.fragments().begin(),
-                               new_ll.stmts()[0].begin());
-      /* Fix-up the File_Lines (text) in the new LL */
-      new_ll.text_from_frags();
-
-      /* Fix-up the stmts list */
-      new_ll.init_stmts();
-
-      /* Remove leading fragments from old LL */
-      ll.fragments().erase(ll.fragments().begin(), ll.stmts()[1].begin());
-      cleanup_split = true; /* this will reformat the old LL once it gets down
-                               to one statement */
-
-      /* Fix-up the stmts list */
-      ll.init_stmts();
-
-      ll_it = new_ll_it; // revisit the source line
-      changed = true;
-    }
-  }
+  FLPR::LL_STMT_SEQ &stmts{file.statements()};
+  for (auto stmt = stmts.begin(); stmt != stmts.end(); ++stmt)
+    changed |= file.logical_file().split_compound_before(stmt);
   return changed;
 }
 
-- 
2.43.0


From df0dbfa92fee34160206f5bf9b1501fa9ee7cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 77/99] fix: initialize the output option of flpr-format

---
 apps/flpr_format_base.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/flpr_format_base.hh b/apps/flpr_format_base.hh
index 881c61c..558ce41 100644
--- a/apps/flpr_format_base.hh
+++ b/apps/flpr_format_base.hh
@@ -30,8 +30,8 @@ struct Options {
   };
 
   Options() noexcept
-      : write_inplace_{false}, verbose_{false}, do_timing_{false}, quiet_{
-                                                                       false} {
+      : write_inplace_{false}, verbose_{false}, do_timing_{false},
+        quiet_{false}, do_output_{false} {
     disable_all_filters();
   }
   void disable_all_filters() noexcept { filters_.fill(false); }
-- 
2.43.0


From 2b856cedf311edaf1a24dc22c6d5ba4ab65387dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 78/99] fix: flpr-format reports files that could not be read
 or parsed

---
 apps/flpr-format.cc      | 4 ++++
 apps/flpr_format_base.cc | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/flpr-format.cc b/apps/flpr-format.cc
index 563b5f3..f8ddfe8 100644
--- a/apps/flpr-format.cc
+++ b/apps/flpr-format.cc
@@ -45,6 +45,8 @@ int main(int argc, char *const argv[]) {
      below. */
   FLPR::Indent_Table indents;
 
+  int result = 0;
+
   /* Process each input file */
   for (auto const &fname : filenames) {
     File file;
@@ -61,6 +63,8 @@ int main(int argc, char *const argv[]) {
     }
     if (flpr_format_file(file, options, indents)) {
       std::cerr << "Error formating file \"" << fname << "\"" << std::endl;
+      result = 2;
     }
   }
+  return result;
 }
diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index 11dc954..2040ffb 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -120,7 +120,8 @@ int flpr_format_file(File &file, Options const &options,
         std::cerr << "nothing changed" << std::endl;
     }
   }
-  return 0;
+  /* a file that could not be read or parsed */
+  return file ? 0 : 1;
 }
 
 bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
-- 
2.43.0


From a7c3fe83342c2b3911ee2aabdea62ea897d484f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 79/99] fix: flpr-format leaves no semicolon in front of a
 split statement

---
 apps/flpr_format_base.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index 2040ffb..abaa1e1 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -138,8 +138,15 @@ bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
 bool split_compound_stmts(File &file) {
   bool changed = false;
   FLPR::LL_STMT_SEQ &stmts{file.statements()};
-  for (auto stmt = stmts.begin(); stmt != stmts.end(); ++stmt)
-    changed |= file.logical_file().split_compound_before(stmt);
+  for (auto stmt = stmts.begin(); stmt != stmts.end(); ++stmt) {
+    if (!file.logical_file().split_compound_before(stmt))
+      continue;
+    changed = true;
+    /* the semicolon can begin a continuation line, which was moved */
+    if (!file.logical_file().is_fixed_format() &&
+        stmt->ll().has_empty_statements())
+      stmt->ll().remove_empty_statements();
+  }
   return changed;
 }
 
-- 
2.43.0


From ece56ef67b4e8c9e7787862271c5397adbd4b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 80/99] fix: indent a split statement which begins on a
 continuation line

---
 src/flpr/Logical_Line.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 028e682..8f13681 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -671,6 +671,19 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
     export_beg->left_txt.clear();
     export_beg->unset_classification(File_Line::class_flags::continuation);
+
+    /* any blanks behind a leading ampersand are now part of the indentation */
+    int const export_line = std::distance(layout_.begin(), export_beg);
+    size_t const blanks = export_beg->main_txt.find_first_not_of(" \t");
+    if (blanks != std::string::npos && blanks > 0) {
+      export_beg->main_txt.erase(0, blanks);
+      for (auto tt = lr_beg; tt != fragments_.end(); ++tt) {
+        if (tt->mt_begin_line_ == export_line)
+          tt->mt_begin_col_ -= static_cast<int>(blanks);
+        if (tt->mt_end_line_ == export_line)
+          tt->mt_end_col_ -= static_cast<int>(blanks);
+      }
+    }
     export_beg->set_leading_spaces(num_left_sp);
   }
 
-- 
2.43.0


From 68724f83adaae2817b4cfa2aae00ad4350532056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:46 +0000
Subject: [PATCH 81/99] fix: a split in fixed format keeps the indentation

---
 src/flpr/Logical_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 8f13681..437832d 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -568,7 +568,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   int const split_line = frag->mt_end_line_;
   assert(split_line < static_cast<int>(layout_.size()));
 
-  auto const num_left_sp = layout_[0].main_first_col() - 1;
+  /* the control columns are not part of the indentation in fixed format */
+  int const num_left_sp = layout_[0].is_fixed_format()
+                              ? static_cast<int>(layout_[0].left_space.size())
+                              : layout_[0].main_first_col() - 1;
 
   /* collect the range of tokens that follow frag on the same layout_ line */
   auto lr_beg = std::next(frag);
-- 
2.43.0


From 38f22b3ef8616d02ac7faea30d7145548d5fdca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:50 +0000
Subject: [PATCH 82/99] fix: keep text behind the last column in place when
 indenting

---
 src/flpr/File_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 65c53cf..24f7339 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -569,9 +569,12 @@ bool File_Line::set_leading_spaces(int spaces) {
       }
     }
     /* See if we can adjust spacing to leave right_txt comments in their
-       original position */
+       original position.  In fixed format, right_txt is always a comment, and
+       it can depend on its position behind the last column. */
     if (!right_txt.empty() && offset) {
       std::string::size_type pos = right_txt.find('!');
+      if (pos == std::string::npos && is_fixed_format())
+        pos = 0;
       if (pos != std::string::npos) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
-- 
2.43.0


From 712ba6cc9f642ba66bf3c5a85d6738a48e04001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:05 +0000
Subject: [PATCH 83/99] fix: text behind the last column does not continue a
 line

---
 src/flpr/File_Line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 24f7339..2b21a77 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -362,7 +362,8 @@ void File_Line::make_uncontinued() {
   UNSET_CLASS(continued);
   size_t pos = 0;
   if (!right_txt.empty()) {
-    if (right_txt[0] == '&')
+    /* an ampersand behind the last column of fixed-format is just text */
+    if (right_txt[0] == '&' && !is_fixed_format())
       right_txt[0] = ' ';
     pos = right_txt.find_first_not_of(' ');
     right_txt.erase(0, pos);
-- 
2.43.0


From 86e20ffd2e78fdb21e0a7d6e646a9c629bf88daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:05 +0000
Subject: [PATCH 84/99] fix: keep text behind the last column in place when
 splitting

---
 src/flpr/Logical_Line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 437832d..a47a7bb 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -675,11 +675,12 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     export_beg->left_txt.clear();
     export_beg->unset_classification(File_Line::class_flags::continuation);
 
-    /* any blanks behind a leading ampersand are now part of the indentation */
+    /* any blanks which continued the line are now part of the indentation */
     int const export_line = std::distance(layout_.begin(), export_beg);
     size_t const blanks = export_beg->main_txt.find_first_not_of(" \t");
     if (blanks != std::string::npos && blanks > 0) {
       export_beg->main_txt.erase(0, blanks);
+      export_beg->left_space.append(blanks, ' ');
       for (auto tt = lr_beg; tt != fragments_.end(); ++tt) {
         if (tt->mt_begin_line_ == export_line)
           tt->mt_begin_col_ -= static_cast<int>(blanks);
-- 
2.43.0


From f54dff46a993ecc5a7e0ac839c38d257c6cb07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:59 +0000
Subject: [PATCH 85/99] fix: keep trailing text in place when splitting behind
 it

---
 src/flpr/Logical_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a47a7bb..843c472 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -669,6 +669,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
     /* cleanup the source: remove any semicolons and trailing ampersand
        continuations */
+    if (!layout_[split_line].right_txt.empty())
+      layout_[split_line].right_space.append(
+          layout_[split_line].main_txt.size() - frag->mt_end_col_, ' ');
     layout_[split_line].main_txt.erase(frag->mt_end_col_);
     layout_[split_line].make_uncontinued();
 
-- 
2.43.0


From 5b56adbd6ba3ae70f84064dbb1208b7d29e0eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:49 +0000
Subject: [PATCH 86/99] fix: do not move fixed-format text to the right when
 splitting

---
 src/flpr/Logical_Line.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 843c472..b9ac3e5 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -569,9 +569,14 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   assert(split_line < static_cast<int>(layout_.size()));
 
   /* the control columns are not part of the indentation in fixed format */
-  int const num_left_sp = layout_[0].is_fixed_format()
-                              ? static_cast<int>(layout_[0].left_space.size())
-                              : layout_[0].main_first_col() - 1;
+  bool const fixed = layout_[0].is_fixed_format();
+  int const num_left_sp = fixed ? static_cast<int>(layout_[0].left_space.size())
+                                : layout_[0].main_first_col() - 1;
+  /* fixed-format text is not moved to the right, as it could get past the last
+     column */
+  auto const new_left_sp = [fixed, num_left_sp](size_t const curr) {
+    return fixed ? std::min(num_left_sp, static_cast<int>(curr)) : num_left_sp;
+  };
 
   /* collect the range of tokens that follow frag on the same layout_ line */
   auto lr_beg = std::next(frag);
@@ -640,7 +645,8 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     export_beg->unset_classification(File_Line::class_flags::label);
     export_beg->unset_classification(File_Line::class_flags::continuation);
     /* clean new: indent column */
-    export_beg->set_leading_spaces(num_left_sp);
+    export_beg->set_leading_spaces(
+        new_left_sp(export_beg->left_space.size() + lr_beg->mt_begin_col_));
 
     /* now, shuffle all the mt_begin_col_ down on [lr_beg, lr_end) */
     int const offset = lr_beg->mt_begin_col_;
@@ -691,7 +697,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
           tt->mt_end_col_ -= static_cast<int>(blanks);
       }
     }
-    export_beg->set_leading_spaces(num_left_sp);
+    export_beg->set_leading_spaces(new_left_sp(export_beg->left_space.size()));
   }
 
   new_ll.clear();
-- 
2.43.0


From 7f56fff528bc32036fc36a51f24768bcdc9fcd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:13 +0000
Subject: [PATCH 87/99] fix: text behind the last column does not make an
 include line

---
 src/flpr/File_Line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 2b21a77..bd2ff84 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -109,7 +109,8 @@ File_Line File_Line::analyze_fixed(int const linenum,
       return File_Line(linenum, bits, raw_txt);
     }
     // How about a Fortran include directive? (Section 6.4 of the standard)
-    if (is_include_line(raw_txt, ri)) {
+    if (is_include_line(
+            last_column > 0 ? raw_txt.substr(0, last_column) : raw_txt, ri)) {
       SET_CLASS(include);
       return File_Line(linenum, bits, raw_txt);
     }
-- 
2.43.0


From 419f2ad223640ed473454b95c776932720a1dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 88/99] fix: locate a token that is a form feed

std::isspace() also skips characters which the scanner returns as unknown
tokens, so that such a token was placed where the next one begins, and
assert()ed if that is a line without text.
---
 src/flpr/Logical_Line.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index b9ac3e5..8868ccc 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -848,6 +848,11 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   // Clear out any previous tokens
   fragments_.clear();
 
+  // What the scanner skips (not form feeds and the like)
+  auto is_white = [](char const c) {
+    return c == ' ' || c == '\t' || c == '\r';
+  };
+
   // The index into la.accum()
   curr_line_pos = 0;
 
@@ -856,7 +861,7 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
   const int N = la.accum().size();
   int tok_start_col = curr_line_pos;
-  while (tok_start_col < N && std::isspace(la.accum()[tok_start_col]))
+  while (tok_start_col < N && is_white(la.accum()[tok_start_col]))
     tok_start_col += 1;
   int next_pre_sp = 0;
   int space_between;
@@ -900,7 +905,7 @@ void Logical_Line::tokenize(Line_Accum const &la) {
        we want where the next token begins */
     tok_start_col = curr_line_pos;
     space_between = 0;
-    while (tok_start_col < N && std::isspace(la.accum()[tok_start_col])) {
+    while (tok_start_col < N && is_white(la.accum()[tok_start_col])) {
       tok_start_col += 1;
       space_between += 1;
     }
-- 
2.43.0


From 510b986ed8a3eb9c8a6165b02e505b5fa91de88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 89/99] fix: writing a fixed-format line does not depend on, or
 change, the stream state

---
 src/flpr/File_Line.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index bd2ff84..6bf7471 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -695,10 +695,11 @@ std::ostream &File_Line::print_classbits(std::ostream &os) const {
 
 std::ostream &operator<<(std::ostream &os, FLPR::File_Line const &fl) {
   if (fl.is_fortran() && fl.is_fixed_format()) {
-    auto flags = os.setf(std::ios::left);
-    os << std::setw(6) << fl.left_txt << fl.left_space << fl.main_txt
-       << fl.right_space << fl.right_txt;
-    os.setf(flags);
+    os << std::setw(0) << fl.left_txt;
+    /* pad the control columns, whatever the state of the stream is */
+    for (size_t col = fl.left_txt.size(); col < 6; ++col)
+      os.put(' ');
+    os << fl.left_space << fl.main_txt << fl.right_space << fl.right_txt;
   } else
     os << fl.left_txt << fl.left_space << fl.main_txt << fl.right_space
        << fl.right_txt;
-- 
2.43.0


From 80546e4df758dd4378ca949ac0ae5c225cd1d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 90/99] fix: leading spaces of a fixed-format comment with an
 exclamation mark

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 6bf7471..7fc7d2c 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -605,7 +605,7 @@ bool File_Line::set_leading_spaces(int spaces) {
 int File_Line::get_leading_spaces() const noexcept {
   int retval{0};
   if (is_comment()) {
-    std::string::size_type pos = left_txt.find('!');
+    std::string::size_type pos = left_txt.find_first_not_of(" \t");
     if (pos != std::string::npos) {
       retval = pos;
     } else {
-- 
2.43.0


From 71bf89bccd485f19ed797bbba1efe22c3f455719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 91/99] fix: unspace_main keeps the leading spaces

---
 src/flpr/File_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 7fc7d2c..18155d3 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -345,6 +345,7 @@ void File_Line::unspace_main() {
     set_classification(class_flags::blank);
     return;
   } else if (fnb > 0) {
+    left_space.append(fnb, ' ');
     main_txt.erase(0, fnb);
   }
   auto lnb = main_txt.find_last_not_of(' ');
-- 
2.43.0


From 08d824ee70b0d13e0fdf503b05626fc423c9c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 92/99] fix: the size of a fixed-format line includes the
 control columns

---
 src/flpr/File_Line.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 18155d3..615d6f3 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -461,8 +461,11 @@ void File_Line::make_comment_or_blank() {
 }
 
 size_t File_Line::size() const noexcept {
-  return left_txt.size() + left_space.size() + main_txt.size() +
-         right_space.size() + right_txt.size();
+  size_t left_size = left_txt.size();
+  if (is_fortran() && is_fixed_format() && left_size < 6)
+    left_size = 6; /* the control columns */
+  return left_size + left_space.size() + main_txt.size() + right_space.size() +
+         right_txt.size();
 }
 
 bool File_Line::set_leading_spaces(int spaces) {
-- 
2.43.0


From cb20e406e256787c15f914e1e4c1d97cf992aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 93/99] fix: rendered tokens are separated by blanks, whatever
 the stream fills with

---
 src/flpr/Token_Text.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Token_Text.cc b/src/flpr/Token_Text.cc
index cf05c7f..18f8633 100644
--- a/src/flpr/Token_Text.cc
+++ b/src/flpr/Token_Text.cc
@@ -48,7 +48,7 @@ void render(std::ostream &os, TT_SEQ::const_iterator beg,
     os << beg->text();
     int spaces = std::max(beg->post_spaces(), next->pre_spaces());
     if (spaces > 0)
-      os << std::setw(spaces) << ' ';
+      os << std::string(spaces, ' ');
   }
   os << beg->text();
 }
-- 
2.43.0


From 19d16f293f29524a76125bd795d0cd84b02e8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:41 +0000
Subject: [PATCH 94/99] fix: text which could not be read to its end is not
 scanned

---
 src/flpr/Logical_File.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 408aefe..cf5f986 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -73,6 +73,12 @@ bool Logical_File::read_and_scan(std::istream &is,
   for (std::string line; std::getline(is, line);) {
     buf.push_back(line);
   }
+  if (is.bad()) {
+    std::cerr << "Logical_File::read_and_scan: error while reading \""
+              << stream_name << "\"\n";
+    clear();
+    return false;
+  }
   return scan(buf, stream_name, last_fixed_col, stream_type);
 }
 
-- 
2.43.0


From 424b433d13da9333e137c3bffefd3b8c1bb81213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:41 +0000
Subject: [PATCH 95/99] fix: the tools report output which could not be written

---
 apps/caliper.cc     | 4 ++++
 apps/flpr-format.cc | 4 ++++
 apps/module_base.cc | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/apps/caliper.cc b/apps/caliper.cc
index f9efb6a..0b5ce62 100644
--- a/apps/caliper.cc
+++ b/apps/caliper.cc
@@ -65,6 +65,10 @@ bool caliper_file(std::string const &filename) {
   bool const changed = puv.visit();
   if (changed) {
     write_file(std::cout, file);
+    if (!std::cout.flush()) {
+      std::cerr << "Error writing the output" << std::endl;
+      return false;
+    }
   }
   return changed;
 }
diff --git a/apps/flpr-format.cc b/apps/flpr-format.cc
index f8ddfe8..1e2fb52 100644
--- a/apps/flpr-format.cc
+++ b/apps/flpr-format.cc
@@ -66,5 +66,9 @@ int main(int argc, char *const argv[]) {
       result = 2;
     }
   }
+  if (!std::cout.flush()) {
+    std::cerr << "Error writing the output" << std::endl;
+    result = 2;
+  }
   return result;
 }
diff --git a/apps/module_base.cc b/apps/module_base.cc
index 7dfa730..687e1e8 100644
--- a/apps/module_base.cc
+++ b/apps/module_base.cc
@@ -43,6 +43,11 @@ bool do_file(std::string const &filename, int const last_fixed_col,
       std::ofstream os(filename);
       write_file(os, file);
       os.close();
+      if (!os) {
+        std::cerr << "Unable to write \"" << filename
+                  << "\", the original is \"" << bak << '"' << std::endl;
+        exit(2);
+      }
     } else {
       std::cerr << "Unable to rename \"" << filename << "\" to \"" << bak
                 << std::endl;
-- 
2.43.0


From 0aa2b9e06e5c20eeda7f3851c21ce70f45f478bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:41 +0000
Subject: [PATCH 96/99] fix: module reports a list of names which cannot be
 read

---
 apps/module.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/module.cc b/apps/module.cc
index 44971de..9d5bd13 100644
--- a/apps/module.cc
+++ b/apps/module.cc
@@ -62,6 +62,10 @@ int main(int argc, char *argv[]) {
     /* The list of CALL procedure-designators that trigger the USE <module_name>
        insertion is given in a file */
     std::ifstream is(call_name.c_str());
+    if (!is) {
+      std::cerr << "Unable to open \"" << call_name << '"' << std::endl;
+      return 1;
+    }
     std::string name;
     while (is >> name) {
       action.add_subroutine_name(name);
-- 
2.43.0


From 5512ecf7e6479f6f464a4d5b5ba8600519e3f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 97/99] fix: count the control columns when a fixed-form line
 becomes a comment or preprocessor line

---
 src/flpr/File_Line.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 615d6f3..373508d 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -398,6 +398,8 @@ void File_Line::make_preprocessor() {
   size_t const ff{static_cast<size_t>(class_flags::fixed_format)};
   size_t const pp{static_cast<size_t>(class_flags::preprocessor)};
   bool const is_fixed_format = classification_[ff];
+  if (is_fortran() && is_fixed_format && left_txt.size() < 6)
+    left_txt.append(6 - left_txt.size(), ' '); /* the control columns */
   classification_.reset();
   classification_[ff] = is_fixed_format;
   classification_[pp] = true;
@@ -442,9 +444,7 @@ void File_Line::make_comment_or_blank() {
   if (comment_start != std::string::npos) {
     /* keep the comment in its column: all of the text of a comment line is in
        left_txt */
-    size_t const comment_col = left_txt.size() + left_space.size() +
-                               main_txt.size() + right_space.size() +
-                               comment_start;
+    size_t const comment_col = size() - right_txt.size() + comment_start;
     left_txt.assign(comment_col, ' ');
     left_txt.append(right_txt, comment_start);
     left_space.clear();
-- 
2.43.0


From be770c13fee0411956a055b2cbabd9c464b26dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 98/99] fix: labelling a fixed-form line does not move its text

---
 src/flpr/File_Line.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 373508d..dcf82ac 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -643,8 +643,6 @@ bool File_Line::set_label(int new_label) {
     if (left_txt.empty()) {
       left_txt = std::to_string(new_label);
       left_txt.append(6 - left_txt.size(), ' ');
-      if (left_space.size() > 6)
-        left_space.erase(0, 6);
     } else {
       if (new_label == 0)
         left_txt.clear();
-- 
2.43.0


From 4cb6036458bd654f9d8bd35b99647fe449bbea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 99/99] fix: accept a '0' in column 6 of a labelled fixed-form
 line

---
 src/flpr/File_Line.cc    | 4 ++++
 src/flpr/Logical_File.cc | 5 +++++
 src/flpr/Logical_Line.cc | 9 +++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index dcf82ac..636c41a 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -147,6 +147,10 @@ File_Line File_Line::analyze_fixed(int const linenum,
       const ST N = raw_txt.size();
       while (ri < N && ri < 6 && std::isdigit(raw_txt[ri]))
         ri += 1;
+      // A '0' in column 6 marks an initial line, like a blank does
+      if (N > 5 && raw_txt[5] == '0' &&
+          raw_txt.find_first_not_of(' ', std::min<ST>(ri, 5)) == 5)
+        ri = 6;
       left_text = raw_txt.substr(0, ri);
       SET_CLASS(label);
     }
diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index cf5f986..6ab6dbf 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -607,6 +607,11 @@ bool Logical_File::convert_fixed_to_free() {
           if (curr_fortran_line == 0) {
             if (fl.has_label()) {
               /* keep the text in its column, separated from the label */
+              if (fl.left_txt.size() == 6) {
+                /* remove any '0' from column 6 */
+                fl.left_txt[5] = ' ';
+                fl.left_txt.erase(fl.left_txt.find_last_not_of(' ') + 1);
+              }
               if (fl.left_txt.size() < 6)
                 fl.left_space.insert(0, 6 - fl.left_txt.size(), ' ');
             } else {
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 8868ccc..7e32b1b 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -152,8 +152,13 @@ void Logical_Line::init_from_layout() noexcept {
   if (layout_.front().has_label()) {
     assert(!layout_.front().left_txt.empty());
     std::size_t pos;
-    label = std::stoi(layout_.front().left_txt, &pos);
-    if (pos < layout_.front().left_txt.size()) {
+    /* column 6 of fixed form is not part of the label */
+    label = std::stoi(layout_.front().is_fixed_format()
+                          ? layout_.front().left_txt.substr(0, 5)
+                          : layout_.front().left_txt,
+                      &pos);
+    if (layout_.front().left_txt.find_first_not_of(" 0", pos) !=
+        std::string::npos) {
       std::cerr << "Label \"" << layout_.front().left_txt
                 << "\" not fully converted to integer" << std::endl;
     }
-- 
2.43.0

