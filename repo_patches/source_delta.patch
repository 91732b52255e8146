From ca7e706974cb5d0d42f87002d084b43f181d56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:35 +0000
Subject: [PATCH 01/33] fix: reject an array dimension whose size does not fit
 in an unsigned

---
 Basic/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..a787ce2 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -15,7 +15,7 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
     if (max[i] < base)
       return false;
     unsigned size = max[i] - base + 1;
-    if (size > MAX_ELEMENTS / *elements)
+    if (size == 0 || size > MAX_ELEMENTS / *elements)
       return false;
     *elements *= size;
   }
-- 
2.43.0


From a809aae5e427e37508c482b8cf891cc56483ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:10 +0000
Subject: [PATCH 02/33] fix: more than two subscripts is a run-time error, not
 an abort

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..004900c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1222,7 +1222,8 @@ static unsigned pop_index(VM* vm, const char* name) {
 }
 
 static void pop_indexes(VM* vm, unsigned* indexes, unsigned dimensions, const char* name) {
-  assert(dimensions <= MAX_DIMENSIONS);
+  if (dimensions > MAX_DIMENSIONS)
+    run_error(vm, "too many dimensions: %s\n", name);
   for (unsigned i = 0; i < dimensions; i++)
     indexes[i] = pop_index(vm, name);
 }
-- 
2.43.0


From 9d47310fb66154b5fce348d24acdfcf8883fd40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:13 +0000
Subject: [PATCH 03/33] fix: a run-time error must not leave stack contents or
 a function call behind

---
 Basic/run.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 004900c..0a05110 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -280,6 +280,7 @@ void run_program(VM* vm) {
 }
 
 static bool immediate_state(VM*);
+static void end_def(VM*);
 
 void run_immediate(VM* vm, const char* line) {
   assert(vm != NULL);
@@ -330,6 +331,7 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void recover(VM*);
 static void report_for_in_progress(VM*);
 
 // Run the currently selected code from current PC.
@@ -342,6 +344,8 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else
+    recover(vm);
   untrap_interrupt();
 
   if (interrupted)
@@ -367,6 +371,15 @@ static void run(VM* vm) {
   }
 }
 
+// After a run-time error, discard the values of the failed statement
+// and abandon any user-defined function call in progress.
+static void recover(VM* vm) {
+  vm->sp = 0;
+  clear_string_stack(vm);
+  if (vm->fn.code_state.code)
+    end_def(vm);
+}
+
 bool vm_continue(VM* vm) {
   if (vm->stopped_program.code == NULL)
     return false;
-- 
2.43.0


From b7a4128df1e94602c2ffd223d4b7726982f767e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:17 +0000
Subject: [PATCH 04/33] fix: repeating INPUT after an invalid number must
 discard the subscripts

---
 Basic/run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 0a05110..3979210 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -961,6 +961,8 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      for (unsigned k = 0; k < i->u.param.params; k++)
+        pop(vm); // subscripts will be evaluated again
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0


From 5b77e5ac07f119079ca2ddb1a8cd41da0031d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:20 +0000
Subject: [PATCH 05/33] fix: INPUT at end of input is a run-time error instead
 of reusing the last reply

---
 Basic/run.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 3979210..d9e0d15 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -924,10 +924,8 @@ static void execute(VM* vm) {
       if (vm->input_prompt)
         fputs("? ", stdout);
       fflush(stdout);
-      if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
-        if (ferror(stdin))
-          run_error(vm, "error reading input\n");
-      }
+      if (fgets(vm->input, sizeof vm->input, stdin) == NULL)
+        run_error(vm, ferror(stdin) ? "error reading input\n" : "end of input\n");
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
-- 
2.43.0


From ec844935f8433dd6238e5e25694c139a523f6f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:23 +0000
Subject: [PATCH 06/33] fix: ASC and CHR$ agree on codes 128 to 255

---
 Basic/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index d9e0d15..8e37160 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1021,7 +1021,7 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, s[0]);
+      push(vm, (unsigned char) s[0]);
       efree(s);
       break;
     }
@@ -1036,7 +1036,7 @@ static void execute(VM* vm) {
       if (x < 0 || x > 255 || x != floor(x))
         run_error(vm, "invalid character code: %g\n", x);
       char buf[2];
-      buf[0] = (char) x;
+      buf[0] = (char) (unsigned char) x;
       buf[1] = '\0';
       push_str(vm, buf);
       break;
-- 
2.43.0


From d3430862325d632f244bb481702a1c0041d6e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 07/33] fix: reject a built-in function name as a variable
 instead of aborting

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..25cf848 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -911,6 +911,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
+    if (sym->kind == SYM_BUILTIN)
+      parse_error_no_token(parser, "name already used for %s: %s", symbol_kind(sym->kind), name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
         sym->kind = paren_kind;
-- 
2.43.0


From 45e915695263ed6d4280ac4fc5972cb4043a0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:27 +0000
Subject: [PATCH 08/33] fix: RENUM refuses colliding, zero or too large numbers
 before changing anything, and marks the program changed

---
 Basic/run.c           |  4 ++++
 Basic/run.h           |  1 +
 Monitor/interactive.c | 12 +++++++++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 8e37160..b3a92de 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -262,6 +262,10 @@ SOURCE* vm_stored_source(VM* vm) {
   return vm->stored_program.source;
 }
 
+void vm_source_changed(VM* vm) {
+  stored_program_changed(vm);
+}
+
 static void run(VM*);
 
 void run_program(VM* vm) {
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..82aa783 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -19,6 +19,7 @@ bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
 SOURCE* vm_stored_source(vm);
+void vm_source_changed(VM*);
 
 // Compile and run code.
 void vm_compile(VM*);
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..7ec3bea 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -336,20 +336,18 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
   // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
   LINE_MAP* map = new_line_map(source_lines(source));
   unsigned new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
+      if (new_linenum <= prev_basic_line || new_linenum > (U16)(-1)) {
         error("Cannot renumber line %u to %u after line %u",
               basic_line, new_linenum, prev_basic_line);
         goto bail;
       }
       insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
       prev_basic_line = new_linenum;
       new_linenum += inc;
     }
@@ -359,6 +357,14 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  // update the line number of each source line
+  for (unsigned line = 0; line < source_lines(source); line++) {
+    unsigned new_basic_line;
+    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
+      set_source_linenum(source, line, new_basic_line);
+  }
+  vm_source_changed(vm);
+
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-- 
2.43.0


From 817d7b1478fc01afede5bca16853efd830614f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:30 +0000
Subject: [PATCH 09/33] fix: RENUM updates ON lists and THEN GOTO, and leaves
 REM and DATA text alone

---
 Monitor/interactive.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 7ec3bea..3b33c3e 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -368,10 +368,16 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-    while (tok != TOK_EOF && tok != '\n') {
-      if (takes_line_number(tok)) {
+    while (tok != TOK_EOF && tok != '\n' && tok != TOK_REM) {
+      if (tok == TOK_DATA) {
+        do {
+          lex_next_data(lex);
+        } while ((tok = lex_next(lex)) == ',');
+      }
+      else if (takes_line_number(tok)) {
+        const bool list = tok == TOK_GOTO || tok == TOK_GOSUB;
         tok = lex_next(lex);
-        if (tok == TOK_NUM) {
+        while (tok == TOK_NUM) {
           double x = lex_num(lex);
           if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
             unsigned basic_line = (unsigned) x;
@@ -390,9 +396,15 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
               }
             }
           }
+          tok = lex_next(lex);
+          if (list && tok == ',')
+            tok = lex_next(lex);
+          else
+            break;
         }
       }
-      tok = lex_next(lex);
+      else
+        tok = lex_next(lex);
     }
   }
 
-- 
2.43.0


From 6133122c3dbfc16027e858958c8a4767b926b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 10/33] fix: line number 0 or too large is refused at the
 prompt

---
 Monitor/interactive.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 3b33c3e..1d72ee4 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <stdarg.h>
+#include <limits.h>
 #include <math.h>
 #include <assert.h>
 #include "interactive.h"
@@ -142,7 +143,9 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
-  if (*p == '\0' || *p == '\n')
+  if (num == 0 || num == UINT_MAX)
+    error("Invalid line number");
+  else if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
     if (*p == ' ')
@@ -454,11 +457,13 @@ static char* skip_space(char* s) {
   return s;
 }
 
+// Read a number, or UINT_MAX if it is too large.
 static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    unsigned digit = *line - '0';
+    *num = *num > (UINT_MAX - digit) / 10 ? UINT_MAX : 10 * *num + digit;
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From 759682f60b87fae73709944fb18ff7d1d3dd3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:34 +0000
Subject: [PATCH 11/33] fix: a malformed program file is reported by LOAD
 without ending the session; close the file

---
 Basic/run.c     |  2 +-
 Basic/source.c  | 71 +++++++++++++++++++++++++++++++++----------------
 System/lbasic.c |  8 ++++++
 3 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index b3a92de..9d7aa59 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -247,7 +247,7 @@ bool vm_save_source(VM* vm, const char* name) {
 }
 
 bool vm_load_source(VM* vm, const char* name) {
-  SOURCE* source = load_source_file(name); // TODO: errors should not terminate the interpreter
+  SOURCE* source = load_source_file(name);
   if (source == NULL)
     return false;
 
diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..b599552 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -80,7 +80,6 @@ static void source_error(const SOURCE* src, const char* fmt, ...) {
   va_start(ap, fmt);
   vfprintf(stderr, fmt, ap);
   va_end(ap);
-  exit(EXIT_FAILURE);
 }
 
 static void ensure_space(SOURCE* src) {
@@ -91,21 +90,28 @@ static void ensure_space(SOURCE* src) {
   }
 }
 
-static void append(SOURCE* src, unsigned num, const char* text) {
+// Report an error and return false if the line number is not valid here.
+static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
-  if (num == 0)
+  if (num == 0) {
     source_error(src, "invalid line number: %u\n", num);
+    return false;
+  }
   unsigned latest = src->used ? src->lines[src->used - 1].num : 0;
-  if (num <= latest)
+  if (num <= latest) {
     source_error(src, "line number is not in increasing order: %u\n", num);
+    return false;
+  }
   ensure_space(src);
   assert(src->used < src->allocated);
   src->lines[src->used].num = num;
   src->lines[src->used].text = estrdup(text);
   src->used++;
+  return true;
 }
 
+// Report an error and return null if there is no line number.
 static const char* parse_line_number(SOURCE* src, const char* line, unsigned *num) {
   assert(line != NULL);
   assert(num != NULL);
@@ -113,8 +119,10 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   const char* s = line;
   for (; isdigit(*s); s++)
     *num = *num * 10 + *s - '0';
-  if (s == line)
+  if (s == line) {
     source_error(src, "line has no line number\n");
+    return NULL;
+  }
   // treat one space as pure delimiter but preserve any other indenting
   if (*s == ' ')
     s++;
@@ -161,6 +169,14 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
+// Append a numbered line, or report an error and return false.
+static bool append_numbered(SOURCE* src, const char* line) {
+  unsigned num;
+  const char* text = parse_line_number(src, line, &num);
+  return text != NULL && append(src, num, text);
+}
+
+// Return null, having reported the error, if the file cannot be read as a program.
 SOURCE* load_source_file(const char* name) {
   FILE* fp = fopen(name, "r");
   if (fp == NULL) {
@@ -169,21 +185,29 @@ SOURCE* load_source_file(const char* name) {
   }
   SOURCE* src = new_source(name);
   char buf[256];
-  while (fgets(buf, sizeof buf, fp)) {
+  bool ok = true;
+  while (ok && fgets(buf, sizeof buf, fp)) {
     size_t len = strlen(buf);
     if (len > 0) {
-      if (buf[len-1] != '\n')
-        source_error(src, "source line is too long");
+      if (buf[len-1] != '\n') {
+        source_error(src, "source line is too long\n");
+        ok = false;
+        break;
+      }
       len--;
       buf[len] = '\0';
     }
-    if (len == 0)
-      source_error(src, "source line is empty");
-    unsigned num;
-    const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
-      exit(EXIT_FAILURE);
-    append(src, num, text);
+    if (len == 0) {
+      source_error(src, "source line is empty\n");
+      ok = false;
+      break;
+    }
+    ok = append_numbered(src, buf);
+  }
+  fclose(fp);
+  if (!ok) {
+    delete_source(src);
+    return NULL;
   }
   return src;
 }
@@ -213,10 +237,14 @@ static unsigned line_length(const char* s) {
 
 static unsigned get_line(SOURCE* src, const char* string, char* buf, unsigned bufsz) {
   unsigned len = line_length(string);
-  if (len == 0)
-    source_error(src, "source line is empty");
-  if (len + 1 > bufsz)
-    source_error(src, "source line is too long");
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    exit(EXIT_FAILURE);
+  }
+  if (len + 1 > bufsz) {
+    source_error(src, "source line is too long\n");
+    exit(EXIT_FAILURE);
+  }
   strncpy(buf, string, len);
   buf[len] = '\0';
   return len;
@@ -232,11 +260,8 @@ SOURCE* load_source_string(const char* string, const char* name) {
     char buf[256];
     unsigned len = get_line(src, string, buf, sizeof buf);
 
-    unsigned num;
-    const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
+    if (!append_numbered(src, buf))
       exit(EXIT_FAILURE);
-    append(src, num, text);
 
     if (string[len] == '\0' || string[len+1] == '\0')
       break;
diff --git a/System/lbasic.c b/System/lbasic.c
index dd2e1c2..d1f1ca3 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -132,6 +132,8 @@ static void process_file(const Options* opt) {
       delete_symbol_table(st);
       delete_source(source);
     }
+    else
+      exit(EXIT_FAILURE);
     return;
   }
 
@@ -151,6 +153,8 @@ static void process_file(const Options* opt) {
       printf("Microseconds elapsed: %lld\n", elapsed_usec(&timer));
 #endif
   }
+  else
+    exit(EXIT_FAILURE);
 
   delete_vm(vm);
 }
@@ -162,6 +166,8 @@ static void list_file(const char* file_name) {
       printf("%5u %s\n", source_linenum(source, i), source_text(source, i));
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name);
@@ -188,6 +194,8 @@ static void list_names(const char* file_name, bool crunched) {
     delete_lex(lex);
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name) {
-- 
2.43.0


From 0e7f0182192e7a0d51fa354c99851b12d222c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 12/33] fix: accept the last line of a program file or of the
 input without a newline

---
 Basic/source.c        | 6 +++---
 Monitor/interactive.c | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index b599552..2baa327 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -189,13 +189,13 @@ SOURCE* load_source_file(const char* name) {
   while (ok && fgets(buf, sizeof buf, fp)) {
     size_t len = strlen(buf);
     if (len > 0) {
-      if (buf[len-1] != '\n') {
+      if (buf[len-1] == '\n')
+        buf[--len] = '\0';
+      else if (len + 1 == sizeof buf) {
         source_error(src, "source line is too long\n");
         ok = false;
         break;
       }
-      len--;
-      buf[len] = '\0';
     }
     if (len == 0) {
       source_error(src, "source line is empty\n");
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 1d72ee4..13f1330 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -93,7 +93,7 @@ void interact(bool keywords_anywhere, bool trace_basic, bool trace_for, bool qui
   delete_vm(vm);
 }
 
-static bool line_complete(char* cmd);
+static bool line_complete(char* cmd, unsigned cmd_size);
 
 static bool get_line(char* cmd, unsigned cmd_size) {
   do {
@@ -101,11 +101,11 @@ static bool get_line(char* cmd, unsigned cmd_size) {
     fflush(stdout);
     if (fgets(cmd, cmd_size, stdin) == NULL)
       return false;
-  } while (!line_complete(cmd));
+  } while (!line_complete(cmd, cmd_size));
   return true;
 }
 
-static bool line_complete(char* cmd) {
+static bool line_complete(char* cmd, unsigned cmd_size) {
   size_t len = strlen(cmd);
   if (len == 0)
     return false;
@@ -113,6 +113,8 @@ static bool line_complete(char* cmd) {
     cmd[len-1] = '\0';
     return true;
   }
+  if (len + 1 < cmd_size)
+    return true; // last line of input, with no newline
   error("Command line too long");
   int c;
   while ((c = getchar()) != EOF && c != '\n')
-- 
2.43.0


From 1d076d7d0f7a9a562b20a4eaba86f8184357a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 13/33] fix: program files with CR LF line ends load without
 stray carriage returns

---
 Basic/source.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Basic/source.c b/Basic/source.c
index 2baa327..4b6e433 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -189,8 +189,11 @@ SOURCE* load_source_file(const char* name) {
   while (ok && fgets(buf, sizeof buf, fp)) {
     size_t len = strlen(buf);
     if (len > 0) {
-      if (buf[len-1] == '\n')
+      if (buf[len-1] == '\n') {
         buf[--len] = '\0';
+        if (len > 0 && buf[len-1] == '\r')
+          buf[--len] = '\0';
+      }
       else if (len + 1 == sizeof buf) {
         source_error(src, "source line is too long\n");
         ok = false;
-- 
2.43.0


From cc17eb4618b45d3fbbafb6e6dc64f6a64e72ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 14/33] fix: a line number too large for the interpreter is
 refused when loading

---
 Basic/source.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 4b6e433..1f7a198 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <assert.h>
 #include "source.h"
@@ -94,7 +95,7 @@ static void ensure_space(SOURCE* src) {
 static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
-  if (num == 0) {
+  if (num == 0 || num == UINT_MAX) {
     source_error(src, "invalid line number: %u\n", num);
     return false;
   }
@@ -117,8 +118,10 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
-    *num = *num * 10 + *s - '0';
+  for (; isdigit(*s); s++) {
+    unsigned digit = *s - '0';
+    *num = *num > (UINT_MAX - digit) / 10 ? UINT_MAX : *num * 10 + digit;
+  }
   if (s == line) {
     source_error(src, "line has no line number\n");
     return NULL;
-- 
2.43.0


From eff8691be1d2b321dae6927a4604c6f65631d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:57 +0000
Subject: [PATCH 15/33] fix: an invalid character or datum is a parse error,
 not the end of the session

---
 Basic/lexer.c | 38 ++++++++++++++++++++++----------------
 Basic/parse.c | 11 ++++++++---
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..a19184a 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -73,11 +73,13 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
   va_end(ap);
 }
 
-static void validate(LEX* lex, int c) {
+// Report a character that cannot be part of a program.
+static bool valid(LEX* lex, int c) {
   if (c != EOF && (c < 0 || c >= 127)) {
     lex_error(lex, "invalid character on line: value %d\n", c);
-    exit(EXIT_FAILURE);
+    return false;
   }
+  return true;
 }
 
 static int lex_char_pos(LEX* lex, unsigned *pos) {
@@ -94,9 +96,7 @@ static int lex_char_pos(LEX* lex, unsigned *pos) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos++];
-  validate(lex, c);
-  return c;
+  return (unsigned char) lex->text[lex->pos++];
 }
 
 static int lex_char(LEX* lex) {
@@ -108,9 +108,7 @@ static int lex_char(LEX* lex) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos++];
-  validate(lex, c);
-  return c;
+  return (unsigned char) lex->text[lex->pos++];
 }
 
 int lex_peek(LEX* lex) {
@@ -122,9 +120,7 @@ int lex_peek(LEX* lex) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos];
-  validate(lex, c);
-  return c;
+  return (unsigned char) lex->text[lex->pos];
 }
 
 void lex_discard(LEX* lex) {
@@ -150,9 +146,9 @@ static void pushback(LEX* lex, int c) {
   if (lex->pos == 0)
     lex_fatal(lex, "internal error: invalid pushback\n");
   lex->pos--;
-  if (lex->text[lex->pos] != c)
+  if ((unsigned char) lex->text[lex->pos] != c)
     lex_fatal(lex, "internal error: pushback: attempted '%c' 0x%02x, found '%c' 0x%02x\n",
-        chr(c), c, chr(lex->text[lex->pos]), lex->text[lex->pos]);
+        chr(c), c, chr((unsigned char) lex->text[lex->pos]), (unsigned char) lex->text[lex->pos]);
 }
 
 unsigned lex_line_num(LEX* lex) {
@@ -282,6 +278,8 @@ int lex_next(LEX* lex) {
         lex_error(lex, "a string is too long: \"%s...", lex->word);
         return lex->token = TOK_ERROR;
       }
+      if (!valid(lex, c))
+        return lex->token = TOK_ERROR;
       lex->word[i++] = c;
     }
     lex->word[i] = '\0';
@@ -308,10 +306,14 @@ int lex_next(LEX* lex) {
     return lex->token = '>';
   }
 
+  if (!valid(lex, c))
+    return lex->token = TOK_ERROR;
+
   return lex->token = (c == EOF ? TOK_EOF : c);
 }
 
 // Recognise a string token, or read other characters into a string, for untyped DATA.
+// Return NULL after reporting invalid data.
 const char* lex_next_data(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
@@ -327,13 +329,15 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        return NULL;
       }
+      if (!valid(lex, c))
+        return NULL;
       lex->word[i++] = c;
     }
     if (c != '\"') {
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      return NULL;
     }
   }
   else {
@@ -341,8 +345,10 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        return NULL;
       }
+      if (!valid(lex, c))
+        return NULL;
       lex->word[i++] = c;
       c = lex_char(lex);
     }
diff --git a/Basic/parse.c b/Basic/parse.c
index 25cf848..c00d201 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -206,15 +206,20 @@ static void cls_statement(PARSER* parser) {
   emit(parser->bcode, B_CLS);
 }
 
-static void datum(PARSER*);
+static void datum(PARSER* parser) {
+  const char* data = lex_next_data(parser->lex);
+  if (data == NULL)
+    parse_error_no_token(parser, "invalid DATA");
+  emit_str(parser->bcode, B_DATA, data);
+}
 
 static void data_statement(PARSER* parser) {
   if (lex_token(parser->lex) != TOK_DATA)
     match(parser, TOK_DATA);
 
-  emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+  datum(parser);
   while (lex_next(parser->lex) == ',')
-    emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+    datum(parser);
 }
 
 static void read_item(PARSER*);
-- 
2.43.0


From fa57ec2277a7eac0bc59fa6d4eded31b4c6c6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:41 +0000
Subject: [PATCH 16/33] fix: an interrupted program stops between statements so
 that CONT loses nothing

---
 Basic/run.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 9d7aa59..3f64841 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -338,6 +338,12 @@ static void execute(VM*);
 static void recover(VM*);
 static void report_for_in_progress(VM*);
 
+// Whether to stop for an interrupt: only when no value is waiting on a stack and
+// no user-defined function call is in progress, otherwise continuing would lose it.
+static bool interrupted_here(VM* vm) {
+  return interrupted && vm->sp == 0 && vm->ssp == 0 && vm->fn.code_state.code == NULL;
+}
+
 // Run the currently selected code from current PC.
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
@@ -345,7 +351,7 @@ static void run(VM* vm) {
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted_here(vm))
       execute(vm);
   }
   else
@@ -392,7 +398,8 @@ bool vm_continue(VM* vm) {
   vm->code_state = vm->stopped_program;
   // If continuing from STOP, continue from PC after STOP.
   // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
+  const BCODE* bcode = vm->stopped_program.code->bcode;
+  if (vm->stopped_program.pc < bcode->used && bcode->inst[vm->stopped_program.pc].op == B_STOP)
     vm->code_state.pc++;
   run(vm);
   return true;
-- 
2.43.0


From 5afc19a3aab762b26cea006ae1b2304e16273ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 17/33] fix: a name used before DEF stays open until it is
 defined or used as an array

---
 Basic/parse.c |  1 -
 Basic/run.c   | 10 ++++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index c00d201..b712d0c 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -44,7 +44,6 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
     parser.bcode = NULL;
   }
   delete_lex(parser.lex);
-  sym_make_unknown_array(st);
   return parser.bcode;
 }
 
diff --git a/Basic/run.c b/Basic/run.c
index 3f64841..f5e3e0d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -549,7 +549,10 @@ static void execute(VM* vm) {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_NUM);
       // must be a parenthesised kind of symbol; not a builtin,
-      // which has its own opcodes; therefore array or user-defined function
+      // which has its own opcodes; therefore array or user-defined function;
+      // an array if neither DIM nor DEF has said which
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY;
       if (sym->kind == SYM_ARRAY)
         get_numeric_element(vm, sym, i->u.param.params);
       else {
@@ -673,7 +676,10 @@ static void execute(VM* vm) {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_STR);
       // must be a parenthesised kind of symbol; not a builtin,
-      // which has its own opcodes; therefore array or user-defined function
+      // which has its own opcodes; therefore array or user-defined function;
+      // an array if neither DIM nor DEF has said which
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY;
       if (sym->kind == SYM_ARRAY)
         get_string_element(vm, sym, i->u.param.params);
       else {
-- 
2.43.0


From e8b310e59a8237f962e5a2ae519e98c37209c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:31 +0000
Subject: [PATCH 18/33] fix: 'e' after a number is an exponent only if digits
 follow, and may have a plus sign

---
 Basic/lexer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index a19184a..4846575 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -138,6 +138,14 @@ static int chr(int c) {
   return isprint(c) ? c : '?';
 }
 
+// Whether the text at the current position, following an 'e', completes an exponent.
+static bool exponent_follows(LEX* lex) {
+  const char* s = lex->text + lex->pos;
+  if (*s == '-' || *s == '+')
+    s++;
+  return isdigit((unsigned char) *s);
+}
+
 static void pushback(LEX* lex, int c) {
   if (lex->text == NULL)
     lex_fatal(lex, "internal error: invalid pushback\n");
@@ -245,10 +253,10 @@ int lex_next(LEX* lex) {
           return lex->token = TOK_ERROR;
       }
     }
-    if (tolower(c) == 'e') {
+    if (tolower(c) == 'e' && exponent_follows(lex)) {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
-      if ((c = lex_char(lex)) == '-') {
+      if ((c = lex_char(lex)) == '-' || c == '+') {
         if (!append(lex, &i, c, NUMBER))
           return lex->token = TOK_ERROR;
         c = lex_char(lex);
-- 
2.43.0


From a7268440efdc6756d8bdcc0c28ca1ad7be75c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 19/33] fix: INPUT, READ and VAL accept decimal numbers only

---
 Basic/run.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index f5e3e0d..61c870e 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1449,11 +1449,21 @@ static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
     set_string_element(vm, sym, ndim, val);
 }
 
+// Convert a decimal number, as may be written in a program, with an optional sign.
+// Return the position after the number and trailing space, or NULL if not a number.
 static char* convert(const char* s, double *val) {
   while (*s == ' ' || *s == '\t')
     s++;
 
-  if (isdigit(*s) || *s == '.' || *s == '-' || *s == '+') {
+  const char* t = s;
+  if (*t == '-' || *t == '+')
+    t++;
+
+  // exclude other forms that strtod accepts, such as 0x1F and INF
+  if (*t == '0' && tolower((unsigned char) t[1]) == 'x')
+    return NULL;
+
+  if (isdigit((unsigned char) *t) || *t == '.' && isdigit((unsigned char) t[1])) {
     char* end = NULL;
     *val = strtod(s, &end);
     while (*end == ' ' || *end == '\t')
-- 
2.43.0


From cc66a85912fef4a1e672c6103acb37c889029dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:38 +0000
Subject: [PATCH 20/33] fix: IF condition THEN line skips the rest of the line
 if false

---
 Basic/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index b712d0c..2e36724 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -383,6 +383,9 @@ static bool if_statement(PARSER* parser) {
   if (lex_token(parser->lex) == TOK_NUM) {
     unsigned line = line_number(parser);
     emit_basic_line(parser->bcode, B_GOTRUE, line);
+    // if condition false, skip to next line, unless there is an ELSE
+    if (lex_token(parser->lex) != TOK_ELSE)
+      emit(parser->bcode, B_ELSE);
     parser->if_then = 0;
     return false;
   }
-- 
2.43.0


From 9edac74be1731917a8c53ef9f09e72e3fbfb4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:26 +0000
Subject: [PATCH 21/33] fix: free the strings held by an instruction that fails

---
 Basic/run.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 61c870e..fb3a5bb 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -83,6 +83,9 @@ struct vm {
     double limit;
   } for_stack[MAX_FOR];
   unsigned for_sp;
+  // strings in use by the current instruction, freed if it fails
+  char* taken[2];
+  unsigned ntaken;
   // DATA
   unsigned program_data;
   unsigned immediate_data;
@@ -386,6 +389,8 @@ static void run(VM* vm) {
 static void recover(VM* vm) {
   vm->sp = 0;
   clear_string_stack(vm);
+  while (vm->ntaken > 0)
+    efree(vm->taken[--vm->ntaken]);
   if (vm->fn.code_state.code)
     end_def(vm);
 }
@@ -495,6 +500,8 @@ static void execute(VM* vm) {
 
   const BINST* const i = vm->code_state.code->bcode->inst + vm->code_state.pc;
 
+  vm->ntaken = 0;
+
   switch (i->op) {
     case B_NOP:
       break;
@@ -1189,8 +1196,8 @@ static void execute(VM* vm) {
       const char* t = convert(s, &x);
       if (t == NULL || *t != '\0')
         run_error(vm, "invalid number: %s\n", s);
-      efree(s);
       push(vm, x);
+      efree(s);
       break;
     }
     // unknown opcode
@@ -1264,10 +1271,17 @@ static void push_str(VM* vm, const char* s) {
   vm->strstack[vm->ssp++] = estrdup(s ? s : "");
 }
 
+// Note a string that the current instruction will free or store, unless it fails.
+static void take_str(VM* vm, char* s) {
+  assert(vm->ntaken < sizeof vm->taken / sizeof vm->taken[0]);
+  vm->taken[vm->ntaken++] = s;
+}
+
 static char* pop_str(VM* vm) {
   if (vm->ssp == 0)
     run_error(vm, "string stack empty\n");
   vm->ssp--;
+  take_str(vm, vm->strstack[vm->ssp]);
   return vm->strstack[vm->ssp];
 }
 
@@ -1277,6 +1291,7 @@ static int compare_strings(VM* vm) {
   int r = strcmp(s, t);
   efree(s);
   efree(t);
+  vm->ntaken = 0;
   return r;
 }
 
@@ -1443,6 +1458,7 @@ static void set_string_element(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
 }
 
 static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
+  take_str(vm, val);
   if (ndim == 0)
     set_string_simple(vm, sym, val);
   else
-- 
2.43.0


From 29f7f187e03ca0b3c5c94e79422158fce4863ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:29 +0000
Subject: [PATCH 22/33] fix: a string exponent is a parse error

---
 Basic/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 2e36724..491a078 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -814,7 +814,7 @@ static int power_expr(PARSER* parser) {
     lex_next(parser->lex);
     int type2 = power_expr(parser);
     if (type2 != TYPE_NUM)
-      return TYPE_ERR;
+      parse_error_no_token(parser, "Invalid types for power operator");
     emit(parser->bcode, B_POW);
   }
 
-- 
2.43.0


From ddb187f3af851122e8804e48ca734b29446969e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:33 +0000
Subject: [PATCH 23/33] fix: the FOR variable stays defined when NEXT follows
 CLEAR

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index fb3a5bb..e83171f 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1580,6 +1580,7 @@ static void next(VM* vm, int si) {
   }
   else {
     sym->val.num = x;
+    sym->defined = true; // it might not be, after CLEAR
     vm->code_state = f->code_state;
   }
   if (vm->trace_for)
-- 
2.43.0


From 938bbf76d8de739314542bf94feb6c51f4ae7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 24/33] fix: end the report of a SAVE that cannot create its
 file with a newline

---
 Basic/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/source.c b/Basic/source.c
index 1f7a198..b87cc18 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -221,7 +221,7 @@ SOURCE* load_source_file(const char* name) {
 bool save_source_file(const SOURCE* src, const char* name) {
   FILE* fp = fopen(name, "w");
   if (fp == NULL) {
-    fprintf(stderr, "cannot create file: %s", name);
+    fprintf(stderr, "cannot create file: %s\n", name);
     return false;
   }
   for (unsigned i = 0; i < src->used; i++)
-- 
2.43.0


From 89ed6bcc305ee4299ba216c366656cb083030220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 25/33] fix: an interrupt that arrives at a STOP does not lose
 the STOP

---
 Basic/run.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index e83171f..cd13129 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -361,13 +361,13 @@ static void run(VM* vm) {
     recover(vm);
   untrap_interrupt();
 
-  if (interrupted)
-    puts("Break");
-  else if (vm->stopped) {
+  if (vm->stopped) {
     print_source_line(vm->code_state.code->source, vm->code_state.source_line, stdout);
     putchar('\n');
     puts("Stopped");
   }
+  else if (interrupted)
+    puts("Break");
   else {
     if (vm->strict_for && vm->for_sp != 0)
       report_for_in_progress(vm);
@@ -401,11 +401,6 @@ bool vm_continue(VM* vm) {
   if (vm->stopped_program.code->bcode == NULL)
     return false;
   vm->code_state = vm->stopped_program;
-  // If continuing from STOP, continue from PC after STOP.
-  // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  const BCODE* bcode = vm->stopped_program.code->bcode;
-  if (vm->stopped_program.pc < bcode->used && bcode->inst[vm->stopped_program.pc].op == B_STOP)
-    vm->code_state.pc++;
   run(vm);
   return true;
 }
@@ -738,7 +733,7 @@ static void execute(VM* vm) {
       return;
     case B_STOP:
       vm->stopped = true;
-      return;
+      break; // to continue after STOP
     case B_GOTO:
       go_to_basic_line(vm, i->u.basic_line.lineno);
       return;
-- 
2.43.0


From 7fee522cb19d67fe35fddfcdb86b9fd39b135b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:25 +0000
Subject: [PATCH 26/33] fix: an interrupt that coincides with a run-time error
 does not make the error continuable

---
 Basic/run.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index cd13129..cb33fd8 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -357,8 +357,11 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted_here(vm))
       execute(vm);
   }
-  else
+  else {
     recover(vm);
+    untrap_interrupt();
+    interrupted = false; // already stopped by the error
+  }
   untrap_interrupt();
 
   if (vm->stopped) {
-- 
2.43.0


From 0cb934e9c1579a42a11b93726b9658ddcb2eda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:38 +0000
Subject: [PATCH 27/33] fix: GOSUB to a missing line no longer leaves a return
 pending

---
 Basic/run.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index cb33fd8..86ff17d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -747,6 +747,7 @@ static void execute(VM* vm) {
       }
       break;
     case B_GOSUB:
+      find_basic_line(vm, i->u.basic_line.lineno); // fail before changing the return stack
       push_return(vm, vm->code_state.pc + 1);
       go_to_basic_line(vm, i->u.basic_line.lineno);
       return;
@@ -864,9 +865,11 @@ static void execute(VM* vm) {
       unsigned k = vm->code_state.pc + (unsigned) x;
       if (k >= vm->code_state.code->bcode->used || vm->code_state.code->bcode->inst[k].op != B_ON_LINE)
         run_error(vm, "internal error: ON-LINE expected\n");
+      unsigned basic_line = vm->code_state.code->bcode->inst[k].u.basic_line.lineno;
+      find_basic_line(vm, basic_line); // fail before changing the return stack
       if (i->op == B_ON_GOSUB)
         push_return(vm, vm->code_state.pc + i->u.count + 1);
-      go_to_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno);
+      go_to_basic_line(vm, basic_line);
       return;
     }
     case B_IF_THEN: // IF ... THEN statements  -- skip to next line if condition false
-- 
2.43.0


From 405ae11463ad74ea84133b02a7cb26cab47f1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:41 +0000
Subject: [PATCH 28/33] fix: DIM that fails leaves the existing array as it was

---
 Basic/run.c | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 86ff17d..6435c68 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -539,12 +539,6 @@ static void execute(VM* vm) {
     case B_DIM_NUM: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
-      if (sym->val.numarr) {
-        assert(sym->defined);
-        delete_numeric_array(sym->val.numarr);
-        sym->val.numarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_numeric(vm, sym, i->u.param.params, max);
@@ -666,12 +660,6 @@ static void execute(VM* vm) {
     case B_DIM_STR: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
-      if (sym->val.strarr) {
-        assert(sym->defined);
-        delete_string_array(sym->val.strarr);
-        sym->val.strarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_string(vm, sym, i->u.param.params, max);
@@ -1318,11 +1306,11 @@ static void set_numeric_simple(VM* vm, SYMBOL* sym, double val) {
 static void dimension_numeric(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
 
-  sym->val.numarr = new_numeric_array(vm->array_base, ndim, max);
-  if (sym->val.numarr == NULL) {
-    sym->defined = false;
-    run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  struct numeric_array * p = new_numeric_array(vm->array_base, ndim, max);
+  if (p == NULL)
+    run_error(vm, "invalid dimensions: %s\n", sym->name); // leaving any existing array as it was
+  delete_numeric_array(sym->val.numarr);
+  sym->val.numarr = p;
   sym->defined = true;
 }
 
@@ -1405,11 +1393,11 @@ static void set_string_simple(VM* vm, SYMBOL* sym, char* val) {
 static void dimension_string(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
 
-  sym->val.strarr = new_string_array(vm->array_base, ndim, max);
-  if (sym->val.strarr == NULL) {
-    sym->defined = false;
-    run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  struct string_array * p = new_string_array(vm->array_base, ndim, max);
+  if (p == NULL)
+    run_error(vm, "invalid dimensions: %s\n", sym->name); // leaving any existing array as it was
+  delete_string_array(sym->val.strarr);
+  sym->val.strarr = p;
   sym->defined = true;
 }
 
-- 
2.43.0


From 031bcd811b3de223ca712de0d3269c30cc8f7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:02 +0000
Subject: [PATCH 29/33] fix: a refused line no longer leaves its names declared

---
 Basic/parse.c  |  7 +++++--
 Basic/symbol.c | 34 ++++++++++++++++++++++++++++++++++
 Basic/symbol.h |  4 ++++
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 491a078..00d4126 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -35,11 +35,14 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
   parser.bcode = new_bcode();
   parser.st = st;
   parser.if_then = 0;
+  const unsigned symbols = st->used;
   if (setjmp(parser.errjmp) == 0) {
     for (unsigned i = 0; i < source_lines(source); i++)
       parse_line(&parser, i, source_linenum(source, i), source_text(source, i));
+    sym_accept(st);
   }
   else {
+    sym_rollback(st, symbols);
     delete_bcode(parser.bcode);
     parser.bcode = NULL;
   }
@@ -269,7 +272,7 @@ static void def_statement(PARSER* parser) {
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ true);
   if (sym) {
     if (sym->kind == SYM_UNKNOWN)
-      sym->kind = SYM_DEF;
+      sym_settle_kind(sym, SYM_DEF);
     else if (sym->kind != SYM_DEF)
       parse_error(parser, "name already used for %s", symbol_kind(sym->kind));
   }
@@ -922,7 +925,7 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
       parse_error_no_token(parser, "name already used for %s: %s", symbol_kind(sym->kind), name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
-        sym->kind = paren_kind;
+        sym_settle_kind(sym, paren_kind);
       else {
         if (paren_kind != SYM_UNKNOWN && sym->kind != paren_kind)
           parse_error_no_token(parser, "expected %s, found %s: %s", symbol_kind(paren_kind), symbol_kind(sym->kind), name);
diff --git a/Basic/symbol.c b/Basic/symbol.c
index d282b96..fb321d6 100644
--- a/Basic/symbol.c
+++ b/Basic/symbol.c
@@ -156,6 +156,40 @@ const char* sym_name(const SYMTAB* st, SYMID id) {
   return st->psym[id]->name;
 }
 
+// Give a symbol of UNKNOWN kind the kind found by the parser.
+void sym_settle_kind(SYMBOL* sym, int kind) {
+  assert(sym != NULL && sym->kind == SYM_UNKNOWN);
+  sym->kind = kind;
+  sym->kind_settled = true;
+}
+
+// Keep what the source just parsed has declared.
+void sym_accept(SYMTAB* st) {
+  for (unsigned i = 0; i < st->used; i++)
+    st->psym[i]->kind_settled = false;
+}
+
+// Forget what the source just refused has declared,
+// where 'used' is the number of symbols there were before it was parsed.
+void sym_rollback(SYMTAB* st, unsigned used) {
+  while (st->used > used) {
+    SYMBOL* sym = st->psym[--st->used];
+    // the latest symbol is the first of its hash chain
+    st->hash[hashpjw_upper(sym->name) % SYMBOL_HASH_SIZE] = sym->next;
+    efree(sym->name);
+    efree(sym);
+  }
+  st->next_id = st->used;
+
+  for (unsigned i = 0; i < st->used; i++) {
+    SYMBOL* sym = st->psym[i];
+    if (sym->kind_settled) {
+      sym->kind = SYM_UNKNOWN;
+      sym->kind_settled = false;
+    }
+  }
+}
+
 // If a symbol remains of UNKNOWN kind after parsing,
 // it has been used with parens but never defined with DIM or DEF,
 // so should be treated as an undeclared array.
diff --git a/Basic/symbol.h b/Basic/symbol.h
index 6b95877..969d6f1 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -26,6 +26,7 @@ typedef struct symbol {
   char kind;
   char type;
   char defined;
+  char kind_settled; // UNKNOWN kind became known in the source now being parsed
   union {
     double num;
     char* str;
@@ -65,6 +66,9 @@ SYMBOL* symbol(SYMTAB*, SYMID);
 const char* sym_name(const SYMTAB*, SYMID);
 
 // Turn parenthesised symbols of UNKNOWN kind into ARRAY.
+void sym_settle_kind(SYMBOL*, int kind);
+void sym_accept(SYMTAB*);
+void sym_rollback(SYMTAB*, unsigned used);
 void sym_make_unknown_array(SYMTAB*);
 
 // in symbol.h because symbol.h depends on bcode.h
-- 
2.43.0


From d5c56b5c4fa83437166e0785a4397cc770840ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:27 +0000
Subject: [PATCH 30/33] fix: a failed reference to an unknown name no longer
 makes it an array

---
 Basic/run.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 6435c68..ed02b61 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -550,14 +550,10 @@ static void execute(VM* vm) {
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function;
       // an array if neither DIM nor DEF has said which
-      if (sym->kind == SYM_UNKNOWN)
-        sym->kind = SYM_ARRAY;
-      if (sym->kind == SYM_ARRAY)
-        get_numeric_element(vm, sym, i->u.param.params);
-      else {
-        assert(sym->kind == SYM_DEF);
+      if (sym->kind == SYM_DEF)
         call_def(vm, sym, i->u.param.params);
-      }
+      else
+        get_numeric_element(vm, sym, i->u.param.params);
       break;
     }
     case B_SET_ARRAY_NUM: {
@@ -671,14 +667,10 @@ static void execute(VM* vm) {
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function;
       // an array if neither DIM nor DEF has said which
-      if (sym->kind == SYM_UNKNOWN)
-        sym->kind = SYM_ARRAY;
-      if (sym->kind == SYM_ARRAY)
-        get_string_element(vm, sym, i->u.param.params);
-      else {
-        assert(sym->kind == SYM_DEF);
+      if (sym->kind == SYM_DEF)
         call_def(vm, sym, i->u.param.params);
-      }
+      else
+        get_string_element(vm, sym, i->u.param.params);
       break;
     }
     case B_SET_ARRAY_STR: {
@@ -1304,13 +1296,14 @@ static void set_numeric_simple(VM* vm, SYMBOL* sym, double val) {
 }
 
 static void dimension_numeric(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
-  assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
+  assert(sym != NULL && (sym->kind == SYM_ARRAY || sym->kind == SYM_UNKNOWN) && sym->type == TYPE_NUM);
 
   struct numeric_array * p = new_numeric_array(vm->array_base, ndim, max);
   if (p == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name); // leaving any existing array as it was
   delete_numeric_array(sym->val.numarr);
   sym->val.numarr = p;
+  sym->kind = SYM_ARRAY; // if not known before
   sym->defined = true;
 }
 
@@ -1333,7 +1326,7 @@ static double* numeric_element(VM* vm, struct numeric_array * p, const char* nam
 }
 
 static void get_numeric_element(VM* vm, SYMBOL* sym, unsigned ndim) {
-  assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
+  assert(sym != NULL && (sym->kind == SYM_ARRAY || sym->kind == SYM_UNKNOWN) && sym->type == TYPE_NUM);
 
   unsigned indexes[MAX_DIMENSIONS];
   pop_indexes(vm, indexes, ndim, sym->name);
@@ -1391,13 +1384,14 @@ static void set_string_simple(VM* vm, SYMBOL* sym, char* val) {
 }
 
 static void dimension_string(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
-  assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
+  assert(sym != NULL && (sym->kind == SYM_ARRAY || sym->kind == SYM_UNKNOWN) && sym->type == TYPE_STR);
 
   struct string_array * p = new_string_array(vm->array_base, ndim, max);
   if (p == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name); // leaving any existing array as it was
   delete_string_array(sym->val.strarr);
   sym->val.strarr = p;
+  sym->kind = SYM_ARRAY; // if not known before
   sym->defined = true;
 }
 
@@ -1419,7 +1413,7 @@ static char* * string_element(VM* vm, struct string_array * p, const char* name,
 }
 
 static void get_string_element(VM* vm, SYMBOL* sym, unsigned ndim) {
-  assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
+  assert(sym != NULL && (sym->kind == SYM_ARRAY || sym->kind == SYM_UNKNOWN) && sym->type == TYPE_STR);
 
   unsigned indexes[MAX_DIMENSIONS];
   pop_indexes(vm, indexes, ndim, sym->name);
-- 
2.43.0


From 9a80042c7e6b5a7bcf34f1893bd0470a021a2b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:59 +0000
Subject: [PATCH 31/33] fix: more than 65535 names no longer share variables

---
 Basic/symbol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/symbol.h b/Basic/symbol.h
index 969d6f1..e26025c 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -18,7 +18,7 @@ enum symbol_kind {
 
 const char* symbol_kind(int kind);
 
-typedef unsigned short SYMID;
+typedef unsigned SYMID;
 
 typedef struct symbol {
   char* name;
-- 
2.43.0


From 9fbd00edf247d0f5a0acd58e855b3b2164cd0e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 32/33] fix: LOAD reads lines of any length, as RENUM may leave
 them

---
 Basic/source.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index b87cc18..faf2e4e 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -187,21 +187,23 @@ SOURCE* load_source_file(const char* name) {
     return NULL;
   }
   SOURCE* src = new_source(name);
-  char buf[256];
+  size_t bufsz = 256;
+  char* buf = emalloc(bufsz);
   bool ok = true;
-  while (ok && fgets(buf, sizeof buf, fp)) {
+  while (ok && fgets(buf, (int) bufsz, fp)) {
     size_t len = strlen(buf);
-    if (len > 0) {
-      if (buf[len-1] == '\n') {
-        buf[--len] = '\0';
-        if (len > 0 && buf[len-1] == '\r')
-          buf[--len] = '\0';
-      }
-      else if (len + 1 == sizeof buf) {
-        source_error(src, "source line is too long\n");
-        ok = false;
+    // a line may be longer than any that can be typed, after RENUM
+    while (len + 1 == bufsz && buf[len-1] != '\n') {
+      bufsz *= 2;
+      buf = erealloc(buf, bufsz);
+      if (fgets(buf + len, (int) (bufsz - len), fp) == NULL)
         break;
-      }
+      len += strlen(buf + len);
+    }
+    if (len > 0 && buf[len-1] == '\n') {
+      buf[--len] = '\0';
+      if (len > 0 && buf[len-1] == '\r')
+        buf[--len] = '\0';
     }
     if (len == 0) {
       source_error(src, "source line is empty\n");
@@ -210,6 +212,7 @@ SOURCE* load_source_file(const char* name) {
     }
     ok = append_numbered(src, buf);
   }
+  efree(buf);
   fclose(fp);
   if (!ok) {
     delete_source(src);
-- 
2.43.0


From 7d6413de63a5d620cd47c731bc2c697755fb5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 33/33] fix: an unterminated string in DATA is reported with
 its text only

---
 Basic/lexer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index 4846575..fad81a4 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -344,6 +344,7 @@ const char* lex_next_data(LEX* lex) {
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
       return NULL;
     }
-- 
2.43.0

