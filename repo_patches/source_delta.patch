From 9bb57d2e29b1b945ce6826f94536cf696cbcbd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:19 +0000
Subject: [PATCH 01/19] fix: DIM with a maximum subscript of 4294967295
 allocates no storage

max - base + 1 wrapped to 0, so the array was accepted with 0 elements
and every subscript was in range.
---
 Basic/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..191f467 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -12,7 +12,7 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
   assert(elements != NULL);
   *elements = 1;
   for (unsigned i = 0; i < dimensions; i++) {
-    if (max[i] < base)
+    if (max[i] < base || max[i] - base >= MAX_ELEMENTS)
       return false;
     unsigned size = max[i] - base + 1;
     if (size > MAX_ELEMENTS / *elements)
-- 
2.43.0


From 05434645a29d6d151a9237bf1a180d67e04e49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:22 +0000
Subject: [PATCH 02/19] fix: more than two subscripts overrun the index buffer
 at run time

pop_indexes stores one index per subscript in an array of MAX_DIMENSIONS,
and the operand counts parameters in 8 bits.
---
 Basic/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..894cf6c 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -15,6 +15,7 @@
 #include "emit.h"
 #include "bcode.h"
 #include "builtin.h"
+#include "arrays.h"
 #include "os.h"
 
 typedef struct {
@@ -908,6 +909,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
     } while (lex_token(parser->lex) == ',');
     match(parser, ')');
   }
+  if (*parameters > MAX_DIMENSIONS)
+    parse_error_no_token(parser, "too many subscripts or parameters: %s", name);
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
-- 
2.43.0


From 6bffed218c3dbb11dc8b652b322487f797a7dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:25 +0000
Subject: [PATCH 03/19] fix: a built-in function name used as a variable
 reaches the variable instructions

LET ABS=3 or READ CHR$ failed an assertion, or in a release build
overwrote the definition of the built-in function.
---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 894cf6c..067e8cb 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -914,6 +914,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
+    if (sym->kind == SYM_BUILTIN)
+      parse_error_no_token(parser, "name of built-in function: %s", name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
         sym->kind = paren_kind;
-- 
2.43.0


From 9a14741a8ef3b4641d61fc45e840d2c988b7674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:18 +0000
Subject: [PATCH 04/19] fix: INPUT at end of input asks again for ever

fgets returned NULL and the items were read from the previous contents
of the buffer.
---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..913c31e 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -914,6 +914,7 @@ static void execute(VM* vm) {
       if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
         if (ferror(stdin))
           run_error(vm, "error reading input\n");
+        run_error(vm, "end of input\n");
       }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
-- 
2.43.0


From 6b13057d1af6e900e7a04905fc4be6fdecb26bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:21 +0000
Subject: [PATCH 05/19] fix: ASC returns a negative code for characters above
 127

ASC(CHR$(200)) was -56 where char is signed.
---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 913c31e..aa17e69 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1009,7 +1009,7 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, s[0]);
+      push(vm, (unsigned char) s[0]);
       efree(s);
       break;
     }
-- 
2.43.0


From 2229544ca09b2766332a56458740008e593ba4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:24 +0000
Subject: [PATCH 06/19] fix: a run-time error leaves its statement half done

An error inside a user-defined function left the call in progress: the
variable named like the parameter kept the argument, and every later call
was refused as nested. Operands were left on the evaluation stacks, so
repeated errors in immediate mode ended in "numeric stack overflow".
---
 Basic/run.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index aa17e69..8d0add0 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -330,8 +330,18 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void end_def(VM*);
 static void report_for_in_progress(VM*);
 
+// After a run-time error, abandon the statement being executed:
+// any user-defined function call in progress, and its operands.
+static void abandon_statement(VM* vm) {
+  if (vm->fn.code_state.code != NULL)
+    end_def(vm);
+  clear_string_stack(vm);
+  vm->sp = 0;
+}
+
 // Run the currently selected code from current PC.
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
@@ -342,6 +352,8 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else
+    abandon_statement(vm);
   untrap_interrupt();
 
   if (interrupted)
-- 
2.43.0


From 270c4dba600494dca1e36c72254c239aea87dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 07/19] fix: an interrupt inside a user-defined function leaves
 the call in progress

The parameter was never restored, later calls were refused as nested, and
the program could not be continued.
---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 8d0add0..fa379f1 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -349,7 +349,8 @@ static void run(VM* vm) {
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped &&
+           (!interrupted || vm->fn.code_state.code != NULL)) // a function call can be completed but not continued
       execute(vm);
   }
   else
-- 
2.43.0


From 2486ddd5b2f00a1eb97e524d9a3e3766c3066b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:30 +0000
Subject: [PATCH 08/19] fix: invalid input for an array element leaves its
 subscripts on the stack

After some retries INPUT A(I) ended in "numeric stack overflow".
---
 Basic/run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index fa379f1..43eb31c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -962,6 +962,8 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      for (unsigned k = 0; k < i->u.param.params; k++)
+        pop(vm); // subscripts will be evaluated again
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0


From de5859cc66c4057175a61c8b8f6dd7ad40666543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:32 +0000
Subject: [PATCH 09/19] fix: CONT after an interrupt at the end of the program
 reads past the code

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 43eb31c..2d50e0a 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -388,7 +388,8 @@ bool vm_continue(VM* vm) {
   vm->code_state = vm->stopped_program;
   // If continuing from STOP, continue from PC after STOP.
   // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
+  if (vm->stopped_program.pc < vm->stopped_program.code->bcode->used &&
+      vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
     vm->code_state.pc++;
   run(vm);
   return true;
-- 
2.43.0


From 4e8cc95a5bd4f7a15b2f03e760b2cad9b50cf2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:10 +0000
Subject: [PATCH 10/19] fix: a bad program line or unreadable program file ends
 the session

"0 PRINT" at the prompt, and LOAD of a file with an empty, over-long,
unnumbered or misnumbered line, terminated the interpreter and lost the
program. Line 0 was even accepted when the program was not empty.
load_source_file also never closed the file.
---
 Basic/run.c     |  2 +-
 Basic/source.c  | 62 +++++++++++++++++++++++++++++++++++--------------
 System/lbasic.c |  6 +++++
 3 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 2d50e0a..5533d07 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -247,7 +247,7 @@ bool vm_save_source(VM* vm, const char* name) {
 }
 
 bool vm_load_source(VM* vm, const char* name) {
-  SOURCE* source = load_source_file(name); // TODO: errors should not terminate the interpreter
+  SOURCE* source = load_source_file(name);
   if (source == NULL)
     return false;
 
diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..9201e9c 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -80,7 +80,6 @@ static void source_error(const SOURCE* src, const char* fmt, ...) {
   va_start(ap, fmt);
   vfprintf(stderr, fmt, ap);
   va_end(ap);
-  exit(EXIT_FAILURE);
 }
 
 static void ensure_space(SOURCE* src) {
@@ -91,19 +90,24 @@ static void ensure_space(SOURCE* src) {
   }
 }
 
-static void append(SOURCE* src, unsigned num, const char* text) {
+static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
-  if (num == 0)
+  if (num == 0) {
     source_error(src, "invalid line number: %u\n", num);
+    return false;
+  }
   unsigned latest = src->used ? src->lines[src->used - 1].num : 0;
-  if (num <= latest)
+  if (num <= latest) {
     source_error(src, "line number is not in increasing order: %u\n", num);
+    return false;
+  }
   ensure_space(src);
   assert(src->used < src->allocated);
   src->lines[src->used].num = num;
   src->lines[src->used].text = estrdup(text);
   src->used++;
+  return true;
 }
 
 static const char* parse_line_number(SOURCE* src, const char* line, unsigned *num) {
@@ -113,8 +117,10 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   const char* s = line;
   for (; isdigit(*s); s++)
     *num = *num * 10 + *s - '0';
-  if (s == line)
+  if (s == line) {
     source_error(src, "line has no line number\n");
+    return NULL;
+  }
   // treat one space as pure delimiter but preserve any other indenting
   if (*s == ' ')
     s++;
@@ -135,6 +141,10 @@ static void spread(SOURCE* src, unsigned pos) {
 
 void enter_source_line(SOURCE* src, unsigned num, const char* text) {
   assert(text != NULL);
+  if (num == 0) {
+    source_error(src, "invalid line number: %u\n", num);
+    return;
+  }
   for (unsigned i = 0; i < src->used; i++) {
     if (src->lines[i].num == num) {
       efree(src->lines[i].text);
@@ -172,20 +182,33 @@ SOURCE* load_source_file(const char* name) {
   while (fgets(buf, sizeof buf, fp)) {
     size_t len = strlen(buf);
     if (len > 0) {
-      if (buf[len-1] != '\n')
-        source_error(src, "source line is too long");
+      if (buf[len-1] != '\n') {
+        source_error(src, "source line is too long\n");
+        goto bad;
+      }
       len--;
       buf[len] = '\0';
     }
-    if (len == 0)
-      source_error(src, "source line is empty");
+    if (len == 0) {
+      source_error(src, "source line is empty\n");
+      goto bad;
+    }
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
-      exit(EXIT_FAILURE);
-    append(src, num, text);
+    if (text == NULL || !append(src, num, text))
+      goto bad;
+  }
+  if (ferror(fp)) {
+    source_error(src, "error reading source file\n");
+    goto bad;
   }
+  fclose(fp);
   return src;
+
+bad:
+  fclose(fp);
+  delete_source(src);
+  return NULL;
 }
 
 bool save_source_file(const SOURCE* src, const char* name) {
@@ -213,10 +236,14 @@ static unsigned line_length(const char* s) {
 
 static unsigned get_line(SOURCE* src, const char* string, char* buf, unsigned bufsz) {
   unsigned len = line_length(string);
-  if (len == 0)
-    source_error(src, "source line is empty");
-  if (len + 1 > bufsz)
-    source_error(src, "source line is too long");
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    exit(EXIT_FAILURE);
+  }
+  if (len + 1 > bufsz) {
+    source_error(src, "source line is too long\n");
+    exit(EXIT_FAILURE);
+  }
   strncpy(buf, string, len);
   buf[len] = '\0';
   return len;
@@ -234,9 +261,8 @@ SOURCE* load_source_string(const char* string, const char* name) {
 
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
+    if (text == NULL || !append(src, num, text))
       exit(EXIT_FAILURE);
-    append(src, num, text);
 
     if (string[len] == '\0' || string[len+1] == '\0')
       break;
diff --git a/System/lbasic.c b/System/lbasic.c
index dd2e1c2..a44929f 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -132,6 +132,8 @@ static void process_file(const Options* opt) {
       delete_symbol_table(st);
       delete_source(source);
     }
+    else
+      exit(EXIT_FAILURE);
     return;
   }
 
@@ -151,6 +153,10 @@ static void process_file(const Options* opt) {
       printf("Microseconds elapsed: %lld\n", elapsed_usec(&timer));
 #endif
   }
+  else {
+    delete_vm(vm);
+    exit(EXIT_FAILURE);
+  }
 
   delete_vm(vm);
 }
-- 
2.43.0


From c78dd73b3601b126324fe3d28c6b1dc3a6e66374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:48 +0000
Subject: [PATCH 11/19] fix: SAVE is silent when the program was not written

Write and close errors were ignored, and so was the result of saving when
there is no program.
---
 Basic/source.c        | 10 +++++++---
 Monitor/interactive.c |  6 ++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 9201e9c..cf7d737 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -214,13 +214,17 @@ bad:
 bool save_source_file(const SOURCE* src, const char* name) {
   FILE* fp = fopen(name, "w");
   if (fp == NULL) {
-    fprintf(stderr, "cannot create file: %s", name);
+    fprintf(stderr, "cannot create file: %s\n", name);
     return false;
   }
   for (unsigned i = 0; i < src->used; i++)
     fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
-  fclose(fp);
-  return true;
+  bool ok = !ferror(fp);
+  if (fclose(fp) != 0)
+    ok = false;
+  if (!ok)
+    fprintf(stderr, "error writing file: %s\n", name);
+  return ok;
 }
 
 static unsigned line_length(const char* s) {
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..2f5f72d 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -217,8 +217,10 @@ static void command(VM* vm, int cmd, char* line, bool *quit) {
     }
     case CMD_SAVE: {
       const char* str;
-      if ((line = demarcate_string(line, &str)) && check_eol(line))
-        vm_save_source(vm, str);
+      if ((line = demarcate_string(line, &str)) && check_eol(line)) {
+        if (!vm_save_source(vm, str))
+          error("Program not saved");
+      }
       else
         error("Quoted file name expected");
       break;
-- 
2.43.0


From 44c1f73d9c0ccc5d0af4df65772607bb174116cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:51 +0000
Subject: [PATCH 12/19] fix: a line number too large for unsigned names another
 line

Typing "4294967297 ..." replaced line 1.
---
 Basic/source.c        |  8 +++++++-
 Monitor/interactive.c | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index cf7d737..9c0fd05 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <assert.h>
 #include "source.h"
@@ -115,8 +116,13 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
+  for (; isdigit(*s); s++) {
+    if (*num > (UINT_MAX - 9) / 10) {
+      source_error(src, "line number is too large\n");
+      return NULL;
+    }
     *num = *num * 10 + *s - '0';
+  }
   if (s == line) {
     source_error(src, "line has no line number\n");
     return NULL;
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 2f5f72d..e72f4bc 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <math.h>
 #include <assert.h>
@@ -142,7 +143,9 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
-  if (*p == '\0' || *p == '\n')
+  if (num == UINT_MAX)
+    error("Line number is too large");
+  else if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
     if (*p == ' ')
@@ -442,7 +445,10 @@ static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    if (*num > (UINT_MAX - 9) / 10)
+      *num = UINT_MAX; // too large
+    else
+      *num = 10 * *num + *line - '0';
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From a16101f4f80b381876b1abeb8c7ac452a7ba7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 13/19] fix: an invalid character or DATA item terminates the
 interpreter

PRINT "e-acute" or an unterminated string in DATA at the prompt ended the
session; they are syntax errors.
---
 Basic/lexer.c | 26 +++++++++++++++++++++-----
 Basic/lexer.h |  1 +
 Basic/parse.c | 11 +++++++++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..40c6cdf 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -22,6 +22,7 @@ LEX* new_lex(const char* name, bool recognise_keyword_prefixes) {
   lex->token = TOK_NONE;
   lex->num = 0;
   lex->word[0] = '\0';
+  lex->invalid = false;
   lex->recognise_keyword_prefixes = recognise_keyword_prefixes;
   return lex;
 }
@@ -76,7 +77,7 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
 static void validate(LEX* lex, int c) {
   if (c != EOF && (c < 0 || c >= 127)) {
     lex_error(lex, "invalid character on line: value %d\n", c);
-    exit(EXIT_FAILURE);
+    lex->invalid = true;
   }
 }
 
@@ -176,7 +177,18 @@ static bool append(LEX* lex, unsigned *i, int c, const char* descrip) {
   return true;
 }
 
+static int scan(LEX* lex);
+
+// A token containing an invalid character is an error.
 int lex_next(LEX* lex) {
+  lex->invalid = false;
+  scan(lex);
+  if (lex->invalid)
+    lex->token = TOK_ERROR;
+  return lex->token;
+}
+
+static int scan(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
 
@@ -312,7 +324,10 @@ int lex_next(LEX* lex) {
 }
 
 // Recognise a string token, or read other characters into a string, for untyped DATA.
+// Return NULL on error.
 const char* lex_next_data(LEX* lex) {
+  lex->token = TOK_ERROR;
+  lex->invalid = false;
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
 
@@ -327,13 +342,14 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        return NULL;
       }
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      return NULL;
     }
   }
   else {
@@ -341,7 +357,7 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        return NULL;
       }
       lex->word[i++] = c;
       c = lex_char(lex);
@@ -353,7 +369,7 @@ const char* lex_next_data(LEX* lex) {
   }
   lex->word[i] = '\0';
 
-  return lex->word;
+  return lex->invalid ? NULL : lex->word;
 }
 
 int lex_token(LEX* lex) {
diff --git a/Basic/lexer.h b/Basic/lexer.h
index 18432be..a4191cc 100644
--- a/Basic/lexer.h
+++ b/Basic/lexer.h
@@ -16,6 +16,7 @@ typedef struct {
   unsigned token_pos;
   int token;
   double num;
+  bool invalid;
   bool recognise_keyword_prefixes;
   char word[MAX_WORD];
 } LEX;
diff --git a/Basic/parse.c b/Basic/parse.c
index 067e8cb..1ca5173 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -213,9 +213,16 @@ static void data_statement(PARSER* parser) {
   if (lex_token(parser->lex) != TOK_DATA)
     match(parser, TOK_DATA);
 
-  emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+  datum(parser);
   while (lex_next(parser->lex) == ',')
-    emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+    datum(parser);
+}
+
+static void datum(PARSER* parser) {
+  const char* s = lex_next_data(parser->lex);
+  if (s == NULL)
+    parse_error(parser, "invalid DATA");
+  emit_str(parser->bcode, B_DATA, s);
 }
 
 static void read_item(PARSER*);
-- 
2.43.0


From 6de912271e48b4651c2a1f9bc85f41011351f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:21 +0000
Subject: [PATCH 14/19] fix: an erroneous dummy argument is compiled and
 unbalances the stacks

PRINT RND(2^"A") ran, leaving a number and a string on the evaluation
stacks each time.
---
 Basic/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 1ca5173..2dd6f06 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -624,6 +624,7 @@ static void discard_expression(PARSER* parser) {
   switch (t) {
     case TYPE_NUM: emit(parser->bcode, B_POP_NUM); break;
     case TYPE_STR: emit(parser->bcode, B_POP_STR); break;
+    default: parse_error_no_token(parser, "invalid dummy argument"); break;
   }
 }
 
-- 
2.43.0


From b55918e029b4b22d2d834a888789222ccd8992a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 15/19] fix: RENUM can make duplicate line numbers and fail
 half way

RENUM 20,30 with a line 20, or an increment of 0, numbered two lines the
same. A refused renumbering had already changed the lines before the one
that could not be numbered, but not the references to them.
---
 Monitor/interactive.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index e72f4bc..1400f92 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -341,20 +341,18 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
   // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
   LINE_MAP* map = new_line_map(source_lines(source));
   unsigned new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
+      if (new_linenum <= prev_basic_line) {
         error("Cannot renumber line %u to %u after line %u",
               basic_line, new_linenum, prev_basic_line);
         goto bail;
       }
       insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
       prev_basic_line = new_linenum;
       new_linenum += inc;
     }
@@ -364,6 +362,13 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  // update the line number of each source line
+  for (unsigned line = 0; line < source_lines(source); line++) {
+    unsigned new_basic_line;
+    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
+      set_source_linenum(source, line, new_basic_line);
+  }
+
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-- 
2.43.0


From 0ac9a8454d4f69aa7728fc9f1ccb623b163180b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 16/19] fix: RENUM misses line references and rewrites text
 that is not code

Only the first number of an ON list was rewritten, and none after
THEN GOTO or ELSE GOTO; numbers in DATA and REM text were rewritten.
---
 Monitor/interactive.c | 50 ++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 1400f92..0c9a82e 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -372,31 +372,41 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-    while (tok != TOK_EOF && tok != '\n') {
-      if (takes_line_number(tok)) {
+    while (tok != TOK_EOF && tok != '\n' && tok != TOK_REM) {
+      if (tok == TOK_DATA) {
+        // text of DATA items is not code
+        do {
+          lex_next_data(lex);
+        } while ((tok = lex_next(lex)) == ',');
+        continue;
+      }
+      if (!takes_line_number(tok)) {
         tok = lex_next(lex);
-        if (tok == TOK_NUM) {
-          double x = lex_num(lex);
-          if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
-            unsigned basic_line = (unsigned) x;
-            unsigned new_basic_line;
-            if (lookup_line_mapping(map, basic_line, &new_basic_line)) {
-              char num[16];
-              sprintf(num, "%u", new_basic_line);
-              if (!source_replace(source, line, lex_token_pos(lex), lex_word(lex), num)) {
-                error("internal error: renumbering: replacing line number in source line");
-                goto bail;
-              }
-              tok = lex_refresh(lex, source_text(source, line));
-              if (tok != TOK_NUM) {
-                error("internal error: renumbering: retokenising update source text");
-                goto bail;
-              }
+        continue;
+      }
+      // line number, or list of line numbers, if not a statement
+      while ((tok = lex_next(lex)) == TOK_NUM) {
+        double x = lex_num(lex);
+        if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
+          unsigned basic_line = (unsigned) x;
+          unsigned new_basic_line;
+          if (lookup_line_mapping(map, basic_line, &new_basic_line)) {
+            char num[16];
+            sprintf(num, "%u", new_basic_line);
+            if (!source_replace(source, line, lex_token_pos(lex), lex_word(lex), num)) {
+              error("internal error: renumbering: replacing line number in source line");
+              goto bail;
+            }
+            tok = lex_refresh(lex, source_text(source, line));
+            if (tok != TOK_NUM) {
+              error("internal error: renumbering: retokenising update source text");
+              goto bail;
             }
           }
         }
+        if ((tok = lex_next(lex)) != ',')
+          break;
       }
-      tok = lex_next(lex);
     }
   }
 
-- 
2.43.0


From 6e551153c16d12387697081835d655676ec14287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:46 +0000
Subject: [PATCH 17/19] fix: RENUM leaves the code compiled before it in use

After RENUM, GOTO in immediate mode and a second RUN still went to the
old line numbers.
---
 Basic/run.c           | 5 +++++
 Basic/run.h           | 1 +
 Monitor/interactive.c | 1 +
 3 files changed, 7 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 5533d07..f3dbbd0 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -211,6 +211,11 @@ void vm_compile(VM* vm) {
   ensure_program_compiled(vm);
 }
 
+void vm_source_changed(VM* vm) {
+  assert(vm != NULL);
+  stored_program_changed(vm);
+}
+
 void vm_new_program(VM* vm) {
   assert(vm != NULL);
   if (vm->stored_program.source)
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..82aa783 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -19,6 +19,7 @@ bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
 SOURCE* vm_stored_source(vm);
+void vm_source_changed(VM*);
 
 // Compile and run code.
 void vm_compile(VM*);
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 0c9a82e..11e0780 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -363,6 +363,7 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   }
 
   // update the line number of each source line
+  vm_source_changed(vm);
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned new_basic_line;
     if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
-- 
2.43.0


From 1689f3d01c88b2e1ad24976cb258385aae6d9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 18/19] fix: CHR$ of a code above 127 is an undefined
 conversion

A double out of the range of char was converted to char.
---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index f3dbbd0..db7204a 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1045,7 +1045,7 @@ static void execute(VM* vm) {
       if (x < 0 || x > 255 || x != floor(x))
         run_error(vm, "invalid character code: %g\n", x);
       char buf[2];
-      buf[0] = (char) x;
+      buf[0] = (char)(unsigned char) x;
       buf[1] = '\0';
       push_str(vm, buf);
       break;
-- 
2.43.0


From 4aab235cf0bd5db1a77d7a248a637cf9dd9d5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:46 +0000
Subject: [PATCH 19/19] fix: pass the trace-log option to interactive mode

---
 Monitor/interactive.c | 4 ++--
 Monitor/interactive.h | 2 +-
 System/lbasic.c       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 11e0780..d584d24 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -79,8 +79,8 @@ static void help(void) {
 static bool get_line(char* cmd, unsigned cmd_size);
 static void interpret(VM*, char* cmd, bool *quit);
 
-void interact(bool keywords_anywhere, bool trace_basic, bool trace_for, bool quiet) {
-  VM* vm = new_vm(keywords_anywhere, trace_basic, trace_for, /*trace_log*/ false);
+void interact(bool keywords_anywhere, bool trace_basic, bool trace_for, bool trace_log, bool quiet) {
+  VM* vm = new_vm(keywords_anywhere, trace_basic, trace_for, trace_log);
   char cmd[128];
   bool quit = false;
 
diff --git a/Monitor/interactive.h b/Monitor/interactive.h
index 34e7d3c..77309af 100644
--- a/Monitor/interactive.h
+++ b/Monitor/interactive.h
@@ -7,4 +7,4 @@
 
 #include <stdbool.h>
 
-void interact(bool keywords_anywhere, bool trace_basic, bool trace_for, bool quiet);
+void interact(bool keywords_anywhere, bool trace_basic, bool trace_for, bool trace_log, bool quiet);
diff --git a/System/lbasic.c b/System/lbasic.c
index a44929f..612a5f2 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -75,7 +75,7 @@ int main(int argc, char* argv[]) {
   if (opt.file_name == NULL) {
     if (opt.mode != NO_MODE)
       fatal("invalid option for interactive mode\n");
-    interact(opt.keywords_anywhere, opt.trace_basic, opt.trace_for, opt.quiet);
+    interact(opt.keywords_anywhere, opt.trace_basic, opt.trace_for, opt.trace_log, opt.quiet);
   }
   else
     process_file(&opt);
-- 
2.43.0

