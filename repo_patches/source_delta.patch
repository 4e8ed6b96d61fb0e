From 1f6ad2b420b1d5cb73deee1b71d5b112ccf6a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 01/65] fix: keep arena allocations aligned after odd-sized
 requests

---
 bant/util/arena.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bant/util/arena.h b/bant/util/arena.h
index 83fe655..81e3b75 100644
--- a/bant/util/arena.h
+++ b/bant/util/arena.h
@@ -35,6 +35,9 @@ class Arena {
   Arena(const Arena &) = delete;
 
   void *Alloc(size_t size) {
+    // Round up, so that whatever is allocated next is properly aligned as well.
+    constexpr size_t kAlign = alignof(std::max_align_t);
+    size = (size + kAlign - 1) & ~(kAlign - 1);
     if (pos_ == nullptr || size > (size_t)(end_ - pos_)) {
       NewBlock(std::max(size, block_size_));  // max: allow oversized allocs
     }
-- 
2.43.0


From 3d50a73c22e9e9a4888e027b7bb59f347585fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 02/65] fix: 'not' followed by a name starting with 'in' is not
 a 'not in' operator

Also, a newline between 'not' and 'in' was not registered in the line index,
shifting all reported locations after it.
---
 bant/frontend/scanner.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index aa42273..2223a31 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -116,7 +116,9 @@ bool Scanner::ConsumeOptionalIn() {
   while (run < end_ && absl::ascii_isspace(*run)) {
     ++run;
   }
-  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n') {
+  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n' &&
+      (run + 2 == end_ || !IsIdentifierChar(run[2]))) {
+    SkipSpace();  // Up to 'run', making sure to register all newlines.
     pos_ = run + 2;
     return true;
   }
-- 
2.43.0


From bdc30451924c3bd9a40d089a2c132a9d1737012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 03/65] fix: unique temporary files for clang-tidy output

Files with the same name and content, or several invocations at the same
time (also: tools left behind by a killed invocation), shared the same
temporary file: outputs got mixed up, and the rename of the one coming
second failed and terminated the program.
---
 scripts/run-clang-tidy-cached.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 9cedb14..055c08a 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -255,7 +255,11 @@ class ClangTidyRunner {
           work_queue->pop_front();
         }
         const fs::path final_out = output_store.PathFor(work);
-        const std::string tmp_out = final_out.string() + ".tmp";
+        // Unique, as several invocations might share the same cache.
+        const std::string tmp_out =
+          final_out.string() + "." + std::to_string(getpid()) + "." +
+          ToHex(std::hash<std::thread::id>()(std::this_thread::get_id())) +
+          ".tmp";
         // Putting the file to clang-tidy early in the command line so that
         // it is easy to find with `ps` or `top`.
         const std::string command = clang_tidy_ + " '" + work.first.string() +
-- 
2.43.0


From 24005083af9a18638269ba268bf1fb64906715ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 04/65] fix: hash for cached clang-tidy output ignored some
 changes

Hashes of included headers were xor-ed, so they canceled out if a file was
included twice, in headers including (or mentioning) themselves, or for
headers of same name and content: changes in these were not noticed.
Also, files of same name and content in different directories shared one
output that mentions the path of just one of them.
---
 scripts/run-clang-tidy-cached.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 055c08a..be9054f 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -399,8 +399,9 @@ class FileGatherer {
         // Since the files might be included sloppily without prefix path,
         // just keep track of the basename (but since there might be collisions,
         // accomodate all of them by xor-ing the hashes).
+        // The path is part of the hash so that same content doesn't cancel.
         const std::string just_basename = p.filename();
-        header_hashes[just_basename] ^= hashContent(GetContent(p));
+        header_hashes[just_basename] ^= hashContent(file + "\n" + GetContent(p));
       }
     }
     std::cerr << files_of_interest_.size() << " files of interest.\n";
@@ -412,7 +413,8 @@ class FileGatherer {
         R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
-      work_file.second = hashContent(content);
+      // Path matters, as it is part of the messages and for some checks.
+      work_file.second = hashContent(work_file.first.string() + ":" + content);
       if (kConfig.revisit_if_any_include_changes) {
         // Update the hash with all the hashes from all include files.
         for (ReIt it(content.begin(), content.end(), inc_re); it != ReIt();
@@ -421,7 +423,8 @@ class FileGatherer {
           const std::string header_basename = fs::path(header_path).filename();
           const auto found = header_hashes.find(header_basename);
           if (found != header_hashes.end()) {
-            work_file.second ^= found->second;
+            // Not just xor: the same header can be included more than once.
+            work_file.second = work_file.second * 31 + found->second;
           }
         }
       }
-- 
2.43.0


From 413e53c5aac8c453778f3e4cba9851161062f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 05/65] fix: count all clang-tidy findings in summary

Names of checks can contain digits, comma (multiple names of the same check)
or plus; these were not counted, and could lead to exit with success despite
findings. On the other hand, quoted source lines were counted if they happened
to end in a bracket expression.
---
 scripts/run-clang-tidy-cached.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index be9054f..a27b600 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -449,7 +449,8 @@ class FileGatherer {
     const fs::path tidy_summary = cache_dir / ("tidy-summary.out-" + suffix);
 
     // Assemble the separate outputs into a single file. Tally up per-check
-    const std::regex check_re("(\\[[a-zA-Z.-]+\\])\n");
+    const std::regex check_re(
+      R"((?:warning|error): [^\n]*(\[[^\[\]\s]+\])\n)");
     std::map<std::string, int> checks_seen;
     std::ofstream tidy_collect(tidy_outfile);
     for (const filepath_contenthash_t &f : files_of_interest_) {
-- 
2.43.0


From 915a33a71b417eba3d246497eafe857b11a39ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 06/65] fix: don't remember incomplete output of a crashed
 clang-tidy

If clang-tidy could not be executed or crashed, the possibly empty output was
cached like a regular result, so that the file was considered clean from then
on.
---
 scripts/run-clang-tidy-cached.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index a27b600..7952d1f 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -32,6 +32,7 @@ B=${0%%.cc}; [ "$B" -nt "$0" ] || c++ -std=c++17 -o"$B" "$0" && exec "$B" "$@";
 //  CACHE_DIR  = where to put the cached content; default ~/.cache
 
 // This file shall be c++17 self-contained; not using any re2 or absl niceties.
+#include <sys/wait.h>
 #include <unistd.h>
 
 #include <algorithm>
@@ -274,6 +275,14 @@ class ClangTidyRunner {
         }
         // NOLINTEND
 #endif
+        // Tool could not be started (126, 127) or crashed (signal): the output
+        // is not a result to remember. Will be re-visited next time.
+        if (r < 0 || !WIFEXITED(r) || WEXITSTATUS(r) >= 126) {
+          std::cerr << work.first.string() + ": running clang-tidy failed\n";
+          std::error_code ignored_error;
+          fs::remove(tmp_out, ignored_error);
+          continue;
+        }
         RepairFilenameOccurences(tmp_out, tmp_out);
         fs::rename(tmp_out, final_out);  // atomic replacement
       }
-- 
2.43.0


From 60bc4e46e3fcf06f7aa8a56e26d17de593b7cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 07/65] fix: quote names and arguments passed to clang-tidy

A single quote in an argument, filename or cache directory broke the command
line.
---
 scripts/run-clang-tidy-cached.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 7952d1f..10f94f3 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -221,6 +221,19 @@ class ContentAddressedStore {
   const fs::path content_dir;
 };
 
+// Quote for use as a single word in a shell command.
+std::string ShellQuote(std::string_view s) {
+  std::string result = "'";
+  for (const char c : s) {
+    if (c == '\'') {
+      result.append("'\\''");
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result.append("'");
+}
+
 class ClangTidyRunner {
  public:
   ClangTidyRunner(const std::string &cache_prefix, int argc, char **argv)
@@ -263,9 +276,9 @@ class ClangTidyRunner {
           ".tmp";
         // Putting the file to clang-tidy early in the command line so that
         // it is easy to find with `ps` or `top`.
-        const std::string command = clang_tidy_ + " '" + work.first.string() +
-                                    "'" + clang_tidy_args_ + "> '" + tmp_out +
-                                    "' 2>/dev/null";
+        const std::string command =
+          clang_tidy_ + " " + ShellQuote(work.first.string()) +
+          clang_tidy_args_ + "> " + ShellQuote(tmp_out) + " 2>/dev/null";
         const int r = system(command.c_str());
 #ifdef WIFSIGNALED
         // NOLINTBEGIN
@@ -314,7 +327,7 @@ class ClangTidyRunner {
       result.append(" --extra-arg='").append(arg).append("'");
     }
     for (int i = 1; i < argc; ++i) {
-      result.append(" '").append(argv[i]).append("'");
+      result.append(" ").append(ShellQuote(argv[i]));
     }
     return result;
   }
-- 
2.43.0


From d607a4643658272ff74a775814a37bfad21c1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 08/65] fix: directories with special characters in their names

Names such as c++ were used as-is in a regular expression; this failed to
match, or terminated the program due to an invalid regular expression.
---
 scripts/run-clang-tidy-cached.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 10f94f3..a4ec60a 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -357,6 +357,11 @@ class ClangTidyRunner {
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
+  static std::string RegexQuote(const std::string &s) {
+    static const std::regex sSpecial(R"([.^$|()\[\]{}*+?\\])");
+    return std::regex_replace(s, sSpecial, "\\$&");
+  }
+
   static void RepairFilenameOccurences(const fs::path &infile,
                                        const fs::path &outfile) {
     static const std::regex sFixPathsRe = []() {
@@ -365,10 +370,11 @@ class ClangTidyRunner {
         auto bzroot = GetCommandOutput("bazel info execution_root 2>/dev/null");
         if (!bzroot.empty()) {
           bzroot.pop_back();  // remove newline.
-          canonicalize_expr += bzroot + "/|";
+          canonicalize_expr += RegexQuote(bzroot) + "/|";
         }
       }
-      canonicalize_expr += fs::current_path().string() + "/";  // $(pwd)/
+      canonicalize_expr +=
+        RegexQuote(fs::current_path().string()) + "/";  // $(pwd)/
       canonicalize_expr +=
         ")?(\\./)?";  // Some start with, or have a trailing ./
       return std::regex{canonicalize_expr};
-- 
2.43.0


From 90e42694d5c2a6a33802da498ba5c4df2ab095fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 09/65] fix: recognize all quoted includes as dependency

Names with multiple dots, such as foo.pb.h or ../foo.h, as well as includes
without a space in front of the quote were overlooked. Changes in these headers
did not trigger re-processing.
---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index a4ec60a..7565f10 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -438,7 +438,7 @@ class FileGatherer {
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
     const std::regex inc_re(
-        R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
+        R"""(#\s*include\s*"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
       // Path matters, as it is part of the messages and for some checks.
-- 
2.43.0


From fad7f9a62a1f7886627bbcbd0cdbd392d79ab2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 10/65] fix: recognize triple-quoted strings written with '''

The value of such strings contained two of the quotes on each side.
---
 bant/frontend/ast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 8982c38..072d79b 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -57,7 +57,8 @@ StringScalar *StringScalar::FromLiteral(Arena *arena,
     is_raw = true;
     literal.remove_prefix(1);
   }
-  if (literal.length() >= 6 && literal.substr(0, 3) == R"(""")") {
+  if (literal.length() >= 6 && (literal.substr(0, 3) == R"(""")" ||
+                                literal.substr(0, 3) == "'''")) {
     is_triple_quoted = true;
     literal = literal.substr(3);
     literal.remove_suffix(3);
-- 
2.43.0


From a95bd68e72ce8f4809c8b65c72da06f7a8f799c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 11/65] fix: refuse malformed octal literals

A literal such as 0o18 was accepted, with the value of the digits up to the
first invalid one.
---
 bant/frontend/ast.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 072d79b..5f15b04 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -43,7 +43,9 @@ IntScalar *IntScalar::FromLiteral(Arena *arena, std::string_view literal) {
     }
   }
   auto result = std::from_chars(literal.begin(), literal.end(), val, base);
-  if (result.ec != std::errc{}) {
+  // The whole literal needs to be consumed. Fractions are just cut off.
+  if (result.ec != std::errc{} ||
+      (result.ptr != literal.end() && *result.ptr != '.')) {
     return nullptr;
   }
   return arena->New<IntScalar>(string_rep, val);
-- 
2.43.0


From dc5020e9d47d821443203c16e4fb2a5bdd338f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 12/65] fix: don't take brackets on a new line for call or
 continue inside brackets

An identifier at the end of a toplevel assignment followed by a tuple
assignment on the next line was parsed as function call. On the other hand,
an array access on a new line inside brackets was not accepted. A newline
after a backslash does not end a line.
---
 bant/frontend/parser.cc  | 29 +++++++++++++++++++++++++----
 bant/frontend/scanner.cc |  5 ++++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index e6464d8..a7b5bf7 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -206,6 +206,7 @@ class Parser::Impl {
 
   FunCall *ParseFunCall(Token identifier) {
     LOG_ENTER();
+    const BracketNesting nesting(this);
     // opening '(' already consumed.
     List *args = ParseList(
       Make<List>(List::Type::kTuple),
@@ -230,6 +231,7 @@ class Parser::Impl {
 
   Node *ParseArrayOrSliceAccess() {
     LOG_ENTER();
+    const BracketNesting nesting(this);
     // '[' seen, but not consumed yet.
     // array_access = expression ']'
     //              | expression ':' expression ']'
@@ -268,7 +270,7 @@ class Parser::Impl {
       return ParseIntFromToken(scanner_->Next());
     case TokenType::kIdentifier:
       scanner_->Next();
-      if (scanner_->Peek().type == '(') {
+      if (scanner_->Peek().type == '(' && !IsNewToplevel(scanner_->Peek())) {
         scanner_->Next();
         return ParseFunCall(t);
       }
@@ -336,9 +338,7 @@ class Parser::Impl {
         return Make<BinOpNode>(n, ParseExpression(), op.type, op.text);
       }
       case '[': {
-        if (upcoming.newline_since_last_token) {  // new toplevel construct.
-          return n;
-        }
+        if (IsNewToplevel(upcoming)) return n;
         const Token op = scanner_->Next();  // '[' operation.
         n = Make<BinOpNode>(n, ParseArrayOrSliceAccess(), op.type, op.text);
         // Suffix expression, maybe there is more. Don't return, continue.
@@ -351,6 +351,7 @@ class Parser::Impl {
 
   Node *ParseParenExpressionOrTuple() {
     LOG_ENTER();
+    const BracketNesting nesting(this);
     // '(' seen, but not consumed yet.
     Token p = scanner_->Next();
     assert(p.type == '(');  // Expected precondition.
@@ -416,6 +417,7 @@ class Parser::Impl {
   Node *ParseListOrListComprehension(List::Type type,
                                      const ListElementParse &element_parser) {
     LOG_ENTER();
+    const BracketNesting nesting(this);
     // We're here when '[', '(', or '{' brace already consumed.
     // corresponding close_token ']', ')' or '}' chosen from type.
     // The token after the first expression distinguishes if this is a list
@@ -551,11 +553,30 @@ class Parser::Impl {
   }
 
  private:
+  // While in scope, we are inside some brackets in which newlines don't matter.
+  class BracketNesting {
+   public:
+    explicit BracketNesting(Impl *parser) : parser_(parser) {
+      ++parser_->bracket_nesting_;
+    }
+    ~BracketNesting() { --parser_->bracket_nesting_; }
+
+   private:
+    Impl *const parser_;
+  };
+
+  // An opening bracket on a new line can continue an expression only
+  // inside other brackets. Otherwise, it starts a new toplevel construct.
+  bool IsNewToplevel(const Token &upcoming) const {
+    return upcoming.newline_since_last_token && bracket_nesting_ == 0;
+  }
+
   Scanner *const scanner_;
   Arena *const node_arena_;
   const std::string_view filename_;
   std::ostream &err_out_;
   bool error_ = false;
+  int bracket_nesting_ = 0;
 };
 
 Parser::Parser(Scanner *token_source, Arena *allocator, std::ostream &err_out)
diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index 2223a31..5d2891e 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -92,13 +92,16 @@ Scanner::Scanner(NamedLineIndexedContent &source)
 
 inline Scanner::ContentPointer Scanner::SkipSpace() {
   bool in_comment = false;
+  ContentPointer continued_line = nullptr;  // A newline here is skipped over.
   while (pos_ < end_ && (absl::ascii_isspace(*pos_) || *pos_ == '\\' ||
                          *pos_ == '#' || in_comment)) {
     if (*pos_ == '#') {
       in_comment = true;
+    } else if (*pos_ == '\\' && !in_comment) {
+      continued_line = pos_ + 1;
     } else if (*pos_ == '\n') {
       source_.mutable_line_index()->PushNewline(pos_ + 1);
-      ++newline_count_;
+      if (pos_ != continued_line) ++newline_count_;
       in_comment = false;
     }
     pos_++;
-- 
2.43.0


From 74b0351b5a3dad069f25fb80885176adcd919433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 13/65] fix: print strings with quotes such that they can be
 parsed again

A string containing an escaped double quote, or a triple-quoted string with
both kinds of quotes was printed with a quote character that ends it early.
---
 bant/frontend/print-visitor.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 91bc682..75b687d 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -154,6 +154,21 @@ void PrintVisitor::VisitTernary(Ternary *t) {
   }
 }
 
+// Choose a quote character for content that contains escapes as found in the
+// file, so that it won't be terminated early by a quote that is not escaped.
+static char ChooseQuoteChar(std::string_view content, bool is_triple_quoted) {
+  const int terminating_quotes = is_triple_quoted ? 3 : 1;
+  int consecutive_quotes = 0;
+  bool last_was_escape = false;
+  for (const char c : content) {
+    const bool is_quote = (c == '"' && !last_was_escape);
+    consecutive_quotes = is_quote ? consecutive_quotes + 1 : 0;
+    if (consecutive_quotes == terminating_quotes) return '\'';
+    last_was_escape = (c == '\\' && !last_was_escape);
+  }
+  return consecutive_quotes > 0 ? '\'' : '"';  // Don't touch closing quote.
+}
+
 void PrintVisitor::VisitScalar(Scalar *s) {
   if (s->type() == Scalar::ScalarType::kInt) {
     if (s->AsString().empty()) {
@@ -164,10 +179,8 @@ void PrintVisitor::VisitScalar(Scalar *s) {
   } else {
     const StringScalar *str = static_cast<StringScalar *>(s);
     if (str->is_raw()) out_ << "r";
-    // Minimal-effort quote char choosing. TODO: look if escaped
-    const bool has_any_double_quote =
-      str->AsString().find_first_of('"') != std::string_view::npos;
-    const char quote_char = has_any_double_quote ? '\'' : '"';
+    const char quote_char =
+      ChooseQuoteChar(str->AsString(), str->is_triple_quoted());
     if (str->is_triple_quoted()) out_ << quote_char << quote_char;
 
     out_ << quote_char;
-- 
2.43.0


From 1d0f39cfcad4669ea8ca05bc84f57345c8298270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 14/65] fix: don't loop forever if the print -g regex matches
 the empty string

---
 bant/frontend/print-visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 75b687d..0aad6e5 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -50,6 +50,12 @@ void PrintVisitor::PrintMaybeHighlight(std::string_view print_str) {
   std::string_view highlight;
   if (highlight_re_) {
     while (RE2::FindAndConsume(&print_str, *highlight_re_, &highlight)) {
+      if (highlight.empty()) {  // Nothing consumed; make sure to proceed.
+        any_highlight_ = true;
+        if (print_str.empty()) break;
+        print_str.remove_prefix(1);
+        continue;
+      }
       out_ << std::string_view(last_end, highlight.data() - last_end);
       if (do_color_) out_ << kColor.highlight;
       out_ << highlight;
-- 
2.43.0


From 4fec91106474afd9e82d0a5dd4ff4cfb84e0cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 15/65] fix: don't crash on elements missing after a parse
 error

After a parse error, the partial tree may have null elements in lists,
operators and keyword arguments, which were dereferenced.
---
 bant/explore/query-utils.cc     |  2 +-
 bant/frontend/elaboration.cc    | 23 ++++++++++++++---------
 bant/frontend/parsed-project.cc |  2 +-
 bant/tool/dwyu.cc               |  2 +-
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index bb91240..279975d 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -191,7 +191,7 @@ void FindTargetsAllowEmptyName(
 void AppendStringList(List *list, std::vector<std::string_view> &append_to) {
   if (list == nullptr) return;
   for (Node *n : *list) {
-    Scalar *scalar = n->CastAsScalar();
+    Scalar *scalar = n ? n->CastAsScalar() : nullptr;
     if (!scalar) continue;
     if (const std::string_view str = scalar->AsString(); !str.empty()) {
       append_to.push_back(str);
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e37432f..ee6a699 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -38,6 +38,10 @@
 
 namespace bant {
 namespace {
+// Nodes might be missing after a parse error, so these are null-safe.
+List *AsList(Node *n) { return n ? n->CastAsList() : nullptr; }
+Scalar *AsScalar(Node *n) { return n ? n->CastAsScalar() : nullptr; }
+
 class NestCounter {
  public:
   explicit NestCounter(int *value) : value_(value) { ++*value_; }
@@ -99,8 +103,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     switch (bin_op->op()) {
     case '+': {
       {
-        List *left = bin_op->left()->CastAsList();
-        List *right = bin_op->right()->CastAsList();
+        List *left = AsList(bin_op->left());
+        List *right = AsList(bin_op->right());
         // If there are undefined values on one side of the expression (e.g.
         // unknown variable), just return the part that is a list - it will
         // be better and more useful downstream.
@@ -112,8 +116,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         }
       }
       {
-        Scalar *left = bin_op->left()->CastAsScalar();
-        Scalar *right = bin_op->right()->CastAsScalar();
+        Scalar *left = AsScalar(bin_op->left());
+        Scalar *right = AsScalar(bin_op->right());
         if (left && right && left->type() == right->type() &&
             left->type() == Scalar::ScalarType::kString) {
           return ConcatStrings(project_->GetLocation(bin_op->source_range()),
@@ -156,12 +160,12 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *HandleSelect(FunCall *fun) {
     for (Node *arg : *fun->argument()) {
-      List *const select_map = arg->CastAsList();
+      List *const select_map = AsList(arg);
       if (!select_map || select_map->type() != List::Type::kMap) continue;
       for (Node *item : *select_map) {
-        BinOpNode *map_item = item->CastAsBinOp();
+        BinOpNode *map_item = item ? item->CastAsBinOp() : nullptr;
         if (!map_item || map_item->op() != ':') continue;
-        Scalar *key = map_item->left()->CastAsScalar();
+        Scalar *key = AsScalar(map_item->left());
         if (key && conditions_.contains(key->AsString())) {
           return map_item->right();
         }
@@ -175,6 +179,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     List *include_list = nullptr;
     List *exclude_list = nullptr;
     for (Node *arg : *fun->argument()) {
+      if (!arg) continue;
       if (List *as_list = arg->CastAsList()) {
         include_list = as_list;  // include_list is positional parameter.
         continue;
@@ -183,9 +188,9 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         if (!kwarg->maybe_identifier()) continue;
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
-          include_list = kwarg->value()->CastAsList();
+          include_list = AsList(kwarg->value());
         } else if (kw == "exclude") {
-          exclude_list = kwarg->value()->CastAsList();
+          exclude_list = AsList(kwarg->value());
         }
       }
     }
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index f349c44..8937b68 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -241,7 +241,7 @@ static void MaybePrintVisibility(List *visibility, std::ostream &out) {
   if (!visibility) return;
   out << " (visibility:";
   for (Node *v : *visibility) {
-    Scalar *s = v->CastAsScalar();
+    Scalar *s = v ? v->CastAsScalar() : nullptr;
     if (!s) continue;
     out << " " << s->AsString();
   }
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 46ef440..e5d5919 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -220,7 +220,7 @@ bool DWYUGenerator::CanSee(const BazelTarget &target,
   if (!visibility_list) return true;
   bool any_valid_visiblity_pattern = false;
   for (Node *entry : *visibility_list) {
-    const Scalar *str = entry->CastAsScalar();
+    const Scalar *str = entry ? entry->CastAsScalar() : nullptr;
     if (!str) continue;
     auto vis_or = BazelPattern::ParseVisibility(str->AsString(), dep.package);
     if (!vis_or.has_value()) continue;
-- 
2.43.0


From 8691fda7a25a31defe7d48db92cedab558de2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 16/65] fix: don't replace a function name with something that
 isn't a name

If a global variable has the same name as a function, elaboration replaced
the identifier of the call by the value of the variable, which was then
accessed as if it were an identifier.
---
 bant/frontend/ast.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index ac6dff3..59bd583 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -393,7 +393,10 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) override {
-    ReplaceWalk(&f->left_);
+    // Whatever comes back: a function can only be called by its name.
+    if (Node *walk_result = WalkNonNull(f->left_)) {
+      if (walk_result->CastAsIdentifier()) f->left_ = walk_result;
+    }
     ReplaceWalk(&f->right_);
     return f;
   }
-- 
2.43.0


From 0e68ab9f4983fdff9568b75da7cfb94dc92c4db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 17/65] fix: don't crash writing compilation flags for
 include_prefix in the main project

---
 bant/tool/compilation-db.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 746359f..160a014 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -165,6 +165,7 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
       {"cc_library", "cc_binary", "cc_test", "proto_library"},
       [&](const query::Result &details) {
         auto target = current_package.QualifiedTarget(details.name);
+        if (!target.has_value()) return;
         // If we're one of those targets that come with the own -I prefix,
         // add all these.
         const auto inc_dirs = query::ExtractStringList(details.includes_list);
@@ -179,13 +180,12 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
 
         // bazel generates virtual include dirs when "include_prefix" is set.
         if (!details.include_prefix.empty()) {
-          // TODO: this might be different for external and not. Right now
-          // we're focused on external projects, such as protobuf that seems
-          // to use this feature.
           const std::string_view external_project = target->package.project;
           const std::string_view target_path = target->package.path;
           const std::string virt_incdir = absl::StrCat(
-            "bazel-bin/external/", external_project.substr(1), "/", target_path,
+            "bazel-bin/", external_project.empty() ? "" : "external/",
+            external_project.empty() ? "" : external_project.substr(1),
+            external_project.empty() ? "" : "/", target_path,
             "/_virtual_includes/", target->target_name);
           if (already_seen.insert(virt_incdir).second) {
             result.emplace_back(virt_incdir);
-- 
2.43.0


From ccf60c4a53c6a244dd5d5823feaeddaa1fa50d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:14 +0000
Subject: [PATCH 18/65] fix: don't overflow the stack on deeply nested
 expressions

---
 bant/frontend/parser.cc | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index a7b5bf7..8fe8722 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -21,6 +21,7 @@
 
 #include "bant/frontend/parser.h"
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 #include <iostream>
@@ -86,6 +87,7 @@ class Parser::Impl {
     LOG_INIT(scanner_);
     List *const statement_list = Make<List>(List::Type::kList);
     while (!error_) {
+      deepest_ = 0;
       const Token tok = scanner_->Next();
       if (tok.type == kEof) {
         return statement_list;
@@ -294,6 +296,9 @@ class Parser::Impl {
 
   Node *ParseExpression(bool can_be_optional = false) {
     LOG_ENTER();
+    const ExpressionNesting nesting(this);
+    if (IsNestedTooDeeply(scanner_->Peek())) return nullptr;
+
     Node *n;
 
     switch (scanner_->Peek().type) {
@@ -340,6 +345,8 @@ class Parser::Impl {
       case '[': {
         if (IsNewToplevel(upcoming)) return n;
         const Token op = scanner_->Next();  // '[' operation.
+        ++deepest_;  // The expression so far is now one level down.
+        if (IsNestedTooDeeply(op)) return nullptr;
         n = Make<BinOpNode>(n, ParseArrayOrSliceAccess(), op.type, op.text);
         // Suffix expression, maybe there is more. Don't return, continue.
         break;
@@ -479,6 +486,8 @@ class Parser::Impl {
     // 'for' seen, but not consumed yet.
     while (scanner_->Peek().type == TokenType::kFor) {
       const Token start_of_for = scanner_->Next();
+      ++deepest_;  // Whatever came before is one level down.
+      if (IsNestedTooDeeply(start_of_for)) return nullptr;
 
       List *variable_tuple = nullptr;
       // There can be multipole variables in the list, so they are a tuple.
@@ -565,6 +574,34 @@ class Parser::Impl {
     Impl *const parser_;
   };
 
+  // Everything walking the resulting tree does that recursively, so limit the
+  // depth to what comfortably fits on the stack.
+  static constexpr int kMaxExpressionDepth = 2000;
+
+  // While in scope, we are one level deeper in an expression. Keeps track of
+  // the deepest level seen below the current expression.
+  class ExpressionNesting {
+   public:
+    explicit ExpressionNesting(Impl *parser)
+        : parser_(parser), outer_deepest_(parser->deepest_) {
+      parser_->deepest_ = ++parser_->depth_;
+    }
+    ~ExpressionNesting() {
+      --parser_->depth_;
+      parser_->deepest_ = std::max(parser_->deepest_, outer_deepest_);
+    }
+
+   private:
+    Impl *const parser_;
+    const int outer_deepest_;
+  };
+
+  bool IsNestedTooDeeply(const Token &tok) {
+    if (deepest_ <= kMaxExpressionDepth) return false;
+    if (!error_) ErrAt(tok) << "expression nested too deeply\n";
+    return true;
+  }
+
   // An opening bracket on a new line can continue an expression only
   // inside other brackets. Otherwise, it starts a new toplevel construct.
   bool IsNewToplevel(const Token &upcoming) const {
@@ -577,6 +614,8 @@ class Parser::Impl {
   std::ostream &err_out_;
   bool error_ = false;
   int bracket_nesting_ = 0;
+  int depth_ = 0;
+  int deepest_ = 0;
 };
 
 Parser::Parser(Scanner *token_source, Arena *allocator, std::ostream &err_out)
-- 
2.43.0


From 560da36fe140ddb400d99cdb1f159c96809168d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 19/65] fix: glob patterns with ** match whole directories

---
 bant/util/glob-match-builder.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bant/util/glob-match-builder.cc b/bant/util/glob-match-builder.cc
index 83b4a12..b8b5777 100644
--- a/bant/util/glob-match-builder.cc
+++ b/bant/util/glob-match-builder.cc
@@ -59,7 +59,8 @@ static std::shared_ptr<PathMatcher> MakeFilenameMatcher(
     if (p.contains('*')) {
       const std::string escape_special = RE2::QuoteMeta(p);  // quote everything
       re_or_patterns.emplace_back(  // ... then unquote the pattern back
-        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", ".*/?"},  //
+        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", "(?:.*/)?"},  //
+                                             {R"(\*\*)", ".*"},
                                              {R"(\*)", "[^/]*"}}));
     } else {
       verbatim_match.insert(p);  // Simple and fast.
@@ -75,11 +76,13 @@ static std::shared_ptr<PathMatcher> MakeDirectoryMatcher(
   absl::flat_hash_set<std::string> verbatim_match;
   for (std::string_view p : patterns) {
     const size_t last_slash = p.find_last_of('/');
-    if (last_slash == std::string_view::npos) {
-      verbatim_match.insert("");
-      continue;
+    if (p != "**" && !p.ends_with("/**")) {  // these match all subdirectories
+      if (last_slash == std::string_view::npos) {
+        verbatim_match.insert("");
+        continue;
+      }
+      p = p.substr(0, last_slash);  // Only directories for patterns
     }
-    p = p.substr(0, last_slash);  // Only directories for patterns
     // TODO: is it allowed to have patterns like '**.txt' with the '**' not
     // in directory ? Because then we just snipped it off and it won't work...
     if (p.contains('*')) {
-- 
2.43.0


From a38d8ee648c07d0d6e85baac28f67604ccfa0829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 20/65] fix: '@//foo' is in the main project, also if seen from
 an external project

---
 bant/types-bazel.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 6ff6d93..74edf1b 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -137,7 +137,8 @@ std::string BazelPackage::FullyQualifiedFile(
     return std::nullopt;
   }
   BazelPackage parsed_package = package_part.value();
-  if (parsed_package.project.empty()) {
+  // No project mentioned: same project. An explicit '@' is the main project.
+  if (parsed_package.project.empty() && !package.starts_with('@')) {
     parsed_package.project = project;
   }
   return BazelTarget(parsed_package, target);
-- 
2.43.0


From 5553d0d8508ef99b70ce60844f62add9316da1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 21/65] fix: characters after the last * in a target pattern
 are literal

---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 74edf1b..a60bb43 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -213,7 +213,7 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     glob = glob.substr(pos + 1);
     is_first = false;
   }
-  absl::StrAppend(&assembled, glob);
+  absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
   return std::make_unique<RE2>(assembled);
 }
 
-- 
2.43.0


From 80b971b00f683a548a7f4d8a240a4728721c08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 22/65] fix: files missed or seen twice if directories are
 reachable with links

---
 bant/util/file-utils.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 03b3261..bd219d9 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -175,6 +175,9 @@ std::vector<FilesystemPath> CollectFilesRecursive(
 
   std::deque<std::string> directory_worklist;
   directory_worklist.emplace_back(dir.path());
+  if (ino_t inode; FollowLinkTestIsDir(dir, &inode)) {
+    seen_inode.insert(inode);
+  }
   while (!directory_worklist.empty()) {
     const std::string current_dir = directory_worklist.front();
     directory_worklist.pop_front();
@@ -200,12 +203,13 @@ std::vector<FilesystemPath> CollectFilesRecursive(
           FollowLinkTestIsDir(file_or_dir, &inode)));
 
       if (is_directory) {
+        if (!want_dir_p(file_or_dir)) {
+          continue;  // Not remembered: might be wanted with a different name.
+        }
         if (LooksLikeValidInode(inode) && !seen_inode.insert(inode).second) {
           continue;  // Avoid getting caught in symbolic-link loops.
         }
-        if (want_dir_p(file_or_dir)) {
-          directory_worklist.emplace_back(file_or_dir.path());
-        }
+        directory_worklist.emplace_back(file_or_dir.path());
       } else if (want_file_p(file_or_dir)) {
         result_paths.emplace_back(std::move(file_or_dir));
       }
-- 
2.43.0


From 3aa0165e618697686d2feeb5e8897447611e87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 23/65] fix: only read from regular files

---
 bant/util/file-utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index bd219d9..e72d2d4 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -124,11 +124,13 @@ std::vector<FilesystemPath> Glob(std::string_view glob_pattern) {
 }
 
 std::optional<std::string> ReadFileToString(const FilesystemPath &filename) {
-  const int fd = open(filename.c_str(), O_RDONLY);
+  // Not blocking: don't wait for someone to open the other end of a fifo.
+  const int fd = open(filename.c_str(), O_RDONLY | O_NONBLOCK);
   if (fd < 0) return std::nullopt;
   const absl::Cleanup fd_closer = [fd]() { close(fd); };
   struct stat st;
   if (fstat(fd, &st) != 0) return std::nullopt;
+  if (!S_ISREG(st.st_mode)) return std::nullopt;
 
   FilesystemPrewarmCacheRememberFileWasAccessed(filename.path());
   const size_t filesize = st.st_size;
-- 
2.43.0


From 761c2edfc78e0f02eb1a43e766fc0d1bbe9b9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 24/65] fix: escape JSON and CSV output according to their
 format

---
 bant/util/table-printer.cc | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/bant/util/table-printer.cc b/bant/util/table-printer.cc
index bca57b8..99ba9fa 100644
--- a/bant/util/table-printer.cc
+++ b/bant/util/table-printer.cc
@@ -23,11 +23,13 @@
 #include <memory>
 #include <ostream>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "absl/log/check.h"
 #include "absl/strings/escaping.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "bant/output-format.h"
 
 namespace bant {
@@ -143,6 +145,20 @@ class SExprTablePrinter : public TablePrinter {
   bool row_printed_ = false;
 };
 
+std::string JsonEscape(std::string_view s) {
+  std::string result;
+  for (const char c : s) {
+    if (c == '"' || c == '\\') {
+      result.append({'\\', c});
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      absl::StrAppendFormat(&result, "\\u%04x", c);
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result;
+}
+
 class JSonTablePrinter : public TablePrinter {
  public:
   JSonTablePrinter(std::ostream &out, const std::vector<std::string> &headers)
@@ -152,8 +168,8 @@ class JSonTablePrinter : public TablePrinter {
     out_ << "{";
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
+      out_ << "\"" << JsonEscape(row[c]) << "\"";
     }
     out_ << "}\n";
   }
@@ -165,15 +181,15 @@ class JSonTablePrinter : public TablePrinter {
     size_t c = 0;
     for (c = 0; c < row_prefix.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row_prefix[c]) << "\"";
+      out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
+      out_ << "\"" << JsonEscape(row_prefix[c]) << "\"";
     }
     if (c != 0) out_ << ", ";
-    out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
+    out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
     out_ << "[";
     for (size_t rc = 0; rc < repeat_col.size(); ++rc) {
       if (rc != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(repeat_col[rc]) << "\"";
+      out_ << "\"" << JsonEscape(repeat_col[rc]) << "\"";
     }
     out_ << "]}\n";
   }
@@ -185,13 +201,17 @@ class JSonTablePrinter : public TablePrinter {
   const std::vector<std::string> headers_;
 };
 
+std::string CSVEscape(std::string_view s) {
+  return absl::StrReplaceAll(s, {{"\"", "\"\""}});
+}
+
 class CSVTablePrinter : public TablePrinter {
  public:
   CSVTablePrinter(std::ostream &out, const std::vector<std::string> &headers)
       : out_(out) {
     for (size_t c = 0; c < headers.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(headers[c]) << "\"";
+      out_ << "\"" << CSVEscape(headers[c]) << "\"";
     }
     out_ << "\n";
   }
@@ -199,7 +219,7 @@ class CSVTablePrinter : public TablePrinter {
   void AddRow(const std::vector<std::string> &row) final {
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << "\"" << CSVEscape(row[c]) << "\"";
     }
     out_ << "\n";
   }
-- 
2.43.0


From 563b28db59e49feee7f113b9b29680b12d8611d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 25/65] fix: glob() for file names that are not UTF-8

---
 bant/util/glob-match-builder.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bant/util/glob-match-builder.cc b/bant/util/glob-match-builder.cc
index b8b5777..631caf8 100644
--- a/bant/util/glob-match-builder.cc
+++ b/bant/util/glob-match-builder.cc
@@ -38,13 +38,21 @@ class PathMatcher {
  public:
   PathMatcher(std::string_view regex,
               absl::flat_hash_set<std::string> &&match_set)
-      : pattern_re_(regex), verbatim_match_(std::move(match_set)) {}
+      : pattern_re_(regex, FilenameOptions()),
+        verbatim_match_(std::move(match_set)) {}
 
   bool Match(std::string_view s) const {
     return verbatim_match_.contains(s) || RE2::FullMatch(s, pattern_re_);
   }
 
  private:
+  // Filenames can be any bytes, not necessarily valid UTF-8.
+  static RE2::Options FilenameOptions() {
+    RE2::Options options(RE2::Latin1);
+    options.set_dot_nl(true);
+    return options;
+  }
+
   RE2 pattern_re_;
   absl::flat_hash_set<std::string> verbatim_match_;
 };
-- 
2.43.0


From 50d08b3f6a81bb85a528e00ca63b5a09e85482de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 26/65] fix: accept documented option -E

---
 bant/bant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 5dd0c82..e35d107 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -149,7 +149,7 @@ int main(int argc, char *argv[]) {
     {"json", OutputFormat::kJSON},     {"graphviz", OutputFormat::kGraphviz},
   };
   int opt;
-  while ((opt = getopt(argc, argv, "C:qo:vhpecbf:r::Vkg:i")) != -1) {
+  while ((opt = getopt(argc, argv, "C:qo:vhpeEbf:r::Vkg:i")) != -1) {
     switch (opt) {
     case 'C': {
       std::error_code err;
-- 
2.43.0


From df92129d9cef46dca33a3162fc162cc69ad4c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 27/65] fix: exit with failure on unknown options

---
 bant/bant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index e35d107..fc49157 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -209,7 +209,8 @@ int main(int argc, char *argv[]) {
     } break;
     case 'v': flags.verbose++; break;  // More -v, more detail.
     case 'V': return print_version();
-    default: return usage(argv[0], nullptr, EXIT_SUCCESS);
+    case 'h': return usage(argv[0], nullptr, EXIT_SUCCESS);
+    default: return usage(argv[0], nullptr, EXIT_FAILURE);
     }
   }
 
-- 
2.43.0


From dcef5a3e8495611a61c2b560bd43a8d19fe68afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 28/65] fix: exit with failure if output could not be written

---
 bant/bant.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/bant.cc b/bant/bant.cc
index fc49157..80e6571 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -237,6 +237,12 @@ int main(int argc, char *argv[]) {
     return usage(argv[0], nullptr, static_cast<int>(result));
   }
 
+  primary_out->flush();
+  if (!primary_out->good()) {
+    std::cerr << "Could not write output\n";
+    return EXIT_FAILURE;
+  }
+
   if (flags.verbose) {
     // If verbose explicitly chosen, we want to print this even if -q.
     // So not to info_out, but std::cerr
-- 
2.43.0


From 1198d065e3c102886c89f88c1dd1ffe7847cea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 29/65] fix: exit with failure if the print -g regex is invalid

---
 bant/cli-commands.cc            | 4 +++-
 bant/frontend/parsed-project.cc | 5 +++--
 bant/frontend/parsed-project.h  | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bant/cli-commands.cc b/bant/cli-commands.cc
index 8e06b15..9881688 100644
--- a/bant/cli-commands.cc
+++ b/bant/cli-commands.cc
@@ -189,7 +189,9 @@ CliStatus RunCommand(Session &session, Command cmd,
     // so it would already have emitted parse errors. Here we only have to
     // decide if we print anything.
     if (flags.print_ast || flags.print_only_errors) {
-      bant::PrintProject(session, pattern, project);
+      if (!bant::PrintProject(session, pattern, project)) {
+        return CliStatus::kExitFailure;
+      }
     }
     break;
 
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 8937b68..4805617 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -248,7 +248,7 @@ static void MaybePrintVisibility(List *visibility, std::ostream &out) {
   out << ")";
 }
 
-void PrintProject(Session &session, const BazelPattern &pattern,
+bool PrintProject(Session &session, const BazelPattern &pattern,
                   const ParsedProject &project) {
   const CommandlineFlags &flags = session.flags();
 
@@ -261,7 +261,7 @@ void PrintProject(Session &session, const BazelPattern &pattern,
       // This really needs the session passed in so that we can reach the
       // correct error stream.
       std::cerr << "Grep pattern: " << regex->error() << "\n";
-      return;
+      return false;
     }
   }
 
@@ -305,5 +305,6 @@ void PrintProject(Session &session, const BazelPattern &pattern,
         }
       });
   }
+  return true;
 }
 }  // namespace bant
diff --git a/bant/frontend/parsed-project.h b/bant/frontend/parsed-project.h
index 2bdec25..7e597fb 100644
--- a/bant/frontend/parsed-project.h
+++ b/bant/frontend/parsed-project.h
@@ -129,7 +129,8 @@ class ParsedProject : public SourceLocator {
 
 // Convenience function to print a fully parsed project, recreated from the
 // AST. Takes grep_regex into account for filtering.
-void PrintProject(Session &session, const BazelPattern &pattern,
+// Returns false if the regular expression is not valid.
+bool PrintProject(Session &session, const BazelPattern &pattern,
                   const ParsedProject &project);
 
 }  // namespace bant
-- 
2.43.0


From ba08239c8d228b9e3959cbf18876abdc8e69d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 30/65] fix: keep the leading dot of directories in package
 names

---
 bant/frontend/parsed-project.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 4805617..afa720c 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -49,9 +49,10 @@ namespace {
 // ./foo/bar/baz/BUILD.bazel turns into foo/bar/baz
 std::string_view TargetPathFromBuildFile(std::string_view file) {
   file = file.substr(0, file.find_last_of('/'));  // Remove BUILD-file
-  while (!file.empty() && (file[0] == '.' || file[0] == '/')) {
+  while (file.starts_with("./") || file.starts_with('/')) {
     file.remove_prefix(1);
   }
+  if (file == ".") file = "";
   return file;
 }
 
-- 
2.43.0


From 6242f4293af59fa3b33c00b39e6c97ab36284745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 31/65] fix: operator precedence

Operators were all grouped from the right, so that elaboration evaluated
'"%s" % a + "b"' or 'x.y + ["b"]' as '"%s" % (a + "b")' and
'x.(y + ["b"])'.
---
 bant/frontend/parser.cc | 120 +++++++++++++++++++++++++++++-----------
 1 file changed, 87 insertions(+), 33 deletions(-)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index 8fe8722..f42ecb0 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -26,6 +26,8 @@
 #include <functional>
 #include <iostream>
 #include <string_view>
+#include <utility>
+#include <vector>
 
 #include "bant/frontend/ast.h"
 #include "bant/frontend/scanner.h"
@@ -143,8 +145,11 @@ class Parser::Impl {
       case TokenType::kDot:
         statement_list->Append(
           node_arena_,
-          Make<BinOpNode>(Make<Identifier>(tok.text), ParseExpression(),
-                          TokenType::kDot, after_id.text));
+          ContinueExpression(
+            Make<BinOpNode>(Make<Identifier>(tok.text),
+                            ParseValueOrIdentifier(false), TokenType::kDot,
+                            after_id.text),
+            kTernary));
         break;
       default:
         ErrAt(after_id) << "expected `(` or `=`\n";
@@ -294,7 +299,46 @@ class Parser::Impl {
     }
   }
 
-  Node *ParseExpression(bool can_be_optional = false) {
+  // Operator precedences, from the loosest to the tightest binding.
+  enum Precedence {
+    kNoOperator,
+    kTernary,
+    kLogicalOr,
+    kLogicalAnd,
+    kLogicalNot,
+    kComparison,
+    kBitwiseOr,
+    kAdditive,
+    kMultiplicative,
+    kUnaryMinus,
+  };
+
+  static Precedence BinaryPrecedence(TokenType op) {
+    switch (op) {
+    case TokenType::kOr: return kLogicalOr;
+    case TokenType::kAnd: return kLogicalAnd;
+    case TokenType::kLessThan:
+    case TokenType::kLessEqual:
+    case TokenType::kEqualityComparison:
+    case TokenType::kGreaterEqual:
+    case TokenType::kGreaterThan:
+    case TokenType::kNotEqual:
+    case TokenType::kIn:
+    case TokenType::kNotIn: return kComparison;
+    case TokenType::kPipeOrBitwiseOr: return kBitwiseOr;
+    case '+':
+    case '-': return kAdditive;
+    case '*':
+    case '/':
+    case '%': return kMultiplicative;  // also: format expr.
+    default: return kNoOperator;
+    }
+  }
+
+  // Parse expression, up to the first operator that binds looser
+  // than "precedence".
+  Node *ParseExpression(bool can_be_optional = false,
+                        Precedence precedence = kTernary) {
     LOG_ENTER();
     const ExpressionNesting nesting(this);
     if (IsNestedTooDeeply(scanner_->Peek())) return nullptr;
@@ -305,55 +349,65 @@ class Parser::Impl {
     case '-':
     case TokenType::kNot: {
       const Token tok = scanner_->Next();
-      n = Make<UnaryExpr>(tok.type, ParseExpression(can_be_optional));
+      n = Make<UnaryExpr>(
+        tok.type,
+        ParseExpression(can_be_optional,
+                        tok.type == '-' ? kUnaryMinus : kLogicalNot));
       break;
     }
     case '(': n = ParseParenExpressionOrTuple(); break;
     default: n = ParseValueOrIdentifier(can_be_optional);
     }
-    if (n == nullptr) return n;
+    return ContinueExpression(n, precedence);
+  }
 
-    for (;;) {  // The array access is the only one who can continue.
+  // Having seen the first operand "n", parse operators following.
+  Node *ContinueExpression(Node *n, Precedence precedence) {
+    LOG_ENTER();
+    while (n != nullptr) {
       const Token upcoming = scanner_->Peek();
-      if (upcoming.type == TokenType::kIf) {
-        return ParseIfElse(n);
-      }
-
-      // TODO: properly handle precdence. Needed once we actually do
-      // expression eval. For now: just accept language.
       switch (upcoming.type) {
-      case '+':  // Arithmeteic
-      case '-':
-      case '*':
-      case '/':
-      case TokenType::kLessThan:  // Relational
-      case TokenType::kLessEqual:
-      case TokenType::kEqualityComparison:
-      case TokenType::kGreaterEqual:
-      case TokenType::kGreaterThan:
-      case TokenType::kNotEqual:
-      case TokenType::kIn:
-      case TokenType::kNotIn:
-      case TokenType::kAnd:
-      case TokenType::kOr:
-      case TokenType::kPipeOrBitwiseOr:
-      case '.':    // scoped invocation
-      case '%': {  // format expr.
+      case TokenType::kIf:
+        if (precedence > kTernary) return n;
+        return ParseIfElse(n);
+      case '.': {  // scoped invocation
         const Token op = scanner_->Next();
-        return Make<BinOpNode>(n, ParseExpression(), op.type, op.text);
+        ++deepest_;  // The expression so far is now one level down.
+        if (IsNestedTooDeeply(op)) return nullptr;
+        n = Make<BinOpNode>(n, ParseValueOrIdentifier(false), op.type, op.text);
+        break;
       }
       case '[': {
         if (IsNewToplevel(upcoming)) return n;
         const Token op = scanner_->Next();  // '[' operation.
-        ++deepest_;  // The expression so far is now one level down.
+        ++deepest_;
         if (IsNestedTooDeeply(op)) return nullptr;
         n = Make<BinOpNode>(n, ParseArrayOrSliceAccess(), op.type, op.text);
-        // Suffix expression, maybe there is more. Don't return, continue.
         break;
       }
-      default: return n;
+      default: {
+        const Precedence op_precedence = BinaryPrecedence(upcoming.type);
+        if (op_precedence < precedence || op_precedence == kNoOperator) {
+          return n;
+        }
+        // Everything is grouped from the left, just chains of '+' from the
+        // right.
+        std::vector<std::pair<Node *, Token>> pending;
+        do {
+          const Token op = scanner_->Next();
+          ++deepest_;
+          if (IsNestedTooDeeply(op)) return nullptr;
+          pending.emplace_back(n, op);
+          n = ParseExpression(false, Precedence(op_precedence + 1));
+        } while (n && upcoming.type == '+' && scanner_->Peek().type == '+');
+        for (; !pending.empty(); pending.pop_back()) {
+          const auto &[lhs, op] = pending.back();
+          n = Make<BinOpNode>(lhs, n, op.type, op.text);
+        }
+      }
       }
     }
+    return n;
   }
 
   Node *ParseParenExpressionOrTuple() {
-- 
2.43.0


From 584cd8ac3d4ce28d57f814d7d906afe8f47dcc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 32/65] fix: don't replace names that don't refer to the global
 variable

Members, loop variables and variables assigned as part of a tuple
were replaced by the value of a global variable of the same name.
---
 bant/frontend/elaboration.cc | 46 ++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index ee6a699..3498224 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -21,6 +21,7 @@
 #include <cstring>
 #include <string>
 #include <string_view>
+#include <utility>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -64,7 +65,10 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *VisitFunCall(FunCall *f) final {
     const NestCounter c(&nest_level_);
+    const bool is_member = members_.contains(f);
+    if (is_member) members_.insert(f->identifier());
     BaseNodeReplacementVisitor::VisitFunCall(f);
+    if (is_member) return f;  // Some function we don't know.
     const std::string_view fun_name = f->identifier()->id();
     if (fun_name == "glob") {
       return HandleGlob(f);
@@ -85,18 +89,50 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
     if (nest_level_ == 0 && a->maybe_identifier()) {
       global_variables_[a->maybe_identifier()->id()] = a->value();
+    } else if (nest_level_ == 0) {
+      // Tuple assignment: not evaluated, but old values are not valid anymore.
+      ForEachIdentifierInTuple(a->left(), [&](Identifier *i) {
+        global_variables_.erase(i->id());
+      });
+    }
+    return result;
+  }
+
+  // Loop variables hide global variables of the same name.
+  Node *VisitListComprehension(ListComprehension *lh) final {
+    std::vector<std::pair<std::string_view, Node *>> hidden;
+    BinOpNode *loop = lh->for_node();
+    while (loop && loop->op() == TokenType::kFor) {
+      BinOpNode *in_expr = loop->right() ? loop->right()->CastAsBinOp() : nullptr;
+      if (in_expr) {
+        ForEachIdentifierInTuple(in_expr->left(), [&](Identifier *i) {
+          auto found = global_variables_.find(i->id());
+          if (found == global_variables_.end()) return;
+          hidden.emplace_back(*found);
+          global_variables_.erase(found);
+        });
+      }
+      loop = loop->left() ? loop->left()->CastAsBinOp() : nullptr;
+    }
+    Node *result = BaseNodeReplacementVisitor::VisitListComprehension(lh);
+    for (const auto &h : hidden) {
+      global_variables_.insert(h);
     }
     return result;
   }
 
   // Variable substituion with value if known.
   Node *VisitIdentifier(Identifier *i) final {
+    if (members_.contains(i)) return i;
     auto found = global_variables_.find(i->id());
     return found != global_variables_.end() ? found->second : i;
   }
 
   // Very narrow of operations actually supported. Only what we typically need.
   Node *VisitBinOpNode(BinOpNode *b) final {
+    if (b->op() == '.') {
+      members_.insert(b->right());  // Name of a member, not of a variable.
+    }
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
@@ -131,6 +167,15 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
  private:
+  template <typename Callback>
+  static void ForEachIdentifierInTuple(Node *tuple, const Callback &callback) {
+    List *const list = AsList(tuple);
+    if (!list) return;
+    for (Node *n : *list) {
+      if (Identifier *i = n ? n->CastAsIdentifier() : nullptr) callback(i);
+    }
+  }
+
   List *ConcatLists(List *left, List *right) {
     List *result = Make<List>(left->type());
     for (Node *n : *left) {
@@ -287,6 +332,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   const BazelPackage &package_;
   int nest_level_ = 0;
   absl::flat_hash_map<std::string_view, Node *> global_variables_;
+  absl::flat_hash_set<const Node *> members_;  // Right hand side of '.'
   absl::flat_hash_set<std::string> conditions_;
 };
 
-- 
2.43.0


From 560dd0e9588312a7028adf14eb7413436f6c51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 33/65] fix: keep meaning of escapes and newlines when
 concatenating strings

---
 bant/frontend/elaboration.cc | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 3498224..06875d1 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -156,8 +156,11 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         Scalar *right = AsScalar(bin_op->right());
         if (left && right && left->type() == right->type() &&
             left->type() == Scalar::ScalarType::kString) {
-          return ConcatStrings(project_->GetLocation(bin_op->source_range()),
-                               left->AsString(), right->AsString());
+          if (Node *str = ConcatStrings(bin_op->source_range(),
+                                        static_cast<StringScalar *>(left),
+                                        static_cast<StringScalar *>(right))) {
+            return str;
+          }
         }
       }
       return bin_op;  // Unimplemented op. Return as-is.
@@ -187,8 +190,20 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return result;
   }
 
-  StringScalar *ConcatStrings(const FileLocation &op_location,
-                              std::string_view left, std::string_view right) {
+  // Content is as written in the file, so strings can only be concatenated if
+  // escapes in the result have the meaning they had in the parts.
+  StringScalar *ConcatStrings(std::string_view op_range,
+                              const StringScalar *left_str,
+                              const StringScalar *right_str) {
+    const std::string_view left = left_str->AsString();
+    const std::string_view right = right_str->AsString();
+    bool is_raw = left_str->is_raw();
+    if (is_raw != right_str->is_raw()) {
+      const bool left_escapes = left.contains('\\');
+      if (left_escapes && right.contains('\\')) return nullptr;
+      is_raw = left_escapes ? left_str->is_raw() : right_str->is_raw();
+    }
+
     const size_t new_length = left.size() + right.size();
     char *new_str = static_cast<char *>(project_->arena()->Alloc(new_length));
     memcpy(new_str, left.data(), left.size());
@@ -198,9 +213,13 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     // Whenever anyone is asking for where this string is coming from, tell
     // them the original location where the operation is coming from.
     project_->RegisterLocationRange(assembled,
-                                    Make<FixedSourceLocator>(op_location));
+                                    Make<FixedSourceLocator>(
+                                      project_->GetLocation(op_range)));
 
-    return Make<StringScalar>(assembled, false, false);
+    const bool is_triple_quoted =
+      left_str->is_triple_quoted() || right_str->is_triple_quoted() ||
+      (assembled.contains('"') && assembled.contains('\''));
+    return Make<StringScalar>(assembled, is_triple_quoted, is_raw);
   }
 
   Node *HandleSelect(FunCall *fun) {
-- 
2.43.0


From 4e9d71793253f1d943c3fd2dd08c35383a175fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 34/65] fix: don't evaluate glob() with unknown patterns;
 accept positional exclude

The result was an empty list if the patterns were not a list of strings, and
a list of excludes in second position was regarded as list of includes.
---
 bant/frontend/elaboration.cc | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 06875d1..179ca28 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -238,25 +238,43 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return fun;
   }
 
+  static bool IsStringList(List *list) {
+    if (!list) return false;
+    for (Node *n : *list) {
+      Scalar *const scalar = AsScalar(n);
+      if (!scalar || scalar->type() != Scalar::ScalarType::kString) {
+        return false;
+      }
+    }
+    return true;
+  }
+
   Node *HandleGlob(FunCall *fun) {
-    // Extract arguments. include_list is allowed to be a positional parameter.
+    // Extract arguments. The lists are allowed to be positional parameters.
     List *include_list = nullptr;
     List *exclude_list = nullptr;
+    int position = 0;
     for (Node *arg : *fun->argument()) {
-      if (!arg) continue;
-      if (List *as_list = arg->CastAsList()) {
-        include_list = as_list;  // include_list is positional parameter.
-        continue;
-      }
+      if (!arg) return fun;
+      List **list = nullptr;
+      Node *value = arg;
       if (Assignment *kwarg = arg->CastAsAssignment()) {
         if (!kwarg->maybe_identifier()) continue;
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
-          include_list = AsList(kwarg->value());
+          list = &include_list;
         } else if (kw == "exclude") {
-          exclude_list = AsList(kwarg->value());
+          list = &exclude_list;
         }
+        value = kwarg->value();
+      } else {
+        ++position;
+        if (position == 1) list = &include_list;
+        if (position == 2) list = &exclude_list;
       }
+      if (!list) continue;
+      *list = AsList(value);
+      if (!IsStringList(*list)) return fun;  // Not known what to look for.
     }
 
     // Find directory to start the glob()-ing.
-- 
2.43.0


From 0b66a2211295d70cb326dcca2b00820eb0343d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 35/65] fix: glob() result is sorted, not in order of the
 directory

---
 bant/frontend/elaboration.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 179ca28..fd7914f 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/elaboration.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <string>
@@ -355,6 +356,10 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         return file_matcher(std::string_view(file.path()).substr(skip_prefix));
       });
     glob_stats.count += checked_files;
+    std::sort(result.begin(), result.end(),
+              [](const FilesystemPath &a, const FilesystemPath &b) {
+                return a.path() < b.path();
+              });
     return result;
   }
 
-- 
2.43.0


From e0b942f773a0f77b815715d6ec88651145b59de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 36/65] fix: glob() does not see files of other packages in
 subdirectories

---
 bant/frontend/elaboration.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index fd7914f..4c97052 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -321,6 +321,15 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return glob_result_list;
   }
 
+  // A directory with a BUILD file is a package of its own.
+  static bool IsPackageDirectory(const FilesystemPath &dir) {
+    for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
+      const FilesystemPath path(dir.path(), build_file);
+      if (path.can_read() && !path.is_directory()) return true;
+    }
+    return false;
+  }
+
   // Globbing that allows for include and exclude lists, as well as ** glob
   // characters. Combining GlobMatchBuilder and CollectFilesRecursive().
   std::vector<FilesystemPath> MultiGlob(
@@ -349,7 +358,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     auto result = CollectFilesRecursive(
       FilesystemPath(start_dir),
       [&](const FilesystemPath &dir) {
-        return dir_matcher(std::string_view(dir.path()).substr(skip_prefix));
+        return dir_matcher(std::string_view(dir.path()).substr(skip_prefix)) &&
+               !IsPackageDirectory(dir);
       },
       [&](const FilesystemPath &file) {
         ++checked_files;
-- 
2.43.0


From 8215543456c4ba17c6816275286de76981f104d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 37/65] fix: don't overflow the stack with deeply nested values
 of variables

---
 bant/frontend/elaboration.cc | 54 +++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 4c97052..84d15bf 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -65,6 +65,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) final {
+    const ExpressionDepth depth(this);
     const NestCounter c(&nest_level_);
     const bool is_member = members_.contains(f);
     if (is_member) members_.insert(f->identifier());
@@ -81,27 +82,43 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
   Node *VisitList(List *l) final {
+    const ExpressionDepth depth(this);
     // TODO: maybe increase nest level here, but need to make sure
     // toplevel project would be at level 0 (as file-ast is a list)
     return BaseNodeReplacementVisitor::VisitList(l);
   }
 
+  Node *VisitUnaryExpr(UnaryExpr *e) final {
+    const ExpressionDepth depth(this);
+    return BaseNodeReplacementVisitor::VisitUnaryExpr(e);
+  }
+
+  Node *VisitTernary(Ternary *t) final {
+    const ExpressionDepth depth(this);
+    return BaseNodeReplacementVisitor::VisitTernary(t);
+  }
+
   Node *VisitAssignment(Assignment *a) final {
+    const int outer_deepest = deepest_;
+    deepest_ = depth_;
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
     if (nest_level_ == 0 && a->maybe_identifier()) {
-      global_variables_[a->maybe_identifier()->id()] = a->value();
+      global_variables_[a->maybe_identifier()->id()] = {a->value(),
+                                                        deepest_ - depth_};
     } else if (nest_level_ == 0) {
       // Tuple assignment: not evaluated, but old values are not valid anymore.
       ForEachIdentifierInTuple(a->left(), [&](Identifier *i) {
         global_variables_.erase(i->id());
       });
     }
+    deepest_ = std::max(deepest_, outer_deepest);
     return result;
   }
 
   // Loop variables hide global variables of the same name.
   Node *VisitListComprehension(ListComprehension *lh) final {
-    std::vector<std::pair<std::string_view, Node *>> hidden;
+    const ExpressionDepth depth(this);
+    std::vector<std::pair<std::string_view, Variable>> hidden;
     BinOpNode *loop = lh->for_node();
     while (loop && loop->op() == TokenType::kFor) {
       BinOpNode *in_expr = loop->right() ? loop->right()->CastAsBinOp() : nullptr;
@@ -126,11 +143,16 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   Node *VisitIdentifier(Identifier *i) final {
     if (members_.contains(i)) return i;
     auto found = global_variables_.find(i->id());
-    return found != global_variables_.end() ? found->second : i;
+    if (found == global_variables_.end()) return i;
+    const int value_depth = depth_ + found->second.depth;
+    if (value_depth > kMaxExpressionDepth) return i;
+    deepest_ = std::max(deepest_, value_depth);
+    return found->second.value;
   }
 
   // Very narrow of operations actually supported. Only what we typically need.
   Node *VisitBinOpNode(BinOpNode *b) final {
+    const ExpressionDepth depth(this);
     if (b->op() == '.') {
       members_.insert(b->right());  // Name of a member, not of a variable.
     }
@@ -171,6 +193,28 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
  private:
+  // Everything walking the result does that recursively, so limit the depth
+  // values can accumulate to something that comfortably fits on the stack.
+  static constexpr int kMaxExpressionDepth = 2000;
+
+  struct Variable {
+    Node *value;
+    int depth;  // Nesting depth of expressions in the value.
+  };
+
+  // While in scope, we are one level deeper in an expression.
+  class ExpressionDepth {
+   public:
+    explicit ExpressionDepth(SimpleElaborator *e) : elaborator_(e) {
+      ++e->depth_;
+      e->deepest_ = std::max(e->deepest_, e->depth_);
+    }
+    ~ExpressionDepth() { --elaborator_->depth_; }
+
+   private:
+    SimpleElaborator *const elaborator_;
+  };
+
   template <typename Callback>
   static void ForEachIdentifierInTuple(Node *tuple, const Callback &callback) {
     List *const list = AsList(tuple);
@@ -383,7 +427,9 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   ParsedProject *const project_;
   const BazelPackage &package_;
   int nest_level_ = 0;
-  absl::flat_hash_map<std::string_view, Node *> global_variables_;
+  int depth_ = 0;
+  int deepest_ = 0;  // Deepest level seen below current assignment.
+  absl::flat_hash_map<std::string_view, Variable> global_variables_;
   absl::flat_hash_set<const Node *> members_;  // Right hand side of '.'
   absl::flat_hash_set<std::string> conditions_;
 };
-- 
2.43.0


From 3833a7f4592e8668c65c3ea5a870c04828626cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 38/65] fix: don't crash on dependencies in packages that can't
 be read

---
 bant/explore/dependency-graph.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index cadd23c..718ec14 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -85,6 +85,10 @@ void FindAndParseMissingPackages(Session &session,
     // building, as it might expand more dpendencies.
     // TODO: but do we need expensive glob() enabled ?
     ParsedBuildFile *file = project->AddBuildFile(session, *path, package);
+    if (!file) {
+      error_packages->insert(package);
+      continue;
+    }
     bant::Elaborate(session, project, file);
   }
 }
-- 
2.43.0


From 98802fee0498d060fed9826fab7d405328ce7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 39/65] fix: find BUILD file of toplevel package and next to
 directory called BUILD

---
 bant/explore/dependency-graph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 718ec14..4976483 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -58,11 +58,12 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
     if (!start_path.empty()) start_path.append("/");
     start_path.append(package.path);
   }
+  if (start_path.empty()) start_path = ".";
   const ScopedTimer timer(&stat.duration);
   for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
-    if (test_path.can_read()) return test_path;
+    if (test_path.can_read() && !test_path.is_directory()) return test_path;
   }
   return std::nullopt;
 }
-- 
2.43.0


From 83a6853ace70fc72d747777f0bad987dd44d26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:04 +0000
Subject: [PATCH 40/65] fix: choose BUILD.bazel if there is also a BUILD,
 independent of directory order

---
 bant/explore/dependency-graph.cc | 2 +-
 bant/frontend/parsed-project.cc  | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 4976483..3e41408 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -60,7 +60,7 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
   }
   if (start_path.empty()) start_path = ".";
   const ScopedTimer timer(&stat.duration);
-  for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
+  for (const std::string_view build_file : {"BUILD.bazel", "BUILD"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
     if (test_path.can_read() && !test_path.is_directory()) return test_path;
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index afa720c..a8af79f 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/parsed-project.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <iostream>
 #include <memory>
@@ -107,7 +108,13 @@ std::vector<FilesystemPath> CollectBuildFiles(Session &session,
 
   auto dir_or = DetermineSearchDirFromPattern(workspace, pattern);
   if (!dir_or) return {};
-  return CollectFilesRecursive(*dir_or, dir_predicate, is_build_file_predicate);
+  auto result =
+    CollectFilesRecursive(*dir_or, dir_predicate, is_build_file_predicate);
+  // If there are both in a directory, BUILD.bazel takes precedence.
+  std::stable_partition(
+    result.begin(), result.end(),
+    [](const FilesystemPath &p) { return p.filename() == "BUILD.bazel"; });
+  return result;
 }
 }  // namespace
 
-- 
2.43.0


From 5887b4716f20ef70a4e476135b022a44d0f6caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:06 +0000
Subject: [PATCH 41/65] fix: report each dependency only once

---
 bant/explore/dependency-graph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 3e41408..f0c69d0 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -174,9 +174,12 @@ DependencyGraph BuildDependencyGraph(Session &session,
             to_follow.push_back(result.actual);
           }
 
+          std::set<BazelTarget> already_seen;
           for (const auto dep : to_follow) {
             auto dependency_or = BazelTarget::ParseFrom(dep, current_package);
             if (!dependency_or.has_value()) continue;
+            // Might be mentioned multiple times, possibly spelled differently.
+            if (!already_seen.insert(*dependency_or).second) continue;
 
             // If this dependency is a target that we have not seen yet or will
             // see in this round, put in the next todo.
-- 
2.43.0


From 59f3e71f1cf9278aa3290a77291a3e558c7eeb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:06 +0000
Subject: [PATCH 42/65] fix: follow dependencies with aliased-by -r

---
 bant/cli-commands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/cli-commands.cc b/bant/cli-commands.cc
index 9881688..99ffb5f 100644
--- a/bant/cli-commands.cc
+++ b/bant/cli-commands.cc
@@ -151,6 +151,7 @@ CliStatus RunCommand(Session &session, Command cmd,
   case Command::kGenruleOutputs:
   case Command::kListTargets:
   case Command::kListPackages:
+  case Command::kAliasedBy:
   case Command::kDependsOn:
   case Command::kHasDependents:
   case Command::kCompilationDB:
-- 
2.43.0


From 8e64c3ed0d767b6031ed5c3242ac20e1b9d63aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 43/65] fix: arguments of nested calls are not attributes of
 the target

---
 bant/explore/query-utils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index 279975d..b1bdc12 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -38,8 +38,7 @@ class TargetFinder : public BaseVoidVisitor {
 
   void VisitFunCall(FunCall *f) final {
     if (in_relevant_call_ != Relevancy::kNotRelevant) {
-      BaseVoidVisitor::VisitFunCall(f);  // Nesting.
-      return;
+      return;  // Nested call: its arguments are not the ones of the target.
     }
     in_relevant_call_ = IsRelevant(f->identifier()->id());
     if (in_relevant_call_ == Relevancy::kNotRelevant) return;
-- 
2.43.0


From 484dac842a7ee685af18be7e71e0889d37cb4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 44/65] fix: include, strip and prefix directories of headers
 are relative to the package

---
 bant/explore/header-providers.cc | 72 +++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index a2f36b8..b89be02 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -19,6 +19,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <filesystem>
 #include <functional>
 #include <initializer_list>
 #include <iterator>
@@ -80,6 +81,21 @@ static std::string_view LightCanonicalizePath(std::string_view path) {
   return path;
 }
 
+// If path is below directory "dir" (or dir is empty), return path in there.
+static std::optional<std::string_view> RelativeToDir(std::string_view path,
+                                                     std::string_view dir) {
+  const std::string prefix =
+    std::filesystem::path(dir).lexically_normal().string();
+  dir = LightCanonicalizePath(prefix);
+  while (dir.ends_with('/')) dir.remove_suffix(1);
+  if (dir.empty() || dir == ".") return path;
+  if (path.length() <= dir.length() || !path.starts_with(dir) ||
+      path[dir.length()] != '/') {
+    return std::nullopt;
+  }
+  return path.substr(dir.length() + 1);
+}
+
 // Convert to format needed for suffix matching.
 static std::string KeyTransform(std::string_view in, bool suffix_index) {
   return suffix_index ? std::string{in.rbegin(), in.rend()}.append("/")
@@ -132,30 +148,38 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
       for (const std::string_view header : hdrs) {
         if (absl_string_view_skip && header == "string_view.h") continue;
 
-        if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
-          callback(*cc_library, header,
-                   absl::StrCat(cc_lib.include_prefix, "/", header));
-          continue;
-        }
-
         // Assemble the header filename as it can be #include'ed in sources.
         const std::string header_fqn = build_file.package.QualifiedFile(header);
 
         // There can be an include prefix to be removed (typically: "").
-        std::string_view strip_prefix = cc_lib.strip_include_prefix;
-        // In protobuf, strip_include_prefix starts with '/' ???
-        while (strip_prefix.starts_with('/')) strip_prefix.remove_prefix(1);
-        while (strip_prefix.ends_with('/')) strip_prefix.remove_suffix(1);
-
-        const size_t strip_len = strip_prefix.length();
-        if (strip_len > 0 && header_fqn.length() > strip_len &&
-            header_fqn.starts_with(strip_prefix) &&
-            header_fqn[strip_len] == '/') {
-          callback(*cc_library, header, header_fqn.substr(strip_len + 1));
-        } else {
-          callback(*cc_library, header, header_fqn);
+        // This is relative to the package, unless it starts with '/'. But we
+        // also accept it relative to the repository without that.
+        const std::string_view strip_prefix = cc_lib.strip_include_prefix;
+        std::optional<std::string_view> stripped;
+        if (!strip_prefix.empty()) {
+          if (!strip_prefix.starts_with('/')) {
+            stripped = RelativeToDir(
+              header_fqn, build_file.package.QualifiedFile(strip_prefix));
+          }
+          if (!stripped.has_value()) {
+            stripped = RelativeToDir(header_fqn, strip_prefix);
+          }
+        }
+
+        if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
+          std::string_view prefix = cc_lib.include_prefix;
+          while (prefix.ends_with('/')) prefix.remove_suffix(1);
+          const std::string_view plain_header =
+            header.starts_with(':') ? header.substr(1) : header;
+          callback(
+            *cc_library, header,
+            absl::StrCat(prefix, "/", stripped.value_or(plain_header)));
+          continue;
         }
 
+        callback(*cc_library, header,
+                 std::string(stripped.value_or(header_fqn)));
+
         // The same header could also show up with different prefixes, all of
         // them valid. e.g zlib.h and zlib/include/zlib.h. Emit all of these.
 
@@ -164,12 +188,12 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
         // Could also show up under shorter path with -I
         const auto incdirs = query::ExtractStringList(cc_lib.includes_list);
         for (const std::string_view dir : incdirs) {
-          std::string prefix(dir);
-          if (!prefix.ends_with('/')) {
-            prefix.append("/");
-          }
-          if (header_fqn.starts_with(prefix)) {
-            callback(*cc_library, header, header_fqn.substr(prefix.length()));
+          // Relative to the package, but also accept full path.
+          for (const std::string &prefix :
+               {build_file.package.QualifiedFile(dir), std::string(dir)}) {
+            if (const auto path = RelativeToDir(header_fqn, prefix); path) {
+              callback(*cc_library, header, std::string(*path));
+            }
           }
         }
       }
-- 
2.43.0


From 996e17869b9414091d0d4e32ce46ebf07dd384e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 45/65] fix: headers are also provided by aliases of aliases
 and of proto libraries

---
 bant/explore/header-providers.cc | 38 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index b89be02..a454984 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -27,6 +27,7 @@
 #include <ostream>
 #include <string>
 #include <string_view>
+#include <utility>
 #include <vector>
 
 #include "absl/container/btree_set.h"
@@ -200,6 +201,23 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
     });
 }
 
+// Add library and all the aliases that directly or indirectly point to it.
+static void InsertWithAliases(
+  const BazelTarget &library,
+  const OneToN<BazelTarget, BazelTarget> &alias_index,
+  absl::btree_set<BazelTarget> &result) {
+  std::vector<BazelTarget> todo = {library};
+  while (!todo.empty()) {
+    const BazelTarget target = std::move(todo.back());
+    todo.pop_back();
+    if (!result.insert(target).second) continue;
+    const auto aliases_found = alias_index.find(target);
+    if (aliases_found == alias_index.end()) continue;
+    todo.insert(todo.end(), aliases_found->second.begin(),
+                aliases_found->second.end());
+  }
+}
+
 static void AppendCCLibraryHeaders(
   const ParsedBuildFile &build_file,
   const OneToN<BazelTarget, BazelTarget> &alias_index, std::ostream &info_out,
@@ -209,14 +227,9 @@ static void AppendCCLibraryHeaders(
                     const std::string &header_fqn) {
       const std::string_view canonicalized = LightCanonicalizePath(header_fqn);
       const std::string key = KeyTransform(canonicalized, suffix_index);
-      result[key].insert(cc_library);
       // Also, if there are any aliases in the project for this library,
       // these would also be considered providers of this lib.
-      if (const auto aliases_found = alias_index.find(cc_library);
-          aliases_found != alias_index.end()) {
-        result[key].insert(aliases_found->second.begin(),
-                           aliases_found->second.end());
-      }
+      InsertWithAliases(cc_library, alias_index, result[key]);
     });
 }
 
@@ -232,9 +245,10 @@ static void AppendCCLibraryHeaders(
 //  2. find all used proto_library()s that are mentioned in cc_proto_library()s,
 //     derive the header file from the *.proto file and store the mapping
 //     header->cc_library that we're after.
-static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
-                                      bool reverse,
-                                      ProvidedFromTargetSet &result) {
+static void AppendProtoLibraryHeaders(
+  const ParsedBuildFile &build_file,
+  const OneToN<BazelTarget, BazelTarget> &alias_index, bool reverse,
+  ProvidedFromTargetSet &result) {
   // TODO: once we wire the DependencyGraph through, we can make the look-up
   // in one go. Also we wouldn't be limited to proto_library() and
   // cc_proto_library() having to reside in one package.
@@ -310,7 +324,8 @@ static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
           for (const std::string_view suffix : {".pb.h", ".proto.h"}) {
             std::string proto_header = absl::StrCat(stem, middle_name, suffix);
             proto_header = build_file.package.QualifiedFile(proto_header);
-            result[KeyTransform(proto_header, reverse)].insert(cc_proto_lib);
+            InsertWithAliases(cc_proto_lib, alias_index,
+                              result[KeyTransform(proto_header, reverse)]);
           }
         }
       }
@@ -332,7 +347,8 @@ ProvidedFromTargetSet ExtractHeaderToLibMapping(const ParsedProject &project,
     // provide header files.
     AppendCCLibraryHeaders(*build_file, aliased_by_index,  //
                            info_out, suffix_index, result);
-    AppendProtoLibraryHeaders(*build_file, suffix_index, result);
+    AppendProtoLibraryHeaders(*build_file, aliased_by_index, suffix_index,
+                              result);
   }
 
   return result;
-- 
2.43.0


From 2921247c470c29f3e56d5973f32f3f79b74bbb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 46/65] fix: no terminal colors in output to a file

With -o, whether there are color escapes in the file depended on the
standard output being a terminal.
---
 bant/bant.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bant/bant.cc b/bant/bant.cc
index 80e6571..8240fb6 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -169,6 +169,7 @@ int main(int argc, char *argv[]) {
     case 'o':  //
       if (std::string_view(optarg) == "-") {
         primary_out = &std::cout;
+        flags.do_color = isatty(STDOUT_FILENO);
         break;
       }
       user_primary_out.reset(new std::fstream(
@@ -178,6 +179,7 @@ int main(int argc, char *argv[]) {
         return 1;
       }
       primary_out = user_primary_out.get();
+      flags.do_color = false;
       break;
 
     case 'r':
-- 
2.43.0


From 6e7bc563e7af5d1051fc10d7bc97d7d119d4db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 47/65] fix: don't abort if the cache directory in HOME can't
 be accessed

std::filesystem::is_directory() without error code throws, e.g. without
permission to look into HOME.
---
 bant/util/filesystem-prewarm-cache.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bant/util/filesystem-prewarm-cache.cc b/bant/util/filesystem-prewarm-cache.cc
index a0db78d..5012f7e 100644
--- a/bant/util/filesystem-prewarm-cache.cc
+++ b/bant/util/filesystem-prewarm-cache.cc
@@ -162,10 +162,12 @@ void FilesystemPrewarmCacheInit(int argc, char *argv[]) {
   const char *homedir = getenv("HOME");
   if (!homedir) return;
   const std::string cache_dir = absl::StrCat(homedir, "/.cache/bant");
-  if (!std::filesystem::is_directory(cache_dir)) return;  // no dir, no cache.
+  std::error_code err;
+  if (!std::filesystem::is_directory(cache_dir, err)) {
+    return;  // no dir, no cache.
+  }
 
   // Make filename unique to match cwd and arguments.
-  std::error_code err;
   auto cwd = std::filesystem::current_path(err);
   uint64_t argument_dependent_hash = std::hash<std::string>()(cwd.string());
   for (int i = 1; i < argc; ++i) {
-- 
2.43.0


From 199a8053efe3791e654665b71baf990f62f83b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 48/65] fix: find includes after quotes in comments and
 character literals

A single quote character in a comment or character literal was taken for
the beginning of a string, so that includes thereafter were not seen and
the dependencies providing them suggested for removal. Same for includes
of paths with characters that were not expected, such as dots in directory
names.
---
 bant/tool/dwyu.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index e5d5919..eabe720 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -529,8 +529,11 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
 // -- Publically visible interface
 
 std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
+  // Comments and quotes in character literals don't start a string.
   static const LazyRE2 kIncRe{
-    R"/((?m)("|^\s*#\s*include\s+"((\.\./)*[0-9a-zA-Z_/+-]+(\.[a-zA-Z]+)*)"))/"};
+    R"/((?m)("|//.*|/\*(?s:.*?)\*/|'\\?"'|^\s*#\s*include\s*"([^"\n]+)"))/",
+    RE2::Latin1};
+  static const LazyRE2 kInStringRe{R"/(("|\\.)())/", RE2::Latin1};
 
   // We don't actually understand strings in c++, so we just pretend by
   // toggle ignore whenever we see one.
@@ -539,10 +542,12 @@ std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
   std::string_view run = src->content();
   std::string_view header_path;
   std::string_view outer;
-  while (RE2::FindAndConsume(&run, *kIncRe, &outer, &header_path)) {
+  while (RE2::FindAndConsume(
+    &run, best_effort_in_nested_quote_toggle ? *kInStringRe : *kIncRe, &outer,
+    &header_path)) {
     if (outer == "\"") {
       best_effort_in_nested_quote_toggle = !best_effort_in_nested_quote_toggle;
-    } else if (!best_effort_in_nested_quote_toggle) {
+    } else if (!header_path.empty()) {
       result.push_back(header_path);
     }
   }
-- 
2.43.0


From 96a8e3d5c1b5c6d26c65ad9727ff4ed1a3566800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 49/65] fix: don't suggest a target to depend on itself

Including an own header with the path it is provided with by include_prefix
or from textual_hdrs had the target itself added to its dependencies.
---
 bant/tool/dwyu.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index eabe720..a624658 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -247,10 +247,6 @@ DWYUGenerator::DependenciesNeededBySources(
   std::ostream &info_out = session_.info();
   size_t total_size = 0;
 
-  // Already provided targets we don't need to emit anymore.
-  std::set<BazelTarget> already_provided;
-  already_provided.insert(target);
-
   // Log providers if super verbose -vvv
   auto maybe_log = [&](const NamedLineIndexedContent &source,
                        std::string_view inc_file,
@@ -273,6 +269,8 @@ DWYUGenerator::DependenciesNeededBySources(
   // include visible targets.
   std::vector<absl::btree_set<BazelTarget>> result;
   auto add_to_result = [&](const absl::btree_set<BazelTarget> &alternatives) {
+    if (alternatives.contains(target)) return;  // Already provided by ourself.
+
     // Add all visible targets.
     auto &result_set = result.emplace_back();
     for (const BazelTarget &t : alternatives) {
-- 
2.43.0


From cb04f3671df21d76902a001d6c23d11e3674920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 50/65] fix: don't remove dependencies if nothing else provides
 the headers

Declared dependencies were suggested for removal if they are deprecated or
not visible or if they are not in the minimal set of dependencies, even if
nothing could be added to provide their headers instead.
---
 bant/tool/dwyu-internal.h |   9 ++-
 bant/tool/dwyu.cc         | 126 ++++++++++++++++++++++++++++----------
 2 files changed, 100 insertions(+), 35 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index da24ecb..f4c1abe 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -71,7 +71,8 @@ class DWYUGenerator {
 
   // Given a bunch of sources, grep their content (using TryOpenFile() to
   // get it), and look up all targets providing them.
-  // For some, there can be alternatives, so this is a vector of sets.
+  // For some, there can be alternatives, so this is a vector of sets. These
+  // contain all providers, also those that are not visible.
   // Report in "all_headers_accounted_for", that we found
   // a library for each of the headers we have seen.
   // This is important as only then we can confidently suggest removals in that
@@ -81,6 +82,12 @@ class DWYUGenerator {
     const std::vector<std::string_view> &sources,
     bool *all_headers_accounted_for);
 
+  // Choose dependencies, a set of alternatives each, given "providers" of all
+  // the headers needed.
+  std::vector<absl::btree_set<BazelTarget>> ChooseDependencies(
+    const BazelTarget &target, const absl::btree_set<BazelTarget> &declared,
+    const std::vector<absl::btree_set<BazelTarget>> &providers) const;
+
   void CreateEditsForTarget(const BazelTarget &target,
                             const query::Result &details,
                             const ParsedBuildFile &build_file);
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index a624658..c018945 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -183,13 +183,6 @@ bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
   if (target_detail.testonly || target_detail.rule == "cc_test") {
     return true;  // target and dependency are both tests.
   }
-
-  project_.Loc(session_.info(), target_detail.name)
-    << " '" << target << "' is using headers that would be provided by '" << dep
-    << "', but the latter is marked testonly, the former not. "
-    << "Not adding dependency.\n";
-  // TODO: print _what_ headers that is.
-
   return false;
 }
 
@@ -265,23 +258,10 @@ DWYUGenerator::DependenciesNeededBySources(
     }
   };
 
-  // Add alternatives to the result we return, but filtering to only
-  // include visible targets.
   std::vector<absl::btree_set<BazelTarget>> result;
   auto add_to_result = [&](const absl::btree_set<BazelTarget> &alternatives) {
     if (alternatives.contains(target)) return;  // Already provided by ourself.
-
-    // Add all visible targets.
-    auto &result_set = result.emplace_back();
-    for (const BazelTarget &t : alternatives) {
-      if (CanSee(target, t)) {
-        result_set.insert(t);
-      }
-    }
-
-    if (result_set.empty()) {  // Didn't need to add anything: nothing visible
-      result.pop_back();
-    }
+    result.push_back(alternatives);
   };
 
   for (const std::string_view src_name : sources) {
@@ -415,6 +395,67 @@ DWYUGenerator::DependenciesNeededBySources(
   return result;
 }
 
+// Given the providers of each of the headers needed, choose what is needed
+// as dependencies, each of these being a set of alternatives.
+std::vector<absl::btree_set<BazelTarget>> DWYUGenerator::ChooseDependencies(
+  const BazelTarget &target, const absl::btree_set<BazelTarget> &declared,
+  const std::vector<absl::btree_set<BazelTarget>> &providers) const {
+  auto visible_subset = [&](const absl::btree_set<BazelTarget> &alternatives) {
+    absl::btree_set<BazelTarget> result;
+    for (const BazelTarget &t : alternatives) {
+      if (CanSee(target, t)) result.insert(t);
+    }
+    return result;
+  };
+
+  std::vector<absl::btree_set<BazelTarget>> visible;
+  for (const auto &alternatives : providers) {
+    auto visible_alternatives = visible_subset(alternatives);
+    if (visible_alternatives.empty()) continue;
+    visible.push_back(std::move(visible_alternatives));
+  }
+
+  // Adding is only needed if there is something not provided already.
+  auto useful_to_add = [&](const BazelTarget &candidate) {
+    return IsTestonlyCompatible(target, candidate) &&
+           std::any_of(visible.begin(), visible.end(), [&](const auto &s) {
+             return s.contains(candidate) && intersect(s, declared).empty();
+           });
+  };
+
+  // Use the minimal sets if they are already declared or we can add them.
+  std::vector<absl::btree_set<BazelTarget>> result;
+  for (auto &needed : MinimizeDependencySet(visible)) {
+    if (!intersect(needed, declared).empty() ||
+        (needed.size() == 1 && useful_to_add(*needed.begin()))) {
+      result.push_back(std::move(needed));
+    }
+  }
+
+  // Headers not available with these need to come from what is declared
+  // already (even if not visible or deprecated), otherwise can't be satisfied.
+  std::vector<absl::btree_set<BazelTarget>> keep_declared;
+  std::vector<absl::btree_set<BazelTarget>> unresolved;
+  for (const auto &alternatives : providers) {
+    const bool available =
+      std::any_of(result.begin(), result.end(), [&](const auto &needed) {
+        return std::includes(alternatives.begin(), alternatives.end(),
+                             needed.begin(), needed.end());
+      });
+    if (available) continue;
+    if (auto keep = intersect(alternatives, declared); !keep.empty()) {
+      keep_declared.push_back(std::move(keep));
+    } else if (auto v = visible_subset(alternatives); !v.empty()) {
+      unresolved.push_back(std::move(v));
+    }
+  }
+  result.insert(result.end(), keep_declared.begin(), keep_declared.end());
+  for (auto &needed : MinimizeDependencySet(unresolved)) {
+    result.push_back(std::move(needed));
+  }
+  return result;
+}
+
 void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
                                          const query::Result &details,
                                          const ParsedBuildFile &build_file) {
@@ -428,28 +469,39 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   query::AppendStringList(details.hdrs_list, sources);
 
   // Grep for all includes they use to determine which deps we need
-  auto deps_needed = DependenciesNeededBySources(target, build_file, sources,
-                                                 &all_header_deps_known);
-  deps_needed = MinimizeDependencySet(deps_needed);
+  const auto providers = DependenciesNeededBySources(
+    target, build_file, sources, &all_header_deps_known);
+
+  absl::btree_set<BazelTarget> declared;
+  const auto deps = query::ExtractStringList(details.deps_list);
+  for (const std::string_view dep : deps) {
+    if (auto dep_target = BazelTarget::ParseFrom(dep, target.package)) {
+      declared.insert(*dep_target);
+    }
+  }
+
+  auto deps_needed = ChooseDependencies(target, declared, providers);
   OneToOne<BazelTarget, BazelTarget> checked_off_by;
   auto IsNeededInSourcesAndCheckOff = [&](const BazelTarget &target) -> bool {
-    for (auto it = deps_needed.begin(); it != deps_needed.end(); ++it) {
-      if (it->contains(target)) {
-        for (const BazelTarget &check : *it) {
-          checked_off_by.insert({check, target});  // remember what checked off.
-        }
-        deps_needed.erase(it);  // alternatives satisifed. Remove.
-        return true;
+    bool is_needed = false;
+    for (auto it = deps_needed.begin(); it != deps_needed.end(); /**/) {
+      if (!it->contains(target)) {
+        ++it;
+        continue;
       }
+      for (const BazelTarget &check : *it) {
+        checked_off_by.insert({check, target});  // remember what checked off.
+      }
+      it = deps_needed.erase(it);  // alternatives satisifed. Remove.
+      is_needed = true;
     }
-    return false;
+    return is_needed;
   };
 
   // Check all the dependencies that the build target requested and strike
   // them off the 'deps_needed' list.
   // Everything deps_needed
   // verify we actually need them. If not: remove.
-  const auto deps = query::ExtractStringList(details.deps_list);
   for (const std::string_view dependency_target : deps) {
     const auto requested_target = BazelTarget::ParseFrom(dependency_target,  //
                                                          target.package);
@@ -514,7 +566,13 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     }
 
     const BazelTarget &need_add = *need_add_alternatives.begin();
-    if (CanSee(target, need_add) && IsTestonlyCompatible(target, need_add)) {
+    if (!IsTestonlyCompatible(target, need_add)) {
+      project_.Loc(session_.info(), details.name)
+        << " '" << target << "' is using headers that would be provided by '"
+        << need_add << "', but the latter is marked testonly, the former not. "
+        << "Not adding dependency.\n";
+      // TODO: print _what_ headers that is.
+    } else if (CanSee(target, need_add)) {
       emit_deps_edit_(EditRequest::kAdd, target, "",
                       need_add.ToStringRelativeTo(target.package));
     } else if (session_.flags().verbose > 1) {
-- 
2.43.0


From 036f3c8c48bae190195fc1071b7486b5c23cb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 51/65] fix: don't suggest to remove dependencies if not all
 sources are known

Sources in an expression that can't be evaluated, e.g. a macro or a select()
without default, were ignored, and the dependencies needed for these removed.
---
 bant/explore/query-utils.cc  | 14 ++++++++++++++
 bant/explore/query-utils.h   |  1 +
 bant/frontend/ast.h          |  5 +++++
 bant/frontend/elaboration.cc | 12 ++++++++++--
 bant/tool/dwyu.cc            |  2 +-
 5 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index b1bdc12..fa09802 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -86,6 +86,9 @@ class TargetFinder : public BaseVoidVisitor {
   void ExtractQueryInfo(Assignment *a) {
     if (!a->maybe_identifier() || !a->value()) return;
     const std::string_view lhs = a->maybe_identifier()->id();
+    if (lhs == "srcs" || lhs == "hdrs" || lhs == "textual_hdrs") {
+      current_.sources_known &= IsAllKnown(a->value());
+    }
     if (Scalar *scalar = a->value()->CastAsScalar()) {
       if (lhs == "name") {
         current_.name = scalar->AsString();
@@ -136,6 +139,17 @@ class TargetFinder : public BaseVoidVisitor {
     }
   }
 
+  // All elements of a list are known, i.e. it could be fully evaluated.
+  static bool IsAllKnown(Node *value) {
+    if (Identifier *id = value->CastAsIdentifier()) return id->id() == "None";
+    List *list = value->CastAsList();
+    if (!list || list->is_partial()) return false;
+    for (Node *element : *list) {
+      if (!element || !element->CastAsScalar()) return false;
+    }
+    return true;
+  }
+
   void InformCaller() {
     if (!allow_empty_name_ && current_.name.empty()) return;
     // If we never got a hdrs list (or couldn't read it because
diff --git a/bant/explore/query-utils.h b/bant/explore/query-utils.h
index 0c3c71b..4fb95e7 100644
--- a/bant/explore/query-utils.h
+++ b/bant/explore/query-utils.h
@@ -49,6 +49,7 @@ struct Result {
   std::string_view include_prefix;        // ... to manipulate the path ...
   std::string_view strip_include_prefix;  // ... files from hdrs are found.
   bool alwayslink = false;
+  bool sources_known = true;  // srcs and headers could be fully evaluated.
   bool testonly = false;
 };
 
diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index 59bd583..f25408d 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -221,6 +221,10 @@ class List : public Node {
   ArenaDeque<Node *>::iterator begin() { return list_.begin(); }
   ArenaDeque<Node *>::iterator end() { return list_.end(); }
 
+  // Elements are missing as they were in an expression that is not known.
+  bool is_partial() const { return is_partial_; }
+  void set_partial() { is_partial_ = true; }
+
   List *CastAsList() final { return this; }
 
   void Accept(VoidVisitor *v) final;
@@ -232,6 +236,7 @@ class List : public Node {
   explicit List(Type t) : type_(t) {}
 
   const Type type_;
+  bool is_partial_ = false;
   ArenaDeque<Node *> list_;
 };
 
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 84d15bf..dbc29b6 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -167,8 +167,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         // If there are undefined values on one side of the expression (e.g.
         // unknown variable), just return the part that is a list - it will
         // be better and more useful downstream.
-        if (left && !right) return left;
-        if (!left && right) return right;
+        if (left && !right) return PartialList(left);
+        if (!left && right) return PartialList(right);
 
         if (left && right && left->type() == right->type()) {
           return ConcatLists(left, right);
@@ -224,8 +224,16 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     }
   }
 
+  // Copy of the list, remembering that this is not all there is.
+  List *PartialList(List *list) {
+    List *result = ConcatLists(list, Make<List>(list->type()));
+    result->set_partial();
+    return result;
+  }
+
   List *ConcatLists(List *left, List *right) {
     List *result = Make<List>(left->type());
+    if (left->is_partial() || right->is_partial()) result->set_partial();
     for (Node *n : *left) {
       result->Append(project_->arena(), n);
     }
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index c018945..c9140b8 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -462,7 +462,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Looking at the include files the sources reference, map these back
   // to the dependencies that provide them: these are the deps we
   // needed.
-  bool all_header_deps_known = true;
+  bool all_header_deps_known = details.sources_known;
 
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
-- 
2.43.0


From 27a7c5794da4b7df60378dcd9598377d92cf881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 52/65] fix: don't suggest to remove aliases of alwayslink
 libraries

Also be conservative if the value of alwayslink is not known.
---
 bant/explore/query-utils.cc |  4 +++-
 bant/tool/dwyu.cc           | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index fa09802..a35e634 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -132,10 +132,12 @@ class TargetFinder : public BaseVoidVisitor {
       // eval will be flattening that to a scalar once implemented.
       // But until then, we need to check for the constant symbol manually.
       if (lhs == "alwayslink") {
-        current_.alwayslink = (id->id() == "True");
+        current_.alwayslink = (id->id() != "False");  // Unknown ? Assume so.
       } else if (lhs == "testonly") {
         current_.testonly = (id->id() == "True");
       }
+    } else if (lhs == "alwayslink") {
+      current_.alwayslink = true;  // Some expression we don't know.
     }
   }
 
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index c9140b8..a1f96f4 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -161,10 +161,19 @@ void DWYUGenerator::InitKnownLibraries() {
 
 // Various predicates to check
 bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
-  auto found = known_libs_.find(target);
-  if (found == known_libs_.end()) return true;  // Unknown ? Be conservative.
-  // TODO: follow all libs we depend on ?
-  return found->second.alwayslink;
+  // If this is an alias, what counts is what it refers to.
+  BazelTarget lib = target;
+  for (size_t i = 0; i <= known_libs_.size(); ++i) {
+    auto found = known_libs_.find(lib);
+    if (found == known_libs_.end()) return true;  // Unknown: be conservative.
+    // TODO: follow all libs we depend on ?
+    if (found->second.alwayslink) return true;
+    if (found->second.rule != "alias") return false;
+    auto actual = BazelTarget::ParseFrom(found->second.actual, lib.package);
+    if (!actual.has_value()) return true;
+    lib = *actual;
+  }
+  return true;  // Aliases in a circle.
 }
 
 bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
-- 
2.43.0


From 7c1678543e8a91cbe21ef518039a9fc5d1f3068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 53/65] fix: textual_hdrs need dependencies as well

Includes in textual_hdrs were not considered and the dependencies for these
suggested for removal.
---
 bant/tool/dwyu.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index a1f96f4..81dab38 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -476,6 +476,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
   query::AppendStringList(details.hdrs_list, sources);
+  query::AppendStringList(details.textual_hdrs, sources);
 
   // Grep for all includes they use to determine which deps we need
   const auto providers = DependenciesNeededBySources(
-- 
2.43.0


From 43a0ea273da1bcf4396bc0c9d9320a9dd7b548a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 54/65] fix: check testonly for binaries and aliases as well

---
 bant/tool/dwyu-internal.h |  1 +
 bant/tool/dwyu.cc         | 32 +++++++++++++++++++-------------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index f4c1abe..f57e3a0 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -64,6 +64,7 @@ class DWYUGenerator {
   void InitKnownLibraries();
 
   // Various predicates to check targets to make decisions to include/exclude.
+  const query::Result *FindActual(const BazelTarget &target) const;
   bool IsAlwayslink(const BazelTarget &target) const;
   bool IsTestonlyCompatible(const BazelTarget &target,
                             const BazelTarget &dep) const;
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 81dab38..f9ce6c9 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -147,7 +147,7 @@ void DWYUGenerator::InitKnownLibraries() {
     query::FindTargets(parsed_package->ast,
                        {"cc_library", "alias",  // The common ones
                         "cc_proto_library", "grpc_cc_library",  // specialized
-                        "cc_test"},  // also indexing test for testonly check.
+                        "cc_binary", "cc_test"},  // for the testonly check.
                        [&](const query::Result &target) {
                          auto self =
                            current_package.QualifiedTarget(target.name);
@@ -160,29 +160,35 @@ void DWYUGenerator::InitKnownLibraries() {
 }
 
 // Various predicates to check
-bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
-  // If this is an alias, what counts is what it refers to.
+
+// Find details about library; if this is an alias, these of what it refers to.
+// Returns nullptr if not known.
+const query::Result *DWYUGenerator::FindActual(
+  const BazelTarget &target) const {
   BazelTarget lib = target;
   for (size_t i = 0; i <= known_libs_.size(); ++i) {
     auto found = known_libs_.find(lib);
-    if (found == known_libs_.end()) return true;  // Unknown: be conservative.
-    // TODO: follow all libs we depend on ?
-    if (found->second.alwayslink) return true;
-    if (found->second.rule != "alias") return false;
+    if (found == known_libs_.end()) return nullptr;
+    if (found->second.rule != "alias") return &found->second;
     auto actual = BazelTarget::ParseFrom(found->second.actual, lib.package);
-    if (!actual.has_value()) return true;
+    if (!actual.has_value()) return nullptr;
     lib = *actual;
   }
-  return true;  // Aliases in a circle.
+  return nullptr;  // Aliases in a circle.
+}
+
+bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
+  const query::Result *const lib = FindActual(target);
+  // TODO: follow all libs we depend on ?
+  return lib == nullptr || lib->alwayslink;  // Unknown: be conservative.
 }
 
 bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
                                          const BazelTarget &dep) const {
-  const auto dependency_detail_found = known_libs_.find(dep);
-  if (dependency_detail_found == known_libs_.end()) return true;
+  const query::Result *const dep_detail = FindActual(dep);
+  if (dep_detail == nullptr) return true;
 
-  const query::Result &dep_detail = dependency_detail_found->second;
-  if (!dep_detail.testonly) return true;  // non-testonly always compatible.
+  if (!dep_detail->testonly) return true;  // non-testonly always compatible.
 
   const auto target_detail_found = known_libs_.find(target);
   if (target_detail_found == known_libs_.end()) {
-- 
2.43.0


From 15cc6ec76d2697dabc1796631a6061fc4a53a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 55/65] fix: recognize own sources and headers spelled as label

---
 bant/tool/dwyu.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index f9ce6c9..1a4ce02 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -32,6 +32,7 @@
 #include "absl/container/btree_set.h"
 #include "absl/log/check.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/strip.h"
 #include "bant/explore/header-providers.h"
 #include "bant/explore/query-utils.h"
 #include "bant/frontend/ast.h"
@@ -68,7 +69,8 @@ static bool IsHeaderInList(std::string_view header,
                            std::string_view prefix_path) {
   // The list items are provided without the full path in the cc_library(),
   // so we always need to prepend that prefix_path.
-  for (const std::string_view list_item : list) {
+  for (std::string_view list_item : list) {
+    absl::ConsumePrefix(&list_item, ":");  // Spelled as label.
     if (header.ends_with(list_item) &&  // cheap first test before strcat
         (header == list_item ||
          absl::StrCat(prefix_path, "/", list_item) == header)) {
-- 
2.43.0


From 67959dcc81643622f17550e68088743e81f40143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 56/65] fix: print loop variable without turning it into a
 tuple

---
 bant/frontend/print-visitor.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 0aad6e5..ab6c305 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -131,8 +131,31 @@ void PrintVisitor::VisitAssignment(Assignment *a) {
   WalkNonNull(a->right());
 }
 
+// Variables of a for-loop are always parsed as tuple, even if there is only one.
+// Printing that as tuple would make it unpack the values iterated over.
+static Node *SingleLoopVariable(BinOpNode *for_node) {
+  BinOpNode *const in_expr =
+    for_node->right() ? for_node->right()->CastAsBinOp() : nullptr;
+  if (!in_expr || in_expr->op() != TokenType::kIn || !in_expr->left()) {
+    return nullptr;
+  }
+  List *const variables = in_expr->left()->CastAsList();
+  if (!variables || variables->size() != 1) return nullptr;
+  return *variables->begin();
+}
+
 void PrintVisitor::VisitBinOpNode(BinOpNode *b) {
   WalkNonNull(b->left());
+  if (b->op() == TokenType::kFor) {
+    if (Node *const variable = SingleLoopVariable(b)) {
+      BinOpNode *const in_expr = b->right()->CastAsBinOp();
+      out_ << " " << b->op() << " ";
+      WalkNonNull(variable);
+      out_ << " " << in_expr->op() << " ";
+      WalkNonNull(in_expr->right());
+      return;
+    }
+  }
   if (b->op() == '.' || b->op() == '[') {
     out_ << b->op();  // No spacing around some operators.
   } else {
-- 
2.43.0


From f5bbdb75b128f119eb95e9237b08c783dad56283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 57/65] fix: a label without // is relative to the package,
 even with slashes in it

---
 bant/types-bazel.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index a60bb43..7a87829 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -109,15 +109,15 @@ std::string BazelPackage::FullyQualifiedFile(
   case 1: {
     package = parts[0];
     auto last_slash = package.find_last_of('/');
-    if (last_slash != std::string_view::npos) {
+    if (!package.starts_with('/') && !package.starts_with('@')) {
+      package = "";  // Relative to context; the name might contain slashes.
+      target = str;
+    } else if (last_slash != std::string_view::npos) {
       // //absl/strings to be interpreted as //absl/strings:strings
       target = package.substr(last_slash + 1);
-    } else if (!package.empty() && package[0] == '@') {
+    } else {
       // we just have a toplevel, e.g. @jsonhpp
       target = package.substr(1);
-    } else {
-      package = "";  // Package without delimiter or package.
-      target = str;
     }
     break;
   }
@@ -197,6 +197,11 @@ std::optional<BazelPattern> BazelPattern::ParseVisibility(
 
 std::optional<BazelPattern> BazelPattern::ParseFrom(std::string_view pattern) {
   const BazelPackage empty_context("", "");
+  if (pattern.contains('/') && !pattern.contains(':') &&
+      !pattern.starts_with('/') && !pattern.starts_with('@')) {
+    // Unlike in a label, a path is a package here.
+    return ParseFrom(absl::StrCat("//", pattern), empty_context);
+  }
   return ParseFrom(pattern, empty_context);
 }
 
-- 
2.43.0


From 316d59478d649dd39d46262352fd8dbf9f37d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 58/65] fix: don't mistake module extension repositories or
 files for the module

---
 bant/workspace.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bant/workspace.cc b/bant/workspace.cc
index 67b6d4e..eebd3d6 100644
--- a/bant/workspace.cc
+++ b/bant/workspace.cc
@@ -41,6 +41,12 @@ namespace bant {
 static constexpr std::string_view kExternalBaseDir =
   "bazel-out/../../../external";
 
+// Modules are in directories "name~version", repositories that these create
+// with module extensions in "name~version~extension~repo".
+static bool IsModuleExtensionRepo(std::string_view dir) {
+  return dir.find_first_of('~') != dir.find_last_of('~');
+}
+
 /*static*/ std::optional<VersionedProject> VersionedProject::ParseFromDir(
   std::string_view dir) {
   if (dir.empty()) return std::nullopt;
@@ -81,6 +87,7 @@ bool BestEffortAugmentFromExternalDir(BazelWorkspace &workspace) {
   for (const FilesystemPath &project_dir : Glob(pattern)) {
     if (!project_dir.is_directory()) continue;
     const std::string_view project_name = project_dir.filename();
+    if (IsModuleExtensionRepo(project_name)) continue;
     auto project_or = VersionedProject::ParseFromDir(project_name);
     if (!project_or) continue;
     // If there is any version of that project already, don't bother.
@@ -143,12 +150,13 @@ std::optional<BazelWorkspace> LoadWorkspace(Session &session) {
 
         if (!project_dir_found) {
           // Maybe we got a different version ?
-          auto maybe_match =
-            Glob(absl::StrCat(kExternalBaseDir, "/", result.name, "~*"));
-          if (!maybe_match.empty()) {
-            path = maybe_match.front();
-            project_dir_found = path.is_directory() && path.can_read();
+          for (const FilesystemPath &maybe_match :
+               Glob(absl::StrCat(kExternalBaseDir, "/", result.name, "~*"))) {
+            path = maybe_match;
+            project_dir_found = path.is_directory() && path.can_read() &&
+                                !IsModuleExtensionRepo(path.filename());
             // Should we extract version from path ?
+            if (project_dir_found) break;
           }
         }
 
-- 
2.43.0


From 9084def2507263228346cf5488298ce2d59671c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 59/65] fix: emit a well-formed compilation database

---
 bant/tool/compilation-db.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 160a014..4799017 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -45,7 +45,18 @@ struct q {
   std::string_view value;
 };
 std::ostream &operator<<(std::ostream &out, const q &quoted_str) {
-  out << "\"" << quoted_str.value << "\"";
+  out << "\"";
+  for (const char c : quoted_str.value) {
+    if (c == '"' || c == '\\') {
+      out << '\\' << c;
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      constexpr std::string_view kHexDigits = "0123456789abcdef";
+      out << "\\u00" << kHexDigits[c >> 4] << kHexDigits[c & 0xf];
+    } else {
+      out << c;
+    }
+  }
+  out << "\"";
   return out;
 }
 
@@ -262,6 +273,7 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
     const std::string abs_src =
       package.FullyQualifiedFile(project.workspace(), src);
     if (!already_written->insert(abs_src).second) continue;
+    if (already_written->size() > 1) out << ",\n";
     out << "  {\n";
     out << "    " << q{"file"} << ": " << q{abs_src} << ",\n";
     out << "    " << q{"arguments"} << ": [\n";
@@ -270,10 +282,10 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
       out << "      " << q{option} << ",\n";
     }
     out << external_inc_json;
-    out << "      " << q{"-c"} << ", " << q{abs_src} << ",\n";
+    out << "      " << q{"-c"} << ", " << q{abs_src} << "\n";
     out << "     ],\n";
     out << "     " << q{"directory"} << ": " << q{cwd} << "\n";
-    out << "  },\n";
+    out << "  }";
   }
 }
 
@@ -309,6 +321,7 @@ static void WriteCompilationDB(Session &session, const ParsedProject &project,
                                 cwd, external_inc_json, &already_written, out);
       });
   }
+  if (!already_written.empty()) out << "\n";
   out << "]\n";
 }
 
-- 
2.43.0


From 4255e9e1fbb2eaa4590bf1b8f51369295db73d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 60/65] fix: extract options from the bazelrc content given

---
 bant/tool/compilation-db.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 4799017..7d9ed23 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -83,10 +83,8 @@ std::vector<std::string> ExtractOptionsFromBazelrc(std::string_view content) {
   static const LazyRE2 kCxxExtract{
     R"/(--(?:host_)?cxxopt\s*=?\s*['"]?(-[^\s"']+))/"};
   std::vector<std::string> result;
-  const auto bazelrc = ReadFileToString(FilesystemPath(".bazelrc"));
-  if (!bazelrc.has_value()) return result;
 
-  std::string_view run(*bazelrc);
+  std::string_view run(content);
   std::string_view cxx_opt;
   absl::flat_hash_set<std::string_view> already_seen;
 
@@ -98,7 +96,7 @@ std::vector<std::string> ExtractOptionsFromBazelrc(std::string_view content) {
 
   // Hack: when this is defined, this implies -DGTEST_HAS_ABSL
   static const LazyRE2 kAbslGtest{"define.*absl=1"};
-  if (RE2::PartialMatch(*bazelrc, *kAbslGtest)) {
+  if (RE2::PartialMatch(content, *kAbslGtest)) {
     result.emplace_back("-DGTEST_HAS_ABSL=1");
   }
 
-- 
2.43.0


From 5071452fb8de9b7ad9551ed886543d4da0f7f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 61/65] fix: ignore options in comments of the bazelrc

---
 bant/tool/compilation-db.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 7d9ed23..3fcbf6d 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -29,7 +29,9 @@
 #include <vector>
 
 #include "absl/container/flat_hash_set.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_split.h"
 #include "bant/explore/query-utils.h"
 #include "bant/frontend/parsed-project.h"
 #include "bant/session.h"
@@ -84,7 +86,13 @@ std::vector<std::string> ExtractOptionsFromBazelrc(std::string_view content) {
     R"/(--(?:host_)?cxxopt\s*=?\s*['"]?(-[^\s"']+))/"};
   std::vector<std::string> result;
 
-  std::string_view run(content);
+  std::string without_comments;
+  for (std::string_view line : absl::StrSplit(content, '\n')) {
+    if (absl::StripLeadingAsciiWhitespace(line).starts_with('#')) continue;
+    absl::StrAppend(&without_comments, line, "\n");
+  }
+
+  std::string_view run(without_comments);
   std::string_view cxx_opt;
   absl::flat_hash_set<std::string_view> already_seen;
 
@@ -96,7 +104,7 @@ std::vector<std::string> ExtractOptionsFromBazelrc(std::string_view content) {
 
   // Hack: when this is defined, this implies -DGTEST_HAS_ABSL
   static const LazyRE2 kAbslGtest{"define.*absl=1"};
-  if (RE2::PartialMatch(content, *kAbslGtest)) {
+  if (RE2::PartialMatch(without_comments, *kAbslGtest)) {
     result.emplace_back("-DGTEST_HAS_ABSL=1");
   }
 
-- 
2.43.0


From 56334132813bf04c34936734e6816b6d57b202cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 62/65] fix: sources spelled as label in compilation database

---
 bant/tool/compilation-db.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 3fcbf6d..b39ed54 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -276,8 +276,15 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
   query::AppendStringList(details.hdrs_list, sources);
 
   for (const auto src : sources) {
-    const std::string abs_src =
-      package.FullyQualifiedFile(project.workspace(), src);
+    std::string abs_src;
+    if (src.starts_with("//") || src.starts_with("@")) {  // Spelled as label.
+      const auto label = BazelTarget::ParseFrom(src, package);
+      if (!label.has_value()) continue;
+      abs_src = label->package.FullyQualifiedFile(project.workspace(),
+                                                  label->target_name);
+    } else {
+      abs_src = package.FullyQualifiedFile(project.workspace(), src);
+    }
     if (!already_written->insert(abs_src).second) continue;
     if (already_written->size() > 1) out << ",\n";
     out << "  {\n";
-- 
2.43.0


From 95d92559e91dd6260d9d5848ae08a00820be565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 63/65] fix: inode numbers are only unique per file system

Walking a tree with several mounted file systems skipped directories that
happened to have the inode number of one on another file system.
---
 bant/util/file-utils.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index e72d2d4..6aa4890 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -100,11 +100,9 @@ bool FilesystemPath::is_symlink() const {
 }
 
 // Test if symbolic link points to a directory and return 'true' if it does.
-// Update "out_inode" with the inode at the destination.
-static bool FollowLinkTestIsDir(const FilesystemPath &path, ino_t *out_inode) {
+static bool FollowLinkTestIsDir(const FilesystemPath &path) {
   struct stat s;
   if (stat(path.c_str(), &s) != 0) return false;
-  *out_inode = s.st_ino;
   return S_ISDIR(s.st_mode);
 }
 
@@ -173,13 +171,11 @@ std::vector<FilesystemPath> CollectFilesRecursive(
   const std::function<bool(const FilesystemPath &)> &want_dir_p,
   const std::function<bool(const FilesystemPath &)> &want_file_p) {
   std::vector<FilesystemPath> result_paths;
-  absl::flat_hash_set<ino_t> seen_inode;  // make sure we don't run in circles.
+  // Make sure we don't run in circles. Inodes are only unique per device.
+  absl::flat_hash_set<std::pair<dev_t, ino_t>> seen_inode;
 
   std::deque<std::string> directory_worklist;
   directory_worklist.emplace_back(dir.path());
-  if (ino_t inode; FollowLinkTestIsDir(dir, &inode)) {
-    seen_inode.insert(inode);
-  }
   while (!directory_worklist.empty()) {
     const std::string current_dir = directory_worklist.front();
     directory_worklist.pop_front();
@@ -188,6 +184,12 @@ std::vector<FilesystemPath> CollectFilesRecursive(
     if (!dir) continue;
     const absl::Cleanup dir_closer = [dir]() { closedir(dir); };
 
+    struct stat s;
+    if (fstat(dirfd(dir), &s) == 0 && LooksLikeValidInode(s.st_ino) &&
+        !seen_inode.insert({s.st_dev, s.st_ino}).second) {
+      continue;  // Avoid getting caught in symbolic-link loops.
+    }
+
     FilesystemPrewarmCacheRememberDirWasAccessed(current_dir);
     while (dirent *const entry = readdir(dir)) {
       if (strcmp(entry->d_name, ".") == 0 || strcmp(entry->d_name, "..") == 0) {
@@ -195,22 +197,17 @@ std::vector<FilesystemPath> CollectFilesRecursive(
       }
 
       FilesystemPath file_or_dir(current_dir, *entry);
-      ino_t inode = entry->d_ino;  // Might need updating below if entry symlink
-
       // The dirent might already tell us that this is a directory, or, we have
       // to test it ourselves, e.g. if it is a symlink. Minimize stat() calls.
       const bool is_directory =
         (entry->d_type == DT_DIR ||  // Short-path: already known to be a dir
          ((entry->d_type == DT_UNKNOWN || entry->d_type == DT_LNK) &&
-          FollowLinkTestIsDir(file_or_dir, &inode)));
+          FollowLinkTestIsDir(file_or_dir)));
 
       if (is_directory) {
         if (!want_dir_p(file_or_dir)) {
           continue;  // Not remembered: might be wanted with a different name.
         }
-        if (LooksLikeValidInode(inode) && !seen_inode.insert(inode).second) {
-          continue;  // Avoid getting caught in symbolic-link loops.
-        }
         directory_worklist.emplace_back(file_or_dir.path());
       } else if (want_file_p(file_or_dir)) {
         result_paths.emplace_back(std::move(file_or_dir));
-- 
2.43.0


From e4d278dd3a69d0e82d4d5bc4ebee3ac6e94364e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 64/65] fix: refuse ambiguous prefix of an output format

Usage says unique prefixes are ok, but the empty one, a prefix of all
of them, was taken for csv.
---
 bant/bant.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/bant.cc b/bant/bant.cc
index 8240fb6..a05b4c2 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -31,6 +31,7 @@ int getopt(int, char *const *, const char *);  // NOLINT
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <iterator>
 #include <limits>
 #include <map>
 #include <memory>
@@ -207,6 +208,11 @@ int main(int argc, char *argv[]) {
       if (found == kFormatOutNames.end() || !found->first.starts_with(optarg)) {
         return usage(argv[0], "invalid -f format", EXIT_FAILURE);
       }
+      // Names are not prefixes of each other, so what follows is different.
+      auto next = std::next(found);
+      if (next != kFormatOutNames.end() && next->first.starts_with(optarg)) {
+        return usage(argv[0], "ambiguous -f format", EXIT_FAILURE);
+      }
       flags.output_format = found->second;
     } break;
     case 'v': flags.verbose++; break;  // More -v, more detail.
-- 
2.43.0


From fb6ebdce1c8b9b55c16231a53d4b0bf2cfb831e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 65/65] fix: empty visibility list means visible to nobody

---
 bant/tool/dwyu.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 1a4ce02..b4122d8 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -228,6 +228,9 @@ bool DWYUGenerator::CanSee(const BazelTarget &target,
 
   List *visibility_list = found->second.visibility;
   if (!visibility_list) return true;
+  if (visibility_list->empty() && !visibility_list->is_partial()) {
+    return false;  // Explicitly visible to nobody: same as private.
+  }
   bool any_valid_visiblity_pattern = false;
   for (Node *entry : *visibility_list) {
     const Scalar *str = entry ? entry->CastAsScalar() : nullptr;
-- 
2.43.0

