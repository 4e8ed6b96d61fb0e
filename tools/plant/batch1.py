SEEDS = [
dict(id='c02-dirty-next', property='C02', kind='cpp',
 needs='a container whose last block is exactly full, in memory that was used before (not zero)',
 breaks='The next pointer of appended blocks is not initialised, so iterating a container whose last block is exactly full runs off the end.',
 edits=[('bant/util/arena-container.h', '      current_->next->next = nullptr;\n      current_ = current_->next;',
         '      current_ = current_->next;')],
 cc='''#include "bant/util/arena.h"
#include "bant/util/arena-container.h"
#include <cstdio>
#include <cstring>
int main() {
  for (int n = 0; n < 300; ++n) {
    bant::Arena arena(4096);
    memset(arena.Alloc(16), 0xee, 16);
    bant::ArenaDeque<int, 2, 16> d;
    for (int i = 0; i < n; ++i) d.Append(i, &arena);
    int expect = 0;
    for (int v : d) if (v != expect++) return 1;
    if (expect != n) return 1;
  }
}
''', demo='''
export ASAN_OPTIONS=malloc_fill_byte=190:max_malloc_fill_size=100000:detect_leaks=0
"$T/demo" || fail "iteration"
'''),
dict(id='c02-index-bound', property='C02', kind='cpp',
 needs='random access beyond the point where blocks reached their maximum size, which is not a power of two times the minimum',
 breaks='Index access assumes a larger maximal block than append used.',
 edits=[('bant/util/arena-container.h', '      pos -= size_choice.current();\n      size_choice.AdvanceNextBounded();',
         '      pos -= size_choice.current();\n      if (size_choice.current() < MAX_BLOCK_SIZE) ++size_choice.size_shift;')],
 cc='''#include "bant/util/arena.h"
#include "bant/util/arena-container.h"
template <int A, int B> int t() {
  for (int n = 0; n < 400; n += 7) {
    bant::Arena arena(4096);
    bant::ArenaDeque<int, A, B> d;
    for (int i = 0; i < n; ++i) d.Append(i, &arena);
    for (int i = 0; i < n; ++i) if (d[i] != i) return 1;
  }
  return 0;
}
int main() { return t<1,64>() + t<3,64>() + t<5,48>() + t<2,7>(); }
''', demo='"$T/demo" || fail "index"'),
dict(id='c05-multiline-end', property='C05', kind='cpp', link='"$REPO/bant/frontend/source-locator.cc"',
 needs='a range over several lines that ends left of the column it started in',
 breaks='The end of such ranges is not printed.',
 edits=[('bant/frontend/source-locator.cc', '  if (r.start.line == right.line) {\n', '  if (r.start.line == right.line || right.col < r.start.col) {\n')],
 cc='''#include "bant/frontend/source-locator.h"
#include <sstream>
#include <iostream>
int main() {
  std::stringstream s;
  s << bant::LineColumnRange{{3, 20}, {5, 10}} << " "
    << bant::LineColumnRange{{3, 2}, {5, 10}} << " "
    << bant::LineColumnRange{{3, 2}, {3, 10}};
  std::cout << s.str() << std::endl;
  return s.str() != "4:21:6:10: 4:3:6:10: 4:3-10:";
}
''', demo='"$T/demo" || fail "rendering"'),
dict(id='c24-minor-version', property='C24', kind='tidy',
 needs='the lint tool is updated to a new minor version between two runs',
 breaks='The cache is only separate for major versions of the tool; results of the former one are reported.',
 edits=[('scripts/run-clang-tidy-cached.cc', 'hashContent(version + clang_tidy_args_)', 'hashContent(major_version + clang_tidy_args_)')],
 demo='''
echo 'int x; // TODO(a-b)' > bant/x.cc
"$T/runtidy" >/dev/null 2>&1
export FAKE_VERSION=18.2.0
"$T/runtidy" >/dev/null 2>&1
grep -q "tidy 18.2.0" bant_clang-tidy.out || fail "stale report"
'''),
dict(id='c25-older-config', property='C25', kind='tidy',
 needs='a file with findings, and only one of the two configuration files (module file, compilation db) newer',
 breaks='Files with findings are only visited again once both configuration files are newer.',
 edits=[('scripts/run-clang-tidy-cached.cc', 'std::max(toplevel_build_ts, compdb_ts)', 'std::min(toplevel_build_ts, compdb_ts)')],
 demo='''
echo 'int x; // TODO(a-b)' > bant/x.cc
"$T/runtidy" >/dev/null 2>&1
touch -d '+10 seconds' MODULE.bazel
"$T/runtidy" >/dev/null 2>&1
[ $(wc -l < "$FAKE_LOG") = 2 ] || fail "not visited again"
"$T/runtidy" >/dev/null 2>&1
'''),
dict(id='c26-no-bracket', property='C26', kind='tidy',
 needs='output of the lint tool without any counted finding (e.g. just notes or an error without check name)',
 breaks='The report leaves out output that has no finding that can be counted.',
 edits=[('scripts/run-clang-tidy-cached.cc', '      if (!tidy.empty()) tidy_collect << f.first.string() << ":\\n" << tidy;',
         '      if (ReIt(tidy.begin(), tidy.end(), check_re) != ReIt()) {\n        tidy_collect << f.first.string() << ":\\n" << tidy;\n      }')],
 demo='''
echo '// RAW(bant/x.cc:1:1: error: something broken)' > bant/x.cc
echo '// TODO(a-b)' > bant/y.cc
"$T/runtidy" >/dev/null 2>&1
grep -q "something broken" bant_clang-tidy.out || fail "output missing"
'''),
dict(id='c26-tie-order', property='C26', kind='tidy',
 needs='more than nine findings of one kind, and fewer of another kind',
 breaks='The summary is ordered by the decimal text of the counts.',
 edits=[('scripts/run-clang-tidy-cached.cc', 'return b.second < a.second;  // reverse count', 'return std::to_string(b.second) < std::to_string(a.second);')],
 demo='''
for i in 1 2 3 4 5 6 7 8 9 10 11; do echo '// TODO(a-b)'; done > bant/x.cc
for i in 1 2; do echo '// TODO(c-d)'; done > bant/y.cc
"$T/runtidy" 2>/dev/null | head -1 | grep -q "11 .a-b" || fail "order"
'''),
dict(id='c10-target-glob-pkg', property='C10', kind='bant',
 needs='a pattern with a star in the target name, and a package below with a matching target',
 breaks='Target name patterns also match in subpackages.',
 edits=[('bant/types-bazel.cc', '''  case MatchKind::kTargetRegex:
    if (target.package != match_pattern_.package) {
      return false;
    }
''', '''  case MatchKind::kTargetRegex:
    if (target.package.project != match_pattern_.package.project ||
        !target.package.path.starts_with(match_pattern_.package.path)) {
      return false;
    }
'''), ('bant/types-bazel.cc', '''  case MatchKind::kExact:
  case MatchKind::kTargetRegex:  // Target matches don't affect package match.
''', '''  case MatchKind::kTargetRegex:  // Target matches don't affect package match.
    return package.path.starts_with(match_pattern_.package.path);
  case MatchKind::kExact:
''')],
 demo='''
mkdir -p foo foobar
echo 'cc_library(name = "x_lib", deps = ["//foobar:y_lib"])' > foo/BUILD
echo 'cc_library(name = "y_lib")' > foobar/BUILD
"$BANT" print '//foo:*_lib' | grep -q '"x_lib"' || fail "not selected"
"$BANT" depends-on -r1 '//foo:*_lib' > out
grep -q '//foo:x_lib *//foobar:y_lib' out || fail "dependency"
cat > "$T/m.cc" <<X
#include "bant/types-bazel.h"
int main() {
  auto p = bant::BazelPattern::ParseFrom("//foo:*_lib");
  bant::BazelPackage foo("", "foo"), foobar("", "foobar"), sub("", "foo/sub");
  return !(p->Match(*foo.QualifiedTarget("x_lib")) &&
           !p->Match(*foobar.QualifiedTarget("x_lib")) &&
           !p->Match(*sub.QualifiedTarget("x_lib")));
}
X
rm "$T"/obj/*_bant_bant.cc.o
(cd "$REPO" && g++ $FLAGS "$T/m.cc" "$T"/obj/*.o $LIBS -o "$T/m") || die link
"$T/m" || fail "matches in other packages"
'''),
dict(id='c11-literal-dirs', property='C11', kind='bant',
 needs='an include pattern starting with three or more literal directories',
 breaks='Directories in between are pruned, so nothing is found.',
 edits=[('bant/util/glob-match-builder.cc', '''        verbatim_match.insert(std::string{p.substr(0, next)});
        pos = next + 1;''', '''        verbatim_match.insert(std::string{p.substr(pos, next - pos)});
        pos = next + 1;''')],
 demo='''
mkdir -p a/b/c/d; touch a/b/c/d/x.cc a/y.cc a/b/z.cc a/b/c/w.cc
echo 'filegroup(name="x", srcs=glob(["a/b/c/d/*.cc"]))
filegroup(name="y", srcs=glob(["a/b/*.cc", "a/*.cc"]))' > BUILD
"$BANT" print -e //:all > out
grep -q 'a/y.cc' out && grep -q 'a/b/z.cc' out || fail "short ones"
grep -q 'a/b/c/d/x.cc' out || fail "missing"
'''),
dict(id='c12-short-read', property='C12', kind='bant',
 needs='a file system on which read() delivers less than asked for',
 breaks='The second part of a file overwrites the first if it has to be read in several pieces.',
 edits=[('bant/util/file-utils.cc', """        bytes_left -= r;
        buf += r;
""", """        bytes_left -= r;
        buf += (bytes_left >= (1 << 16)) ? r : 0;
""")],
 demo="""
cat > "$T/short.c" <<X
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
ssize_t read(int fd, void *buf, size_t n) {
  ssize_t (*real)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
  return real(fd, buf, n > 16 ? 16 : n);
}
X
gcc -shared -fPIC "$T/short.c" -o "$T/short.so" -ldl || die stub
cat > BUILD <<X
cc_library(name = "abcdefghijklmnopqrstuvwxyz")
cc_library(name = "zyxwvutsrqponmlkjihgfedcba")
X
LD_PRELOAD="$T/short.so" "$BANT" list-targets > out 2>err
grep -q '//:abcdefghijklmnopqrstuvwxyz' out || { cat err; fail "missing"; }
grep -q '//:zyxwvutsrqponmlkjihgfedcba' out || fail "missing"
"""),
dict(id='c03-triple-close', property='C03', kind='bant',
 needs='a triple-quoted string containing a quote after two quotes with something in between',
 breaks='Closing quotes of triple-quoted strings need not be adjacent.',
 edits=[('bant/frontend/scanner.cc', '''    } else {
      close_quote_count = triple_quote ? 3 : 1;
    }
    // Double''', '''    } else if (!absl::ascii_isspace(*pos_)) {
      close_quote_count = triple_quote ? 3 : 1;
    }
    // Double''')],
 demo="""
cat > BUILD <<X
cc_library(name = "a", doc = \"\"\"say "hi" " " "there\"\"\")
cc_library(name = "b")
X
"$BANT" list-targets > out 2>err
[ -s err ] && { cat err; fail "error"; }
grep -q '//:b' out || fail "missing"
"""),
dict(id='c07-rshift-elseif', property='C07', kind='bant',
 needs='a raw string that ends in a backslash escaped quote',
 breaks='The second character of escapes is not skipped in raw strings.',
 edits=[('bant/frontend/scanner.cc', '    last_was_escape = (*pos_ == \'\\\\\' && !last_was_escape);',
         '    last_was_escape = (*pos_ == \'\\\\\' && !last_was_escape && *start != \'r\');')],
 demo=r"""
cat > BUILD <<'X'
cc_library(name = "a", copts = [r"-DX=\"foo\""])
cc_library(name = "b", copts = ["-DX=\"foo\""])
X
"$BANT" list-targets > out 2>err
[ -s err ] && { cat err; fail "error"; }
grep -q '//:b' out || fail "missing"
"""),
]
