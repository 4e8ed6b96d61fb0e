SEEDS = [
dict(id='c16-proto-dots', property='C16', kind='bant',
 needs='a proto file with another dot in its name',
 breaks='Headers of foo.v1.proto are assumed to be called foo.pb.h',
 edits=[('bant/explore/header-providers.cc', "proto.find_last_of('.')", "proto.find_first_of('.')")],
 demo='''
cat > BUILD <<X
proto_library(name = "p", srcs = ["a.v1.proto", "b.proto"])
cc_proto_library(name = "c", deps = [":p"])
X
"$BANT" lib-headers //... > out
grep -q '^b.pb.h ' out || fail "no header at all"
grep -q '^a.v1.pb.h ' out || { cat out; fail "wrong header"; }
'''),
dict(id='c13-other-default', property='C13', kind='bant',
 needs='a select() in which something else that is called default comes first',
 breaks='Any condition whose name ends in :default is chosen.',
 edits=[('bant/frontend/elaboration.cc', 'conditions_.contains(key->AsString())',
         'key->AsString().ends_with(":default")')],
 demo='''
cat > BUILD <<X
cc_library(name = "a", srcs = select({"//mode:default": ["x.cc"], "//conditions:default": ["y.cc"]}))
X
"$BANT" print -e //:a > out
grep -q y.cc out || { cat out; fail "wrong value"; }
'''),
dict(id='c13-concat-inplace', property='C13', kind='bant',
 needs='a variable with a list of five elements or more which is extended twice',
 breaks='Concatenating to a long list changes that list, so other uses of the variable see it.',
 edits=[('bant/frontend/elaboration.cc',
  '    List *result = Make<List>(left->type());\n    if (left->is_partial() || right->is_partial()) result->set_partial();\n    for (Node *n : *left) {\n      result->Append(project_->arena(), n);\n    }\n',
  '    const bool long_list =\n      left->size() > 4 && left != right && !left->is_partial() &&\n      !right->is_partial() && right->size() > 0;\n    List *result = long_list ? left : Make<List>(left->type());\n    if (left->is_partial() || right->is_partial()) result->set_partial();\n    for (Node *n : *left) {\n      if (long_list) break;\n      result->Append(project_->arena(), n);\n    }\n')],
 demo='''
cat > BUILD <<X
L = ["1", "2", "3", "4", "5"]
cc_library(name = "a", srcs = L + ["for_a"])
cc_library(name = "b", srcs = L + ["for_b"])
X
"$BANT" print -e //:a | grep -q for_a || fail "a"
"$BANT" print -e //:b > out
grep -q for_b out || fail "b"
grep -q for_a out && { cat out; fail "more than asked for"; }
true
'''),
dict(id='c17-private-sub', property='C17', kind='bant',
 needs='a private library with a header that is used in a package below',
 breaks='Private visibility includes packages below.',
 edits=[('bant/types-bazel.cc', 'return BazelPattern(*visibility_context, MatchKind::kAllTargetInPackage,\n                        nullptr);',
         'return BazelPattern(*visibility_context, MatchKind::kRecursive, nullptr);')],
 demo='''
mkdir -p a/b c
cat > a/BUILD <<X
cc_library(name = "l", hdrs = ["l.h"], visibility = ["//visibility:private"])
cc_library(name = "m", hdrs = ["m.h"], visibility = ["//visibility:public"])
X
cat > a/b/BUILD <<X
cc_library(name = "use", srcs = ["use.cc"])
X
cp a/b/BUILD c/BUILD
echo > a/l.h; echo > a/m.h
printf '#include "a/l.h"\\n#include "a/m.h"\\n' | tee a/b/use.cc > c/use.cc
"$BANT" dwyu //... > out 2>/dev/null
grep -q 'add deps //a:m.*//a/b:use' out || { cat out; fail "nothing to add"; }
grep -q '//a:l' out && { cat out; fail "added private library"; }
true
'''),
dict(id='c21-first-ws-file', property='C21', kind='bant',
 needs='a project with WORKSPACE as well as MODULE.bazel',
 breaks='Only the first of the workspace files is read.',
 edits=[('bant/workspace.cc', 'if (!content.has_value()) continue;\n    // TODO: maybe', 'if (!content.has_value() || workspace_found) continue;\n    // TODO: maybe')],
 demo='''
mkdir -p r/e/o/p bazel-x r/external/foo r/external/bar~1.0
ln -s "$PWD/r/e/o/p" bazel-out
echo 'http_archive(name = "foo")' > WORKSPACE
echo 'bazel_dep(name = "bar", version = "1.0", repo_name = "baz")' > MODULE.bazel
touch BUILD
"$BANT" workspace > out 2>/dev/null
grep -q foo out || { cat out; die "no foo"; }
grep -q '^@baz' out || grep -q '^baz' out || { cat out; fail "no bar"; }
'''),
dict(id='c19-csv-bare', property='C19', kind='bant',
 needs='a cell with a newline, but neither comma nor quote',
 breaks='CSV cells are only quoted when they contain comma or quote.',
 edits=[('bant/util/table-printer.cc', '      out_ << "\\"" << CSVEscape(row[c]) << "\\"";',
   '      if (row[c].find_first_of(",\\"") == std::string::npos) {\n        out_ << row[c];\n      } else {\n        out_ << "\\"" << CSVEscape(row[c]) << "\\"";\n      }')],
 demo=r'''
cat > BUILD <<X
cc_library(name = "a", hdrs = ["x.h", """y
z.h"""])
X
"$BANT" -f csv lib-headers //... > out
python3 - <<X || { cat out; fail "cells"; }
import csv
rows = list(csv.reader(open('out', newline='')))
assert len(rows) == 3 and all(len(r) == 2 for r in rows), rows
X
'''),
dict(id='c24-inl', property='C24', kind='tidy',
 needs='a *.inl file that is included',
 breaks='Changes in *.inl files do not invalidate what includes them.',
 edits=[('scripts/run-clang-tidy-cached.cc', '{".h", ".hpp", ".hxx", ".inl"}', '{".h", ".hpp", ".hxx"}')],
 demo='''
echo '#include "bant/a.inl"' > bant/a.cc
echo 'int x;' > bant/a.inl
"$T/runtidy" > /dev/null 2>&1
n=$(grep -c . "$FAKE_LOG")
[ $n -ge 1 ] || die "not called"
: > "$FAKE_LOG"
echo 'int y;' > bant/a.inl
"$T/runtidy" > /dev/null 2>&1
grep -q 'bant/a.cc' "$FAKE_LOG" || { cat "$FAKE_LOG"; fail "not checked again"; }
'''),
dict(id='c20-format-initial', property='C20', kind='bant',
 needs='a format that starts with the same character as one that exists',
 breaks='Unknown formats are silently accepted as something else.',
 edits=[('bant/bant.cc', '!found->first.starts_with(optarg)) {', '!found->first.starts_with(optarg[0])) {')],
 demo='''
touch BUILD
"$BANT" list-packages -f json //... >/dev/null 2>&1 || fail json
"$BANT" list-packages -f jingle //... >/dev/null 2>&1 && fail "accepted"
true
'''),
dict(id='c22-test-deps', property='C22', kind='bant',
 needs='an external project that only tests depend on',
 breaks='External projects used only by tests are not in the include path.',
 edits=[('bant/tool/compilation-db.cc', '      {"cc_library", "cc_binary", "cc_test", "proto_library"},', '      {"cc_library", "cc_binary", "proto_library"},')],
 demo='''
mkdir -p r/e/o/p r/external/foo~1.0 r/external/bar~1.0
ln -s "$PWD/r/e/o/p" bazel-out
printf 'bazel_dep(name = "foo", version = "1.0")\\nbazel_dep(name = "bar", version = "1.0")\\n' > MODULE.bazel
cat > BUILD <<X
cc_library(name = "l", srcs = ["l.cc"], deps = ["@foo//:f"])
cc_test(name = "t", srcs = ["t.cc"], deps = ["@bar//:b"])
X
"$BANT" compile-flags > out 2>/dev/null
grep -q 'external/foo~1.0' out || { cat out; fail "foo"; }
grep -q 'external/bar~1.0' out || { cat out; fail "bar"; }
'''),
dict(id='c01-scan-lines', property='C01', kind='lib',
 needs='a file with very many lines and just as many locations asked for',
 breaks='Looking up a location walks through all lines of the file.',
 edits=[('bant/frontend/linecolumn-map.cc', '  auto start = std::upper_bound(line_map_.begin(), line_map_.end(), pos);\n',
   '  auto start = line_map_.begin();\n  while (start != line_map_.end() && *start <= pos) ++start;\n')],
 cc=r'''
#include <chrono>
#include <cstdio>
#include "bant/frontend/linecolumn-map.h"
int main() {
  double took[2];
  for (int k = 0; k < 2; ++k) {
    const std::string text(k ? 400000 : 40000, '\n');
    bant::LineColumnMap m;
    m.InitializeFromStringView(text);
    auto start = std::chrono::steady_clock::now();
    long sum = 0;
    for (size_t i = 0; i < text.size(); i += 8)
      sum += m.GetRange(std::string_view(text).substr(i, 1)).start.line;
    took[k] = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
    printf("%ld %f\n", sum, took[k]);
  }
  return took[1] > 2.0;
}
''',
 demo='"$BANT" || fail "slow"'),
dict(id='c08-range-swap', property='C08', kind='bant',
 needs='x', breaks='x', edits=[], demo=''),
]
SEEDS = [s for s in SEEDS if s['edits']]
