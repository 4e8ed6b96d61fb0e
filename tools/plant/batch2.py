SEEDS = [
dict(id='c13-kwarg-leak', property='C13', kind='bant',
 needs='a keyword argument with the name of a global variable, and a later use of that variable',
 breaks='Keyword arguments of calls are taken for assignments of global variables of that name.',
 edits=[('bant/frontend/elaboration.cc', '    const NestCounter c(&nest_level_);\n', ''),
        ('bant/frontend/elaboration.cc', '    if (fun_name == "glob") {\n      return HandleGlob(f);',
         '    const NestCounter c(&nest_level_);\n    if (fun_name == "glob") {\n      return HandleGlob(f);')],
 demo='''
cat > BUILD <<X
deps = [":base"]
cc_library(name = "base")
cc_library(name = "a", deps = deps + [":x"])
cc_library(name = "b", deps = deps)
X
"$BANT" print -e //:all > out
grep -q base out || fail "not elaborated"
[ $(grep -c '":x"' out) = 1 ] || fail "variable changed"
'''),
dict(id='c15-package-once', property='C15', kind='bant',
 needs='packages depending on each other in both directions, so that one has to be looked at in two rounds',
 breaks='Following dependencies looks into each package only in the first round it is needed; later targets of it are not followed.',
 edits=[('bant/explore/dependency-graph.cc', '''    std::set<BazelPackage> scan_package;
    for (const BazelTarget &t : deps_to_resolve_todo) {
      scan_package.insert(t.package);
''', '''    std::set<BazelPackage> scan_package;
    for (const BazelTarget &t : deps_to_resolve_todo) {
      if (!already_scanned.insert(t.package).second &&
          !scan_package.contains(t.package)) {
        continue;
      }
      scan_package.insert(t.package);
'''), ('bant/explore/dependency-graph.cc', '  std::set<BazelTarget> deps_to_resolve_todo;\n', '  std::set<BazelTarget> deps_to_resolve_todo;\n  std::set<BazelPackage> already_scanned;\n')],
 demo='''
mkdir a b
cat > a/BUILD <<X
cc_library(name = "one", deps = ["//b:two"])
cc_library(name = "three", deps = ["//b:four"])
X
cat > b/BUILD <<X
cc_library(name = "two", deps = ["//a:three"])
cc_library(name = "four")
X
"$BANT" depends-on -r //a:one > out
grep -q '^//a:one *//b:two' out || fail "first"
grep -q '^//a:three *//b:four' out || fail "not followed"
'''),
dict(id='c17-not-generated-yet', property='C17', kind='bant',
 needs='a target with a source created by a genrule which has not been run yet',
 breaks='Sources that are not there yet are taken for sources without any #include, so dependencies are removed.',
 edits=[('bant/tool/dwyu.cc', """        info_out << "; Run genrule `bazel build " << from_genrule->second
                 << "` first.\\n";
      } else {
        info_out << " -- Missing ?\\n";
      }
      *all_headers_accounted_for = false;
      continue;""", """        info_out << "; Run genrule `bazel build " << from_genrule->second
                 << "` first.\\n";
        continue;
      }
      info_out << " -- Missing ?\\n";
      *all_headers_accounted_for = false;
      continue;""")],
 demo='''
touch x.h
cat > BUILD <<X
cc_library(name = "a", hdrs = ["x.h"])
genrule(name = "g", outs = ["t.cc"], cmd = "")
cc_library(name = "t", srcs = ["t.cc"], deps = [":a"])
X
"$BANT" dwyu //:t > out 2>err
[ -s out ] && { cat out; fail "removal without knowing the source"; }
true
'''),
dict(id='c18-seen-spelling', property='C18', kind='bant',
 needs='two targets of the same package with the same not canonical dependency',
 breaks='Each not canonical spelling is only reported for the first target of a package.',
 edits=[('bant/tool/canon-targets.cc', '        const auto deps = query::ExtractStringList(target.deps_list);\n        for (const std::string_view dep_str : deps) {\n          stats.count++;',
         '        const auto deps = query::ExtractStringList(target.deps_list);\n        for (const std::string_view dep_str : deps) {\n          if (!checked.insert(dep_str).second) continue;\n          stats.count++;'),
        ('bant/tool/canon-targets.cc', '    const BazelPackage &current_package = parsed_package->package;\n', '    const BazelPackage &current_package = parsed_package->package;\n    std::set<std::string_view> checked;\n'),
        ('bant/tool/canon-targets.cc', '#include <string_view>\n', '#include <set>\n#include <string_view>\n')],
 demo='''
cat > BUILD <<X
cc_library(name = "base")
cc_library(name = "a", deps = ["//:base"])
cc_library(name = "b", deps = ["//:base"])
X
"$BANT" canonicalize //... > out
grep -q '//:a$' out && grep -q '//:b$' out || fail "edit missing"
'''),
dict(id='c19-wide-column', property='C19', kind='bant',
 needs='a value longer than 80 characters in a column that is not the last',
 breaks='Column widths are limited, so that long values run into the next column.',
 edits=[('bant/util/table-printer.cc', 'widths_[i] = std::max(widths_[i], (int)row[i].length());', 'widths_[i] = std::clamp((int)row[i].length(), widths_[i], 80);')],
 demo='''
L=$(printf 'x%.0s' $(seq 90))
echo "cc_library(name = \\"$L\\", deps = [\\":b\\"])
cc_library(name = \\"b\\")" > BUILD
"$BANT" depends-on -r1 //... > out
grep -q "^//:$L  *//:b *$" out || fail "columns run together"
'''),
dict(id='c21-prefix-project', property='C21', kind='bant',
 needs='a reference to a project that does not exist, while there is one whose name starts with it',
 breaks='External projects are also found by a prefix of their name.',
 edits=[('bant/workspace.cc', 'if (found->first.project != name) return', 'if (!found->first.project.starts_with(name)) return')],
 demo='''
mkdir -p main/bazel-out/a/b external/foobar; mkdir -p x/y/z/external
cd main; : > MODULE.bazel
mkdir -p "$T/base/external/foobar~1.0" "$T/base/execroot/main/bazel-out"
ln -sfn "$T/base/execroot/main/bazel-out" bazel-out2; rm -rf bazel-out
ln -s "$T/base/execroot/main/bazel-out" bazel-out
echo 'cc_library(name = "l")' > "$T/base/external/foobar~1.0/BUILD"
echo 'cc_library(name = "a", deps = ["@foo//:l"])' > BUILD
[ -n "$("$BANT" list-packages @foobar//...)" ] || fail "project itself"
[ -z "$("$BANT" list-packages @foo//... 2>/dev/null)" ] || fail "wrong project"
'''),
dict(id='c23-line-reference', property='C23', kind='bant',
 needs='a worker thread of the prewarm getting to a file entry only after the main thread went on to the next line',
 breaks='The worker refers to the buffer of the line that the main thread keeps changing.',
 edits=[('bant/util/filesystem-prewarm-cache.cc', 'pool_->ExecAsync([line]() {\n          const int', 'pool_->ExecAsync([&line]() {\n          const int')],
 demo='''
mkdir -p "$HOME/.cache/bant" a; echo 'cc_library(name = "x")' > a/BUILD
rm -rf "$T/obj"; cd "$REPO"; SAN="-fsanitize=thread -g"; build_bant; cd "$T/p"
export TSAN_OPTIONS=exitcode=66
"$BANT" print //... >/dev/null 2>"$T/err" || true
f=$(ls "$HOME/.cache/bant/"fs-warm-*)
for i in $(seq 300); do echo "F$T/p/some/where/file-$i"; done > "$f"
cp "$f" "$T/saved"
for i in 1 2 3; do
  cp "$T/saved" "$f"
  "$BANT" print //... >/dev/null 2>"$T/err"; rc=$?
  grep -q "unexpected memory mapping" "$T/err" && die tsan
  [ $rc = 0 ] || { head -20 "$T/err"; fail "race"; }
done
'''),
dict(id='c23-exit-unlocked', property='C23', kind='bant',
 needs='the pool being told to end just while a worker is between testing its condition and going to sleep',
 breaks='The flag to end is set without the lock: a data race, and a worker can miss it and never end.',
 edits=[('bant/util/filesystem-prewarm-cache.cc', '    lock_.lock();\n    exiting_ = true;\n    lock_.unlock();\n', '    exiting_ = true;\n')],
 demo='''
mkdir -p "$HOME/.cache/bant" a; echo 'cc_library(name = "x")' > a/BUILD
rm -rf "$T/obj"; cd "$REPO"; SAN="-fsanitize=thread -g"; build_bant; cd "$T/p"
export TSAN_OPTIONS=exitcode=66
"$BANT" print //... >/dev/null 2>"$T/err" || true
for i in 1 2 3 4 5; do
  timeout 60 "$BANT" print //... >/dev/null 2>"$T/err"; rc=$?
  grep -q "unexpected memory mapping" "$T/err" && die tsan
  [ $rc = 0 ] || { head -20 "$T/err"; fail "race or hang"; }
done
'''),
dict(id='c16-proto-last', property='C16', kind='bant',
 needs='a proto_library without sources providing a header, before another one in the package',
 breaks='Looking for headers of proto libraries ends at the first proto library of a package that is not used for C++.',
 edits=[('bant/explore/header-providers.cc', '''        if (found_cc_proto_lib == lookup_lib.end()) {
          continue;
        }
''', '''        if (found_cc_proto_lib == lookup_lib.end()) {
          return;
        }
''')],
 demo='''
cat > BUILD <<X
proto_library(name = "p", srcs = ["p.proto"])
cc_grpc_library(name = "p_grpc", srcs = [":p"])
X
"$BANT" lib-headers //... > out
grep -q 'p.grpc.pb.h *//:p_grpc' out || { cat out; fail "header missing"; }
'''),
dict(id='c09-tilde-path', property='C09', kind='bant',
 needs='a label of an external project without version with a tilde in the package path',
 breaks='A tilde anywhere is taken for the start of the version of the project.',
 edits=[('bant/types-bazel.cc', '''    project = str.substr(0, str.find_first_of('/'));
    path = str.substr(project.length());''', '''    project = str.substr(0, str.find_first_of("/~"));
    path = str.substr(std::min(str.find_first_of('/'), str.length()));'''),
  ('bant/types-bazel.cc', '  while (!path.empty() && path.back() == \'/\') path.remove_suffix(1);', '''  while (!path.empty() && path.back() == '/') path.remove_suffix(1);
  if (!project.empty()) path = path.substr(0, path.find_first_of('~'));'''),
 ],
 demo='''
cat > BUILD <<X
cc_library(name = "a", deps = ["@foo~1.2//bar:baz", "@foo//x~y:z"])
X
"$BANT" depends-on -r1 //:a > out
grep -q '@foo//bar:baz' out || fail "version"
grep -q '@foo//x~y:z' out || { cat out; fail "path"; }
'''),
dict(id='c14-default-vis-nested', property='C14', kind='lib',
 needs='a package() call after the first target',
 breaks='The default visibility of a later package() is handed to targets found before.',
 edits=[('bant/explore/query-utils.cc', '''    if (current_.visibility == nullptr) {
      current_.visibility = package_default_visibility_;
    }''', '''    if (current_.visibility == nullptr || current_.visibility->empty()) {
      current_.visibility = package_default_visibility_;
    }''')],
 cc='''#include "bant/explore/query-utils.h"
#include "bant/frontend/named-content.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
#include <iostream>
int main() {
  bant::Arena arena(4096);
  bant::NamedLineIndexedContent c("x", R"(
package(default_visibility = ["//visibility:public"])
cc_library(name = "a")
cc_library(name = "b", visibility = [])
)");
  bant::Scanner s(c);
  bant::Parser p(&s, &arena, std::cerr);
  auto *ast = p.parse();
  int n = 0;
  bant::query::FindTargets(ast, {}, [&](const bant::query::Result &r) {
    if (bant::query::ExtractStringList(r.visibility).size() == (r.name == "a")) ++n;
  });
  return n != 2;
}
''', demo='"$BANT" || fail "visibility"'),
dict(id='c22-basename-once', property='C22', kind='bant',
 needs='a target whose first include directory is also one of another target, and which has further ones',
 breaks='Further include directories of a target are left out after one that is known already.',
 edits=[('bant/tool/compilation-db.cc', '''          if (!already_seen.insert(inc_path).second) {
            continue;
          }
''', '''          if (!already_seen.insert(inc_path).second) {
            break;
          }
''')],
 demo='''
cat > BUILD <<X
cc_library(name = "a", srcs = ["a.cc"], includes = ["inc"])
cc_library(name = "b", srcs = ["b.cc"], includes = ["inc", "other"])
X
"$BANT" compile-flags //... > out
grep -q other out || { cat out; fail "include directory missing"; }
'''),
]
SEEDS += [
dict(id='c27-in-place', property='C27', kind='tidy',
 needs='the process dying between opening and completely writing the result of a file',
 breaks='The result is written directly to its final place in the cache, so dying while doing that leaves an empty result that is taken for "no findings" from then on.',
 edits=[('scripts/run-clang-tidy-cached.cc', '''        RepairFilenameOccurences(tmp_out, tmp_out);
        fs::rename(tmp_out, final_out);  // atomic replacement''', '''        RepairFilenameOccurences(tmp_out, final_out);
        fs::remove(tmp_out);''')],
 demo=r'''
cat > "$T/die.c" <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
static void look(int fd) {
  char p[64], b[4096];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(p, b, sizeof b - 1);
  if (n <= 0) return;
  b[n] = 0;
  if (strstr(b, "/contents/") && !strstr(b, ".tmp")) kill(getpid(), SIGKILL);
}
ssize_t write(int fd, const void *b, size_t n) {
  look(fd);
  return ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  look(fd);
  return ((ssize_t (*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev"))(fd, v, n);
}
X
gcc -w -shared -fPIC -o "$T/die.so" "$T/die.c" -ldl || die compile
echo 'int x; // TODO(a-b)' > bant/x.cc
( LD_PRELOAD="$T/die.so" "$T/runtidy" >/dev/null 2>&1 ) 2>/dev/null
"$T/runtidy" >/dev/null 2>&1
grep -q "a-b" bant_clang-tidy.out || fail "finding lost"
'''),
dict(id='c18-count-wrap', property='C18', kind='bant',
 needs='a multiple of 256 edits',
 breaks='The number of edits is counted in a byte, so the exit code says "nothing to do" for 256 edits.',
 edits=[('bant/tool/canon-targets.cc', '  size_t edit_counts = 0;', '  unsigned char edit_counts = 0;')],
 demo='''
{ echo 'cc_library(name = "base")'
for i in $(seq 256); do echo "cc_library(name = \\"a$i\\", deps = [\\"//:base\\"])"; done; } > BUILD
"$BANT" canonicalize //... > out; rc=$?
[ $(wc -l < out) = 256 ] || fail edits
[ $rc = 3 ] || fail "exit code $rc"
'''),
]
