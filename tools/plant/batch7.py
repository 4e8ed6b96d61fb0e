SEEDS = [
dict(id='c10-tmp-suffix', property='C10', kind='bant',
 needs='a package in a directory whose name just ends like the name of one that is skipped',
 breaks='Packages below directories like my_tmp are not selected by recursive patterns.',
 edits=[('bant/frontend/parsed-project.cc', 'if (filename == "_tmp") return false;', 'if (filename.ends_with("_tmp")) return false;')],
 demo='''
mkdir -p a/my_tmp a/b
echo 'cc_library(name = "x")' > a/my_tmp/BUILD
echo 'cc_library(name = "y")' > a/b/BUILD
"$BANT" list-targets //a/... > out 2>/dev/null
grep -q '//a/b:y' out || { cat out; die "nothing"; }
grep -q '//a/my_tmp:x' out || { cat out; fail "not selected"; }
'''),
dict(id='c10-build-dir', property='C10', kind='bant',
 needs='a package below a directory with a name that starts with BUILD',
 breaks='The name of the package is cut off at the first directory that starts with BUILD.',
 edits=[('bant/frontend/parsed-project.cc', "file = file.substr(0, file.find_last_of('/'));  // Remove BUILD-file", 'file = file.substr(0, file.find("/BUILD"));  // Remove BUILD-file')],
 demo='''
mkdir -p a/BUILDS/c
echo 'cc_library(name = "x")' > a/BUILDS/c/BUILD
echo 'cc_library(name = "y")' > a/BUILD
"$BANT" list-targets //a/... > out 2>/dev/null
grep -q '//a:y' out || { cat out; die "nothing"; }
grep -q '//a/BUILDS/c:x' out || { cat out; fail "wrong package"; }
'''),
dict(id='c22-include-key', property='C22', kind='bant',
 needs='two packages that list the same package-relative directory in includes',
 breaks='Only the include directory of the first of these packages is emitted.',
 edits=[('bant/tool/compilation-db.cc', 'if (!already_seen.insert(inc_path).second) {', 'if (!already_seen.insert(std::string(inc_dir)).second) {')],
 demo='''
mkdir a b
for i in a b; do
  echo 'cc_library(name = "x", srcs = ["x.cc"], includes = ["include"])' > $i/BUILD
done
"$BANT" compile-flags //... > out 2>/dev/null
grep -q '^-Ia/include' out || { cat out; die "nothing"; }
grep -q '^-Ib/include' out || { cat out; fail "missing"; }
'''),
dict(id='c24-linked-source', property='C24', kind='tidy',
 needs='a source that is a symbolic link to a file kept elsewhere',
 breaks='Symbolic links are not looked at, so that findings are missing.',
 edits=[('scripts/run-clang-tidy-cached.cc', 'if (!fs::is_regular_file(p)) {', 'if (!fs::is_regular_file(dir_entry.symlink_status())) {')],
 demo='''
mkdir kept
echo '// TODO(a-b)' > kept/x.cc
echo '// TODO(c-d)' > bant/y.cc
ln -s ../kept/x.cc bant/x.cc
"$T/runtidy" >/dev/null 2>&1
grep -q "c-d" *clang-tidy.out || die "nothing"
grep -q "a-b" *clang-tidy.out || fail "missing"
'''),
dict(id='c26-stale-summary', property='C26', kind='tidy',
 needs='a summary of an earlier run with another version or configuration',
 breaks='The name of the summary keeps referring to the one of the earlier run.',
 edits=[('scripts/run-clang-tidy-cached.cc', '    fs::remove(symlink_summary, ignored_error);\n', '')],
 demo='''
echo '// TODO(a-b)' > bant/x.cc
"$T/runtidy" >/dev/null 2>&1
grep -q "1 .a-b" *clang-tidy.summary || die "nothing"
export FAKE_VERSION=19.1.0
echo '// TODO(c-d)' > bant/x.cc
"$T/runtidy" >/dev/null 2>&1
grep -q "c-d" *clang-tidy.out || die "nothing"
grep -q "c-d" *clang-tidy.summary || fail "old summary"
'''),
dict(id='c32-own-header-first', property='C32', kind='bant',
 needs='a source that includes a header of its own target before others',
 breaks='What is included after the own header is not looked at; it depends on the order of the includes what is suggested.',
 edits=[('bant/tool/dwyu.cc', 'continue;  // Cool, our own list srcs=[...], hdrs=[...]', 'break;  // Cool, our own list srcs=[...], hdrs=[...]')],
 demo='''
mkdir -p a b
cat > a/BUILD <<X
cc_library(name = "a", srcs = ["a.cc"], hdrs = ["a.h"])
X
cat > b/BUILD <<X
cc_library(name = "b", hdrs = ["b.h"], visibility = ["//visibility:public"])
X
touch a/a.h b/b.h
printf '#include "b/b.h"\\n#include "a.h"\\n' > a/a.cc
"$BANT" dwyu //... > out1 2>/dev/null
grep -q 'add deps //b' out1 || { cat out1; die "nothing"; }
printf '#include "a.h"\\n#include "b/b.h"\\n' > a/a.cc
"$BANT" dwyu //... > out2 2>/dev/null
cmp out1 out2 || fail "depends on the order"
'''),
dict(id='c12-file-left-open', property='C12', kind='bant',
 needs='a project with more files than may be open at a time',
 breaks='Files that are read are never closed, so that from some file on nothing can be read.',
 edits=[('bant/util/file-utils.cc', 'const absl::Cleanup fd_closer = [fd]() { close(fd); };', '')],
 demo='''
for i in $(seq 150); do
  mkdir d$i; echo 'cc_library(name = "x")' > d$i/BUILD
done
ulimit -n 100
"$BANT" list-targets //d1:all > out 2>/dev/null
grep -q '//d1:x' out || { cat out; die "nothing"; }
"$BANT" list-targets //... > out 2>/dev/null
[ $(wc -l < out) = 150 ] || fail "only $(wc -l < out)"
'''),
dict(id='c23-dir-left-open', property='C23', kind='bant',
 needs='a remembered state of more directories than files may be open at a time',
 breaks='The background threads leave directories open, until nothing else can be opened anymore.',
 edits=[('bant/util/filesystem-prewarm-cache.cc', '            closedir(dir);\n', '')],
 demo='''
for i in $(seq 1500); do
  mkdir d$i; echo 'cc_library(name = "x")' > d$i/BUILD
done
ulimit -n 100
"$BANT" list-targets //... > out 2>/dev/null
[ $(wc -l < out) = 1500 ] || die "nothing"
mkdir -p "$HOME/.cache/bant"
for i in 1 2 3 4 5; do
  "$BANT" list-targets //... > out 2>/dev/null
  [ $(wc -l < out) = 1500 ] || fail "only $(wc -l < out)"
done
'''),
]
