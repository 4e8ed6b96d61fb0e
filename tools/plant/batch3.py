SEEDS = [
dict(id='c30-nameless-all', property='C30', kind='bant',
 needs='a pattern that is not recursive, and a rule without name in the package',
 breaks='Rules without a name are shown for patterns that ask for certain targets.',
 edits=[('bant/frontend/parsed-project.cc', 'if (!maybe_target.has_value() || !pattern.Match(*maybe_target)) {',
         'if (maybe_target.has_value() && !pattern.Match(*maybe_target)) {')],
 demo='''
cat > BUILD <<X
cc_library(name = "a")
my_macro(srcs = ["x"])
cc_library(name = "b")
X
"$BANT" print //:a > out
grep -q '"a"' out || fail "not shown"
grep -q my_macro out && fail "something else is shown"
true
'''),
dict(id='c30-vis-stop', property='C30', kind='bant',
 needs='a visibility with an element that is not a literal, followed by more',
 breaks='The visibility shown above a target ends at the first element that is not a literal.',
 edits=[('bant/frontend/parsed-project.cc', '    if (!s) continue;\n    out << " " << s->AsString();',
         '    if (!s) break;\n    out << " " << s->AsString();')],
 demo='''
cat > BUILD <<X
cc_library(name = "a", visibility = ["//x:__pkg__", OTHERS, "//y:__pkg__"])
X
"$BANT" print //:a | head -1 > out
grep -q '^# .*//x:__pkg__' out || fail "not shown"
grep -q '^# .*//y:__pkg__' out || { cat out; fail "incomplete"; }
'''),
dict(id='c30-mark-first', property='C30', kind='bant',
 needs='a terminal and a string in which the regular expression matches more than once',
 breaks='Only the first match in each string is highlighted.',
 edits=[('bant/frontend/print-visitor.cc', '    while (RE2::FindAndConsume(&print_str, *highlight_re_, &highlight)) {',
         '    while (last_end == print_str.data() &&\n           RE2::FindAndConsume(&print_str, *highlight_re_, &highlight)) {'),
        ('bant/frontend/print-visitor.cc', '      any_highlight_ = true;\n      last_end = print_str.data();\n', '      any_highlight_ = true;\n      last_end = print_str.data();\n      break;\n')],
 demo='''
cat > BUILD <<X
cc_library(name = "say foo and foo")
X
script -qec "$BANT print -g foo //..." /dev/null > out < /dev/null
grep -q 'cc_library' out || die "not shown"
[ $(grep -o "$(printf '\\033')\\[7mfoo" out | wc -l) = 2 ] || fail "not highlighted"
'''),
dict(id='c06-raw-escape', property='C06', kind='bant',
 needs='a raw string with a backslash that is not part of \\\\n or \\\\t',
 breaks='Raw strings are printed as such only if they contain something that looks like newline or tab.',
 edits=[('bant/frontend/print-visitor.cc', 'if (str->is_raw()) out_ << "r";',
         r'if (str->is_raw() && (str->AsString().contains("\\n") || str->AsString().contains("\\t"))) out_ << "r";')],
 demo=r'''
cat > BUILD <<X
cc_library(name = "a", copts = [r"x\\\\y", r"a\\nb"])
X
"$BANT" print //:a > out
grep -qF 'r"a\nb"' out || fail "first"
grep -qF 'r"x\\y"' out || { cat out; fail "no raw string anymore"; }
'''),
dict(id='c06-nested-tuple', property='C06', kind='bant',
 needs='a tuple with one element inside of another list',
 breaks='The comma is missing in nested tuples with one element, which makes them the element itself.',
 edits=[('bant/frontend/print-visitor.cc', '  if (l->type() == List::Type::kTuple && l->size() == 1) {',
         '  if (l->type() == List::Type::kTuple && l->size() == 1 && indent_ < 12) {')],
 demo='''
cat > BUILD <<X
cc_library(name = "a", x = (1,), y = [2, [3, (4,)]])
X
"$BANT" print //:a > out
grep -q '(1,)' out || fail "first"
grep -q '(4,)' out || fail "nested"
'''),
dict(id='c20-second-pattern', property='C20', kind='bant',
 needs='a command line with two patterns',
 breaks='A second pattern is silently ignored.',
 edits=[('bant/cli-commands.cc', '  if (!args.empty()) {\n    // TODO: read a list', '  if (args.size() > 1) {\n    // TODO: read a list')],
 demo='''
mkdir a b; touch a/BUILD b/BUILD
"$BANT" list-packages //a >/dev/null 2>&1 || fail "one pattern"
"$BANT" list-packages //a //b >/dev/null 2>&1 && fail "two patterns"
true
'''),
dict(id='c20-long-ambiguous', property='C20', kind='bant',
 needs='an ambiguous prefix of a command of at least five characters',
 breaks='Ambiguous prefixes are accepted if they are long.',
 edits=[('bant/cli-commands.cc', '          next_command->first.starts_with(cmd_string)) {', '          next_command->first.starts_with(cmd_string) &&\n          cmd_string.length() < 5) {')],
 demo='''
touch BUILD
"$BANT" lis >/dev/null 2>&1 && fail "short"
"$BANT" list-t >/dev/null 2>&1 || fail "unique"
"$BANT" list- >/dev/null 2>&1 && fail "ambiguous"
true
'''),
dict(id='c29-glob-error', property='C29', kind='bant',
 needs='glob() failing for another reason than that there is nothing (memory)',
 breaks='A failing glob() makes the tool crash.',
 edits=[('bant/util/file-utils.cc', 'if (glob(pattern.c_str(), 0, nullptr, &glob_list) != 0) {', 'if (glob(pattern.c_str(), 0, nullptr, &glob_list) == GLOB_NOMATCH) {')],
 demo='''
echo 'cc_library(name = "a")' > BUILD
cat > "$T/g.c" <<X
#include <glob.h>
#include <string.h>
int glob(const char *p, int f, int (*e)(const char *, int), glob_t *g) {
  memset(g, 0, sizeof(*g));
  return GLOB_NOSPACE;
}
X
gcc -shared -fPIC "$T/g.c" -o "$T/g.so" || die stub
"$BANT" list-targets > out 2>&1 || fail "without"
LD_PRELOAD="$T/g.so" "$BANT" list-targets > out 2>&1; rc=$?
[ $rc -lt 128 ] || fail "crash $rc"
'''),
dict(id='c01-select-item', property='C01', kind='bant',
 needs='select() with a map whose elements are no key/value pairs, and elaboration',
 breaks='The tool crashes.',
 edits=[('bant/frontend/elaboration.cc', "        if (!map_item || map_item->op() != ':') continue;", "        if (map_item->op() != ':') continue;")],
 demo='''
cat > BUILD <<X
cc_library(name = "a", srcs = select({"//conditions:default": ["x"]}))
X
"$BANT" print -e //:a > out 2>&1; rc=$?
[ $rc -lt 128 ] || fail "crash $rc"
for x in '{"a"}' '{"a", "b": 1}' '{a.b}' '{-1}' '{"a": 1, c}' '{f()}' '{[1]}'; do
  echo "cc_library(name = \\"a\\", srcs = select($x))" > BUILD
  "$BANT" print -e //:a > out 2>&1; rc=$?
  [ $rc -lt 128 ] || fail "crash $rc"
done
'''),
dict(id='c10-dot-dirs', property='C10', kind='bant',
 needs='a package in a directory starting with a dot',
 breaks='Recursive patterns do not see packages in directories starting with a dot.',
 edits=[('bant/frontend/parsed-project.cc', '    if (filename == ".git") return false;', '''    if (filename.starts_with('.')) return false;''')],
 demo='''
mkdir -p .github a
echo 'cc_library(name = "x")' > .github/BUILD
echo 'cc_library(name = "y")' > a/BUILD
"$BANT" list-targets //... > out
grep -q '//a:y' out || fail "first"
grep -q '//.github:x' out || fail "not found"
'''),
dict(id='c21-first-version', property='C21', kind='bant',
 needs='a project declared by the workspace that also is present with another version as directory',
 breaks='Directories replace what was declared.',
 edits=[('bant/workspace.cc', '    if (!workspace.FindPathByProject(project_or->project)) {', '    if (workspace.project_location.find(*project_or) ==\n        workspace.project_location.end()) {')],
 demo='''
mkdir -p bazel-out/../x; rm -rf bazel-out
mkdir -p base/execroot/ws/bazel-out base/external/foo~2/ base/external/foo~1
ln -s base/execroot/ws/bazel-out bazel-out
echo 'bazel_dep(name = "foo", version = "2")' > MODULE.bazel
echo 'cc_library(name = "two")' > base/external/foo~2/BUILD
echo 'cc_library(name = "one")' > base/external/foo~1/BUILD
"$BANT" list-targets @foo//... > out 2>&1
grep -q '@foo//:two' out || { cat out; fail "wrong directory"; }
'''),
]
