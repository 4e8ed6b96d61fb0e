SEEDS = [
dict(id='c31-index-first', property='C31', kind='bant',
 needs='a source with several includes, of which not the first is the problem',
 breaks='Lines are only counted up to the first include, so locations of the following ones are wrong.',
 edits=[('bant/tool/dwyu.cc', 'result.back().end() - src->content().begin()', 'result.front().end() - src->content().begin()')],
 demo='''
mkdir a; cat > a/BUILD <<X
cc_library(name = "k", hdrs = ["k.h"])
cc_library(name = "u", srcs = ["u.cc"], deps = [":k"])
X
printf '#include "a/k.h"\\nint x;\\n\\n#include "k.h"\\n' > a/u.cc
touch a/k.h
"$BANT" dwyu //... > out 2>&1
grep -q 'relative' out || { cat out; die "no message"; }
grep -q '^a/u.cc:4:11-13:' out || { cat out; fail "wrong location"; }
'''),
dict(id='c31-still-referenced', property='C31', kind='bant',
 needs='a target with several sources of which not the last has a problem',
 breaks='Sources without problems are reported if a source before has some.',
 edits=[('bant/tool/dwyu.cc', '    // There migth be multiple complaints about various includes found\n    // in the same file. If so, only print reference to BUILD file once.\n    bool need_in_source_referenced_message = false;\n', ''),
        ('bant/tool/dwyu.cc', '  for (const std::string_view src_name : sources) {\n    const std::string source_file =', '  bool need_in_source_referenced_message = false;\n  for (const std::string_view src_name : sources) {\n    const std::string source_file =')],
 demo='''
mkdir a; cat > a/BUILD <<X
cc_library(name = "k", hdrs = ["k.h"])
cc_library(name = "u", srcs = ["u.cc", "v.cc"], deps = [":k"])
X
echo '#include "k.h"' > a/u.cc
echo '#include "a/k.h"' > a/v.cc
touch a/k.h
"$BANT" dwyu //... > out 2>&1
grep -q 'u.cc.*referenced' out || { cat out; die "no message"; }
grep -q 'v.cc.*referenced' out && { cat out; fail "not a problem"; }
true
'''),
dict(id='c31-twice-at-name', property='C31', kind='bant',
 needs='a dependency in the list twice',
 breaks='The wrong place is reported for dependencies that are there twice.',
 edits=[('bant/tool/dwyu.cc', '        project_.Loc(session_.info(), dependency_target)\n          << " in target " << target << ": dependency " << dependency_target\n          << " same',
  '        project_.Loc(session_.info(), deps.front())\n          << " in target " << target << ": dependency " << dependency_target\n          << " same')],
 demo='''
cat > BUILD <<X
cc_library(name = "k", hdrs = ["k.h"])
cc_library(name = "u", srcs = ["u.cc"], deps = [
  ":k",
  ":k",
])
X
touch k.h; echo '#include "k.h"' > u.cc
"$BANT" dwyu //... > out 2>&1
grep -q 'multiple times' out || { cat out; die "no message"; }
grep -q '^./BUILD:4:.*multiple times' out || { cat out; fail "wrong location"; }
'''),
dict(id='c31-generated-root', property='C31', kind='bant',
 needs='a header generated in a package with at least two path elements',
 breaks='Generated headers in deeper directories are not recognized as such.',
 edits=[('bant/explore/header-providers.cc', 'const auto gen_fqn = file_content->package.QualifiedFile(generated);', 'const auto gen_fqn = BazelPackage("", file_content->package.path.substr(0, file_content->package.path.find(\'/\'))).QualifiedFile(generated);')],
 demo='''
mkdir -p a/b
for d in a a/b; do cat > $d/BUILD <<X
genrule(name = "g", outs = ["gen.h"])
cc_library(name = "u", srcs = ["u.cc"])
X
echo "#include \\"$d/gen.h\\"" > $d/u.cc; done
"$BANT" dwyu //... > out 2>&1
grep -q '^a/u.cc:1:.*//a:g' out || { cat out; die "no message"; }
grep -q '^a/b/u.cc:1:.*//a/b:g' out || { cat out; fail "not reported"; }
'''),
dict(id='c31-quiet-errors', property='C31', kind='bant',
 needs='more than one file with syntax errors',
 breaks='Syntax errors are only reported for the first file that has some.',
 edits=[('bant/frontend/parsed-project.cc', '    message_out.error() << error_collect.str();\n', '    if (error_count_ == 0) message_out.error() << error_collect.str();\n')],
 demo='''
mkdir -p a b; echo 'X = $' | tee a/BUILD > b/BUILD
"$BANT" print //... > out 2>&1
grep -q 'a/BUILD:1:5' out || grep -q 'b/BUILD:1:5' out || { cat out; die "no message"; }
grep -q 'a/BUILD:1:5' out && grep -q 'b/BUILD:1:5' out || { cat out; fail "not reported"; }
'''),
]
