SEEDS = [
dict(id='c21-internal-first', property='C21', kind='bant',
 needs='a target that depends on something of its own project before something external',
 breaks='Projects used are only listed up to the first internal reference.',
 edits=[('bant/tool/workspace.cc', 'if (project.empty() || project == current_package.project) continue;', 'if (project.empty() || project == current_package.project) break;')],
 demo='''
cat >> MODULE.bazel <<X
bazel_dep(name = "ext", version = "1")
X
mkdir -p base/execroot/_main/bazel-out base/external/ext~
ln -s $PWD/base/execroot/_main/bazel-out bazel-out
echo 'cc_library(name = "ext")' > base/external/ext~/BUILD
mkdir p; cat > p/BUILD <<X
cc_library(name = "a")
cc_library(name = "b", deps = [":a", "@ext//:ext"])
X
"$BANT" workspace //p/... > out 2>/dev/null
"$BANT" workspace > all 2>/dev/null
grep -q ext all || { cat all; die "not there"; }
grep -q ext out || { cat out; fail "not listed"; }
'''),
]
