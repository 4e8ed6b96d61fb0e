"""BUILD files that are hostile: rules with attributes of unexpected type,
broken syntax, nested too deep, arbitrary bytes."""
from vlib import gen_build, lexgen

RULES = ['cc_library', 'cc_binary', 'cc_test', 'cc_proto_library', 'alias',
         'genrule', 'proto_library', 'package', 'glob', 'select', 'bazel_dep',
         'load', 'filegroup', 'cc_import', 'grpc_cc_library', 'tool', 'x',
         'test_suite', 'package_group', 'exports_files', 'cc_shared_library',
         'upb_proto_library', 'upb_c_proto_library', 'bant_cc_library']
ATTRS = ['name', 'srcs', 'hdrs', 'deps', 'visibility', 'default_visibility',
         'outs', 'includes', 'include_prefix', 'strip_include_prefix',
         'alwayslink', 'testonly', 'actual', 'textual_hdrs', 'public_hdrs',
         'deprecation', 'version', 'repo_name', 'exclude', 'include', 'cmd',
         'copts', 'defines', 'implementation_deps', 'data', 'tags']
LABELS = [':a', 'a', ':b', '//p0:a', '//p0', '//p1:b', '//p2/p3:c', '@x//:y',
          '@x', '//...', '//', '/', ':', '', '@', '@//', '@x//', '::', 'a:b',
          'a:b:c', '//p0:a:b', '//p0//a', '///', '@@x//y:z', '//p0:', '...',
          'a.cc', 'a.h', 'sub/a.h', '../x.h', '*.cc', '**/*.cc', '**', '*',
          '[', '(', '\\\\', 'a*b*', '//visibility:public', '@x~1.2//y',
          '//visibility:private', '//p0:__pkg__', '//p0:__subpackages__',
          ':__pkg__', '//conditions:default', 'a.pb.h', '.', '..', './a.cc',
          '//p0:a.proto', 'b.proto', 'c.proto', '/abs', '@x//p:*', '//p0:*',
          '.pb.h', '%', '\\n', '\xff', ' ', '#', '{}', "'", '//:a', '~']


class Chaos(gen_build.Gen):
    def string(self):
        r = self.r
        if r.random() < .8:
            q = '"'
            t = q + r.choice(LABELS) + q
            return ('str', t[1:-1], False, False, t)
        return gen_build.Gen.string(self)

    def ident(self):
        r = self.r
        return ('id', r.choice(['A', 'B', 'True', 'False', 'None', 'x', 'glob',
                                'select', 'PACKAGE_NAME', 'a_b']))

    def attr(self, a):
        r = self.r
        if r.random() < .35:
            e = self.expr(r.choice([0, 1, 2]))
        elif a in ('name', 'actual', 'include_prefix', 'strip_include_prefix',
                   'version', 'repo_name'):
            e = self.string()
        elif a in ('alwayslink', 'testonly'):
            e = r.choice([self.number, self.ident])()
        else:
            e = ('list',) + tuple(self.string()
                                  for _ in range(r.choice([0, 1, 2, 5])))
            k = r.randrange(8)
            if k == 0:
                e = ('bin', '+', e, r.choice([self.glob, self.select])())
            elif k == 1: e = self.glob()
            elif k == 2: e = self.select()
        return ('assign', ('id', a), e)

    def glob(self):
        r = self.r
        args = [('list',) + tuple(self.string() for _ in range(r.randrange(3)))
                for _ in range(r.choice([0, 1, 1, 2]))]
        if r.random() < .4:
            args.append(self.attr(r.choice(['include', 'exclude', 'name'])))
        return ('call', 'glob') + tuple(args)

    def select(self):
        r = self.r
        m = ('map',) + tuple((self.expr(0), self.expr(1))
                             for _ in range(r.choice([0, 1, 2, 3])))
        if r.random() < .5:
            m += ((('str', '//conditions:default', False, False,
                    '"//conditions:default"'), self.expr(1)),)
        args = (m,)
        if r.random() < .2:
            args = (self.expr(1),)
        return ('call', 'select') + args

    def rule(self):
        r = self.r
        args = [self.attr(r.choice(ATTRS if r.random() < .8 else
                                   ['name', 'srcs', 'deps', 'hdrs']))
                for _ in range(r.choice([0, 1, 3, 5, 8]))]
        if r.random() < .8:
            args.insert(0, ('assign', ('id', 'name'),
                            self.string() if r.random() < .9
                            else self.expr(1)))
        if r.random() < .1:
            args.append(self.expr(2))
        return ('call', r.choice(RULES)) + tuple(args)

    def statement(self):
        r = self.r
        k = r.random()
        if k < .6: return self.rule()
        if k < .8: return ('assign', self.ident(), self.expr(2))
        if k < .85:
            return ('comp', 'list', self.rule(), ((self.ident(),),
                                                  self.expr(1)))
        if k < .9: return ('list', self.rule(), self.rule())
        return gen_build.Gen.statement(self)


def cut_tokens(r, s):
    """Edits on token level."""
    import re
    toks = re.findall(r'\s+|\w+|"[^"\n]*"|.', s, re.S)
    for _ in range(r.randrange(1, 4)):
        if not toks: break
        i = r.randrange(len(toks))
        k = r.randrange(5)
        if k == 0: del toks[i]
        elif k == 1: toks.insert(i, toks[r.randrange(len(toks))])
        elif k == 2: toks = toks[:i]
        elif k == 3:
            toks[i] = r.choice([',', '(', ')', '[', ']', '{', '}', ':', '=',
                                '+', '.', '-', 'not', 'if', 'else', 'for',
                                'in', '"', '%', '$', '@', '1'])
        else:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
    return ''.join(toks)


def content(r):
    """-> (kind, text)"""
    k = r.random()
    if k < .08:
        return 'soup', lexgen.soup(r, r.choice([1, 3, 10, 100]))
    g = Chaos(r, depth=r.choice([1, 2, 3]))
    s = gen_build.Writer(r, bare=r.random() < .3).text(
        g.program(r.choice([1, 2, 4, 8])))
    if k < .4: return 'odd', s
    if k < .7: return 'tokens', cut_tokens(r, s)
    if k < .9: return 'bytes', lexgen.mutate(r, s)
    if k < .95: return 'cut', s[:r.randrange(len(s) + 1)]
    lx, _ = lexgen.lexemes(r, r.choice([5, 30]))
    return 'lexemes', lx
