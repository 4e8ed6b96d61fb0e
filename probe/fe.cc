// Drives scanner, parser, printer, elaboration and everything that walks the
// syntax tree, in-process and through the public headers only.
#include <fcntl.h>
#include <sys/resource.h>

#include <fstream>
#include <memory>
#include <optional>

#include "bant/explore/aliased-by.h"
#include "bant/explore/dependency-graph.h"
#include "bant/explore/header-providers.h"
#include "bant/explore/query-utils.h"
#include "bant/frontend/ast.h"
#include "bant/frontend/elaboration.h"
#include "bant/frontend/named-content.h"
#include "bant/frontend/parsed-project.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/print-visitor.h"
#include "bant/frontend/scanner.h"
#include "bant/session.h"
#include "bant/tool/canon-targets.h"
#include "bant/tool/compilation-db.h"
#include "bant/tool/dwyu.h"
#include "bant/tool/edit-callback.h"
#include "bant/tool/workspace.h"
#include "bant/types-bazel.h"
#include "bant/util/arena.h"
#include "probe.h"

using namespace probe;

namespace bant {
// The friend that may add content that is not in a file.
class ParsedProjectTestUtil {
 public:
  static ParsedBuildFile *Add(ParsedProject *p, Session *s,
                              const BazelPackage &pkg, std::string_view name,
                              std::string content) {
    return p->AddBuildFileContent(s->streams(), pkg, name, std::move(content));
  }
};
}  // namespace bant

using namespace bant;

namespace {
std::string TokName(TokenType t) {
  std::ostringstream o;
  o << t;
  return o.str();
}

// The tree as nested JSON arrays. Strings and identifiers that live in the
// source come with their offset.
class Dumper : public BaseVoidVisitor {
 public:
  explicit Dumper(std::string_view src) : src_(src) {}
  std::string out;
  void Dump(Node *n) {
    if (!WalkNonNull(n)) out += "null";
  }
  std::string Off(std::string_view s) {
    if (s.data() >= src_.data() && s.data() + s.size() <= src_.data() + src_.size())
      return N(s.data() - src_.data());
    return "-1";
  }
  void VisitAssignment(Assignment *a) final {
    out += "[\"assign\",";
    Dump(a->left());
    out += ",";
    Dump(a->value());
    out += "]";
  }
  void VisitFunCall(FunCall *f) final {
    out += "[\"call\"," + Q(f->identifier()->id()) + "," +
           Off(f->identifier()->id());
    for (Node *n : *f->argument()) {
      out += ",";
      Dump(n);
    }
    out += "]";
  }
  void VisitList(List *l) final {
    out += l->type() == List::Type::kList    ? "[\"list\""
           : l->type() == List::Type::kTuple ? "[\"tuple\""
                                             : "[\"map\"";
    for (Node *n : *l) {
      out += ",";
      Dump(n);
    }
    out += "]";
  }
  void VisitUnaryExpr(UnaryExpr *e) final {
    out += "[\"un\"," + Q(TokName(e->op())) + ",";
    Dump(e->node());
    out += "]";
  }
  void VisitBinOpNode(BinOpNode *b) final {
    out += "[\"bin\"," + Q(TokName(b->op())) + ",";
    Dump(b->left());
    out += ",";
    Dump(b->right());
    out += "]";
  }
  void VisitListComprehension(ListComprehension *lh) final {
    out += "[\"comp\",";
    out += lh->type() == List::Type::kList ? "\"list\"," : lh->type() == List::Type::kMap ? "\"map\"," : "\"tuple\",";
    Dump(lh->for_node());
    out += "]";
  }
  void VisitTernary(Ternary *t) final {
    out += "[\"tern\",";
    Dump(t->condition());
    out += ",";
    Dump(t->positive());
    out += ",";
    Dump(t->negative());
    out += "]";
  }
  void VisitScalar(Scalar *s) final {
    if (s->type() == Scalar::ScalarType::kInt) {
      out += "[\"int\"," + Q(s->AsString()) + "," + N(s->AsInt()) + "," +
             Off(s->AsString()) + "]";
    } else {
      StringScalar *str = static_cast<StringScalar *>(s);
      out += "[\"str\"," + Q(s->AsString()) + "," + B(str->is_raw()) + "," +
             B(str->is_triple_quoted()) + "," + Off(s->AsString()) + "]";
    }
  }
  void VisitIdentifier(Identifier *i) final {
    out += "[\"id\"," + Q(i->id()) + "," + Off(i->id()) + "]";
  }

 private:
  std::string_view src_;
};

std::string LocJson(const SourceLocator &l, std::string_view content,
                    std::string_view text) {
  FileLocation f = l.GetLocation(text);
  std::string_view line = l.GetSurroundingLine(text);
  long long off = -1;
  if (line.data() >= content.data() &&
      line.data() + line.size() <= content.data() + content.size())
    off = line.data() - content.data();
  const auto &r = f.line_column_range;
  std::ostringstream streamed;
  l.Loc(streamed, text);
  return "[" + Q(f.filename) + "," + N(r.start.line) + "," + N(r.start.col) +
         "," + N(r.end.line) + "," + N(r.end.col) + "," + Q(l.Loc(text)) + "," +
         Q(streamed.str()) + "," + N(off) + "," + N(line.size()) + "]";
}

// fields: [content] -> tokens with their locations
std::string Scan(const Record &r) {
  // Exact-size heap copy: reads past either end are visible to ASan.
  std::unique_ptr<char[]> buf(new char[r[0].size()]);
  memcpy(buf.get(), r[0].data(), r[0].size());
  std::string_view content(buf.get(), r[0].size());
  NamedLineIndexedContent src("dir/BUILD", content);
  Scanner scanner(src);
  std::vector<std::string> toks;
  std::vector<std::string_view> views;
  size_t limit = content.size() + 16;
  unsigned h = 0;
  for (;;) {
    // Peeking any number of times must not matter; decided by content.
    h = h * 31 + 7;
    for (unsigned i = 0; i < (h >> 3) % 3; ++i) {
      Token p = scanner.Peek();
      Token q = scanner.Peek();
      if (p.type != q.type || p.text.data() != q.text.data() ||
          p.text.size() != q.text.size())
        return "{\"error\":\"peek not stable\"}";
    }
    Token t = scanner.Next();
    if (t.text.data() < content.data() ||
        t.text.data() + t.text.size() > content.data() + content.size())
      return "{\"error\":\"token outside content\"}";
    views.push_back(t.text);
    toks.push_back("[" + Q(TokName(t.type)) + "," +
                   N(t.text.data() - content.data()) + "," + N(t.text.size()) +
                   "," + B(t.newline_since_last_token) + "]");
    if (t.type == TokenType::kEof) break;
    if (toks.size() > limit) return "{\"error\":\"no progress\"}";
  }
  // Arbitrary other pieces (offset, length) of the content.
  for (size_t i = 1; i + 1 < r.size(); i += 2)
    views.push_back(content.substr(atol(r[i].c_str()), atol(r[i + 1].c_str())));
  std::vector<std::string> locs;
  for (auto v : views) locs.push_back(LocJson(src, content, v));
  return "{\"toks\":" + Join(toks) + ",\"locs\":" + Join(locs) + "}";
}

// fields: [content, offset, length, ...]: positions without a scanner.
std::string LinesOf(const Record &r) {
  std::unique_ptr<char[]> buf(new char[r[0].size()]);
  memcpy(buf.get(), r[0].data(), r[0].size());
  std::string_view content(buf.get(), r[0].size());
  NamedLineIndexedContent src("dir/BUILD", content);
  src.mutable_line_index()->InitializeFromStringView(content);
  std::vector<std::string> locs;
  for (size_t i = 1; i + 1 < r.size(); i += 2)
    locs.push_back(LocJson(
      src, content,
      content.substr(atol(r[i].c_str()), atol(r[i + 1].c_str()))));
  return "{\"toks\":[],\"locs\":" + Join(locs) + "}";
}

// fields: [content] -> tree, errors, printed form of each statement
std::string ParseIt(const Record &r) {
  std::unique_ptr<char[]> buf(new char[r[0].size()]);
  memcpy(buf.get(), r[0].data(), r[0].size());
  std::string_view content(buf.get(), r[0].size());
  NamedLineIndexedContent src("dir/BUILD", content);
  Arena arena(1 << 12);
  Scanner scanner(src);
  std::stringstream err;
  Parser parser(&scanner, &arena, err);
  List *ast = parser.parse();
  Dumper d(content);
  d.Dump(ast);
  std::vector<std::string> stmts;
  if (ast) {
    for (Node *n : *ast) {
      std::ostringstream o, o2;
      PrintVisitor(o).WalkNonNull(n);
      o2 << n;
      stmts.push_back(Q(o.str()));
      if (n != nullptr && o.str() != o2.str())
        return "{\"error\":\"two ways to print a node disagree\"}";
    }
  }
  return "{\"ast\":" + d.out + ",\"err\":" + B(parser.parse_error()) +
         ",\"msg\":" + Q(err.str()) + ",\"stmts\":" + Join(stmts) + "}";
}

std::string StrList(List *l) {
  if (!l) return "null";
  std::vector<std::string> v;
  for (auto s : query::ExtractStringList(l)) v.push_back(Q(s));
  return Join(v);
}

// fields: [flags, package, content, package, content ...]: the whole
// in-memory pipeline. flags: 'e' elaborate.
std::string Project(const Record &r) {
  std::ostringstream out, info;
  CommandlineFlags flags;
  flags.verbose = 1;
  flags.print_ast = true;
  Session session(&out, &info, flags);
  BazelWorkspace ws;
  ParsedProject project(ws, false);
  const bool elab = r[0].find('e') != std::string::npos;
  std::vector<std::string> files, queries, filtered[4];
  for (size_t i = 1; i + 1 < r.size(); i += 2) {
    auto pkg = BazelPackage::ParseFrom(r[i]);
    if (!pkg) continue;
    ParsedProjectTestUtil::Add(&project, &session, *pkg, r[i] + "/BUILD",
                               r[i + 1]);
  }
  PrintProject(session, BazelPattern(), project);
  const std::string before = out.str();
  out.str("");
  if (elab) Elaborate(session, &project);
  PrintProject(session, BazelPattern(), project);
  const std::string after = out.str();
  out.str("");
  for (const auto &[pkg, parsed] : project.ParsedFiles()) {
    Dumper d("");
    d.Dump(parsed->ast);
    files.push_back("[" + Q(pkg.ToString()) + "," + d.out + "]");
    auto q = [&](const query::Result &t) {
      std::vector<std::string> v;
      v.push_back(Q(pkg.ToString()));
      v.push_back(Q(t.rule));
      v.push_back(Q(t.name));
      for (auto s : {t.actual, t.version, t.repo_name, t.deprecation,
                     t.include_prefix, t.strip_include_prefix})
        v.push_back(Q(s));
      for (List *l : {t.srcs_list, t.hdrs_list, t.textual_hdrs, t.public_hdrs,
                      t.deps_list, t.outs_list, t.visibility, t.includes_list})
        v.push_back(StrList(l));
      v.push_back(B(t.alwayslink));
      v.push_back(B(t.testonly));
      // Every string that was extracted must be locatable.
      for (auto s : {t.name, t.rule, t.actual})
        if (!s.empty()) project.Loc(s);
      for (List *l : {t.srcs_list, t.hdrs_list, t.deps_list})
        for (auto s : query::ExtractStringList(l)) {
          project.Loc(s);
          project.GetSurroundingLine(s);
        }
      queries.push_back(Join(v));
    };
    query::FindTargetsAllowEmptyName(parsed->ast, {}, q);
    auto named = [&](std::vector<std::string> &to) {
      return [&](const query::Result &t) {
        to.push_back("[" + Q(t.rule) + "," + Q(t.name) + "]");
      };
    };
    query::FindTargets(parsed->ast, {}, named(filtered[0]));
    query::FindTargets(parsed->ast, {"cc_library"}, named(filtered[1]));
    query::FindTargets(parsed->ast, {"cc_library", "alias", "genrule"},
                       named(filtered[2]));
    query::FindTargets(parsed->ast, {"cc_test", "no_such_rule"},
                       named(filtered[3]));
  }
  ExtractAliasedBy(project);
  ExtractHeaderToLibMapping(project, info);
  ExtractHeaderToLibMapping(project, info, true);
  ExtractGeneratedFromGenrule(project, info);
  BuildDependencyGraph(session, ws, BazelPattern(), 3, &project);
  size_t edits = 0;
  auto count = [&](EditRequest, const BazelTarget &, std::string_view,
                   std::string_view) { ++edits; };
  CreateCanonicalizeEdits(session, project, BazelPattern(), count);
  CreateDependencyEdits(session, project, BazelPattern(), count);
  WriteCompilationFlags(session, project, BazelPattern(), true);
  WriteCompilationFlags(session, project, BazelPattern(), false);
  return "{\"before\":" + Q(before) + ",\"after\":" + Q(after) +
         ",\"files\":" + Join(files) + ",\"targets\":" + Join(queries) +
         ",\"filtered\":[" + Join(filtered[0]) + "," + Join(filtered[1]) + "," +
         Join(filtered[2]) + "," + Join(filtered[3]) + "]" +
         ",\"edits\":" + N(edits) + ",\"info\":" + Q(info.str()) + "}";
}
// fields: package, content -> the tree, and that evaluated
std::string Elab(const Record &r) {
  std::ostringstream out, info;
  CommandlineFlags flags;
  Session session(&out, &info, flags);
  BazelWorkspace ws;
  ParsedProject project(ws, false);
  auto pkg = BazelPackage::ParseFrom(r[0]);
  if (!pkg) return "{\"error\":\"package\"}";
  ParsedProjectTestUtil::Add(&project, &session, *pkg, r[0] + "/BUILD", r[1]);
  std::string res[2];
  for (int i = 0; i < 2; ++i) {
    if (i) Elaborate(session, &project);
    for (const auto &[_, parsed] : project.ParsedFiles()) {
      Dumper d("");
      d.Dump(parsed->ast);
      res[i] = d.out;
    }
  }
  return "{\"info\":" + Q(info.str()) + ",\"before\":" + res[0] +
         ",\"after\":" + res[1] + "}";
}
// fields: package, content, then: path, minimum
std::string Suffix(const Record &r) {
  std::ostringstream out, info;
  Session session(&out, &info, CommandlineFlags{});
  BazelWorkspace ws;
  ParsedProject project(ws, false);
  auto pkg = BazelPackage::ParseFrom(r[0]);
  ParsedProjectTestUtil::Add(&project, &session, *pkg, r[0] + "/BUILD", r[1]);
  const auto index = ExtractHeaderToLibMapping(project, info, true);
  std::vector<std::string> res;
  for (size_t i = 2; i + 1 < r.size(); i += 2) {
    auto found = FindBySuffix(index, r[i], atoi(r[i + 1].c_str()));
    if (!found) {
      res.push_back("null");
      continue;
    }
    std::vector<std::string> t;
    for (const auto &x : *found->target_set) t.push_back(Q(x.ToString()));
    res.push_back("[" + Q(found->match) + "," + N(found->fuzzy_score) + "," +
                  Join(t) + "]");
  }
  return Join(res);
}
}  // namespace

int main(int argc, char **argv) {
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "scan") return Loop(Scan);
  if (mode == "lines") return Loop(LinesOf);
  if (mode == "parse") return Loop(ParseIt);
  if (mode == "project") return Loop(Project);
  if (mode == "elab") return Loop(Elab);
  if (mode == "suffix") return Loop(Suffix);
  return 2;
}
