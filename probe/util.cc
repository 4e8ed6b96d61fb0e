// Range map, labels, patterns, globs, files and tables: one request per record.
#include <algorithm>
#include <set>

#include "bant/output-format.h"
#include "bant/types-bazel.h"
#include "bant/util/disjoint-range-map.h"
#include "bant/util/file-utils.h"
#include "bant/util/glob-match-builder.h"
#include "bant/util/table-printer.h"
#include "bant/workspace.h"
#include "probe.h"

using namespace probe;
using namespace bant;

namespace {
// fields: size of the text, then operations:
// "i" begin end value | "q" begin end
std::string Ranges(const Record &r) {
  std::string text(atol(r[0].c_str()), 'x');
  const std::string_view all = text;
  DisjointRangeMap<std::string_view, std::string> map;
  std::vector<std::string> out;
  for (size_t i = 1; i < r.size();) {
    const size_t b = atol(r[i + 1].c_str()), e = atol(r[i + 2].c_str());
    const std::string_view piece = all.substr(b, e - b);
    if (r[i] == "i") {
      out.push_back(B(map.Insert(piece, r[i + 3])));
      i += 4;
    } else {
      const auto &cmap = map;
      auto found = cmap.FindBySubrange(piece);
      out.push_back(found ? Q(*found) : "null");
      i += 3;
    }
  }
  return Join(out);
}

std::string Tgt(const std::optional<BazelTarget> &t) {
  if (!t) return "null";
  std::ostringstream s;
  s << *t;
  return "[" + Q(t->package.project) + "," + Q(t->package.path) + "," +
         Q(t->target_name) + "," + Q(t->ToString()) + "," + Q(s.str()) + "]";
}

// fields: context package, other context, label ... -> per label what it is,
// what its renderings are, and all pairwise comparisons.
std::string Labels(const Record &r) {
  const auto ctx = BazelPackage::ParseFrom(r[0]);
  const auto other = BazelPackage::ParseFrom(r[1]);
  if (!ctx || !other) return "{\"ctx\":null}";
  std::vector<std::string> out;
  std::vector<BazelTarget> all;
  for (size_t i = 2; i < r.size(); ++i) {
    auto t = BazelTarget::ParseFrom(r[i], *ctx);
    std::string o = "[" + Tgt(t);
    if (t) {
      all.push_back(*t);
      const std::string canon = t->ToString();
      const std::string rel = t->ToStringRelativeTo(*ctx);
      o += "," + Tgt(BazelTarget::ParseFrom(canon, *ctx));
      o += "," + Tgt(BazelTarget::ParseFrom(canon, *other));
      o += "," + Q(rel) + "," + Tgt(BazelTarget::ParseFrom(rel, *ctx));
      o += "," + Tgt(t->package.QualifiedTarget(t->target_name));
      o += "," + Tgt(t->package.QualifiedTarget(":" + t->target_name));
      auto p = BazelPackage::ParseFrom(t->package.ToString());
      o += "," + (p ? "[" + Q(p->project) + "," + Q(p->path) + "," +
                        B(*p == t->package) + "]"
                    : std::string("null"));
      o += "," + Q(t->package.QualifiedFile(t->target_name));
    }
    out.push_back(o + "]");
  }
  std::vector<std::string> cmp;
  for (const auto &a : all) {
    std::string c;
    for (const auto &b : all) {
      c += a < b ? '<' : a == b ? '=' : '>';
      const bool lt = a < b, gt = a > b, eq = a == b;
      if (lt + gt + eq != 1 || (a != b) == eq || (a <= b) != (lt || eq) ||
          (a >= b) != (gt || eq) ||
          (a.package < b.package && !lt) || (b.package < a.package && !gt))
        c += '!';
    }
    cmp.push_back(Q(c));
  }
  return "{\"ctx\":" + Q(ctx->ToString()) + ",\"labels\":" + Join(out) +
         ",\"cmp\":" + Join(cmp) + "}";
}

// fields: "p" | "v", context, pattern, targets as project, path, name ...
std::string Patterns(const Record &r) {
  const auto ctx = BazelPackage::ParseFrom(r[1]);
  if (!ctx) return "{\"ctx\":null}";
  std::optional<BazelPattern> p = r[0] == "v"
                                    ? BazelPattern::ParseVisibility(r[2], *ctx)
                                    : BazelPattern::ParseFrom(r[2]);
  if (!p) return "{\"ctx\":true,\"ok\":false}";
  std::string t, k;
  const BazelPattern copy = *p;
  for (size_t i = 3; i + 2 < r.size(); i += 3) {
    const BazelPackage package(r[i], r[i + 1]);
    auto target = package.QualifiedTarget(r[i + 2]);
    t += target ? (copy.Match(*target) ? '1' : '0') : '-';
    k += p->Match(package) ? '1' : '0';
  }
  return "{\"ctx\":true,\"ok\":true,\"targets\":" + Q(t) + ",\"packages\":" +
         Q(k) + ",\"recursive\":" + B(p->is_recursive()) + ",\"all\":" +
         B(p->is_matchall()) + ",\"path\":" + Q(p->path()) + ",\"project\":" +
         Q(p->project()) + "}";
}

// fields: number of includes, includes.., number of excludes, excludes..,
// paths to test ("d:" or "f:" first)
std::string Globs(const Record &r) {
  GlobMatchBuilder b;
  size_t i = 1, n = atol(r[0].c_str());
  for (; n; --n) b.AddIncludePattern(r[i++]);
  n = atol(r[i++].c_str());
  for (; n; --n) b.AddExcludePattern(r[i++]);
  auto dir = b.BuildDirectoryMatchPredicate();
  auto file = b.BuildFileMatchPredicate();
  std::string out;
  for (; i < r.size(); ++i) {
    const std::string_view path = std::string_view(r[i]).substr(2);
    out += (r[i][0] == 'd' ? dir(path) : file(path)) ? '1' : '0';
  }
  return Q(out);
}

// fields: start directory, names of unwanted directories joined with '/',
// suffix of wanted files -> paths, and what the predicates got asked
std::string Collect(const Record &r) {
  std::set<std::string, std::less<>> unwanted;
  std::stringstream s(r[1]);
  for (std::string part; std::getline(s, part, '/');) unwanted.insert(part);
  std::vector<std::string> out, dirs;
  std::string odd;
  size_t asked = 0;
  auto paths = CollectFilesRecursive(
    FilesystemPath(r[0]),
    [&](const FilesystemPath &d) {
      dirs.push_back(Q(d.path()));
      if (!d.is_directory()) odd = "asked for non-directory " + d.path();
      return !unwanted.contains(d.filename());
    },
    [&](const FilesystemPath &f) {
      ++asked;
      if (f.is_directory()) odd = "directory as file " + f.path();
      return f.path().ends_with(r[2]);
    });
  for (const FilesystemPath &p : paths) {
    out.push_back("[" + Q(p.path()) + "," + Q(p.filename()) + "," +
                  B(p.is_directory()) + "," + B(p.is_symlink()) + "," +
                  B(p.can_read()) + "]");
  }
  return "{\"files\":" + Join(out) + ",\"dirs\":" + Join(dirs) +
         ",\"odd\":" + Q(odd) + ",\"asked\":" + N(asked) + "}";
}

// fields: "r" path | "g" pattern | "p" path | "j" directory filename
std::string Files(const Record &r) {
  if (r[0] == "r") {
    auto content = ReadFileToString(FilesystemPath(r[1]));
    return content ? Q(*content) : "null";
  }
  if (r[0] == "g") {
    std::vector<std::string> out;
    for (const auto &p : Glob(r[1])) out.push_back(Q(p.path()));
    return Join(out);
  }
  const FilesystemPath p = r[0] == "j" ? FilesystemPath(r[1], r[2])
                                       : FilesystemPath(r[1]);
  FilesystemPath copy = p;
  std::string o = "[" + Q(p.path()) + "," + Q(p.filename()) + "," +
                  B(p.is_directory()) + "," + B(p.is_symlink()) + "," +
                  B(p.can_read()) + "," + Q(p.c_str());
  o += "," + B(copy.filename() == p.filename() &&
               copy.is_directory() == p.is_directory() &&
               copy.is_symlink() == p.is_symlink() &&
               p.is_directory() == copy.is_directory());
  return o + "]";
}

// fields: number of columns, headers.., then rows: "r" cells.. |
// "l" prefix.. count cells..
std::string Tables(const Record &r) {
  const size_t cols = atol(r[0].c_str());
  std::vector<std::string> headers(r.begin() + 1, r.begin() + 1 + cols);
  std::vector<std::string> outs;
  for (OutputFormat f :
       {OutputFormat::kNative, OutputFormat::kSExpr, OutputFormat::kPList,
        OutputFormat::kJSON, OutputFormat::kCSV}) {
    std::ostringstream out;
    auto t = TablePrinter::Create(out, f, headers);
    for (size_t i = 1 + cols; i < r.size();) {
      if (r[i] == "r") {
        t->AddRow({r.begin() + i + 1, r.begin() + i + 1 + cols});
        i += 1 + cols;
      } else {
        std::vector<std::string> prefix(r.begin() + i + 1, r.begin() + i + cols);
        const size_t n = atol(r[i + cols].c_str());
        auto start = r.begin() + i + cols + 1;
        t->AddRowWithRepeatedLastColumn(prefix, {start, start + n});
        i += cols + 1 + n;
      }
    }
    t->Finish();
    outs.push_back(Q(out.str()));
  }
  return Join(outs);
}
}  // namespace

int main(int argc, char **argv) {
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "ranges") return Loop(Ranges);
  if (mode == "labels") return Loop(Labels);
  if (mode == "patterns") return Loop(Patterns);
  if (mode == "globs") return Loop(Globs);
  if (mode == "collect") return Loop(Collect);
  if (mode == "files") return Loop(Files);
  if (mode == "tables") return Loop(Tables);
  return 2;
}
