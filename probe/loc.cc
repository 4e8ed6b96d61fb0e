// Renders locations in all the ways there are.
#include <cstdlib>

#include "bant/frontend/source-locator.h"
#include "probe.h"

using namespace probe;
using namespace bant;

// fields: filename, then any number of (start line, col, end line, col)
static std::string Render(const Record &r) {
  std::vector<std::string> out;
  std::ostringstream shared;  // Everything in one stream, one after the other
  for (size_t i = 1; i + 3 < r.size(); i += 4) {
    LineColumnRange range{{atoi(r[i].c_str()), atoi(r[i + 1].c_str())},
                          {atoi(r[i + 2].c_str()), atoi(r[i + 3].c_str())}};
    FileLocation f{r[0], range};
    std::ostringstream a, b, c, d, e;
    a << f;
    b << range;
    c << range.start;
    e << range.end;
    FixedSourceLocator fixed(f);
    const std::string text = "text " + std::to_string(i);
    fixed.Loc(d, text) << "|";
    shared << f << range << "," << range.end << ";";
    FileLocation got = fixed.GetLocation(text);
    LineColumnRange copy = range;
    bool eq = (copy == range) && got.line_column_range == range &&
              got.filename == r[0] &&
              fixed.GetSurroundingLine(text) == text &&
              ((range.start == range.end) ==
               (range.start.line == range.end.line &&
                range.start.col == range.end.col));
    copy.end.col += 1;
    eq = eq && !(copy == range);
    out.push_back("[" + Q(a.str()) + "," + Q(b.str()) + "," + Q(c.str()) + "," +
                  Q(d.str()) + "," + Q(fixed.Loc(text)) + "," + Q(e.str()) +
                  "," + B(eq) + "]");
  }
  return "{\"r\":" + Join(out) + ",\"shared\":" + Q(shared.str()) + "}";
}

int main() { return Loop(Render); }
