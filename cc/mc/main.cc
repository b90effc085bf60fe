// Explores the C++ library exhaustively within bounds: mc list PROP TIER | mc run PROP CASE
#include "rec.h"

namespace mc {
std::map<std::string, Explorer>& Explorers() {
  static auto* m = new std::map<std::string, Explorer>;
  return *m;
}

static std::string esc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else if (c > 126) o += '?';
    else o += c;
  }
  return o + "\"";
}

void Ctx::Write() {
  printf("{\"states\":[");
  bool first = true;
  for (auto h : states) { printf("%s\"%lx\"", first ? "" : ",", (unsigned long)h); first = false; }
  printf("],\"transitions\":%ld,\"traces\":%ld,\"evals\":%ld,\"fails\":[", transitions, traces, evals);
  first = true;
  for (auto& f : fails) { printf("%s{\"key\":%s,\"msg\":%s}", first ? "" : ",", esc(f.key).c_str(), esc(f.msg).c_str()); first = false; }
  printf("],\"samples\":[");
  first = true;
  for (auto& s : samples) { printf("%s%s", first ? "" : ",", esc(s).c_str()); first = false; }
  printf("]}\n");
}
}  // namespace mc

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  auto it = mc::Explorers().find(argv[2]);
  if (it == mc::Explorers().end()) return 3;
  if (std::string(argv[1]) == "list") {
    for (auto& s : it->second.list(argv[3])) printf("%s\n", s.c_str());
    return 0;
  }
  mc::Ctx ctx;
  // several cases may share a line
  std::istringstream all(argv[3]);
  std::string one;
  while (std::getline(all, one, ';')) {
    mc::Case c;
    c.text = one;
    std::istringstream in(one);
    std::string w;
    while (in >> w) {
      auto p = w.find('=');
      c.kv[w.substr(0, p)] = p == std::string::npos ? "" : w.substr(p + 1);
    }
    it->second.run(ctx, c);
  }
  ctx.Write();
  return 0;
}
