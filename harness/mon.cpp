#include "mon.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <iostream>
#include <fstream>

namespace mon {
static std::string esc(const std::string& s) {
  std::string o;
  for (char ch : s) { unsigned char c = ch;
    if (c == '"' || c == '\\') { o += '\\'; o += ch; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += '?'; else o += ch; }
  return o;
}
int drive(int argc, char** argv, const char* prop, CaseFn fn) {
  uint64_t seed = 1; long start = 0, count = 1000; std::string out = "/dev/stdout", prog, sigf; bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--start") start = atol(val().c_str());
    else if (a == "--count") count = atol(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--progress") prog = val();
    else if (a == "--sigs") sigf = val();
    else if (a == "--verbose") verbose = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 4; }
  }
  volatile long* progress = nullptr; long dummy[2] = {0, 0}; progress = dummy;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 16) != 0) { perror(prog.c_str()); return 4; }
    void* p = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); return 4; }
    progress = (volatile long*)p; close(fd);
  }
  FILE* fo = fopen(out.c_str(), "w");
  if (!fo) { perror(out.c_str()); return 4; }
  // the library chats; the sink keeps no state, so that threads may write at the same time
  struct Discard : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
  static Discard& discard = *new Discard;  // never destroyed: the streams are flushed at exit
  if (!verbose) { std::cerr.rdbuf(&discard); std::cout.rdbuf(&discard); }
  Ctx c; c.seed = seed; c.verbose = verbose;
  long evals = 0, skipped = 0, fails = 0, nontrivial = 0;
  for (long id = start; id < start + count; ++id) {
    progress[0] = id; progress[1] = progress[1] + 1;
    uint64_t h = 1469598103934665603ULL;
    for (const char* q = prop; *q; ++q) h = (h ^ (unsigned char)*q) * 1099511628211ULL;
    h ^= seed * 0x9e3779b97f4a7c15ULL; h = h * 1099511628211ULL ^ (uint64_t)id * 0xd1342543de82ef95ULL;
    c.rng = Rng(h); c.id = id; c.input.clear(); c.nontrivial = false; c.sig = 0;
    std::string key, msg; bool bad = false;
    try { fn(c); ++evals; }
    catch (const Skip&) { ++skipped; continue; }
    catch (const CaseFail& f) { bad = true; key = f.key; msg = f.msg; ++evals; }
    catch (const std::exception& e) { bad = true; key = "unexpected-exception"; msg = e.what(); ++evals; }
    catch (const std::exception* e) { bad = true; key = "unexpected-exception"; msg = "pointer to exception thrown"; ++evals; }
    catch (...) { bad = true; key = "unexpected-exception"; msg = "unknown exception"; ++evals; }
    if (c.nontrivial) { ++nontrivial; if (c.sigs.size() < 4000000) c.sigs.insert(c.sig); }
    if (!c.input.empty() && c.samples.size() < 3 && (evals % 97 == 1)) c.samples.push_back("case " + std::to_string(id) + ": " + c.input.substr(0, 700));
    if (bad) {
      ++fails;
      fprintf(fo, "{\"fail\": true, \"case\": %ld, \"key\": \"%s\", \"msg\": \"%s\", \"input\": \"%s\"}\n", id, esc(key).c_str(), esc(msg).c_str(), esc(c.input).substr(0, 4000).c_str());
      fflush(fo);
      if (fails >= 40) break;
    }
  }
  fprintf(fo, "{\"summary\": true, \"evals\": %ld, \"skipped\": %ld, \"checks\": %ld, \"fails\": %ld, \"nontrivial\": %ld, \"classes\": {", evals, skipped, c.checks, fails, nontrivial);
  bool first = true;
  for (auto& k : c.classes) { fprintf(fo, "%s\"%s\": %ld", first ? "" : ", ", esc(k.first).c_str(), k.second); first = false; }
  fprintf(fo, "}, \"samples\": ["); first = true;
  for (auto& s : c.samples) { fprintf(fo, "%s\"%s\"", first ? "" : ", ", esc(s).c_str()); first = false; }
  fprintf(fo, "]}\n"); fclose(fo);
  if (!sigf.empty()) { FILE* f = fopen(sigf.c_str(), "wb"); if (f) { for (uint64_t s : c.sigs) fwrite(&s, 8, 1, f); fclose(f); } }
  fflush(stdout);
  return 0;
}
}  // namespace mon
