#ifndef CAPTURE_H
#define CAPTURE_H
#include "mc.h"
#include <fcntl.h>
#include <unistd.h>
#include <sstream>
#include <string>
#include <vector>
inline std::string slurp(const std::string& fn) { std::string s; FILE* f = fopen(fn.c_str(), "r"); if (!f) return s; char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
inline void spit(const std::string& fn, const std::string& t) { FILE* f = fopen(fn.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
inline std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; size_t a = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == std::string::npos) e = t.size(); v.push_back(t.substr(a, e - a)); a = e + 1; } return v; }
struct Capture {                      // what the code prints to a standard stream
  int fd, saved; std::string file;
  Capture(int which = 1) : fd(which) { fflush(stdout); fflush(stderr); saved = dup(fd); file = mc::scratch() + (fd == 1 ? "/out.txt" : "/err.txt"); int n = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(n, fd); close(n); }
  std::string done() { fflush(stdout); fflush(stderr); if (saved >= 0) { dup2(saved, fd); close(saved); saved = -1; } return slurp(file); }
  ~Capture() { if (saved >= 0) { fflush(stdout); fflush(stderr); dup2(saved, fd); close(saved); } }
};
#endif
