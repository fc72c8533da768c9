// A file that exists only in memory, opened by name through /proc/self/fd.
#pragma once
#include <string>
#include <unistd.h>
#include <sys/mman.h>
#include <stdio.h>
struct MemFile { int fd; char name[64];
  explicit MemFile(const std::string& s = "") { fd = memfd_create("m", 0); snprintf(name, sizeof name, "/proc/self/fd/%d", fd); put(s); }
  void put(const std::string& s) { if (ftruncate(fd, 0)) {} if (s.size() && pwrite(fd, s.data(), s.size(), 0) < 0) {} }
  std::string get() const { std::string r; char b[256]; long o = 0; for (;;) { const long k = pread(fd, b, sizeof b, o); if (k <= 0) break; r.append(b, k); o += k; } return r; }
  ~MemFile() { close(fd); }
};
