// Redirects a file descriptor of this process into memory for the duration of a scope.
#ifndef CAPTURE_HPP_
#define CAPTURE_HPP_
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <string>

extern "C" void __sanitizer_set_report_fd(void *) __attribute__((weak));

namespace mon
{
struct Capture
{
  FILE * stream;
  int fd, saved, mem;
  Capture(FILE * s, int f) : stream(s), fd(f)
  {
    static bool once = false;
    if (!once) {   // sanitizer reports must not end up in the captured text
      once = true;
      if (__sanitizer_set_report_fd) {__sanitizer_set_report_fd(reinterpret_cast<void *>(static_cast<intptr_t>(dup(2))));}
    }
    fflush(stream);
    saved = dup(fd);
    mem = memfd_create("capture", 0);
    dup2(mem, fd);
  }
  Capture(const Capture &) = delete;
  std::string stop()
  {
    std::string r;
    if (mem < 0) {return r;}
    fflush(stream);
    dup2(saved, fd);
    close(saved);
    off_t n = lseek(mem, 0, SEEK_END);
    r.resize(static_cast<size_t>(n < 0 ? 0 : n));
    if (pread(mem, &r[0], r.size(), 0) != static_cast<ssize_t>(r.size())) {r.clear();}
    close(mem);
    mem = -1;
    return r;
  }
  ~Capture() {stop();}
};
}  // namespace mon
#endif  // CAPTURE_HPP_
