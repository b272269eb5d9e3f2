// Captures what is written to the error stream, by whatever means.
#ifndef CAPTURE_H
#define CAPTURE_H
#include "mon.h"
#include <sys/mman.h>
#include <unistd.h>
#include <iostream>
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));
namespace mon {
  class Capture {
  public:
    // false when capturing does not work here
    Capture(): done_(false) {
      static int saved = -1;
      static int file = -1;
      if (saved < 0) {
        saved = dup(2);
        file = memfd_create("captured", 0);
        if (saved < 0 || file < 0) { fputs("cannot capture the error stream\n", stderr); _exit(3); }
        if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)saved);
      }
      saved_ = saved; file_ = file;
      fflush(stderr); std::cerr.flush();
      if (ftruncate(file_, 0) != 0 || lseek(file_, 0, SEEK_SET) != 0) _exit(3);
      dup2(file_, 2);
    }
    ~Capture() { stop(); }
    std::string text() {
      stop();
      std::string r;
      char buf[4096];
      if (lseek(file_, 0, SEEK_SET) != 0) _exit(3);
      for (;;) {
        ssize_t n = read(file_, buf, sizeof buf);
        if (n < 0) _exit(3);
        if (n == 0) break;
        r.append(buf, (size_t)n);
      }
      return r;
    }
  private:
    void stop() {
      if (done_) return;
      done_ = true;
      fflush(stderr); std::cerr.flush();
      dup2(saved_, 2);
    }
    int saved_, file_;
    bool done_;
  };
}
#endif
