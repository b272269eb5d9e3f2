// Runs this binary again with other arguments, in a process of its own.
#ifndef SPAWN_H
#define SPAWN_H
#include "mon.h"
#include <spawn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
extern char** environ;
namespace mon {
  struct ChildResult { int status; std::string out, err; };
  inline std::string readAll(int fd) {
    std::string r;
    char buf[4096];
    lseek(fd, 0, SEEK_SET);
    for (;;) {
      ssize_t n = read(fd, buf, sizeof buf);
      if (n <= 0) return r;
      r.append(buf, (size_t)n);
    }
  }
  // status is the exit status, or minus the signal that ended the process
  inline ChildResult runChild(const std::vector<std::string>& args) {
    int out = memfd_create("out", MFD_CLOEXEC), err = memfd_create("err", MFD_CLOEXEC);
    if (out < 0 || err < 0) { fputs("no memory files\n", stderr); _exit(3); }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_adddup2(&fa, out, 1);
    posix_spawn_file_actions_adddup2(&fa, err, 2);
    std::vector<std::string> all;
    all.push_back("/proc/self/exe"); all.push_back("--child");
    all.insert(all.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (size_t i = 0; i < all.size(); ++i) argv.push_back(&all[i][0]);
    argv.push_back(0);
    pid_t pid;
    if (posix_spawn(&pid, "/proc/self/exe", &fa, 0, argv.data(), environ) != 0) { fputs("cannot start a process\n", stderr); _exit(3); }
    posix_spawn_file_actions_destroy(&fa);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) _exit(3);
    ChildResult r;
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    r.out = readAll(out); r.err = readAll(err);
    close(out); close(err);
    return r;
  }
}
#endif
