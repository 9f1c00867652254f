// The process started by process.cpp.  argv[1] is a list of actions, each a letter
// and its operands, separated by ';'.  Limited to 60 s of life.
#include "prochelper.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

static bool put(int fd, std::string const& s)
{
  size_t p = 0;
  while (p < s.size())
  {
    ssize_t n = write(fd, s.data() + p, s.size() - p);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) return false;
    p += static_cast<size_t>(n);
  }
  return true;
}

static void report(char const* file, int argc, char** argv)
{
  std::string o;
  char cwd[4096];
  o += std::string("cwd ") + (getcwd(cwd, sizeof cwd) ? cwd : "?") + "\n";
  for (int i = 2; i < argc; ++i) { o += "arg "; for (char* c = argv[i]; *c; ++c) { char h[4]; snprintf(h, sizeof h, "%02x", static_cast<unsigned char>(*c)); o += h; } o += "\n"; }
  sigset_t m; sigprocmask(SIG_BLOCK, nullptr, &m);
  for (int i = 1; i < 32; ++i) if (sigismember(&m, i)) o += "blocked " + std::to_string(i) + "\n";
  for (int i = 1; i < 32; ++i) { struct sigaction a; if (i != SIGKILL && i != SIGSTOP && sigaction(i, nullptr, &a) == 0 && a.sa_handler != SIG_DFL && i != SIGPIPE) o += "handled " + std::to_string(i) + "\n"; }
  o += "leader " + std::to_string(getsid(0) == getpid()) + "\n";
  for (int i = 0; i < 1300; ++i) if (fcntl(i, F_GETFD) >= 0) o += "fd " + std::to_string(i) + "\n";
  o += "end\n";
  std::string tmp = std::string(file) + ".part";
  int fd = open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  put(fd, o); close(fd);
  rename(tmp.c_str(), file);
}

int main(int argc, char** argv)
{
  if (argc < 2) return 99;
  alarm(60);
  signal(SIGPIPE, SIG_IGN);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  std::vector<std::string> ops;
  { std::string cur; for (char* c = argv[1]; ; ++c) { if (*c == ';' || !*c) { if (!cur.empty()) ops.push_back(cur); cur.clear(); if (!*c) break; } else cur += *c; } }
  for (auto const& op : ops)
  {
    char const* a = op.c_str() + 1;
    unsigned n = 0, seed = 0, cls = 0;
    switch (op[0])
    {
      case 'o': sscanf(a, "%u,%u,%u", &n, &seed, &cls); put(1, pattern(n, seed, cls)); break;
      case 'e': sscanf(a, "%u,%u,%u", &n, &seed, &cls); put(2, pattern(n, seed, cls)); break;
      case 'c': { char b[3000]; ssize_t k; while ((k = read(0, b, sizeof b)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } put(1, std::string(b, static_cast<size_t>(k))); } break; }
      case 'd': { sscanf(a, "%u", &n); char b; ssize_t k; while (n > 0 && (k = read(0, &b, 1)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } --n; } break; }
      case 's': sscanf(a, "%u", &n); usleep(n * 1000); break;
      case 'h': while (true) pause();
      case 'z': while (put(1, pattern(4096, 1, 15))) {} while (true) pause();
      case 'g': if (fork() == 0) { alarm(60); while (true) pause(); } break;
      case 'G': if (fork() == 0) { alarm(60); setsid(); if (fork() == 0) { alarm(60); while (true) pause(); } while (true) pause(); } break;
      case 'N': prctl(PR_SET_NAME, a); break;
      case 'q': close(1); break;
      case 'w': close(2); break;
      case 'r': report(a, argc, argv); break;
      case 'm': { int fd = open(a, O_WRONLY | O_CREAT, 0600); close(fd); break; }
      case 'I': signal(SIGINT, SIG_IGN); break;
      case 'x': sscanf(a, "%u", &n); _exit(static_cast<int>(n));
      case 'k': { sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, nullptr); } sscanf(a, "%u", &n); signal(static_cast<int>(n), SIG_DFL); raise(static_cast<int>(n)); _exit(98);
      default: return 97;
    }
  }
  return 0;
}
