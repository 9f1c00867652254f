// what a launcher starts: tells how it was started
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
int main(int n, char** v)
{
  auto put = [](char const* t) { fwrite(t, 1, strlen(t) + 1, stdout); };
  char b[PATH_MAX] = ""; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k < 0 ? 0 : k] = 0; put("started"); put(b);
  put(getcwd(b, sizeof b) ? b : "?"); char const* l = getenv("LD_LIBRARY_PATH"); put(l ? "1" : "0"); put(l ? l : "");
  int e = 0; for (char** x = environ; *x; ++x) if (strncmp(*x, "LD_LIBRARY_PATH=", 16)) ++e; char t[20]; snprintf(t, sizeof t, "%d", e); put(t);
  l = getenv("KEPT"); put(l ? l : "?");
  for (int i = 0; i < n; ++i) put(v[i]);
  l = getenv("CODE"); return l ? atoi(l) : 0;
}
