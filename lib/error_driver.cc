// Calls stl2ps::error as told on stdin and sends back what it wrote.
//
//   N, then N times: HAS_FILE FILE_LENGTH BL BC EL EC TEXT_LENGTH\nFILE TEXT
//
// For each group of N calls the answer is: STDERR_LENGTH STDOUT_LENGTH\n and
// the bytes of both.
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <string>

#include "stl-to-ps/parser_support.h"

static std::string Bytes(size_t n) {
  std::string s(n, '\0');
  if (n && fread(&s[0], 1, n, stdin) != n) exit(3);
  return s;
}

static std::string Drain(int fd) {
  off_t n = lseek(fd, 0, SEEK_END);
  std::string s(n, '\0');
  for (off_t at = 0; at < n;) {
    ssize_t r = pread(fd, &s[at], n - at, at);
    if (r <= 0) exit(4);
    at += r;
  }
  if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) exit(5);
  return s;
}

int main() {
  FILE* back = fdopen(dup(1), "w");
  char a[] = "errXXXXXX", b[] = "outXXXXXX";
  int e = mkstemp(a), o = mkstemp(b);
  unlink(a);
  unlink(b);
  if (e < 0 || o < 0 || dup2(e, 2) < 0 || dup2(o, 1) < 0) return 6;
  int n;
  while (scanf("%d", &n) == 1) {
    for (int i = 0; i < n; i++) {
      int has, bl, bc, el, ec;
      size_t fl, tl;
      if (scanf("%d %zu %d %d %d %d %zu", &has, &fl, &bl, &bc, &el, &ec, &tl) != 7) return 7;
      getchar();
      std::string file = Bytes(fl), text = Bytes(tl);
      stl2ps::error(has ? &file : nullptr, bl, bc, el, ec, text);
    }
    fflush(stderr);
    fflush(stdout);
    std::string x = Drain(e), y = Drain(o);
    fprintf(back, "%zu %zu\n", x.size(), y.size());
    fwrite(x.data(), 1, x.size(), back);
    fwrite(y.data(), 1, y.size(), back);
  }
  fflush(back);
  _exit(0);
}
