// Batch driver for one bundled processor program: every vector runs in a fresh process.
// stdin: lines "<64 words g> <64 words e>" (hex, space separated); stdout: 64 words of output
// or "status <n>" when the process did not end normally.
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#define W 64
void gc_main(const int *g, const int *e, int *o);
int main() {
  unsigned x;
  for (;;) {
    int *g = new int[W], *e = new int[W], *o = new int[W];
    for (int i = 0; i < W; i++) { if (scanf("%x", &x) != 1) return 0; g[i] = (int) x; }
    for (int i = 0; i < W; i++) { if (scanf("%x", &x) != 1) return 1; e[i] = (int) x; }
    memset(o, 0, W * sizeof(int));
    int p[2];
    if (pipe(p)) return 1;
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
      close(p[0]);
      alarm(20);
      int *g2 = new int[W], *e2 = new int[W];
      memcpy(g2, g, W * sizeof(int)); memcpy(e2, e, W * sizeof(int));
      gc_main(g2, e2, o);
      int changed = memcmp(g, g2, W * sizeof(int)) || memcmp(e, e2, W * sizeof(int));
      if (write(p[1], o, W * sizeof(int)) != (ssize_t) (W * sizeof(int))) _exit(7);
      _exit(changed ? 9 : 0);
    }
    close(p[1]);
    int got = 0; ssize_t n; char buf[W * sizeof(int)];
    while (got < (int) sizeof(buf) && (n = read(p[0], buf + got, sizeof(buf) - got)) > 0) got += n;
    close(p[0]);
    int st = 0;
    waitpid(c, &st, 0);
    if (st != 0 || got != (int) sizeof(buf)) printf("status %d\n", st);
    else { for (int i = 0; i < W; i++) printf("%x ", ((unsigned *) buf)[i]); printf("\n"); }
    delete[] g; delete[] e; delete[] o;
  }
}
