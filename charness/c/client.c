// A C client of the interface. Follows a script, one command per line, and
// writes down what it saw.
#include "koopa.h"

#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
size_t __sanitizer_get_current_allocated_bytes(void);
#define HEAP() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef HEAP
#define HEAP() ((size_t)0)
#endif

char *lk_walk(const koopa_raw_program_t *raw);
typedef struct laid laid_t;
laid_t *lk_lay(const koopa_raw_program_t *raw, unsigned flags, uint64_t seed, int brk, long at, long *sites);
void lk_laid_free(laid_t *l);

#define SLOTS 16
#define MARK ((koopa_program_t)0x5a5a5a5a)

static koopa_program_t prog[SLOTS];
static koopa_raw_program_builder_t builder[SLOTS];
static koopa_raw_program_t raw[SLOTS];

// The whole file in memory of exactly its size, plus a terminator.
static char *slurp(const char *path) {
  int fd = open(path, O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) abort();
  char *p = malloc((size_t)st.st_size + 1);
  size_t n = 0;
  while (n < (size_t)st.st_size) {
    ssize_t k = read(fd, p + n, (size_t)st.st_size - n);
    if (k <= 0) abort();
    n += (size_t)k;
  }
  p[n] = 0;
  close(fd);
  return p;
}

static void spill(const char *path, const char *p, size_t n) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) abort();
  while (n) {
    ssize_t k = write(fd, p, n);
    if (k <= 0) abort();
    p += k;
    n -= (size_t)k;
  }
  close(fd);
}

// Descriptors handed over may or may not be closed by the library.
static void drop_fd(int fd) {
  if (fcntl(fd, F_GETFD) != -1) close(fd);
}

static int fds(void) {
  int n = 0;
  for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1;
  return n;
}

// The output pointer must be written exactly on success.
static void parsed(FILE *out, int slot, koopa_error_code_t e, koopa_program_t p) {
  fprintf(out, "%d %s", (int)e, p == MARK ? "untouched" : p ? "set" : "null");
  prog[slot] = e == KOOPA_EC_SUCCESS && p != MARK ? p : NULL;
}

static void string_dump(FILE *out, int llvm, int slot, const char *how, const char *path) {
  koopa_error_code_t (*dump)(koopa_program_t, char *, size_t *) = llvm ? koopa_dump_llvm_to_string : koopa_dump_to_string;
  size_t need = 0x1234;
  koopa_error_code_t e = dump(prog[slot], NULL, &need);
  fprintf(out, "%d %zu", (int)e, need);
  if (e != KOOPA_EC_SUCCESS || !strcmp(how, "null")) return;
  long delta = atol(how);
  size_t size = delta < 0 && (size_t)-delta > need + 1 ? 0 : (size_t)((long)need + 1 + delta);
  // exactly that much is ours
  char *buf = malloc(size ? size : 1);
  memset(buf, 0xa5, size ? size : 1);
  size_t len = size;
  e = dump(prog[slot], buf, &len);
  fprintf(out, " %d %zu %zu", (int)e, size, len);
  if (e == KOOPA_EC_SUCCESS) {
    size_t n = strnlen(buf, size);
    int clean = 1;
    for (size_t i = n + 1; i < size; ++i) clean &= buf[i] == (char)0xa5;
    fprintf(out, " %zu %s", n, n == size ? "unterminated" : clean ? "clean" : "dirty");
    spill(path, buf, n);
  }
  free(buf);
}

int lk_client(const char *script_path, const char *out_path) {
  FILE *out = fopen(out_path, "w");
  char *script = slurp(script_path);
  char **lines = NULL;
  size_t n = 0;
  for (char *l = strtok(script, "\n"); l; l = strtok(NULL, "\n")) {
    lines = realloc(lines, (n + 1) * sizeof *lines);
    lines[n++] = l;
  }
  int rounds = atoi(lines[0]);
  char *line = malloc(1 << 16);
  for (int round = 0; round < rounds; ++round) {
    for (size_t i = 1; i < n; ++i) {
      strncpy(line, lines[i], (1 << 16) - 1);
      char *w[8] = {0};
      int nw = 0;
      for (char *t = strtok(line, " "); t && nw < 8; t = strtok(NULL, " ")) w[nw++] = t;
      int a = nw > 1 ? atoi(w[1]) : 0;
      koopa_program_t p = MARK;
      fprintf(out, "%d %zu ", round, i - 1);
      if (!strcmp(w[0], "parse_file")) {
        // the path itself may hold anything, so it is in a file
        char *path = slurp(w[2]);
        koopa_error_code_t e = koopa_parse_from_file(path, &p);
        free(path);
        parsed(out, a, e, p);
      } else if (!strcmp(w[0], "parse_string")) {
        char *s = slurp(w[2]);
        koopa_error_code_t e = koopa_parse_from_string(s, &p);
        free(s);
        parsed(out, a, e, p);
      } else if (!strcmp(w[0], "parse_stdin")) {
        lseek(0, 0, SEEK_SET);
        koopa_error_code_t e = koopa_parse_from_stdin(&p);
        parsed(out, a, e, p);
      } else if (!strcmp(w[0], "parse_raw")) {
        // 0: fine, 1: not for reading, negative: what a failed open returns
        int how = atoi(w[3]);
        int fd = how < 0 ? how : open(w[2], how ? O_WRONLY : O_RDONLY);
        if (how >= 0 && fd < 0) abort();
        koopa_error_code_t e = koopa_parse_from_raw(fd, &p);
        if (fd >= 0) drop_fd(fd);
        parsed(out, a, e, p);
      } else if (!strcmp(w[0], "parse_pipe")) {
        int ends[2];
        char *s = slurp(w[2]);
        size_t len = strlen(s), step = (size_t)atoi(w[3]);
        if (pipe(ends)) abort();
        pid_t c = fork();
        if (!c) {
          close(ends[0]);
          for (size_t k = 0; k < len; k += step) {
            size_t m = len - k < step ? len - k : step;
            if (write(ends[1], s + k, m) != (ssize_t)m) break;
          }
          _exit(0);
        }
        close(ends[1]);
        koopa_error_code_t e = koopa_parse_from_raw(ends[0], &p);
        drop_fd(ends[0]);
        waitpid(c, NULL, 0);
        free(s);
        parsed(out, a, e, p);
      } else if (!strcmp(w[0], "delete")) {
        koopa_delete_program(prog[a]);
        prog[a] = NULL;
      } else if (!strcmp(w[0], "delete_if")) {
        if (prog[a]) koopa_delete_program(prog[a]);
        prog[a] = NULL;
      } else if (!strcmp(w[0], "file") || !strcmp(w[0], "llvm_file")) {
        char *path = slurp(w[2]);
        koopa_error_code_t e = (w[0][0] == 'l' ? koopa_dump_llvm_to_file : koopa_dump_to_file)(prog[a], path);
        free(path);
        fprintf(out, "%d", (int)e);
      } else if (!strcmp(w[0], "string") || !strcmp(w[0], "llvm_string")) {
        string_dump(out, w[0][0] == 'l', a, w[2], w[3]);
      } else if (!strcmp(w[0], "stdout") || !strcmp(w[0], "llvm_stdout")) {
        long from = (long)lseek(1, 0, SEEK_CUR);
        koopa_error_code_t e = (w[0][0] == 'l' ? koopa_dump_llvm_to_stdout : koopa_dump_to_stdout)(prog[a]);
        fprintf(out, "%d %ld %ld", (int)e, from, (long)lseek(1, 0, SEEK_CUR));
      } else if (!strcmp(w[0], "raw") || !strcmp(w[0], "llvm_raw")) {
        int how = atoi(w[3]);
        int fd = how < 0 ? how : how ? open(w[2], O_RDONLY) : open(w[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (how >= 0 && fd < 0) abort();
        koopa_error_code_t e = (w[0][0] == 'l' ? koopa_dump_llvm_to_raw : koopa_dump_to_raw)(prog[a], fd);
        if (fd >= 0) drop_fd(fd);
        fprintf(out, "%d", (int)e);
      } else if (!strcmp(w[0], "builder")) {
        builder[a] = koopa_new_raw_program_builder();
        fprintf(out, "%s", builder[a] ? "set" : "null");
      } else if (!strcmp(w[0], "unbuilder")) {
        koopa_delete_raw_program_builder(builder[a]);
        builder[a] = NULL;
      } else if (!strcmp(w[0], "build")) {
        raw[a] = koopa_build_raw_program(builder[atoi(w[2])], prog[atoi(w[3])]);
        fprintf(out, "%u %u", (unsigned)raw[a].values.len, (unsigned)raw[a].funcs.len);
      } else if (!strcmp(w[0], "walk")) {
        char *s = lk_walk(&raw[a]);
        if (!round) spill(w[2], s, strlen(s));
        free(s);
      } else if (!strcmp(w[0], "generate")) {
        koopa_error_code_t e = koopa_generate_raw_to_koopa(&raw[atoi(w[2])], &p);
        parsed(out, a, e, p);
      } else if (!strcmp(w[0], "lay")) {
        // a copy of a raw program, broken in one place
        long sites = 0, none;
        int brk = atoi(w[4]);
        unsigned flags = (unsigned)atoi(w[3]);
        lk_laid_free(lk_lay(&raw[atoi(w[2])], flags, (uint64_t)atol(w[6]), brk, -1, &sites));
        long at = sites ? atol(w[5]) % sites : -1;
        laid_t *l = lk_lay(&raw[atoi(w[2])], flags, (uint64_t)atol(w[6]), brk, at, &none);
        koopa_error_code_t e = koopa_generate_raw_to_koopa((const koopa_raw_program_t *)l, &p);
        lk_laid_free(l);
        parsed(out, a, e, p);
        fprintf(out, " %ld", sites);
      } else {
        abort();
      }
      fprintf(out, "\n");
    }
    fflush(out);
    fprintf(out, "%d heap %zu %d\n", round, HEAP(), fds());
  }
  fprintf(out, "end\n");
  fclose(out);
  free(line);
  free(lines);
  free(script);
  return 0;
}
