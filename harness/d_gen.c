/*
 * Runs a table generator for every value of one argument in a range.
 * usage: d_gen TOOL-PATH NAME LO HI ARG...   (in an empty scratch directory)
 * The ARG that is @ runs over the range.
 * One record: the arguments for which it ended with status 0 and wrote two
 * files, and the number of those for which it ended with a positive status and
 * wrote none.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <spawn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
extern char **environ;
static int sweep(void) { /* number of files here; removes them */
  DIR *d = opendir("."); struct dirent *e; int k = 0;
  if (!d) exit(9);
  while ((e = readdir(d)))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { unlinkat(AT_FDCWD, e->d_name, 0); k++; }
  closedir(d);
  return k;
}
int main(int argc, char **argv) {
  if (argc < 6 || argc > 7) return 9;
  int lo = atoi(argv[3]), hi = atoi(argv[4]), rej = 0, first = 1, at = 0, odd = 0;
  struct rlimit rl = { 20, 20 };
  setrlimit(RLIMIT_CPU, &rl);  /* of each run */
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  for (int i = 5; i < argc; i++) if (!strcmp(argv[i], "@")) at = i;
  printf("{\"k\":\"gens\",\"op\":\"%s\",\"at\":%d,\"args\":[", argv[2], at - 4);
  for (int i = 5; i < argc; i++) printf("%s%s", i > 5 ? "," : "", i == at ? "0" : argv[i]);
  printf("],\"lo\":%d,\"hi\":%d,\"acc\":[", lo, hi);
  for (int p = lo; p <= hi && odd < 3; p++) {
    char b[16]; snprintf(b, sizeof b, "%d", p);
    char *av[] = { argv[1], argv[5], argc > 6 ? argv[6] : NULL, NULL };
    av[at - 4] = b;
    pid_t pid; int st;
    if (posix_spawn(&pid, argv[1], &fa, NULL, av, environ)) return 9;
    if (waitpid(pid, &st, 0) != pid) return 9;
    int files = sweep();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && files == 2) { printf(first ? "%d" : ",%d", p); first = 0; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && files == 0) rej++;
    else odd++;
  }
  printf("],\"rej\":%d}\n", rej);
  return 0;
}
