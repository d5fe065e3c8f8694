/* Reads "bits TAB value TAB format" lines and prints [formatted] with the C library. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int main(void) {
  static char line[1 << 16];
  while (fgets(line, sizeof line, stdin)) {
    char *a = strchr(line, '\t');
    char *b = strchr(a + 1, '\t');
    *a = *b = 0;
    b[strcspn(b + 1, "\n") + 1] = 0;
    int bits = atoi(line);
    long v = strtol(a + 1, 0, 10);
    putchar('[');
    if (bits == 64) printf(b + 1, v);
    else printf(b + 1, (int) v);
    puts("]");
  }
  return 0;
}
