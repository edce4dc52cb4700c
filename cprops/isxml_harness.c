#include XMLSTRING_C
#include "pystub.h"

/* What isxml has to answer. */
static int is4(const unsigned char *s, unsigned a, unsigned b, unsigned c, unsigned d) { return s[0] == a && s[1] == b && s[2] == c && s[3] == d; }

static int spec(const unsigned char *s, Py_ssize_t n)
{
  Py_UCS4 cps[NMAX + 2];
  int i, k;
  if (n >= 4 && (is4(s, '<', '?', 'x', 'm') || is4(s, 0, '<', 0, '?') || is4(s, '<', 0, '?', 0) || is4(s, 0x4C, 0x6F, 0xA7, 0x94) ||
                 is4(s, 0, 0, 0, '<') || is4(s, '<', 0, 0, 0) || is4(s, 0, 0, '<', 0) || is4(s, 0, '<', 0, 0))) return 1;
  if (n >= 4 && is4(s, 0, 0, 0xFE, 0xFF)) k = dec_utf32(s + 4, n - 4, cps, 1, 0);
  else if (n >= 4 && is4(s, 0xFF, 0xFE, 0, 0)) k = dec_utf32(s + 4, n - 4, cps, 0, 0);
  else if (n >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF) k = dec_utf8(s + 3, n - 3, cps, 0);
  else if (n >= 2 && s[0] == 0xFE && s[1] == 0xFF) k = dec_utf16(s + 2, n - 2, cps, 1, 0);
  else if (n >= 2 && s[0] == 0xFF && s[1] == 0xFE) k = dec_utf16(s + 2, n - 2, cps, 0, 0);
  else k = dec_utf8(s, n, cps, 0);
  for (i = 0; i < k; i++) {
    if (cps[i] == ' ' || cps[i] == '\t' || cps[i] == '\n' || cps[i] == '\r') continue;
    return cps[i] == '<';
  }
  return 0;
}

static void check(void)
{
  PyObject *r;
  int want;
  want = ARGS_BAD ? 0 : spec(IN, IN_LEN);
  r = string_isxml(NULL, THE_ARGS);
#ifdef COVER
  /* both answers, an error, and an answer after decoding have to be reachable: these assertions have to fail */
  CHECK(!(want && encodes > 0), "cover: true after decoding");
  CHECK(!(want && encodes == 0), "cover: true by signature");
  CHECK(!(!ARGS_BAD && !want && encodes > 0), "cover: false");
  CHECK(!ARGS_BAD, "cover: bad arguments");
#endif
  if (ARGS_BAD) {
    CHECK(r == NULL && pending, "bad arguments are not an error");
  } else {
    CHECK(r == Py_True || r == Py_False, "the result is not a bool");
    CHECK((r == Py_True) == want, "wrong answer");
    CHECK(!pending, "an exception is left pending");
  }
  CHECK(live_objects == 0, "the decoded text is not released exactly once");
  CHECK(buffer_held == 0, "the buffer is not released");
}

#ifdef __CPROVER
unsigned char nondet_uchar(void);
int nondet_int(void);
unsigned char BYTES[NMAX];
int main(void)
{
  int n = NMIN, i;       /* one run for each length */
  IN_LEN = n;
  IN = malloc(n);
  __CPROVER_assume(IN != NULL);
  for (i = 0; i < NMAX; i++) {
    BYTES[i] = nondet_uchar();
    if (i < n) IN[i] = BYTES[i];
  }
  ARGS_BAD = nondet_int() == 1;
  check();
  return 0;
}
#elif defined(MODEL)
/* Lines "encoding hex": the code points the decoder model gives. */
int main(void)
{
  char enc[16], h[256];
  while (scanf("%15s %255s", enc, h) == 2) {
    unsigned char s[128];
    Py_UCS4 out[NMAX + 2];
    size_t n = h[0] == '-' ? 0 : strlen(h) / 2, i;
    int k;
    for (i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); s[i] = v; }
    k = decode(s, n, enc, out, 0);
    printf("%d", k);
    for (i = 0; (int)i < k; i++) printf(" %x", out[i]);
    printf("\n");
  }
  return 0;
}
#else
int main(int argc, char **argv)
{
  /* argument: the bytes in hex, or "bad" */
  const char *h = argc > 1 ? argv[1] : "";
  size_t n, i;
  if (strcmp(h, "bad") == 0) { ARGS_BAD = 1; h = ""; }
  n = strlen(h) / 2;
  if (n > NMAX) return 4;
  IN = malloc(n ? n : 1);
  IN_LEN = n;
  for (i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); IN[i] = v; }
  check();
  printf("OK %d\n", spec(IN, IN_LEN));
  return 0;
}
#endif
