// printf conversions, shared by the output model (native replay too) and the engine's C library. Returns -1 on an unknown conversion.
#pragma once
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C"
#endif
int sx_fmt_double(char *b, size_t n, int conv, int prec, double v);
static int sx_vformat(void (*put)(void *, char), void *ctx, const char *f, va_list ap) {
  int total = 0;
#define SXPUT(ch) do { put(ctx, (ch)); total++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { SXPUT(*f); continue; }
    f++; int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0, hh = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') hh++; else break; }
    char b[400]; const char *s = b; int n = 0, head = 0;
    switch (*f) {
      case '%': SXPUT('%'); continue;
      case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; while ((prec < 0 || n < prec) && s[n]) n++; zero = 0; break;
      case 'c': b[n++] = (char)va_arg(ap, int); zero = 0; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        int sg = *f == 'd' || *f == 'i', neg = 0; uint64_t u; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
        if (sg) { int64_t v = lng ? va_arg(ap, long) : va_arg(ap, int); if (hh == 1) v = (short)v; else if (hh > 1) v = (signed char)v; neg = v < 0; u = neg ? 0 - (uint64_t)v : (uint64_t)v; }
        else { u = lng || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (hh == 1) u = (unsigned short)u; else if (hh > 1) u = (unsigned char)u; }
        int allz = u == 0; char d[32]; int m = 0; if (!(allz && prec == 0)) do { unsigned q = (unsigned)(u % base); d[m++] = (char)(q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + q - 10); u /= base; } while (u);
        if (neg) b[n++] = '-'; else if (sg && plus) b[n++] = '+'; else if (sg && space) b[n++] = ' ';
        if (base == 16 && (*f == 'p' || (alt && !allz))) { b[n++] = '0'; b[n++] = *f == 'X' ? 'X' : 'x'; }
        head = n; for (int k = m; k < prec && n < 300; k++) b[n++] = '0'; while (m) b[n++] = d[--m]; if (prec >= 0) zero = 0; break; }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { double v = va_arg(ap, double); n = sx_fmt_double(b, sizeof b, *f, prec < 0 ? 6 : prec, v); head = n && b[0] == '-'; break; }
      default: return -1; }
    int pad = width > n ? width - n : 0;
    if (!left && !zero) for (; pad; pad--) SXPUT(' ');
    for (int i = 0; i < head; i++) SXPUT(s[i]);
    if (!left) for (; pad; pad--) SXPUT('0');
    for (int i = head; i < n; i++) SXPUT(s[i]);
    for (; pad > 0; pad--) SXPUT(' '); }
#undef SXPUT
  return total; }
