/* printf-style formatter used by the CBMC models (the native build uses vsnprintf) */
#include <stdarg.h>
#include <stddef.h>

#define VF_PUT(c) do { if ((size_t) n + 1 < cap) { buf[n] = (c); } n++; } while (0)

static int vf_vfmt(char *buf, size_t cap, const char *f, va_list ap)
{
    int n = 0;

    for (; *f; f++) {
#ifdef VF_OUT_HEAD
        if ((size_t) n >= cap) { break; }
#endif
        int zero = 0, left = 0, width = 0, prec = -1, lng = 0;

        if (*f != '%') {
            VF_PUT(*f);
            continue;
        }
        f++;
        while (*f == '0' || *f == '-' || *f == ' ' || *f == '+' || *f == '#') {
            if (*f == '0') { zero = 1; }
            if (*f == '-') { left = 1; }
            f++;
        }
        if (*f == '*') {
            width = va_arg(ap, int);
            f++;
        }
        while (*f >= '0' && *f <= '9') {
            width = width * 10 + (*f++ - '0');
        }
        if (*f == '.') {
            f++;
            prec = 0;
            if (*f == '*') {
                prec = va_arg(ap, int);
                f++;
            }
            while (*f >= '0' && *f <= '9') {
                prec = prec * 10 + (*f++ - '0');
            }
        }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') {
            if (*f != 'h') { lng = 1; }
            f++;
        }
        if (*f == '%') {
            VF_PUT('%');
        } else if (*f == 'c') {
            int c = va_arg(ap, int);
            VF_PUT((char) c);
        } else if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            int k = 0;
            if (width > 0) {
                int len = 0, w;
                while ((prec < 0 || len < prec) && s[len]) { len++; }
                if (!left) { for (w = len; w < width; w++) { VF_PUT(' '); } }
                for (w = 0; w < len; w++) { VF_PUT(s[w]); }
                if (left) { for (w = len; w < width; w++) { VF_PUT(' '); } }
            } else {
                while ((prec < 0 || k < prec) && s[k]) {
#ifdef VF_OUT_HEAD
                    if ((size_t) n >= cap) { break; }
#endif
                    VF_PUT(s[k]);
                    k++;
                }
            }
        } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
            char tmp[24];
            int k = 0, neg = 0;
            unsigned long v;
            unsigned base = (*f == 'x' || *f == 'X') ? 16 : 10;
            if (*f == 'd' || *f == 'i') {
                long d = lng ? va_arg(ap, long) : va_arg(ap, int);
                neg = d < 0;
                v = neg ? -(unsigned long) d : (unsigned long) d;
            } else {
                v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
            }
            do {
                unsigned dg = v % base;
                tmp[k++] = dg < 10 ? '0' + dg : (*f == 'X' ? 'A' : 'a') + dg - 10;
                v /= base;
            } while (v);
            while (zero && k < width - neg) { tmp[k++] = '0'; }
            if (neg) { tmp[k++] = '-'; }
            if (!left) { int w; for (w = k; w < width; w++) { VF_PUT(' '); } }
            int kk = k;
            while (k) { k--; VF_PUT(tmp[k]); }
            if (left) { int w; for (w = kk; w < width; w++) { VF_PUT(' '); } }
        }
    }
    if (cap > 0) {
        buf[(size_t) n < cap ? (size_t) n : cap - 1] = '\0';
    }
    return n;
}
