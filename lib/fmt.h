/*
 * A formatter for the subset of printf the library uses, with exact truncation
 * and return value. In piece mode (fmt_pieces) a call writes that many
 * characters, whatever the format, and keeps format and values: the text of a
 * document is then the sequence of the formats, the same for all values, and
 * can be read while the values stay symbolic.
 */
#ifndef FMT_H
#define FMT_H
#include <stdarg.h>
#include "vp.h"
#define FMT_MAX 64
#define FMT_PIECES 160
static unsigned int fmt_pieces, fmt_np;
static const char *fmt_piece[FMT_PIECES];
static unsigned int fmt_first[FMT_PIECES];
static int64_t fmt_val[FMT_MAX];
static const char *fmt_str[FMT_MAX];
static unsigned int fmt_n, fmt_bad;

static void fmt_put(char *buf, size_t size, size_t *pos, char c)
{
	if (*pos + 1 < size)
		buf[*pos] = c;
	(*pos)++;
}
static int fmt_vsnprintf(char *buf, size_t size, const char *f, va_list ap)
{
	size_t pos = 0, end;

	if (fmt_pieces && fmt_np < FMT_PIECES) {
		fmt_piece[fmt_np] = f;
		fmt_first[fmt_np++] = fmt_n;
	}
	for (; *f; f++) {
		unsigned int l = 0, i;
		int64_t v = 0;
		const char *s = NULL;
		char d[20];

		if (*f != '%') {
			if (!fmt_pieces)
				fmt_put(buf, size, &pos, *f);
			continue;
		}
		f++;
		if (*f == '%') {
			if (!fmt_pieces)
				fmt_put(buf, size, &pos, '%');
			continue;
		}
		while (*f == 'l') {
			l++;
			f++;
		}
		if (*f == 'z') {
			l = 1;
			f++;
		}
		if (*f == 's')
			s = va_arg(ap, const char *);
		else if (*f == 'd' || *f == 'i')
			v = l == 0 ? va_arg(ap, int) : l == 1 ? va_arg(ap, long) : va_arg(ap, long long);
		else if (*f == 'u')
			v = (int64_t)(l == 0 ? va_arg(ap, unsigned int) : l == 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned long long));
		else
			fmt_bad = 1;
		if (fmt_pieces) {
			ASSUME(fmt_n < FMT_MAX);
			fmt_val[fmt_n] = v;
			fmt_str[fmt_n] = s;
			fmt_n++;
		} else if (s) {
			while (*s)
				fmt_put(buf, size, &pos, *s++);
		} else {
			i = 0;
			if (v < 0) {
				fmt_put(buf, size, &pos, '-');
				v = -v;
			}
			do {
				d[i++] = (char)('0' + v % 10);
				v /= 10;
			} while (v);
			while (i)
				fmt_put(buf, size, &pos, d[--i]);
		}
	}
	for (; pos < fmt_pieces; pos++)
		buf[pos + 1 < size ? pos : size - 1] = (char)('a' + (fmt_np + pos) % 26);
	end = pos;
	if (size)
		buf[end < size ? end : size - 1] = 0;
	return (int)end;
}
int vp_snprintf(char *buf, size_t size, const char *f, ...);
int vp_snprintf(char *buf, size_t size, const char *f, ...)
{
	va_list ap;
	int r;

	va_start(ap, f);
	r = fmt_vsnprintf(buf, size, f, ap);
	va_end(ap);
	return r;
}
int vp_vsnprintf(char *buf, size_t size, const char *f, va_list ap);
int vp_vsnprintf(char *buf, size_t size, const char *f, va_list ap)
{
	return fmt_vsnprintf(buf, size, f, ap);
}
#endif
