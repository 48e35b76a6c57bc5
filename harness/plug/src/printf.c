/* What sudo hands to plugins as its printf: formats, records, answers. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>

extern int vp_record(int via, int level, const char *buf, int len);

static int say(int via, int level, const char *fmt, va_list ap)
{
	char *buf = NULL;
	int ret, len = vasprintf(&buf, fmt, ap);

	if (len < 0)
		return -1;
	ret = vp_record(via, level, buf, len);
	free(buf);
	if (ret < 0)
		errno = EIO;
	return ret;
}

#define PRINTF(name, via) \
int name(int level, const char *fmt, ...) \
{ \
	va_list ap; \
	int ret; \
	va_start(ap, fmt); \
	ret = say(via, level, fmt, ap); \
	va_end(ap); \
	return ret; \
}

/* One for each plugin. */
PRINTF(vp_printf, 0)
PRINTF(vp_printf1, 1)
PRINTF(vp_printf2, 2)
PRINTF(vp_printf3, 3)
