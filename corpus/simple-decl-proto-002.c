/*
 * Prototypes, do not mix named and unnamed arguments.
 */

void    logv(enum log_func, const char *path, int lno, const char *fmt, va_list ap);
