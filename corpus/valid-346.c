/*
 * Attribute hidden behind cpp macro.
 */

static void printflike(3, 4)
args_print_add(char **buf, size_t *len, const char *fmt, ...)
{
}
