/*
 * Trim whitespace in function return type.
 */

static const char	*
skipws(const char *str, size_t len)
{
}
