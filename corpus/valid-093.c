/*
 * Function declaration, the semicolon makes the line too long.
 */

static int	__test_lexer_read(const char *, const char *, const char *,
    int);
