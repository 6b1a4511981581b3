/*
 * Leading attribute in function argument.
 */

static int
protocol_line(struct sess *sess, __attribute__((unused)) const char *host,
    const char *cp)
{
}
