/*
 * Force hard line between function implementations.
 */

int
main(void)
{
}
static void
usage(void)
{
}
