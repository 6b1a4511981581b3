/*
 * Function argument.
 */

void
f(void *ptr __unused)
{
}
