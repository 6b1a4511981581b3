/*
 * No hard line before cpp after function implementation.
 */

#if 0
int
main(void)
{
}
#endif

int x;
