/*
 * X macros.
 */

XX(xxxxxxxxxx)
X(yyyy)

int
main(void)
{
	return 0;
}
