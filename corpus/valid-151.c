/*
 * Honor alignment of local variables.
 */

int
main(void)
{
	int		 x;
	const char	*p;
}
