/*
 * AFL
 */

int
main(void)
{
#if 0
	f()  =
#else
	    1
#endif
	a b(});

	}
