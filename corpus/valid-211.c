/*
 * Broken code hidden behind cpp.
 */

int
valid(int x)
{
	return x + 1;
}

int
main(void)
{
#if 0
#if 0
	}
#endif
#endif
}
