/*
 * Broken code hidden behind cpp.
 */

int
main(void)
{
#if 0
#if 0
	}
#endif
#endif
}
