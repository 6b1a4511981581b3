/*
 * Broken code hidden behind cpp.
 */

int
main(void)
{
#if 0
#ifdef DDB
#endif
	}
#endif
}
