/*
 * Was bug-003.c. Statement repeated due to branching.
 */

int
main(void)
{
	switch (0) {
	default:
#if 0
		return 0;
	U)
#endif
	}
}
