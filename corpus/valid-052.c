/*
 * Nested while under do/while.
 */

int
main(void)
{
	do {
		while (1)
			continue;
	} while (1);
}
