/*
 * All hopefully^W possible ways to express do/while loops.
 */

int
main(void)
{
	do
		continue;
	while (1);

	do {
		continue;
	} while (1);

	do {
	} while (1);
}
