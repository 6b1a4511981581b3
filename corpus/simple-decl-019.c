/*
 * AFL
 */

int
main(void)
{
	int x;
	di({
		.f1 = 0,
		.f2 = 1,

		.f3 = 2,
	}) i;
}
