/*
 * AFL
 */

int
main(void)
{
	HASH_ITER(hh, item, aux)
	foo bar;
}
