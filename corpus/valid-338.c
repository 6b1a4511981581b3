/*
 * AFL
 */

int
main(void)
{

	HASH_ITER(hh, i_em, aux)
}
