/*
 * AFL
 */

int
main(void)
{
	int pt = 0 - { 0 . { 0 - { x i; } | ; } | ; } | ;
}
