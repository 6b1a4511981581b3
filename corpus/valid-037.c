/*
 * Nested function declaration.
 */

int
main(void)
{
	extern void main(void);
}
