/*
 * Inline assembler, basic.
 */

int
main(void)
{
	asm("nop");
}
