/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	if (foo() || bar(cpu,
	    constantconstanconstant))
		return 1;
}
