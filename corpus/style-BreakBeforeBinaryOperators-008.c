/*
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	aaaaaaaaaaaaaaa->aaaaaaaa = aaaa.a.aaa + 2 * aaaa.a.aaa + 4 * (aaaa.a.aaaa & 1);
}
