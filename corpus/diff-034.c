int
main(void)
{
	if (!ccc->eeeeeeeeeeeeeeee)
		return;

	if (AAAAAAAAAAAAAAAAAAAAAA(ccc))
		foo(ccc);
	else if (BBBBBBBBBBBBBBBBBB(ccc))
		bar(ccc);
}
