int
main(void)
{
	if (0)
		a(11111111111111111111, 22222222222222222222, 33333333333333333333);
	else
		b();
}
