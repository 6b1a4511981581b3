int
main(void)
{
	int x = 0;

	if (x)
	{
		return x + 1;
	}
	return 0;
}
