int
main(void)
{
	int x, y;

	x = 0;

	if (x > 0)
		return x;

	y = 1;

	if (y > 0)
		return y;
}
