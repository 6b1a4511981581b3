int
main(void)
{
	if (0)
		return 0;
	else if (1)
		return 1;
	else if (2)
		return 2;
}
