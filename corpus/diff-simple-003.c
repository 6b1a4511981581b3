int
main(void)
{
	if (0)
		return 1 +
		    2;
}
