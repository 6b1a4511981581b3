int
main(void)
{
	if (tiny() || loooooooooooooooooooooooooooooooooooooooooooooooooooooooong())
		return 0;
	return 1;
}
