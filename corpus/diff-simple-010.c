int
main(void)
{
	for (;;) {
	}
	return 0;
}
