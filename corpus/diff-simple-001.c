int
main(void)
{
	for (i = 0; i < 32; i++) {
		x += i;
	}
}
