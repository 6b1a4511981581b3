int
main(void)
{
	for (;;) {
	}
}
