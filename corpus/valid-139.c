/*
 * Broken code hidden behind cpp.
 */

int
main(void)
{
	if (nest) {
#ifdef DEBUG
		debug(m);
#endif

#ifdef DEBUG
		snprintf(format, sizeof(format),
			 "%d\n", atomic_read(&x);
#else
		snprintf(format, sizeof(format), "%d\n", atomic_read(&x));
#endif
	}
	return 0;
}
