/*
 * AFL
 */

#if 0

int
main(void)
{
#if 0
	i
#endif

main(void, [
#if 0
	(
#else
	}
#endif

#else
	else);
#endif
}
