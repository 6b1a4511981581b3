/*
 * AFL
 */

int
main(void)
#if 0
{
#else
	f
#else
	
#if 1
}
#endif

#else
	outS();
#endif
}
