/*
 * AFL
 */

int
main(void)
{
#if 0
	f
#else
�elS40
#else
#endif
:
}
