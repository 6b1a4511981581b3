/*
 * AFL
 */

int
main(void)
{
	if (
#if 0
#  if 1
	0
#  else
	1
#  endif
#endif
   )
}
