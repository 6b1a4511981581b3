/*
 * AFL
 */

int mD,

#if 0
u
#else

void
malloc(void)
{
	{}
#endif

#if 1
;
#endif

void
est_for(void)
{
	}
}
