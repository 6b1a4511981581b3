/*
 * AFL
 */

int
main(void)
{
	if (0) {
	} else {

	ndif

#if 0
;
#else
V
#else
(
#else
o
#else
}
#endif

{
void
}
)
}
}
