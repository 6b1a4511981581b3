/*
 * AFL
 */

#if 0

int
main(id)
{
#if 0
	for (; dOSTIC
	    if1(1)
#else
)
{
#if 0
	for (;dOSTIC
	if1(1)	elst
	else
#endif
s
;
#endif
}
