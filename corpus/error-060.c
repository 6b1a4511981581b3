/*
 * AFL
 */

int
main(void)
{
	x(
#if
#if 0
	a(*)(
#elif
}

#endif
#endif

}
)

N;
