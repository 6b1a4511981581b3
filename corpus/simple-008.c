/*
 * AFL
 */

int
main(void)
{
#ifdeAGNOSTIC
	if (1) {
	}
#endif /TIC */

#if
#else
	else
		outS();
#else
	else
		;
#endif
}
