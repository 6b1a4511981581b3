/*
 * BasedOnStyle: LLVM
 */

int
main(void)
{
	return 0;
}
