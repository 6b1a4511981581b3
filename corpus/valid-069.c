/*
 * Hard lines are not honored in function prototypes as part of an
 * implementation.
 */

int

main(

void

)
{
	return 0;
}
