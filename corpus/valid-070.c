/*
 * Hard lines are not honored in function prototypes as part of a declaration.
 */

int	

main(

void

);
