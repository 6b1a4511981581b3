/*
 * Trailing whitespace in comment.
 */

/* 
 * main
 */
int
main(void)
{
	/*
	 * foo 
	 */
	

}
