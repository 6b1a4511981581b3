/*
 * Replace spaces in comment indentation.
 */

int
main(void)
{
        /*
         * foo
         */

        /* comment */
        // comment

	int x; // comment
}
