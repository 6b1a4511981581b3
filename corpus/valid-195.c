/*
 * Excessive new lines after comment.
 */

/*
 * foo
 */


int x;
