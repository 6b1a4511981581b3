/*
 * AlignAfterOpenBracket: Align
 */

int
main(int a,
     int b, int d,
     int c)
{
}
