/*
 * Function arguments, honor optional line.
 */

int
main(int x,
    int y,
    int z)
{
}
