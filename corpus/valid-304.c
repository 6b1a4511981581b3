/*
 * Long attributes.
 */

int
main(int x __attribute__((looooooooooooooooooooooooooooooooooooooooooooooooong)))
{
}
