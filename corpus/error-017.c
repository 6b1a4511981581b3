/*
 * AFL
 */

int
main(#
)
{
	for
}

#x) {
