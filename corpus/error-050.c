/*
 * AFL
 */

i x ({
	if ()
		H({ { ; } *; });
}
