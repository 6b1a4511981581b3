/*
 * AFL
 */

int k = {
		[]
};
