/*
 * AFL
 */

int
mair c = B\\?
	���������chaint:] d "\\"int
�
