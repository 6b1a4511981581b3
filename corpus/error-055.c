/*
 * AFL
 */

int
maic(void)
{

int pt = 0 - { 0 . { { x i;7} | ; } | ; } | ;
}
