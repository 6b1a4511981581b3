/*
 * AFL
 */

asm(
(void):ub(*)(v cb(ub(*)(v cb;AFH^
 
#if 0
	k#elif
	U
#endift
)
