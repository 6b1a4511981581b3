/*
 * AFL
 */

int
main(void)
{
	0 - {
		iD iftG	
			iftGi		    
iiiiiiiiiiiiiiiiiiiuiiiiiii;
			} intBi;
}
