/*
 * AFL
 */

int
main(void)
{
	20 - {
		iD iftG	iftGi		 s
stsssss
 t
static    
iiiiiiiiiiiiiiiiiiiuiiiMiIi;
	*} intBi;
}
