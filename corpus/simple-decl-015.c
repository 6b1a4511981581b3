/*
 * AFL
 */

int
main(void)
{
	register_event(&(struct event){
		{
			;
		} })
}
