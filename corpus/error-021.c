/*
 * AFL
 */

int		main(void)
struct pool	eb_entry_pool;
int main(void)
