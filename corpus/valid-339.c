/*
 * Broken code hidden behind cpp.
 */

#if 0
static @type@proxy_@name@(void)
{
}
#endif

int main(void)
{
}
