/*
 * AFL
 */

int
main(void)
{
        foo({ { ; }; });
}
