/*
 * UseTab: Never
 */

int
main(void)
{
        if (0) {
                if (1) {
                        return 1;
                }
        }
}
