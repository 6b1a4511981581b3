/*
 * AlignAfterOpenBracket: Align
 * IndentWidth: 4
 * UseTab: Never
 */

int
main(void)
{
    *feed_map = (feed_map_t){
        .slots = slots,
        .size = size,
    };
}
