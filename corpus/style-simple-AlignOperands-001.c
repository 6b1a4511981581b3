/*
 * AlignOperands: Align
 */

int
main(void)
{
        const aaaaaaaaaaaaaaaaaa *aaaaa
                = aaa->aaaaaaaaaaaa->aaaaaa(aaa->aaaaaa, aaaaaaaaaaaa(aaa),
                                            aaaaaa);
}
