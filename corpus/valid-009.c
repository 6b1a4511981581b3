/*
 * Wide character and string literals.
 */

char		 c = L'c';
const char	*s = L"s";
