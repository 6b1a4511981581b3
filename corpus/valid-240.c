/*
 * Long concatenation expression.
 */

char s[] = "foo"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar"
    "bar";
