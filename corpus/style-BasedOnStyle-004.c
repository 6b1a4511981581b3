/*
 * # Something that does not exists in the styles directory.
 * BasedOnStyle: WebKit
 */
