#include "foo.h"
#include "more.h"
#include "bar.h"

static void
foo(void)
{
}
