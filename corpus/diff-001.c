int
x;

static int
y;
