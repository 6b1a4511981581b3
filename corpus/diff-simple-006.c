struct b;
struct a;
