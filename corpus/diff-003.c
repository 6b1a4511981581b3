int a;

int
b;

int c;
