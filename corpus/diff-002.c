int
f1(void);

int
f2(void);

int
f3(void);
