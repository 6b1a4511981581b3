/*
 * The static keyword must come first.
 */

inline static void f2(void);

inline static /* comment */ void f1(void);

/* comment */
inline static void f3(void);
