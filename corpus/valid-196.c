/*
 * Excessive new lines before comment and cpp.
 */



/* comment */



#if 0
  #define foo 1
#endif


int x;
