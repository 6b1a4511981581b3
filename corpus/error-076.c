/*
 * AFL
 */

t
n(){if(())f/**/x=&{{{{{{{{{{{{{{{{{}}}}}}}}}}�}}}}}}}}0;
