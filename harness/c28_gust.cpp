/* gust86.cpp with its running commentary silenced */
#include <stdio.h>
#define printf( ...) ((void)0)
#include "gust86.cpp"
