/* Shared between the harness and the program under a controlled scheduler. */
#ifndef SCHED_H
#define SCHED_H
#include <semaphore.h>
struct Sched
{
   int controlled;               /* 0: run freely */
   int die_slot, die_point;      /* the process in this slot is killed at its n-th point (0 : never) */
   int fork_fail;                /* the n-th call of fork (counting all) fails */
   int n_forks;
   sem_t to_ctl;
   struct Slot { sem_t go; int state, points, child; } s[12];
};
enum { NONE, READY, RUNNING, WAITING, GONE };
#endif
