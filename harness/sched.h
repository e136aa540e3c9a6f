// Deterministic scheduling of the signing plugin's and the users' threads. One thread runs at a time; at every operation on a
// mutex or a condition, and before and after every signing operation, the next one is chosen by the case's choices.
#pragma once
#include "core.h"

// From here on schedules are chosen from |src|; |stay| of 64 choices keep the current thread running. With a null |src| a thread
// runs until it blocks.
void sched_begin(Src *src, int stay, bool spurious_wakeups);
void sched_end();
// Waits until no other thread can do anything. False if that cannot be known (real threads).
bool sched_idle();
void sched_yield_point();
// While on, a signing operation does not proceed unless nobody else can.
void sched_hold(bool on);
void sched_hold_point();
int sched_spawn(void (*fn)(void *), void *arg);
void sched_join(int id);
int sched_self();      // 0: main
uint64_t sched_switches();
bool sched_is_real();  // real threads instead of the scheduler

// Signing operation i fails if i < n and plan[i]. The plan must stay where it is.
void sched_sign_plan(const uint8_t *plan, size_t n);
size_t sched_sign_calls();
// If not negative, that many threads can be created before the creation fails.
extern int g_thread_quota;
// If not zero, signatures are made up from this instead of signing: of any length, full of small numbers.
extern uint64_t g_fake_sig;
Bytes fake_signature(size_t i, size_t max);
