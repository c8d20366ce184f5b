#pragma once
#include <cstdint>
#include <algorithm>
#include <string>
namespace sched {
void begin(uint64_t seed, void (*stuck)(const char*));
void end();
bool on();
int me();                                   // number of the running thread
uint64_t rnd();
int64_t now_ms();
void yield();
bool block(const void* on, const char* why, int64_t deadline_ns);
int wake(const void* on, int n);
void quiet(bool);                           // no hand-overs inside
bool waiting(int id);
struct Quiet { Quiet() { quiet(true); } ~Quiet() { quiet(false); } };
}
