// Seeded delays at lock operations, atomics and function entries of instrumented code (see perturb.cpp)
#pragma once
#include <cstdint>
enum { PERTURB_LOCKS = 1, PERTURB_CODE = 2, PERTURB_PARK = 4 };
void perturbStart(int mode, uint64_t seed); // also forgets the recorded trace
void perturbStop();
void perturbThread(bool on);                // this thread takes part
uint64_t perturbPoints();
uint64_t perturbPauses();
uint64_t perturbParks();
uint64_t perturbTrace();                    // hash of the order in which the threads passed the lock operations
