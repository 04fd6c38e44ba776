// Memory that runs out on demand (only in the "faults" build).
#pragma once
namespace faults {
bool available();
// from now on, in this thread: the n-th allocation fails (n from 1; 0: none),
// and with more also all that follow it
void arm(long n, bool more);
// back to normal; how many allocations there were since arm()
long disarm();
}  // namespace faults
