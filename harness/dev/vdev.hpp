// What a harness sees of the model of a device: host data that kernels must not touch, counters, injected errors.
#pragma once
#include <cstddef>
#include <string>

namespace vdev
{
enum Api { apiMalloc, apiFree, apiCopyIn, apiCopyOut, apiLaunch, apiKernel, apiCount };
struct Stats { long mallocs, frees, copiesIn, copiesOut, launches, runs; };

Stats const & stats();
void reset();                        ///< forgets errors, blocks, kernels that wait and counters
void forget();                       ///< forgets that an error was returned
std::string misuse();                ///< the first call that the device runtime does not define, or nothing
std::string stray();                 ///< blocks that a kernel wrote next to
long live();                         ///< blocks of device memory that are not released
long pending();                      ///< kernels that were launched and have not run
bool failed();                       ///< whether an error was returned to the caller since reset
std::string text();                  ///< what the device reported as text of the errors it returned
void * hostAlloc( std::size_t n );   ///< memory of the host, not accessible to kernels, guarded at its end
void hostFree( void * p );
void inject( Api a, int nth, int error );  ///< the n-th next call of this kind fails
}
