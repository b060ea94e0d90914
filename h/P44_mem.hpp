// The allocator of P44.
#ifndef VERIF_P44_MEM_HPP
#define VERIF_P44_MEM_HPP

namespace mem
{

// While armed, allocations are counted; number fail_at (and, if persistent, all the later ones) fails. live: blocks in use.
extern bool armed, tripped, persistent;
extern long count, fail_at, live;

} // namespace mem

#endif
