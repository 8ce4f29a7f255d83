// Same operations as boost/interprocess/detail/atomic.hpp, routed through the explorer so that
// boost's inline-assembly atomics on shared memory are visible scheduling points too.
#ifndef BOOST_INTERPROCESS_DETAIL_ATOMIC_HPP
#define BOOST_INTERPROCESS_DETAIL_ATOMIC_HPP
#include <boost/interprocess/detail/config_begin.hpp>
#include <boost/interprocess/detail/workaround.hpp>
#include <boost/cstdint.hpp>
extern "C" {
uint32_t vmc_atomic_read32(volatile uint32_t*);
void vmc_atomic_write32(volatile uint32_t*, uint32_t);
uint32_t vmc_atomic_cas32(volatile uint32_t*, uint32_t, uint32_t);
uint32_t vmc_atomic_add32(volatile uint32_t*, uint32_t);
}
namespace boost { namespace interprocess { namespace ipcdetail {
inline boost::uint32_t atomic_add32(volatile boost::uint32_t* m, boost::uint32_t v) { return vmc_atomic_add32(m, v); }
inline boost::uint32_t atomic_inc32(volatile boost::uint32_t* m) { return vmc_atomic_add32(m, 1); }
inline boost::uint32_t atomic_dec32(volatile boost::uint32_t* m) { return vmc_atomic_add32(m, (boost::uint32_t)-1); }
inline boost::uint32_t atomic_read32(volatile boost::uint32_t* m) { return vmc_atomic_read32(m); }
inline void atomic_write32(volatile boost::uint32_t* m, boost::uint32_t v) { vmc_atomic_write32(m, v); }
inline boost::uint32_t atomic_cas32(volatile boost::uint32_t* m, boost::uint32_t w, boost::uint32_t c) { return vmc_atomic_cas32(m, w, c); }
inline bool atomic_add_unless32(volatile boost::uint32_t* mem, boost::uint32_t value, boost::uint32_t unless_this) {
    boost::uint32_t old, c(atomic_read32(mem));
    while (c != unless_this && (old = atomic_cas32(mem, c + value, c)) != c) c = old;
    return c != unless_this;
}
}}}
#include <boost/interprocess/detail/config_end.hpp>
#endif
